//! What happens around a connection: the negotiated limit, shutdown, other connections (C09, C22, C23).
use crate::conn::*;
use crate::io::*;
use crate::rt::*;
use crate::spec::{self, Verdict};
use haproxy_spop::{Capability, Disconnect, Error as Status, Frame, HaproxyHello, Message, Typed, Version};
use std::time::Duration;
use tokio_util::sync::CancellationToken;

pub fn frames(mut b: &[u8]) -> Option<Vec<&[u8]>> {
    let mut out = vec![];
    while !b.is_empty() {
        if b.len() < 4 {
            return None;
        }
        let n = u32::from_be_bytes([b[0], b[1], b[2], b[3]]) as usize;
        if b.len() - 4 < n {
            return None;
        }
        out.push(&b[4..4 + n]);
        b = &b[4 + n..];
    }
    Some(out)
}

// --------------------------------------------------------------------------- C09

/// replies around the negotiated limit, which is the peer's
fn replies(limits: usize, lengths: usize) {
    let mine = [1024usize, 90][choose(2)];
    let limit = 30 + 5 * choose(limits) as u32;
    let a = Agent::new(&Config { max_frame_size: mine, ..Default::default() });
    let h = HaproxyHello { max_frame_size: limit, ..hello_with(vec![]) };
    let mut input = spec::encode(&Frame::HaproxyHello(h));
    let (mut plan, mut want, mut ended_by_size) = (vec![], vec![], false);
    for i in 0..2u64 {
        let mut text = vec![b'v'; choose(lengths)];
        if let Some(c) = text.first_mut() {
            let b = any_u8();
            assume(b < 0x80);
            *c = b;
        }
        let actions = vec![set("n", Typed::String(String::from_utf8(text).unwrap()))];
        input.extend_from_slice(&fragment(1, 1 + i, true, vec![msg("m")]));
        let e = spec::encode(&crate::gen::ack(1, 1 + i, actions.clone()));
        plan.push(reply(actions));
        if !ended_by_size {
            if e.len() - 4 <= limit as usize {
                want.push(e);
            } else {
                ended_by_size = true;
            }
        }
    }
    a.plan(plan);
    let pipe = Pipe::new(input);
    let ended = a.talk(&pipe);
    let w = pipe.written();
    let Some(f) = frames(&w) else {
        check(false, "only whole frames are sent");
        return;
    };
    let Some((hello, f)) = f.split_first() else {
        check(false, "the hello is answered");
        return;
    };
    check(hello[0] == spec::T_AGENT_HELLO, "the hello is answered");
    for x in f {
        check(x.len() <= limit as usize, "nothing longer than the negotiated size is sent");
    }
    check(f.len() >= want.len(), "every reply that fits is sent");
    for (x, e) in f.iter().zip(&want) {
        check(x[..] == e[4..], "every reply that fits is sent whole");
    }
    check(ended == ended_by_size, "the connection ends exactly when a reply does not fit");
    match &f[want.len()..] {
        [] => {}
        [x] if ended_by_size => match spec::parse(x) {
            Verdict::Frame(Frame::AgentDisconnect(d)) => {
                check(d.status_code == Status::TooBig as u32, "a reply that does not fit is reported as too big")
            }
            _ => check(false, "nothing of a reply that does not fit is sent"),
        },
        _ => check(false, "nothing of a reply that does not fit is sent"),
    }
    cover(ended_by_size as u32);
    observe(w.len() as u64);
}
pub fn c09_negotiated() {
    replies(8, 36);
}

// --------------------------------------------------------------------------- C22

/// What may have been sent when a connection was shut down: the first frames of `want`, as many
/// acks as there were calls, and no half of any; perhaps a goodbye.
fn cut_short(a: &Agent, pipe: &Pipe, want: &[Vec<u8>]) {
    let w = pipe.written();
    let Some(mut f) = frames(&w) else {
        check(false, "only whole frames are sent");
        return;
    };
    if let Some(x) = f.last() {
        if x[0] == spec::T_AGENT_DISCON {
            match spec::parse(x) {
                Verdict::Frame(Frame::AgentDisconnect(d)) => check(d.status_code == 0, "shutting down is no error"),
                _ => check(false, "a well-formed disconnect"),
            }
            f.pop();
        }
    }
    check(f.len() <= want.len(), "nothing but the replies is sent");
    for (x, e) in f.iter().zip(want) {
        check(x[..] == e[4..], "the replies are sent in order and whole");
    }
    let acks = f.iter().filter(|x| x[0] == spec::T_AGENT_ACK).count();
    let l = a.log.borrow();
    check(l.calls.len() == l.finished, "every call that was started came to its end");
    check(l.calls.len() == acks, "every notify that was taken up is acknowledged");
    observe(acks as u64);
}

pub fn hello_reply(caps: Vec<Capability>) -> Vec<u8> {
    spec::encode(&Frame::AgentHello(haproxy_spop::AgentHello { version: Version::V2_0, max_frame_size: 1000, capabilities: caps }))
}

/// Shutdown after any number of polls of a conversation of `n` notifies that comes in pieces, with
/// a service and a transport that take their time.
fn cancelled(n: usize, polls: usize, seeds: usize) {
    let frag = any_bool();
    let a = Agent::seeded(&if frag { Config::fragmenting() } else { Config::default() }, choose(seeds) as u64);
    let mut input = if frag { hello_fragmenting() } else { hello() };
    let mut want = vec![hello_reply(if frag { vec![Capability::Fragmentation] } else { vec![] })];
    let mut plan = vec![];
    let mut ends = vec![input.len()];
    let slow_at = choose(n + 2);
    for i in 0..n {
        if frag && i == 0 {
            input.extend_from_slice(&fragment(3, 1, false, vec![msg("f")]));
            ends.push(input.len());
        }
        input.extend_from_slice(&fragment(3, 1 + i as u64, true, vec![msg("m")]));
        ends.push(input.len());
        let acts = vec![set("v", Typed::Uint32(i as u32))];
        plan.push(slow(if slow_at == i { 2 } else { 0 }, acts.clone()));
        want.push(spec::encode(&crate::gen::ack(3, 1 + i as u64, acts)));
    }
    a.plan(plan);
    if slow_at == n {
        a.log.borrow_mut().makes.push_back((Wait::Polls(2), None));
    }
    let pipe = Pipe::new(input);
    // frame by frame with pauses, or with a piece of the next frame, or all at once
    let mut steps = vec![];
    match choose(3) {
        0 => {}
        1 => {
            let mut at = 0;
            for e in &ends {
                steps.push(Step::Give(e - at));
                steps.push(Step::Pause);
                at = *e;
            }
        }
        _ => {
            let mut at = 0;
            for e in &ends {
                steps.push(Step::Give(e - at - 6));
                steps.push(Step::Pause);
                steps.push(Step::Give(6));
                at = *e;
            }
        }
    }
    pipe.script(steps);
    match choose(3) {
        0 => {}
        1 => pipe.accept(20, true),
        _ => pipe.accept(usize::MAX, true),
    }
    let (mut live, tok) = a.live(&pipe);
    let k = choose(polls);
    for _ in 0..k {
        if a.poll(&mut live).is_some() {
            check(false, "the connection goes on until it is shut down");
            return;
        }
    }
    if k == polls - 1 {
        // time enough for all of it
        check(a.settle(&mut live).is_none(), "the connection goes on until it is shut down");
        check(pipe.written().len() == want.iter().map(|x| x.len()).sum::<usize>(), "everything is replied to");
        cover(0);
    }
    let before = a.log.borrow().calls.len();
    let finished = a.log.borrow().finished;
    tok.cancel();
    match a.settle(&mut live) {
        Some(Ok(())) => {}
        Some(Err(_)) => check(false, "shutting down is no error"),
        None => {
            check(false, "a connection that is shut down ends without further input");
            return;
        }
    }
    drop(live);
    cut_short(&a, &pipe, &want);
    if before > finished {
        cover(1);
    }
    // whether a notify that had come is still taken up is a matter of chance
}
pub fn c22_polls() {
    cancelled(2, 20, 2);
}
pub fn c22_polls_seeds() {
    cancelled(2, 20, 16);
}
pub fn c22_polls_3() {
    cancelled(3, 26, 8);
}

/// shutdown while any part of a frame has come
pub fn c22_waiting() {
    let a = Agent::seeded(&Config::default(), choose(8) as u64);
    let mut input = hello();
    let h = input.len();
    input.extend_from_slice(&fragment(1, 1, true, vec![msg("m")]));
    let n = input.len();
    let at = choose(n + 1);
    input.truncate(at);
    let pipe = Pipe::new(input);
    let (mut live, tok) = a.live(&pipe);
    check(a.settle(&mut live).is_none(), "the connection goes on until it is shut down");
    tok.cancel();
    check(matches!(a.settle(&mut live), Some(Ok(()))), "a waiting connection that is shut down ends at once, without error");
    drop(live);
    let want = [hello_reply(vec![]), spec::encode(&crate::gen::ack(1, 1, echo("m")))];
    let due: usize = if at == n { 2 } else { (at >= h) as usize };
    cut_short(&a, &pipe, &want);
    check(pipe.written().len() >= want[..due].iter().map(|x| x.len()).sum(), "what was complete has been replied to");
    cover(due as u32);
}

/// shutdown before anything is done, and of a connection that is busy for some time
pub fn c22_busy() {
    let limit = [50u64, 15000][choose(2)];
    let a = Agent::seeded(&Config { process_ms: limit, ..Default::default() }, choose(8) as u64);
    let takes = [0, 1, 20, 49, 5000][choose(5)];
    let at = [0, 1, 10, 30, 100][choose(5)];
    let fails = any_bool();
    let mut input = hello();
    input.extend_from_slice(&fragment(1, 1, true, vec![msg("m")]));
    input.extend_from_slice(&fragment(1, 2, true, vec![msg("m")]));
    let acts = vec![set("v", Typed::Null)];
    a.plan(vec![
        Act(Wait::Ms(takes), if fails { Err("no".into()) } else { Ok(acts.clone()) }),
        reply(acts.clone()),
    ]);
    let pipe = Pipe::new(input);
    let (mut live, tok) = a.live(&pipe);
    let done = a.rt.block_on(async {
        let start = tokio::time::Instant::now();
        let t = tok.clone();
        let (r, _) = tokio::join!(
            tokio::time::timeout(Duration::from_secs(600), &mut live),
            async move {
                tokio::time::sleep(Duration::from_millis(at)).await;
                t.cancel();
            }
        );
        r.ok().map(|r| (r, start.elapsed().as_millis() as u64))
    });
    drop(live);
    let Some((r, ms)) = done else {
        check(false, "a connection that is shut down ends");
        return;
    };
    check(r.is_ok(), "shutting down is no error");
    let busy = if takes < limit { takes } else { limit };
    let last = if busy > at { busy } else { at };
    check(ms <= last + 3, "a connection that is shut down ends as soon as it has finished what it was doing");
    let w = pipe.written();
    if !fails && takes < limit {
        cover(0);
        cut_short(&a, &pipe, &[
            hello_reply(vec![]),
            spec::encode(&crate::gen::ack(1, 1, acts.clone())),
            spec::encode(&crate::gen::ack(1, 2, acts)),
        ]);
    } else {
        cover(1);
        // a call that fails ends in a disconnect, shut down or not
        match frames(&w) {
            None => check(false, "only whole frames are sent"),
            Some(f) => {
                let started = !a.calls().is_empty();
                check(f.iter().all(|x| x[0] != spec::T_AGENT_ACK), "nothing is acknowledged after a failure");
                let said = f.iter().any(|x| x[0] == spec::T_AGENT_DISCON);
                check(started == said, "a failure is reported in a disconnect");
            }
        }
    }
    observe(w.len() as u64);
}

// --------------------------------------------------------------------------- C23

/// the conversation that has to be left alone, part by part, and its replies
pub fn quiet() -> (Vec<Vec<u8>>, Vec<Want>) {
    (
        vec![
            hello_fragmenting(),
            fragment(1, 1, false, vec![msg("q1")]),
            fragment(1, 1, true, vec![msg("q2")]),
            fragment(1, 2, true, vec![msg("q3")]),
        ],
        vec![
            welcome_fragmenting(),
            Want::Ack(1, 1, echo("q1")),
            Want::Ack(1, 2, echo("q3")),
        ],
    )
}

/// the other one, part by part
pub fn other(kind: usize) -> Vec<Vec<u8>> {
    let h = hello_fragmenting;
    match kind {
        // fragments of the same notifies
        0 => vec![h(), fragment(1, 1, false, vec![msg("o1")]), fragment(1, 2, false, vec![msg("o2")]), fragment(1, 1, true, vec![])],
        // frames out of order
        1 => vec![fragment(1, 1, true, vec![msg("o")]), h()],
        2 => vec![h(), h(), fragment(1, 1, true, vec![msg("o")])],
        // a disconnect
        3 => vec![h(), fragment(1, 1, false, vec![msg("o")]), spec::encode(&Frame::HaproxyDisconnect(Disconnect { status_code: 0, message: String::new() }))],
        // unreadable
        4 => vec![h(), vec![0, 0, 0, 1, 77]],
        5 => vec![vec![0xff; 8]],
        // no common version; other parameters
        6 => vec![spec::encode(&Frame::HaproxyHello(HaproxyHello { supported_versions: vec![Version::new(1, 0)], ..hello_with(vec![]) }))],
        7 => vec![
            spec::encode(&Frame::HaproxyHello(HaproxyHello { max_frame_size: 20, ..hello_with(vec![Capability::Async]) })),
            fragment(1, 1, true, vec![msg("o")]),
        ],
        // a health check
        8 => vec![
            spec::encode(&Frame::HaproxyHello(HaproxyHello { healthcheck: Some(true), ..hello_with(vec![]) })),
            h(),
        ],
        // the service fails or never ends
        9 => vec![h(), fragment(1, 1, true, vec![msg("fail")]), fragment(1, 2, true, vec![msg("o")])],
        10 => vec![h(), fragment(1, 1, true, vec![msg("never")]), fragment(1, 2, true, vec![msg("o")])],
        11 => vec![h(), fragment(1, 1, true, vec![msg("slow")]), fragment(1, 2, true, vec![msg("o")])],
        // a reply too big for what was agreed
        12 => vec![
            spec::encode(&Frame::HaproxyHello(HaproxyHello { max_frame_size: 12, ..hello_with(vec![]) })),
            fragment(1, 1, true, vec![msg("o")]),
        ],
        // half a frame
        _ => vec![h(), fragment(1, 1, false, vec![msg("o")])[..9].to_vec()],
    }
}
pub const KINDS_OF_OTHERS: usize = 14;

/// Two connections of one agent in any order of their parts.
fn neighbours(kinds: &[usize], all_parts: bool) {
    let kind = kinds[choose(kinds.len())];
    let a = Agent::new(&Config { caps: vec![Capability::Fragmentation, Capability::Async], ..Default::default() });
    let parent = CancellationToken::new();
    let (parts, want) = quiet();
    let (p, o) = (Pipe::new(vec![]), Pipe::new(vec![]));
    let mut l = a.live_with(&p, parent.child_token());
    let mut m = Some(a.live_with(&o, parent.child_token()));
    let mut other = other(kind);
    if any_bool() {
        other.push(vec![]); // its stream ends
    }
    let (mut i, mut j) = (0, 0);
    let mut calls: Vec<Vec<Message>> = vec![];
    while i < parts.len() {
        if j < other.len() && any_bool() {
            if other[j].is_empty() {
                o.then(Step::End);
            } else {
                o.push(&other[j]);
            }
            j += 1;
            if let Some(x) = &mut m {
                // sometimes only begun
                let over = if all_parts && any_bool() { a.poll(x).is_some() } else { a.settle(x).is_some() };
                if over {
                    m = None;
                }
            }
        } else {
            p.push(&parts[i]);
            i += 1;
            check(a.settle(&mut l).is_none(), "a connection goes on whatever happens to another");
        }
    }
    sent(&p, &want);
    calls.push(vec![msg("q1"), msg("q2")]);
    calls.push(vec![msg("q3")]);
    let log = a.log.borrow();
    let q = |c: &(usize, Vec<Message>)| c.1.first().is_some_and(|m| m.name.starts_with('q'));
    let mine: Vec<_> = log.calls.iter().filter(|c| q(c)).map(|c| c.1.clone()).collect();
    check(mine == calls, "a connection hands over its own messages, whatever happens on another");
    let services: Vec<usize> = log.calls.iter().filter(|c| q(c)).map(|c| c.0).collect();
    check(log.calls.iter().all(|c| q(c) || !services.contains(&c.0)), "a connection uses a service of its own");
    check(log.calls.iter().all(|c| q(c) || c.1.iter().all(|m| !m.name.starts_with('q'))), "messages do not mix");
    drop(log);
    // the other one saw nothing of it either
    let w = o.written();
    let f = frames(&w);
    check(f.is_some(), "only whole frames are sent");
    observe(w.len() as u64);
    // and both end when the agent is shut down
    parent.cancel();
    check(matches!(a.settle(&mut l), Some(Ok(()))), "both end when the agent is shut down");
    cover(kind as u32);
}
pub fn c23_neighbours() {
    neighbours(&[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13], false);
}
pub fn c23_neighbours_polled() {
    neighbours(&[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13], true);
}

/// one connection whose service is slow to make, or never made, or cannot be made
pub fn c23_making() {
    let a = Agent::new(&Config::fragmenting());
    let parent = CancellationToken::new();
    let (parts, want) = quiet();
    let (p, o) = (Pipe::new(vec![]), Pipe::new(vec![]));
    let mut l = a.live_with(&p, parent.child_token());
    let mut m = a.live_with(&o, parent.child_token());
    let how = [Wait::Forever, Wait::Polls(3), Wait::No][choose(3)];
    let fails = any_bool();
    a.log.borrow_mut().makes.push_back((how, fails.then(|| "no".into())));
    o.push(&hello());
    let over = if any_bool() { a.poll(&mut m).is_some() } else { a.settle(&mut m).is_some() };
    for x in &parts {
        p.push(x);
        check(a.settle(&mut l).is_none(), "a connection goes on whatever happens to another");
    }
    sent(&p, &want);
    check(a.made() == 2, "every connection has a service of its own");
    // and then the first goes on
    if !over && !matches!(how, Wait::Forever) {
        let r = a.settle(&mut m);
        check(r.is_some() == fails, "the other connection goes on, or ends when no service can be made");
    }
    observe(o.written().len() as u64);
    cover(fails as u32);
}

/// both talk in earnest, in any order of their parts, with the same identifiers
pub fn c23_both() {
    let a = Agent::new(&Config::fragmenting());
    let parent = CancellationToken::new();
    let pipes = [Pipe::new(vec![]), Pipe::new(vec![])];
    let mut lives = [a.live_with(&pipes[0], parent.child_token()), a.live_with(&pipes[1], parent.child_token())];
    let names = [["a1", "a2", "a3"], ["b1", "b2", "b3"]];
    let mut want: [Vec<Want>; 2] = [vec![], vec![]];
    let mut at = [0usize, 0];
    let (s, f) = (7, 9);
    while at[0] < 4 || at[1] < 4 {
        let i = if at[0] == 4 {
            1
        } else if at[1] == 4 {
            0
        } else {
            choose(2)
        };
        let k = at[i];
        at[i] += 1;
        if k == 0 {
            pipes[i].push(&hello_fragmenting());
            want[i].push(welcome_fragmenting());
        } else {
            pipes[i].push(&fragment(s, f, k == 3, vec![msg(names[i][k - 1])]));
            if k == 3 {
                want[i].push(Want::Ack(s, f, echo(names[i][0])));
            }
        }
        // now or later
        if any_bool() {
            check(a.settle(&mut lives[i]).is_none(), "the connection goes on");
        }
    }
    for i in 0..2 {
        check(a.settle(&mut lives[i]).is_none(), "the connection goes on");
        sent(&pipes[i], &want[i]);
    }
    let calls = a.calls();
    check(calls.len() == 2, "each hands over its notify");
    for c in &calls {
        let n = if c[0].name.starts_with('a') { names[0] } else { names[1] };
        check(c[..] == n.map(msg)[..], "each hands over its own messages, in order");
    }
}

/// three connections, the middle one ending in any of several ways between any parts of the others
pub fn c23_three() {
    let a = Agent::new(&Config { caps: vec![Capability::Fragmentation, Capability::Async], ..Default::default() });
    let parent = CancellationToken::new();
    let (parts, want) = quiet();
    let pipes = [Pipe::new(vec![]), Pipe::new(vec![]), Pipe::new(vec![])];
    let mut first = a.live_with(&pipes[0], parent.child_token());
    let mut bad = Some(a.live_with(&pipes[1], parent.child_token()));
    let mut last = None;
    let kind = choose(KINDS_OF_OTHERS);
    let at = choose(parts.len());
    for (i, x) in parts.iter().enumerate() {
        pipes[0].push(x);
        check(a.settle(&mut first).is_none(), "a connection goes on whatever happens to another");
        if i == at {
            for x in other(kind) {
                pipes[1].push(&x);
                if let Some(b) = &mut bad {
                    if a.settle(b).is_some() {
                        bad = None;
                    }
                }
            }
            if any_bool() {
                bad = None; // dropped where it is
            }
            last = Some(a.live_with(&pipes[2], parent.child_token()));
        }
        if let Some(l) = &mut last {
            // the third begins after the second has had its say
            if i == at {
                for y in &parts {
                    pipes[2].push(y);
                    check(a.settle(l).is_none(), "a later connection goes on whatever happened to another");
                }
            }
        }
    }
    sent(&pipes[0], &want);
    sent(&pipes[2], &want);
    check(a.made() >= 2, "every connection has a service of its own");
    parent.cancel();
    check(matches!(a.settle(&mut first), Some(Ok(()))), "all end when the agent is shut down");
    check(last.is_some_and(|mut l| matches!(a.settle(&mut l), Some(Ok(())))), "all end when the agent is shut down");
    cover(kind as u32);
}
