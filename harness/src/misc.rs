//! The parts around the connection: errors, dispatcher, acker, headers, builders (C17, C24 to C29, C31, C32).
use crate::conn::*;
use crate::gen::*;
use crate::io::*;
use crate::rt::*;
use crate::spec;
use bytes::{Buf, Bytes, BytesMut};
use futures::Stream;
use haproxy_spoa::req::hdrs_bin;
use haproxy_spoa::runtime::{Acker, Builder, Dispatcher, Processor};
use haproxy_spoa::Error;
use haproxy_spop::{
    Action, AgentAck, AsyncHandler, Capability, Disconnect, Error as Status, Frame, Framer, HaproxyHello,
    HaproxyNotify, Message, Reassembly, Scope, Typed, Version,
};
use std::net::{IpAddr, Ipv4Addr, Ipv6Addr};
use std::pin::{pin, Pin};
use std::task::{Context, Poll, Waker};
use std::time::Duration;
use tokio::sync::mpsc::unbounded_channel;

// --------------------------------------------------------------------------- C24

const STATUS: [(Status, u32); 15] = [
    (Status::Normal, 0),
    (Status::Io, 1),
    (Status::Timeout, 2),
    (Status::TooBig, 3),
    (Status::Invalid, 4),
    (Status::NoVersion, 5),
    (Status::NoFrameSize, 6),
    (Status::NoCapabilities, 7),
    (Status::BadVersion, 8),
    (Status::BadFrameSize, 9),
    (Status::FragmentNotSupported, 10),
    (Status::InterlacedFrames, 11),
    (Status::FrameIdNotFound, 12),
    (Status::ResourceAllocErr, 13),
    (Status::Unknown, 99),
];

/// every number, as a status and on the wire
pub fn c24_numbers() {
    let n = any_u32();
    let mut known = None;
    for (s, m) in STATUS {
        if n == m {
            known = Some(s);
        }
    }
    match (Status::try_from(n), known) {
        (Ok(s), Some(k)) => {
            cover(0);
            check(s == k, "a number means the status the specification gives it");
            check(u32::from(s) == n, "a status keeps its number");
            observe(n as u64);
        }
        (Err(_), None) => cover(1),
        (Ok(_), None) => check(false, "no other numbers are known"),
        (Err(_), Some(_)) => check(false, "every number of the specification is known"),
    }
}

/// every status in both kinds of disconnect, with any text
pub fn c24_frames() {
    let (s, n) = STATUS[choose(STATUS.len())];
    let text = ascii(choose(4));
    let haproxy = any_bool();
    let f = if haproxy { Frame::haproxy_disconnect(s, text.clone()) } else { Frame::agent_disconnect(s, text.clone()) };
    let d = Disconnect { status_code: n, message: text };
    let e = if haproxy { Frame::HaproxyDisconnect(d) } else { Frame::AgentDisconnect(d) };
    check(f == e, "a disconnect has the number of its status and its text");
    let mut out = vec![];
    let r = now(Framer::new(100).write_frame(&mut out, f));
    check(matches!(r, Some(Ok(_))), "a disconnect is written");
    check(out == spec::encode(&e), "a disconnect has the number of its status on the wire");
    observe(out.len() as u64);
}

/// an error of any kind in up to `depth` explanations
fn chain(depth: usize) {
    let kind = choose(8);
    let (s, n) = if kind < 2 { STATUS[choose(STATUS.len())] } else { (Status::Unknown, 99) };
    let depth = choose(depth + 1);
    let text = |i: usize| ["why", "how", "where", "when"][i].to_string();
    let err = match kind {
        0 => Error::Status(s),
        // the status itself, explained
        1 => {
            if depth == 0 {
                Error::from(s)
            } else {
                Error::Context { source: Box::new(s), context: Box::new(text(0)) }
            }
        }
        2 => Error::Closed,
        3 => Error::Io(std::io::ErrorKind::BrokenPipe.into()),
        4 => Error::Context { source: Box::new(MakeFailed("no".into())), context: Box::new(text(0)) },
        5 => Error::Context { source: Box::new(std::fmt::Error), context: Box::new("x") },
        6 => Error::from(std::str::from_utf8(&[0xff]).unwrap_err()),
        _ => Error::Context { source: Box::new(Error::Closed), context: Box::new(text(0)) },
    };
    let already = matches!(err, Error::Context { .. }) as usize;
    let mut e = err;
    let mut outer = match already {
        0 => None,
        _ if kind == 5 => Some("x".to_string()),
        _ => Some(text(0)),
    };
    for i in already..depth {
        e = if any_bool() {
            Error::Context { source: Box::new(e), context: Box::new(text(i)) }
        } else {
            Error::Context { source: Box::new(e), context: Box::new(["why", "how", "where", "when"][i]) }
        };
        outer = Some(text(i));
    }
    let has = kind < 2;
    check(e.status() == if has { Some(s) } else { None }, "the status anywhere in the chain of causes is found");
    let own = e.to_string();
    let d = Disconnect::from(e);
    check(d.status_code == n, "the disconnect has the status found in the chain, or the unknown one");
    let expect = match (has, &outer) {
        (true, Some(t)) => t.clone(),
        (true, None) => s.to_string(),
        (false, Some(t)) => t.clone(),
        (false, None) => own,
    };
    check(d.message.contains(&expect), "the disconnect has the outermost explanation");
    observe(d.status_code as u64);
    cover(has as u32);
}
/// disconnects with long texts that hold any character
pub fn c24_long() {
    let (s, n) = STATUS[choose(STATUS.len())];
    let len = [100, 238, 239, 240, 254, 300, 2286, 2287, 2288][choose(9)];
    let mut text: String = (0..len).map(|i| char::from(b'a' + (i % 26) as u8)).collect();
    text.insert(choose(2) * (len / 2), character());
    let haproxy = any_bool();
    let f = if haproxy { Frame::haproxy_disconnect(s, text.clone()) } else { Frame::agent_disconnect(s, text.clone()) };
    let d = Disconnect { status_code: n, message: text };
    let e = if haproxy { Frame::HaproxyDisconnect(d) } else { Frame::AgentDisconnect(d) };
    check(f == e, "a disconnect has the number of its status and its text");
    let framer = Framer::new(4000);
    let mut out = vec![];
    let r = now(framer.write_frame(&mut out, f));
    check(matches!(r, Some(Ok(_))), "a disconnect is written");
    check(out == spec::encode(&e), "a disconnect has its status and text on the wire");
    let mut b = &out[..];
    let r = now(framer.read_frame(&mut b));
    check(r == Some(Ok(e)), "a disconnect is read back with its status and text");
    observe(out.len() as u64);
}
pub fn c24_chain() {
    chain(4);
}

// --------------------------------------------------------------------------- C17, the handlers

pub(crate) fn some_frame(k: usize) -> Frame {
    match k {
        0 => Frame::Unset,
        1 => Frame::HaproxyHello(HaproxyHello {
            supported_versions: vec![Version::V2_0],
            max_frame_size: 1,
            capabilities: vec![],
            healthcheck: None,
            engine_id: None,
        }),
        2 => Frame::AgentHello(agent_hello(Version::V2_0, 1)),
        3 => Frame::HaproxyDisconnect(disconnect(any_u32(), 1)),
        4 => Frame::AgentDisconnect(disconnect(any_u32(), 1)),
        5 => notify(9, 9, vec![msg("x")]),
        _ => ack(9, 9, vec![]),
    }
}

/// fragments of notifies and acks given to the table as frames, with a frame of another kind between
pub fn c17_handlers() {
    let acks = any_bool();
    let mut ms: Reassembly<Message> = Default::default();
    let mut xs: Reassembly<Action> = Default::default();
    let mut open: [Vec<u64>; 2] = [vec![], vec![]];
    let odd = choose(5);
    for i in 0..4u64 {
        if i == 2 && odd != 4 {
            // neither notify nor ack, or that of the other kind
            let k = [0, 1, 2, if acks { 5 } else { 6 }][odd];
            let refused = if acks {
                matches!(now(xs.handle_frame(some_frame(k))), Some(Err(Status::Invalid)))
            } else {
                matches!(now(ms.handle_frame(some_frame(k))), Some(Err(Status::Invalid)))
            };
            check(refused, "a frame of another kind is refused");
        }
        let k = choose(2);
        let last = any_bool();
        let x = any_u64();
        open[k].push(x);
        let got: Option<Vec<u64>> = if acks {
            let f = AgentAck { fragmented: !last, aborted: false, stream_id: 1, frame_id: 1 + k as u64, actions: vec![set("a", Typed::Uint64(x))] };
            match now(xs.handle_frame(Frame::AgentAck(f))) {
                Some(Ok(g)) => g.map(|g| {
                    g.iter()
                        .map(|a| match a {
                            Action::SetVar { value: Typed::Uint64(v), .. } => *v,
                            _ => 0,
                        })
                        .collect()
                }),
                _ => {
                    check(false, "a fragment is accepted");
                    return;
                }
            }
        } else {
            let m = Message { name: "m".into(), args: vec![("a".into(), Typed::Uint64(x))] };
            let f = HaproxyNotify { fragmented: !last, stream_id: 1, frame_id: 1 + k as u64, messages: vec![m] };
            match now(ms.handle_frame(Frame::HaproxyNotify(f))) {
                Some(Ok(g)) => g.map(|g| {
                    g.iter()
                        .map(|m| match m.args[..] {
                            [(_, Typed::Uint64(v))] => v,
                            _ => 0,
                        })
                        .collect()
                }),
                _ => {
                    check(false, "a fragment is accepted");
                    return;
                }
            }
        };
        if last {
            let whole = std::mem::take(&mut open[k]);
            check(got == Some(whole), "the parts are joined in order with the last one");
        } else {
            check(got.is_none(), "nothing is handed over before the last fragment");
        }
    }
    // the end of the conversation
    let over = if acks { matches!(now(xs.handle_frame(some_frame(4))), Some(Err(Status::Normal))) } else { matches!(now(ms.handle_frame(some_frame(3))), Some(Err(Status::Normal))) };
    check(over, "a disconnect ends it normally");
    cover(odd as u32);
}

// --------------------------------------------------------------------------- C25

fn next<S: Stream + ?Sized>(s: Pin<&mut S>) -> Poll<Option<S::Item>> {
    s.poll_next(&mut Context::from_waker(Waker::noop()))
}

struct Work {
    acker: Acker,
    messages: Pin<Box<dyn Stream<Item = Message>>>,
    got: Vec<Message>,
    ended: bool,
    pair: usize,
}

const PAIRS: [(u64, u64); 6] = [(1, 1), (1, 2), (2, 1), ((1 << 32) + 1, 1), (1, (1 << 32) + 1), (0, 3)];

/// `n` fragments of notifies with these identifiers, the work taken up at any time, and read at
/// any time
fn dispatch(n: usize, pairs: &[usize], early: bool) {
    dispatch_of(n, pairs, early, &PAIRS)
}
fn dispatch_of(n: usize, pairs: &[usize], early: bool, ids: &[(u64, u64)]) {
    let (tx, rx) = unbounded_channel();
    let d = Dispatcher::new(tx);
    let mut p = Processor(rx);
    let mut works: Vec<Work> = vec![];
    let mut acks: Vec<(usize, tokio::sync::oneshot::Receiver<AgentAck>)> = vec![];
    // of each notify: the identifiers, its messages, whether it is complete
    let mut model: Vec<(usize, Vec<Message>, bool)> = vec![];
    let mut open: [Option<usize>; 6] = [None; 6];
    let names = ["a", "b", "c", "d", "e", "f"];
    for i in 0..n {
        let k = pairs[choose(pairs.len())];
        let last = any_bool();
        let ms = match choose(3) {
            0 => vec![],
            1 => vec![Message { name: names[i].into(), args: vec![("x".into(), Typed::Uint32(any_u32()))] }],
            _ => vec![msg(names[i]), msg("z")],
        };
        let (stream_id, frame_id) = ids[k];
        let r = d.recieve_messages(HaproxyNotify { fragmented: !last, stream_id, frame_id, messages: ms.clone() });
        let Ok(r) = r else {
            check(false, "a notify is dispatched");
            return;
        };
        let first = open[k].is_none();
        check(r.is_some() == first, "the first fragment, and only the first, yields the ack to come");
        if let Some(r) = r {
            open[k] = Some(model.len());
            acks.push((model.len(), r));
            model.push((k, vec![], false));
        }
        let m = open[k].unwrap();
        model[m].1.extend(ms);
        if last {
            model[m].2 = true;
            open[k] = None;
        }
        if early && any_bool() {
            take(&mut p, &mut works, &model);
            for w in &mut works {
                drain(w);
            }
        }
    }
    take(&mut p, &mut works, &model);
    check(works.len() == model.len(), "every notify is one unit of work");
    for (i, w) in works.iter_mut().enumerate() {
        drain(w);
        check(w.got == model[i].1, "the messages of a unit of work are those of its notify, in order");
        check(w.ended == model[i].2, "the messages of a unit of work end with the final fragment");
        w.acker.set_var(Scope::Session, names[i % 6], i as u32);
        check(w.acker.complete().is_ok(), "the ack is awaited");
    }
    for (i, r) in &mut acks {
        let (s, f) = ids[model[*i].0];
        check(
            r.try_recv() == Ok(match ack(s, f, vec![set(names[*i % 6], Typed::Uint32(*i as u32))]) {
                Frame::AgentAck(a) => a,
                _ => unreachable!(),
            }),
            "the ack to come is that of the notify's unit of work",
        );
    }
    cover(model.len() as u32);
    drop(d);
    check(matches!(next(pin!(p)), Poll::Ready(None)), "the stream of work ends with the dispatcher");
}
fn take(p: &mut Processor, works: &mut Vec<Work>, model: &[(usize, Vec<Message>, bool)]) {
    loop {
        match next(Pin::new(&mut *p)) {
            Poll::Ready(Some((acker, m))) => {
                let pair = model.get(works.len()).map_or(9, |m| m.0);
                works.push(Work { acker, messages: Box::pin(m), got: vec![], ended: false, pair });
            }
            Poll::Ready(None) => {
                check(false, "the stream of work goes on");
                return;
            }
            Poll::Pending => return,
        }
    }
}
fn drain(w: &mut Work) {
    let _ = w.pair;
    while !w.ended {
        match next(w.messages.as_mut()) {
            Poll::Ready(Some(m)) => w.got.push(m),
            Poll::Ready(None) => w.ended = true,
            Poll::Pending => return,
        }
    }
}
pub fn c25_fragments() {
    dispatch(3, &[0, 1], true);
}
pub fn c25_fragments_4() {
    dispatch(4, &[0, 2], true);
}
pub fn c25_pairs() {
    dispatch(3, &[0, 1, 2, 3, 4, 5], false);
}
/// the same with any identifiers
pub fn c25_any() {
    dispatch_of(3, &[0, 1], false, &crate::conn::any_pairs(any_u64));
}

/// many notifies open at once, finished in any of several orders, twice with the same identifiers
pub fn c25_many() {
    let (tx, rx) = unbounded_channel();
    let d = Dispatcher::new(tx);
    let mut p = Processor(rx);
    let turn = choose(3) as u64;
    let s = any_u64();
    let n = 20u64;
    for round in 0..2u64 {
        let send = |f: u64, last: bool, name: String| {
            d.recieve_messages(HaproxyNotify { fragmented: !last, stream_id: s, frame_id: 1 + f, messages: vec![msg(&name)] })
        };
        let mut acks = vec![];
        for i in 0..n {
            match send(i, false, format!("{i}a{round}")) {
                Ok(Some(r)) => acks.push(r),
                _ => check(false, "the first fragment yields the ack to come"),
            }
        }
        let mut works = vec![];
        while let Poll::Ready(Some((acker, m))) = next(Pin::new(&mut p)) {
            works.push((acker, Box::pin(m)));
        }
        check(works.len() == n as usize, "every notify is one unit of work");
        for i in 0..n {
            let i = match turn {
                0 => i,
                1 => n - 1 - i,
                _ => (i * 7) % n,
            };
            check(matches!(send(i, false, format!("{i}b{round}")), Ok(None)), "a later fragment yields no ack");
            check(matches!(send(i, true, format!("{i}c{round}")), Ok(None)), "a later fragment yields no ack");
        }
        for (i, (mut acker, mut m)) in works.into_iter().enumerate() {
            for k in ["a", "b", "c"] {
                match next(m.as_mut()) {
                    Poll::Ready(Some(g)) => check(g == msg(&format!("{i}{k}{round}")), "the messages come in order"),
                    _ => check(false, "the messages of every fragment come"),
                }
            }
            check(matches!(next(m.as_mut()), Poll::Ready(None)), "the messages end with the final fragment");
            acker.set_var(haproxy_spop::Scope::Request, format!("v{i}"), i as u32);
        }
        for (i, mut r) in acks.into_iter().enumerate() {
            match r.try_recv() {
                Ok(ack) => check(
                    (ack.stream_id == s) & (ack.frame_id == 1 + i as u64)
                        && ack.actions == vec![Action::set_var(haproxy_spop::Scope::Request, format!("v{i}"), i as u32)],
                    "the ack has its identifiers and actions",
                ),
                Err(_) => check(false, "every notify is acknowledged"),
            }
        }
    }
    cover(turn as u32);
}

/// nobody takes up work any more from some moment on
pub fn c25_closed() {
    let (tx, rx) = unbounded_channel();
    let d = Dispatcher::new(tx);
    let mut p = Some(Processor(rx));
    let (s, f) = (any_u64(), any_u64());
    let gone_at = choose(4);
    let taken = any_bool();
    let n = 4;
    // for both identifiers: was its first fragment taken up, is it open
    let mut open = [false; 2];
    let mut works = vec![];
    let mut acks = vec![];
    for i in 0..n {
        if i == gone_at {
            if let (true, Some(p)) = (taken, &mut p) {
                while let Poll::Ready(Some(w)) = next(Pin::new(&mut *p)) {
                    works.push(w);
                }
            }
            p = None;
        }
        let k = choose(2);
        let last = any_bool();
        let r = d.recieve_messages(HaproxyNotify {
            fragmented: !last,
            stream_id: s,
            frame_id: f.wrapping_add(k as u64),
            messages: vec![msg("m")],
        });
        match (open[k], i < gone_at) {
            (false, true) => {
                check(matches!(r, Ok(Some(_))), "the first fragment yields the ack to come");
                if let Ok(Some(r)) = r {
                    acks.push(r);
                }
                open[k] = !last;
            }
            (false, false) => {
                check(r.is_err(), "a notify that nobody will take up is refused, with every fragment of it");
                cover(0);
            }
            (true, _) => {
                check(matches!(r, Ok(None)), "a later fragment yields no ack");
                open[k] = !last;
                cover(1);
            }
        }
    }
    drop(p);
    check(works.len() == if taken { acks.len() } else { 0 }, "every notify is one unit of work");
    drop(works);
    for mut r in acks {
        check(matches!(r.try_recv(), Ok(a) if a.actions.is_empty()), "work that is dropped is acknowledged");
    }
}

/// a consumer that gives up on a notify disturbs no other
pub fn c25_given_up() {
    let (tx, rx) = unbounded_channel();
    let d = Dispatcher::new(tx);
    let mut p = Processor(rx);
    let send = |f, last: bool, name: &str| d.recieve_messages(HaproxyNotify { fragmented: !last, stream_id: 1, frame_id: f, messages: vec![msg(name), msg("z")] });
    check(matches!(send(1, false, "a"), Ok(Some(_))), "the first fragment yields the ack to come");
    check(matches!(send(2, false, "b"), Ok(Some(_))), "the first fragment yields the ack to come");
    let mut works = vec![];
    take(&mut p, &mut works, &[(0, vec![], false), (1, vec![], false)]);
    check(works.len() == 2, "every notify is one unit of work");
    let k = choose(2);
    drop(works.remove(k));
    let last = any_bool();
    check(matches!(send(1, last, "c"), Ok(None)), "a later fragment yields no ack");
    check(matches!(send(2, last, "d"), Ok(None)), "a later fragment yields no ack");
    let w = &mut works[0];
    drain(w);
    let n = if k == 0 { ["b", "z", "d", "z"] } else { ["a", "z", "c", "z"] };
    check(w.got[..] == n.map(msg)[..], "the messages of the other are complete");
    check(w.ended == last, "the messages of the other end with its final fragment");
    take(&mut p, &mut works, &[(0, vec![], false), (1, vec![], false)]);
    check(works.len() == 1, "later fragments are no new work");
    // once complete the identifiers are free again
    if last {
        check(matches!(send(1 + k as u64, true, "e"), Ok(Some(_))), "a notify that reuses the identifiers is a new one");
    }
    cover(last as u32);
}

// --------------------------------------------------------------------------- C26

/// any sequence of operations on an acker of any identifiers
fn acker(n: usize) {
    let (s, f) = (any_u64(), any_u64());
    let (mut a, mut r) = Acker::new(s, f);
    let mut actions = vec![];
    let mut sent: Option<AgentAck> = None;
    let n = choose(n + 1);
    let gone_at = choose(n + 2);
    let mut r = if gone_at == 0 {
        drop(r);
        None
    } else {
        check(r.try_recv().is_err(), "no ack before it is complete");
        Some(r)
    };
    for i in 0..n {
        match choose(4) {
            0 => {
                let (scope, name, value) = (scope(), ascii(1), typed([0, 3, 8][choose(3)], 1));
                a.set_var(scope, name.clone(), value.clone());
                actions.push(Action::SetVar { scope, name, value });
            }
            1 => {
                let (scope, name) = (scope(), ascii(1));
                a.unset_var(scope, name.clone());
                actions.push(Action::UnsetVar { scope, name });
            }
            k => {
                let res = if k == 2 { a.complete() } else { a.abort() };
                let first = sent.is_none();
                check(res.is_ok() == (first && r.is_some()), "an ack is delivered once, and only where it is awaited");
                check(res.is_ok() || matches!(res, Err(Error::Closed)), "otherwise it is closed");
                if first {
                    sent = Some(AgentAck { fragmented: false, aborted: k == 3, stream_id: s, frame_id: f, actions: actions.clone() });
                }
            }
        }
        if gone_at == i + 1 && sent.is_none() {
            r = None;
        }
    }
    drop(a);
    let sent = sent.unwrap_or(AgentAck { fragmented: false, aborted: false, stream_id: s, frame_id: f, actions });
    if let Some(mut r) = r {
        cover(sent.aborted as u32);
        observe(sent.actions.len() as u64);
        match r.try_recv() {
            Ok(a) => check(a == sent, "the ack has its identifiers, the actions recorded before and the mark of an abort"),
            Err(_) => check(false, "an ack is delivered, whatever happens"),
        }
        check(r.try_recv().is_err(), "an ack is delivered once");
    }
}
pub fn c26_operations() {
    acker(2);
}
pub fn c26_operations_3() {
    acker(3);
}
/// an acker whose holder panics, whatever was done with it before
pub fn c26_unwinds() {
    let (s, f) = (any_u64(), any_u64());
    let (mut a, mut r) = Acker::new(s, f);
    let (n, end) = (choose(3), choose(3));
    let gone = any_bool();
    let names: Vec<String> = (0..n).map(|_| ascii(1)).collect();
    let mut want = AgentAck { fragmented: false, aborted: end == 1, stream_id: s, frame_id: f, actions: vec![] };
    for x in &names {
        want.actions.push(Action::set_var(haproxy_spop::Scope::Request, x.clone(), 7u32));
    }
    if gone {
        drop(r);
        r = Acker::new(1, 1).1;
    }
    let e = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        for x in &names {
            a.set_var(haproxy_spop::Scope::Request, x.clone(), 7u32);
        }
        let a = &mut { a };
        match end {
            0 => {}
            1 => check(a.abort().is_ok() != gone, "an ack is sent while someone waits for it"),
            _ => check(a.complete().is_ok() != gone, "an ack is sent while someone waits for it"),
        }
        crate::conn::unwind();
    }));
    check(e.is_err(), "the holder panicked");
    if !gone {
        check(r.try_recv() == Ok(want), "an ack is delivered though its holder panicked");
        check(r.try_recv().is_err(), "one ack is delivered");
    }
    cover(end as u32);
}

/// longer sequences with less in them
pub fn c26_long() {
    let (mut a, mut r) = Acker::new(1, 2);
    let mut actions = vec![];
    let mut sent: Option<(bool, Vec<Action>)> = None;
    for i in 0..choose(7) as u32 {
        match choose(4) {
            0 => {
                a.set_var(Scope::Request, "n", i);
                actions.push(Action::SetVar { scope: Scope::Request, name: "n".into(), value: Typed::Uint32(i) });
            }
            1 => {
                a.unset_var(Scope::Response, "n");
                actions.push(Action::UnsetVar { scope: Scope::Response, name: "n".into() });
            }
            k => {
                let res = if k == 2 { a.complete() } else { a.abort() };
                check(res.is_ok() == sent.is_none(), "an ack is delivered once");
                sent.get_or_insert_with(|| (k == 3, actions.clone()));
            }
        }
    }
    drop(a);
    let (aborted, actions) = sent.unwrap_or((false, actions));
    let e = AgentAck { fragmented: false, aborted, stream_id: 1, frame_id: 2, actions };
    check(r.try_recv() == Ok(e), "the ack has the actions recorded before and the mark of an abort");
}

// --------------------------------------------------------------------------- C27

/// A consumer that is told to sleep is woken as soon as there is something, by the last waker it gave.
struct Sleeper {
    bells: [std::sync::Arc<Bell>; 2],
    which: usize,
    /// asleep, and how often its bell had rung when it fell asleep
    asleep: Option<usize>,
}
impl Sleeper {
    fn new() -> Self {
        Sleeper { bells: [Bell::new(), Bell::new()], which: 0, asleep: None }
    }
    fn poll<S: Stream>(&mut self, s: Pin<&mut S>) -> Poll<Option<S::Item>> {
        self.which = choose(2);
        let w = Waker::from(self.bells[self.which].clone());
        let before = self.bells[self.which].rung();
        let r = s.poll_next(&mut Context::from_waker(&w));
        self.asleep = match r {
            Poll::Pending if self.bells[self.which].rung() == before => Some(before),
            _ => None,
        };
        r
    }
    /// there is something for the consumer
    fn woken(&mut self) {
        if let Some(n) = self.asleep {
            check(self.bells[self.which].rung() > n, "a consumer that waits is woken");
        }
    }
}

/// work: dispatched, taken, and the end, in any order
fn sleepers(n: usize) {
    let (tx, rx) = unbounded_channel();
    let mut d = Some(Dispatcher::new(tx));
    let mut p = Processor(rx);
    let mut s = Sleeper::new();
    let (mut sent, mut got) = (0u64, 0u64);
    let mut keep = vec![];
    for _ in 0..n {
        match choose(3) {
            0 => {
                if let Some(d) = &d {
                    sent += 1;
                    let r = d.recieve_messages(HaproxyNotify { fragmented: false, stream_id: 1, frame_id: sent, messages: vec![] });
                    check(r.is_ok(), "a notify is dispatched");
                    s.woken();
                    keep.push(r);
                }
            }
            1 => match s.poll(Pin::new(&mut p)) {
                Poll::Ready(Some(_)) => {
                    got += 1;
                    check(got <= sent, "there is no more work than was dispatched");
                }
                Poll::Ready(None) => check(d.is_none() & (got == sent), "the stream ends when all is done"),
                Poll::Pending => check(d.is_some() & (got == sent), "a consumer does not wait while there is work"),
            },
            _ => {
                if d.take().is_some() {
                    s.woken();
                }
            }
        }
    }
    cover(got as u32);
}
pub fn c27_work() {
    sleepers(5);
}
pub fn c27_work_6() {
    sleepers(6);
}

/// the messages of a notify
fn messages(n: usize) {
    let (tx, rx) = unbounded_channel();
    let d = Dispatcher::new(tx);
    let mut p = Processor(rx);
    let send = |last: bool, k: usize| {
        d.recieve_messages(HaproxyNotify { fragmented: !last, stream_id: 1, frame_id: 1, messages: (0..k).map(|_| msg("m")).collect() })
    };
    let r = send(false, 0);
    check(matches!(r, Ok(Some(_))), "a notify is dispatched");
    let Poll::Ready(Some((_acker, m))) = next(Pin::new(&mut p)) else {
        check(false, "a notify is work");
        return;
    };
    let mut m = pin!(m);
    let mut s = Sleeper::new();
    let (mut sent, mut got, mut over) = (0, 0, false);
    for _ in 0..n {
        match choose(3) {
            0 if !over => {
                let k = choose(3);
                sent += k;
                check(matches!(send(false, k), Ok(None)), "a fragment is dispatched");
                if k > 0 {
                    s.woken();
                }
            }
            1 => match s.poll(m.as_mut()) {
                Poll::Ready(Some(_)) => {
                    got += 1;
                    check(got <= sent, "there are no more messages than were sent");
                }
                Poll::Ready(None) => check(over & (got == sent), "the messages end with the final fragment"),
                Poll::Pending => check(!over & (got == sent), "a consumer does not wait while there are messages"),
            },
            2 if !over => {
                let k = choose(2);
                sent += k;
                check(matches!(send(true, k), Ok(None)), "a fragment is dispatched");
                over = true;
                s.woken();
            }
            _ => {}
        }
    }
    cover(got as u32);
}
pub fn c27_messages() {
    messages(4);
}
pub fn c27_messages_5() {
    messages(5);
}

// --------------------------------------------------------------------------- C28

/// the bytes of a block, and what they mean: the headers, or `None`
fn block(b: &[u8]) -> Option<Vec<(Vec<u8>, Vec<u8>)>> {
    let mut out = vec![];
    let mut b = spec::Cur::new(b);
    loop {
        if b.left() == 0 {
            return Some(out); // without the final pair
        }
        let k = b.bytes()?;
        let v = b.bytes()?;
        if k.is_empty() && v.is_empty() {
            return Some(out);
        }
        if k.is_empty() || !k.iter().all(|c| token(*c)) || !v.iter().all(|c| text(*c)) {
            return None;
        }
        out.push((k.iter().map(|c| c.to_ascii_lowercase()).collect(), v.to_vec()));
    }
}
/// RFC 9110, 5.6.2
fn token(c: u8) -> bool {
    c.is_ascii_alphanumeric()
        || matches!(c, b'!' | b'#' | b'$' | b'%' | b'&' | b'\'' | b'*' | b'+' | b'-' | b'.' | b'^' | b'_' | b'`' | b'|' | b'~')
}
/// RFC 9110, 5.5: visible characters, blanks, tabs and obsolete text
fn text(c: u8) -> bool {
    c == b'\t' || (c >= 0x20 && c != 0x7f)
}

fn headers(b: &[u8], split: usize) {
    let want = block(b);
    let got = if split < b.len() {
        hdrs_bin(b[..split].chain(&b[split..]))
    } else {
        hdrs_bin(b)
    };
    match (got, want) {
        (Ok(h), Some(w)) => {
            cover(0);
            check(h.len() == w.len(), "the headers are as many as in the block");
            for (k, _) in &w {
                let n = std::str::from_utf8(k).unwrap();
                let values: Vec<&[u8]> = w.iter().filter(|x| x.0 == *k).map(|x| &x.1[..]).collect();
                let have: Vec<&[u8]> = h.get_all(n).iter().map(|v| v.as_bytes()).collect();
                check(have == values, "a header has all its values, in order");
            }
            observe(w.len() as u64);
        }
        (Err(_), None) => cover(1),
        (Ok(_), None) => check(false, "a malformed block is refused"),
        (Err(_), Some(_)) => check(false, "a well-formed block is accepted"),
    }
}

fn arbitrary(n: usize) {
    let mut b = vec![0; choose(n + 1)];
    fill(&mut b);
    headers(&b, usize::MAX);
}
pub fn c28_bytes() {
    arbitrary(4);
}
pub fn c28_bytes_5() {
    arbitrary(5);
}

/// headers of these names with arbitrary bytes in the values, cut anywhere, in one or two pieces
pub fn c28_names() {
    let mut b = vec![];
    for _ in 0..choose(3) {
        let k = ["a", "A", "host", "Host", "x-b", ""][choose(6)];
        b.push(k.len() as u8);
        b.extend_from_slice(k.as_bytes());
        let mut v = vec![0; choose(2)];
        fill(&mut v);
        b.push(v.len() as u8);
        b.extend_from_slice(&v);
    }
    b.extend_from_slice(&[0, 0]);
    let split = match choose(3) {
        0 => usize::MAX,
        1 => {
            // the block ends too early
            b.truncate(choose(b.len() + 1));
            usize::MAX
        }
        _ => choose(b.len() + 1),
    };
    headers(&b, split);
}

/// several values of one name, in order, with others between
pub fn c28_repeated() {
    let mut b = vec![];
    for i in 0..4 {
        let k = ["cookie", "Cookie", "via"][choose(3)];
        b.push(k.len() as u8);
        b.extend_from_slice(k.as_bytes());
        let v = any_u8();
        assume(v >= b'0');
        assume(v <= b'9');
        b.extend_from_slice(&[2, v, b'0' + i]);
    }
    b.extend_from_slice(&[0, 0]);
    headers(&b, usize::MAX);
}

/// many headers, of different names and of the same
pub fn c28_many() {
    let mut b = vec![];
    let v = any_u8();
    assume(v >= b'0');
    assume(v <= b'9');
    let at = choose(3);
    let n = [60usize, 130, 300][choose(3)];
    for i in 0..n {
        let k = if i % 3 == 0 { "via".to_string() } else { format!("x-{i}") };
        b.push(k.len() as u8);
        b.extend_from_slice(k.as_bytes());
        let t = [b'a' + (i % 26) as u8, if i == [0, n / 2, n - 1][at] { v } else { b'-' }];
        b.extend_from_slice(&[2, t[0], t[1]]);
    }
    b.extend_from_slice(&[0, 0]);
    headers(&b, usize::MAX);
}

/// long values and names
pub fn c28_long() {
    let n = [239usize, 240, 241, 255, 256, 300, 2287, 2288, 2289][choose(9)];
    let mut b = vec![];
    let name = any_bool();
    let long = |b: &mut Vec<u8>| {
        // the bytes of a name are hashed: a menu rather than any byte
        let e = if name { [b"Aa-9"[choose(4)], b"Zz_0"[choose(4)]] } else { any::<2>() };
        spec::put_varint(b, n as u64);
        let at = b.len();
        b.resize(at + n, b'x');
        b[at] = e[0];
        b[at + n - 1] = e[1];
        assume(token(e[0]));
        assume(token(e[1]));
    };
    if name {
        long(&mut b);
        b.extend_from_slice(&[1, b'v']);
    } else {
        b.extend_from_slice(&[1, b'n']);
        long(&mut b);
    }
    b.extend_from_slice(&[3, b'e', b'n', b'd', 1, b'1', 0, 0]);
    match hdrs_bin(&b[..]) {
        Ok(h) => {
            check(h.len() == 2, "the headers are as many as in the block");
            check(h.get("end").is_some_and(|v| v.as_bytes() == b"1"), "what follows a long header is not lost");
            let long = if name { h.iter().any(|(k, _)| k.as_str().len() == n) } else { h.get("n").is_some_and(|v| v.len() == n) };
            check(long, "a long name or value is whole");
            let lower: Vec<u8> = b.iter().map(|c| c.to_ascii_lowercase()).collect();
            let used = spec::varint_len(n as u64);
            if name {
                check(h.iter().any(|(k, _)| k.as_str().as_bytes() == &lower[used..used + n]), "a long name is that of the block");
            } else {
                let at = 2 + used;
                check(h.get("n").is_some_and(|v| v.as_bytes() == &b[at..at + n]), "a long value is that of the block");
            }
        }
        Err(_) => check(false, "a well-formed block is accepted"),
    }
    observe(n as u64);
}
/// declared lengths of any size
pub fn c28_lengths() {
    let mut b = vec![];
    let n = any_u64();
    assume(n > 8);
    if any_bool() {
        b.extend_from_slice(&[1, b'n']);
    }
    spec::put_varint(&mut b, n);
    b.extend_from_slice(b"xxxxxxxx"[..choose(9)].as_ref());
    check(within(1 << 16, || hdrs_bin(&b[..])).is_err(), "a length beyond the block is refused");
}

// --------------------------------------------------------------------------- C29

/// any calls of the builder
fn builder(n: usize) {
    use Capability::*;
    let mut b = Builder::new();
    let (mut versions, mut caps): (Vec<Version>, Vec<Capability>) = (vec![], vec![]);
    let (mut size, mut time) = (None, None);
    for _ in 0..choose(n + 1) {
        b = match choose(8) {
            0 => {
                let v = [Version::new(1, 5), Version::new(2, 0), Version::new(2, 1)][choose(3)];
                versions.push(v);
                b.version(v)
            }
            1 => {
                caps.push(Fragmentation);
                b.fragmentation()
            }
            2 => {
                caps.push(Pipelining);
                b.pipelining()
            }
            3 => {
                caps.push(Async);
                b.asynchronous()
            }
            4 => {
                let c = [Fragmentation, Pipelining, Async][choose(3)];
                caps.push(c);
                b.capability(c)
            }
            5 => {
                let c = [vec![], vec![Async, Fragmentation], vec![Pipelining, Pipelining]][choose(3)].clone();
                caps.extend(c.iter().copied());
                b.capabilities(c)
            }
            6 => {
                let s = any_u64();
                size = Some(s);
                b.max_frame_size(s as usize)
            }
            _ => {
                let ms = any_u32();
                time = Some(ms);
                b.max_process_time(Duration::from_secs(ms as u64))
            }
        };
    }
    let log: Shared = Default::default();
    let r = b.make_service(Maker::new(&log), STATE);
    if versions.is_empty() {
        versions.push(Version::V2_0);
    }
    check(
        versions.iter().all(|v| r.supported_versions.contains(v)) && r.supported_versions.iter().all(|v| versions.contains(v)),
        "the agent supports the versions it was given, or else 2.0",
    );
    check(
        caps.iter().all(|c| r.capabilities.contains(c)) && r.capabilities.iter().all(|c| caps.contains(c)),
        "the agent has the capabilities it was given",
    );
    check(r.max_frame_size as u64 == size.unwrap_or(16384), "the agent has the frame size it was last given, or else the default");
    check(
        r.max_process_time == Duration::from_secs(time.map_or(15, |t| t as u64)),
        "the agent has the processing time it was last given, or else the default",
    );
    check(log.borrow().made.is_empty(), "no service is made before it is needed");
    cover(caps.len() as u32);
}
pub fn c29_calls() {
    builder(2);
}
pub fn c29_calls_3() {
    builder(3);
}

/// what was configured is what the agent says in its hello and does
pub fn c29_hello() {
    use Capability::*;
    let k = choose(8);
    let caps: Vec<_> = [Fragmentation, Pipelining, Async].into_iter().enumerate().filter(|(i, _)| k >> i & 1 == 1).map(|(_, c)| c).collect();
    let vs = [vec![], vec![Version::new(1, 0)], vec![Version::new(2, 1), Version::new(1, 0)]][choose(3)].clone();
    let size = [None, Some(512), Some(20000)][choose(3)];
    let mut b = Builder::new().capabilities(caps.clone());
    for v in &vs {
        b = b.version(*v);
    }
    if let Some(s) = size {
        b = b.max_frame_size(s);
    }
    let a = Agent::new(&Config::default());
    let log: Shared = Default::default();
    let r = b.make_service(Maker::new(&log), STATE);
    let h = HaproxyHello {
        supported_versions: vec![Version::new(2, 0), Version::new(1, 0), Version::new(2, 1)],
        max_frame_size: 1 << 20,
        capabilities: vec![Fragmentation, Pipelining, Async],
        healthcheck: None,
        engine_id: None,
    };
    let mut input = spec::encode(&Frame::HaproxyHello(h));
    input.extend_from_slice(&fragment(1, 2, true, vec![msg("m")]));
    let pipe = Pipe::new(input);
    let mut c = haproxy_spoa::Connection::new(r, pipe.clone(), tokio_util::sync::CancellationToken::new());
    let ended = {
        let _g = a.rt.enter();
        drive(&pipe, c.serve()).is_some()
    };
    check(!ended, "the connection goes on");
    sent(
        &pipe,
        &[
            Want::Hello {
                version: match vs.len() {
                    0 => Version::V2_0,
                    1 => Version::new(1, 0),
                    _ => Version::new(2, 1),
                },
                max_frame_size: size.unwrap_or(16384) as u32,
                caps,
            },
            Want::Ack(1, 2, echo("m")),
        ],
    );
    check(log.borrow().made == [STATE], "services are made from the state that was given");
}

// --------------------------------------------------------------------------- C31

/// values made from any value of the types that can be made into one, and taken out again
pub fn c31_values() {
    let k = choose(16);
    cover(k as u32);
    let back = "a value gives back what it was made from";
    let kind = "a value has the type of what it was made from";
    match k {
        0 => check(Typed::from(()) == Typed::Null, kind),
        1 => {
            let v = any_bool();
            check(matches!(Typed::from(v), Typed::Boolean(x) if x == v), kind);
            check(bool::try_from(Typed::from(v)).ok() == Some(v), back);
        }
        2 => {
            let v = any_u32() as i32;
            check(matches!(Typed::from(v), Typed::Int32(x) if x == v), kind);
            check(i32::try_from(Typed::from(v)).ok() == Some(v), back);
            check(u32::try_from(Typed::from(v)).is_err() & i64::try_from(Typed::from(v)).is_err(), kind);
        }
        3 => {
            let v = any_u32();
            check(matches!(Typed::from(v), Typed::Uint32(x) if x == v), kind);
            check(u32::try_from(Typed::from(v)).ok() == Some(v), back);
            check(i32::try_from(Typed::from(v)).is_err() & u64::try_from(Typed::from(v)).is_err(), kind);
        }
        4 => {
            let v = any_u64() as i64;
            check(matches!(Typed::from(v), Typed::Int64(x) if x == v), kind);
            check(i64::try_from(Typed::from(v)).ok() == Some(v), back);
        }
        5 => {
            let v = any_u64();
            check(matches!(Typed::from(v), Typed::Uint64(x) if x == v), kind);
            check(u64::try_from(Typed::from(v)).ok() == Some(v), back);
        }
        6 => {
            let v = Ipv4Addr::from(any::<4>());
            check(matches!(Typed::from(v), Typed::Ipv4(x) if x == v), kind);
            check(Ipv4Addr::try_from(Typed::from(v)).ok() == Some(v), back);
            check(Typed::from(IpAddr::V4(v)) == Typed::Ipv4(v), kind);
        }
        7 => {
            let v = Ipv6Addr::from(any::<16>());
            check(matches!(Typed::from(v), Typed::Ipv6(x) if x == v), kind);
            check(Ipv6Addr::try_from(Typed::from(v)).ok() == Some(v), back);
            check(Typed::from(IpAddr::V6(v)) == Typed::Ipv6(v), kind);
        }
        8 => {
            let v = ascii(choose(4));
            check(matches!(Typed::from(&v[..]), Typed::String(x) if x == v), kind);
            check(matches!(Typed::from(v.clone()), Typed::String(x) if x == v), kind);
            check(String::try_from(Typed::from(v.clone())).is_ok_and(|x| x == v), back);
        }
        9..=13 => {
            let mut v = vec![0u8; choose(4)];
            fill(&mut v);
            let t = match k {
                9 => Typed::from(v.clone()),
                10 => Typed::from(&v[..]),
                11 => Typed::from(v.clone().into_boxed_slice()),
                12 => Typed::from(BytesMut::from(&v[..])),
                _ => Typed::from(Bytes::from(v.clone())),
            };
            check(matches!(&t, Typed::Binary(x) if x[..] == v[..]), kind);
            check(Bytes::try_from(t).is_ok_and(|x| x[..] == v[..]), back);
        }
        14 => {
            let (a, b) = (any_u64(), any_u64());
            check((Typed::Uint64(a) == Typed::Uint64(b)) == (a == b), "values are equal when their contents are");
            check(Typed::Uint64(a) != Typed::Int64(a as i64), "values of different types are different");
        }
        _ => check(Typed::from("x") != Typed::from(&b"x"[..]), "values of different types are different"),
    }
}

/// frames, messages and actions made by hand and by the constructors are the same
pub fn c31_constructors() {
    let (s, f) = (any_u64(), any_u64());
    let (n, v, w) = (ascii(2), any_u32(), any_u8() & 1 == 1);
    let (k, l) = (ascii(1), ascii(1));
    let scope = scope();
    let m = Message { name: n.clone(), args: vec![(k.clone(), Typed::Uint32(v)), (l.clone(), Typed::Boolean(w))] };
    check(Message::builder(n.clone()).arg(k.clone(), v).arg(l.clone(), w).build() == m, "a message is what its builder was told");
    check(
        Message::builder(n.clone()).arg(k.clone(), v).args([(l.clone(), w)]).build() == m,
        "a message is what its builder was told",
    );
    check(
        Message::new(n.clone(), [(k.clone(), Typed::from(v)), (l.clone(), Typed::from(w))]) == m,
        "a message is what it was made from",
    );
    check(Frame::notify(s, f, [m.clone(), msg("b")]) == notify(s, f, vec![m.clone(), msg("b")]), "a notify is what it was made from");
    let x = Action::SetVar { scope, name: n.clone(), value: Typed::Uint32(v) };
    let y = Action::UnsetVar { scope, name: k.clone() };
    check(Action::set_var(scope, n.clone(), v) == x, "an action is what it was made from");
    check(Action::unset_var(scope, k.clone()) == y, "an action is what it was made from");
    check(Frame::ack(s, f, [x.clone(), y.clone()]) == ack(s, f, vec![x, y]), "an ack is what it was made from");
    check(Frame::AgentAck(AgentAck::new(s, f)) == ack(s, f, vec![]), "an ack is what it was made from");
    let last = any_bool();
    let aborted = any_bool();
    let a = AgentAck { fragmented: !last, aborted, ..AgentAck::new(s, f) };
    let d = a.metadata();
    check((d.stream_id == s) & (d.frame_id == f), "the metadata of a frame has its identifiers");
    check((d.is_final() == last) & (d.fragmented() != last) & (d.aborted() == aborted), "the metadata of a frame has its flags");
    let h = HaproxyNotify { fragmented: !last, stream_id: s, frame_id: f, messages: vec![] };
    let d = h.metadata();
    check((d.stream_id == s) & (d.frame_id == f), "the metadata of a frame has its identifiers");
    check((d.is_final() == last) & (d.fragmented() != last) & !d.aborted(), "the metadata of a frame has its flags");
    check(Frame::from(a.clone()) == Frame::AgentAck(a.clone()), "a frame is what it was made from");
    check(Frame::from(h.clone()) == Frame::HaproxyNotify(h.clone()), "a frame is what it was made from");
    check(Frame::from(a.clone()).metadata() == Some(a.metadata()), "a frame has the metadata of its content");
    check(Frame::from(h.clone()).metadata() == Some(h.metadata()), "a frame has the metadata of its content");
}

// --------------------------------------------------------------------------- C32

/// versions order by their numbers
pub fn c32_order() {
    let (a, b) = (version(), version());
    let c = Version::new(a.major, a.minor);
    check((c.major == a.major) & (c.minor == a.minor), "a version has the numbers it was made from");
    let (x, y) = (a.major as u32 * 256 + a.minor as u32, b.major as u32 * 256 + b.minor as u32);
    check((a < b) == (x < y), "versions order by their numbers");
    check((a == b) == (x == y), "versions are equal when their numbers are");
    check(a.max(b) == if x < y { b } else { a }, "the higher of two versions is the one with the higher numbers");
}
/// the text of every version, written and read back
pub fn c32_text() {
    let major = [0u8, 1, 2, 9, 10, 25, 99, 100, 199, 255][choose(10)];
    let v = Version::new(major, [0u8, 1, 5, 9, 10, 11, 99, 100, 101, 200, 254, 255][choose(12)]);
    let t = v.to_string();
    check(t == format!("{}.{}", v.major, v.minor), "the text of a version is its numbers and a dot");
    check(t.parse::<Version>() == Ok(v), "the text of a version is read back as that version");
    observe_bytes(t.as_bytes());
}
pub fn c32_caps() {
    let (c, t) = [
        (Capability::Fragmentation, "fragmentation"),
        (Capability::Pipelining, "pipelining"),
        (Capability::Async, "async"),
    ][choose(3)];
    check(c.to_string() == t, "the text of a capability is that of the specification");
    check(t.parse::<Capability>() == Ok(c), "the text of a capability is read back as that capability");
    // any text of that length that differs
    let mut b = vec![0; t.len()];
    fill(&mut b[..2]);
    b[2..].copy_from_slice(&t.as_bytes()[2..]);
    assume(b[0] < 0x80);
    assume(b[1] < 0x80);
    assume(b[..2] != t.as_bytes()[..2]);
    let s = String::from_utf8(b).unwrap();
    check(s.parse::<Capability>().is_err(), "nothing else is the text of a capability");
}
