//! Whole agents: what `Agent::serve` accepts, serves and waits for (C22, C23, C30).
use crate::conn::*;
use crate::kernel::*;
use crate::live::{frames, hello_reply, other, quiet, KINDS_OF_OTHERS};
use crate::gen::warm;
use crate::rt::*;
use crate::spec::{self, Verdict};
use haproxy_spop::{Action, Capability, Disconnect, Frame, HaproxyHello, Message, Version};
use std::future::Future;
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context, Poll};
use std::time::Duration;
use tokio::time::sleep;

// The executor and the replay have one thread only.
struct Only<T>(T);
unsafe impl<T> Send for Only<T> {}
unsafe impl<T> Sync for Only<T> {}
impl<F: Future + Unpin> Future for Only<F> {
    type Output = F::Output;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<F::Output> {
        Pin::new(&mut self.0).poll(cx)
    }
}
struct AMaker(Only<Maker>);
struct ASvc(Only<Svc>);
type Boxed<T> = Only<Pin<Box<dyn Future<Output = T>>>>;
impl tower::Service<u32> for AMaker {
    type Response = ASvc;
    type Error = MakeFailed;
    type Future = Boxed<Result<ASvc, MakeFailed>>;
    fn poll_ready(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), MakeFailed>> {
        self.0 .0.poll_ready(cx)
    }
    fn call(&mut self, state: u32) -> Self::Future {
        let f = self.0 .0.call(state);
        Only(Box::pin(async move { f.await.map(|s| ASvc(Only(s))) }))
    }
}
impl tower::Service<Vec<Message>> for ASvc {
    type Response = Vec<Action>;
    type Error = String;
    type Future = Boxed<Result<Vec<Action>, String>>;
    fn poll_ready(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), String>> {
        self.0 .0.poll_ready(cx)
    }
    fn call(&mut self, m: Vec<Message>) -> Self::Future {
        Only(Box::pin(self.0 .0.call(m)))
    }
}

struct World {
    log: Shared,
    rt: tokio::runtime::Runtime,
    agent: Arc<haproxy_spoa::Agent<AMaker, u32>>,
}
impl World {
    fn new(c: &Config, seed: u64) -> World {
        World::with(c, seed, listener)
    }
    fn with(c: &Config, seed: u64, listener: fn() -> std::net::TcpListener) -> World {
        warm();
        let log: Shared = Default::default();
        let runtime = Arc::new(haproxy_spoa::Runtime::new(
            c.versions.clone(),
            c.caps.clone(),
            c.max_frame_size,
            Duration::from_millis(c.process_ms),
            AMaker(Only(Maker::new(&log))),
            STATE,
        ));
        let l = listener();
        let rt = tokio::runtime::Builder::new_current_thread()
            .enable_all()
            .start_paused(true)
            .rng_seed(tokio::runtime::RngSeed::from_bytes(&seed.to_le_bytes()))
            .build()
            .unwrap();
        let agent = {
            let _g = rt.enter();
            Arc::new(haproxy_spoa::Agent::new(runtime, l).unwrap())
        };
        World { log, rt, agent }
    }
}

/// until nothing more happens: the clock only runs when nothing else can
async fn rest() {
    sleep(Duration::from_millis(1)).await;
}


/// a future that stays on the one thread there is, so that it doesn't matter whether it is `Send`
struct Here<F>(F);
unsafe impl<F> Send for Here<F> {}
impl<F: std::future::Future> std::future::Future for Here<F> {
    type Output = F::Output;
    fn poll(self: std::pin::Pin<&mut Self>, cx: &mut std::task::Context<'_>) -> std::task::Poll<F::Output> {
        unsafe { self.map_unchecked_mut(|h| &mut h.0) }.poll(cx)
    }
}

type Served = tokio::task::JoinHandle<Result<(), haproxy_spoa::Error>>;
impl World {
    fn serve(&self) -> Served {
        let a = self.agent.clone();
        tokio::spawn(Here(async move { a.serve().await }))
    }
    /// `serve` has returned, without an error
    async fn returned(&self, h: Served) {
        match h.await {
            Ok(Ok(())) => {}
            _ => check(false, "an agent that is shut down returns without an error"),
        }
    }
}

fn whole_notify(f: u64, name: &str) -> Vec<u8> {
    fragment(1, f, true, vec![msg(name)])
}

// --------------------------------------------------------------------------- C30

/// Connections and failed accepts in any order; the reason of a failure is any of them.
fn accepts(n: usize, any_errno: bool) {
    let w = World::new(&Config::default(), 1);
    w.rt.block_on(async {
        let h = w.serve();
        let mut peers = vec![];
        let mut failures = 0;
        for _ in 0..n {
            if any_bool() {
                let e = if any_errno {
                    let e = any_u8() as i32;
                    // 11: nothing to accept
                    assume(e >= 1 && e <= 133 && e != 11);
                    e
                } else {
                    [EMFILE, ECONNABORTED, ENOMEM, EINTR][choose(4)]
                };
                fail_accept(e);
                failures += 1;
            } else {
                let p = dial();
                if any_bool() {
                    p.push(&hello());
                    peers.push((p, true));
                } else {
                    peers.push((p, false));
                }
            }
            if any_bool() {
                rest().await;
            }
        }
        sleep(Duration::from_secs(5)).await;
        check(!h.is_finished(), "an agent goes on when it could not accept a connection");
        check(waiting() == 0, "every connection is accepted in the end");
        for (p, said) in &peers {
            if !said {
                p.push(&hello());
            }
            p.push(&whole_notify(1, "m"));
        }
        rest().await;
        for (p, _) in &peers {
            sent_bytes(&p.written(), &[welcome(), Want::Ack(1, 1, echo("m"))]);
            check(!p.closed(), "a connection stays open until it ends or the agent is shut down");
        }
        check(w.log.borrow().made.len() == peers.len(), "every connection has a service of its own");
        w.agent.shutdown().cancel();
        w.returned(h).await;
        check(peers.iter().all(|p| p.0.closed()), "an agent returns after every connection has ended");
        cover(if failures == 0 { 0 } else if peers.is_empty() { 1 } else { 2 });
        observe(peers.len() as u64);
    });
}
/// an agent given a listening socket as `bind` makes it
pub fn c30_listener() {
    let w = World::with(&Config::default(), choose(4) as u64, blocking_listener);
    w.rt.block_on(async {
        let h = w.serve();
        rest().await;
        let n = choose(3);
        let mut peers = vec![];
        for _ in 0..n {
            let p = dial();
            p.push(&hello());
            if any_bool() {
                rest().await;
            }
            p.push(&whole_notify(1, "m"));
            peers.push(p);
        }
        sleep(Duration::from_secs(1)).await;
        check(!h.is_finished(), "an agent goes on until it is shut down");
        for p in &peers {
            sent_bytes(&p.written(), &[welcome(), Want::Ack(1, 1, echo("m"))]);
        }
        w.agent.shutdown().cancel();
        w.returned(h).await;
        check(peers.iter().all(|p| p.closed()), "an agent returns after every connection has ended");
        cover(n as u32);
    });
}
/// two accept loops of one agent
pub fn c30_twice() {
    let w = World::new(&Config::default(), choose(2) as u64);
    w.rt.block_on(async {
        let h = [w.serve(), w.serve()];
        rest().await;
        let mut peers = vec![];
        for _ in 0..3 {
            let p = dial();
            p.push(&hello());
            p.push(&whole_notify(1, "m"));
            peers.push(p);
            if any_bool() {
                rest().await;
            }
        }
        rest().await;
        // up to two of them are busy
        let busy = choose(3);
        for p in &peers[..busy] {
            w.log.borrow_mut().plan.push_back(Act(Wait::Ms(20), Ok(echo("m"))));
            p.push(&whole_notify(2, "m"));
            rest().await;
        }
        check(h.iter().all(|h| !h.is_finished()), "an agent goes on until it is shut down");
        w.agent.shutdown().cancel();
        rest().await;
        for (i, p) in peers.iter().enumerate() {
            check(p.closed() == (i >= busy), "a connection that waits for input ends at once when the agent is shut down");
        }
        for h in &h {
            check(h.is_finished() == (busy == 0), "an agent returns when, and only when, every open connection has ended");
        }
        sleep(Duration::from_millis(100)).await;
        for h in h {
            check(h.is_finished(), "an agent returns when every open connection has ended");
            w.returned(h).await;
        }
        for (i, p) in peers.iter().enumerate() {
            let mut want = vec![welcome(), Want::Ack(1, 1, echo("m"))];
            if i < busy {
                want.push(Want::Ack(1, 2, echo("m")));
            }
            sent_bytes(&p.written(), &want);
            check(p.closed(), "an agent returns after every connection has ended");
        }
        cover(busy as u32);
    });
}
/// many connections that are all open at once, with or without pauses between their dials
pub fn c30_many() {
    let w = World::new(&Config::default(), choose(4) as u64);
    w.rt.block_on(async {
        let h = w.serve();
        rest().await;
        let n = [17, 40, 150][choose(3)];
        let pauses = any_bool();
        let mut peers = vec![];
        for _ in 0..n {
            let p = dial();
            p.push(&hello());
            if pauses {
                rest().await;
            }
            peers.push(p);
        }
        sleep(Duration::from_secs(1)).await;
        for p in peers.iter().rev() {
            p.push(&whole_notify(1, "m"));
        }
        sleep(Duration::from_secs(1)).await;
        for p in &peers {
            sent_bytes(&p.written(), &[welcome(), Want::Ack(1, 1, echo("m"))]);
            check(!p.closed(), "a connection stays open");
        }
        check(!h.is_finished(), "an agent goes on until it is shut down");
        w.agent.shutdown().cancel();
        w.returned(h).await;
        check(peers.iter().all(|p| p.closed()), "an agent returns after every connection has ended");
        cover(pauses as u32);
    });
}
pub fn c30_accepts() {
    accepts(2, true);
}
pub fn c30_accepts_4() {
    accepts(4, false);
}

/// one connection at the time of the shutdown
fn open_one(kind: usize, w: &World) -> Peer {
    let p = dial();
    match kind {
        0 => {}
        1 => p.push(&hello()),
        2 => p.push(&hello()[..7]),
        3 => {
            // busy for 20 ms
            p.push(&hello());
            w.log.borrow_mut().plan.push_back(Act(Wait::Ms(20), Ok(echo("m"))));
            p.push(&whole_notify(1, "m"));
        }
        4 => {
            p.push(&hello());
            p.end();
        }
        5 => {
            w.log.borrow_mut().makes.push_back((Wait::Ms(30), None));
            p.push(&hello());
        }
        6 => {
            // ends in a disconnect
            p.push(&whole_notify(1, "m"));
        }
        _ => {
            // takes no more than a part of the reply
            p.room(9);
            p.push(&hello());
        }
    }
    p
}

/// shutdown with connections in any two states
pub fn c30_shutdown() {
    let w = World::new(&Config::default(), 1 + choose(2) as u64);
    w.rt.block_on(async {
        let h = w.serve();
        let kinds = [choose(8), choose(8)];
        let mut peers = vec![];
        for k in kinds {
            peers.push(open_one(k, &w));
            rest().await;
        }
        check(waiting() == 0, "every connection is accepted");
        check(!h.is_finished(), "an agent goes on until it is shut down");
        let start = tokio::time::Instant::now();
        w.agent.shutdown().cancel();
        // too late
        let late = dial();
        late.push(&hello());
        rest().await;
        for (p, k) in peers.iter().zip(kinds) {
            let busy = matches!(k, 3 | 5 | 7);
            check(p.closed() != busy, "a connection that waits for input ends at once when the agent is shut down");
        }
        let busy = kinds.iter().any(|k| matches!(k, 3 | 5 | 7));
        check(busy != h.is_finished(), "an agent returns when, and only when, every open connection has ended");
        sleep(Duration::from_millis(100)).await;
        for (p, k) in peers.iter().zip(kinds) {
            if k == 7 {
                check(!h.is_finished() && !p.closed(), "an agent returns only when every open connection has ended");
                p.room(usize::MAX);
                rest().await;
                check(p.closed(), "a connection ends when it has finished what it was doing");
            }
        }
        rest().await;
        check(h.is_finished(), "an agent returns when every open connection has ended");
        w.returned(h).await;
        check(late.written().is_empty(), "no connection is served after the shutdown");
        check(start.elapsed() < Duration::from_secs(1), "an agent returns promptly");
        for (p, k) in peers.iter().zip(kinds) {
            check(p.closed(), "an agent returns after every connection has ended");
            match k {
                0 | 2 => check(p.written().is_empty(), "nothing is sent where nothing is due"),
                1 | 4 | 5 | 7 => sent_bytes(&p.written(), &[welcome()]),
                3 => sent_bytes(&p.written(), &[welcome(), Want::Ack(1, 1, echo("m"))]),
                _ => sent_bytes(&p.written(), &[Want::Disconnect(4)]),
            }
        }
        cover(kinds[0] as u32);
    });
}

/// Accepting fails again and again: what is open goes on, and shutdown still works.
pub fn c30_failing() {
    let w = World::new(&Config::default(), 1);
    w.rt.block_on(async {
        let h = w.serve();
        let p = dial();
        p.push(&hello());
        rest().await;
        let e = any_u8() as i32;
        assume(e >= 1 && e <= 133 && e != 11);
        for _ in 0..200 {
            fail_accept(e);
        }
        let soon = any_bool();
        if soon {
            rest().await;
        } else {
            sleep(Duration::from_secs(2)).await;
        }
        let id = any_u64();
        assume(id < 0xf0);
        p.push(&fragment(id, 1, true, vec![msg("m")]));
        rest().await;
        sent_bytes(&p.written(), &[welcome(), Want::Ack(id, 1, echo("m"))]);
        check(!h.is_finished(), "an agent goes on when it cannot accept connections");
        let start = tokio::time::Instant::now();
        w.agent.shutdown().cancel();
        w.returned(h).await;
        check(start.elapsed() < Duration::from_secs(1), "an agent returns promptly");
        check(p.closed(), "an agent returns after every connection has ended");
        cover(soon as u32);
    });
}

/// shutdown before anything is served
pub fn c30_idle() {
    let w = World::new(&Config::default(), choose(16) as u64);
    w.rt.block_on(async {
        let how = choose(4);
        let p = (how & 1 == 1).then(|| {
            let p = dial();
            p.push(&hello());
            p
        });
        let early = how & 2 == 2;
        if early {
            w.agent.shutdown().cancel();
        }
        let h = w.serve();
        rest().await;
        check(h.is_finished() == early, "an agent returns when it is shut down");
        w.agent.shutdown().cancel();
        w.returned(h).await;
        if let Some(p) = p {
            // accepted and ended, or never accepted
            check(p.closed() || waiting() == 1, "every connection that was accepted is ended");
            if early {
                check(p.written().is_empty() || p.closed(), "whole");
            } else {
                sent_bytes(&p.written(), &[welcome()]);
            }
        }
        cover(how as u32);
    });
}

// --------------------------------------------------------------------------- C22

/// Shutdown after any number of turns of the scheduler.
fn turns(n: usize, seeds: usize) {
    let w = World::new(&Config::default(), choose(seeds) as u64);
    w.rt.block_on(async {
        let h = w.serve();
        let slow = any_bool();
        let peers = [dial(), dial()];
        for p in &peers {
            p.push(&hello());
            p.push(&whole_notify(1, if slow { "slow" } else { "m" }));
            p.push(&whole_notify(2, "m"));
        }
        if any_bool() {
            peers[0].room(25);
        }
        let k = choose(n);
        for _ in 0..k {
            tokio::task::yield_now().await;
        }
        w.agent.shutdown().cancel();
        rest().await;
        for p in &peers {
            p.room(usize::MAX);
        }
        w.returned(h).await;
        let mut acks = 0;
        let want = [
            hello_reply_of(1024),
            spec::encode(&crate::gen::ack(1, 1, echo(if slow { "slow" } else { "m" }))),
            spec::encode(&crate::gen::ack(1, 2, echo("m"))),
        ];
        for p in &peers {
            let b = p.written();
            let Some(f) = frames(&b) else {
                check(false, "only whole frames are sent");
                return;
            };
            check(f.len() <= 3, "nothing but the replies is sent");
            for (x, e) in f.iter().zip(&want) {
                check(x[..] == e[4..], "the replies are sent in order and whole");
            }
            acks += f.len().saturating_sub(1);
            check(p.closed() || waiting() > 0, "every connection has ended");
        }
        let l = w.log.borrow();
        check(l.calls.len() == l.finished, "every call that was started came to its end");
        check(l.calls.len() == acks, "every notify that was taken up is acknowledged");
        observe(acks as u64);
        cover(acks as u32);
    });
}
fn hello_reply_of(_: u32) -> Vec<u8> {
    hello_reply(vec![])
}
pub fn c22_agent() {
    turns(16, 2);
}
pub fn c22_agent_seeds() {
    turns(20, 16);
}

// --------------------------------------------------------------------------- C23

/// One connection goes on as if it were alone, whatever another one does; and so does the agent.
fn beside(order: bool) {
    let w = World::new(&Config { caps: vec![Capability::Fragmentation, Capability::Async], ..Default::default() }, 1);
    w.rt.block_on(async {
        let h = w.serve();
        let kind = choose(KINDS_OF_OTHERS);
        let (parts, want) = quiet();
        let other = other(kind);
        let how = choose(3);
        let (p, o) = if any_bool() { (dial(), dial()) } else { let o = dial(); (dial(), o) };
        let (mut i, mut j) = (0, 0);
        while i < parts.len() || j <= other.len() {
            let first = if order { any_bool() } else { i <= j };
            if i < parts.len() && (first || j > other.len()) {
                p.push(&parts[i]);
                i += 1;
            } else if j < other.len() {
                o.push(&other[j]);
                j += 1;
            } else if j == other.len() {
                match how {
                    0 => {}
                    1 => o.end(),
                    _ => o.reset(),
                }
                j += 1;
            }
            rest().await;
        }
        sent_bytes(&p.written(), &want);
        check(!p.closed(), "a connection goes on whatever happens to another");
        check(!h.is_finished(), "an agent goes on whatever happens on a connection");
        if how > 0 && kind != 10 && kind != 11 {
            check(o.closed(), "a connection whose stream ended is closed");
        }
        // another one is served as well
        let q = dial();
        q.push(&hello());
        q.push(&whole_notify(1, "q9"));
        rest().await;
        sent_bytes(&q.written(), &[welcome(), Want::Ack(1, 1, echo("q9"))]);
        let log = w.log.borrow();
        let mine: Vec<_> = log.calls.iter().filter(|c| c.1.first().is_some_and(|m| m.name.starts_with('q'))).collect();
        check(mine.len() == 3, "a connection hands over its own messages, whatever happens on another");
        check(mine[0].1 == [msg("q1"), msg("q2")] && mine[1].1 == [msg("q3")], "a connection hands over its own messages");
        check(mine[0].0 == mine[1].0 && mine[2].0 != mine[0].0, "a connection uses a service of its own");
        drop(log);
        cover(kind as u32);
        observe(o.written().len() as u64);
    });
}
pub fn c23_agent() {
    beside(false);
}
pub fn c23_agent_orders() {
    beside(true);
}

// --------------------------------------------------------------------------- C35

/// a service or maker that panics on one of three connections
pub fn c35_panics() {
    let w = World::new(&Config::default(), choose(2) as u64);
    w.rt.block_on(async {
        let h = w.serve();
        rest().await;
        let n = 1 + choose(2) as u64;
        let before = dial();
        before.push(&hello());
        before.push(&whole_notify(1, "m"));
        rest().await;
        let mut crashed = vec![];
        for _ in 0..n {
            let p = dial();
            let kind = choose(8);
            if choose(2) == 1 && kind > 3 {
                // once it has been served
                p.push(&hello());
                p.push(&whole_notify(1, "m"));
                rest().await;
            }
            {
                let mut l = w.log.borrow_mut();
                match kind {
                    0 => l.maker_gates.push_back((Wait::Panic, None)),
                    1 => l.makes.push_back((Wait::Panic, Some("".into()))),
                    2 => l.makes.push_back((Wait::Panic, None)),
                    3 => l.makes.push_back((Wait::LatePanic, None)),
                    4 => l.gates.push_back((Wait::Panic, None)),
                    5 => l.plan.push_back(Act(Wait::Panic, Err("".into()))),
                    6 => l.plan.push_back(Act(Wait::Panic, Ok(vec![]))),
                    _ => l.plan.push_back(Act(Wait::LatePanic, Ok(vec![]))),
                }
            }
            let served = !p.written().is_empty();
            if !served {
                p.push(&hello());
            }
            p.push(&whole_notify(2, "m"));
            p.push(&whole_notify(3, "m"));
            rest().await;
            cover(kind as u32);
            crashed.push((p, kind, served));
        }
        // whether or not the panic is still to come
        if any_bool() {
            sleep(Duration::from_millis(50)).await;
        }
        check(!h.is_finished(), "an agent goes on when a service panics");
        let after = dial();
        after.push(&hello());
        after.push(&whole_notify(1, "m"));
        before.push(&whole_notify(2, "m"));
        sleep(Duration::from_millis(100)).await;
        check(!h.is_finished(), "an agent goes on when a service panics");
        sent_bytes(&before.written(), &[welcome(), Want::Ack(1, 1, echo("m")), Want::Ack(1, 2, echo("m"))]);
        sent_bytes(&after.written(), &[welcome(), Want::Ack(1, 1, echo("m"))]);
        check(!before.closed() && !after.closed(), "the other connections stay open");
        for (p, kind, served) in &crashed {
            check(p.closed(), "a connection ends when its service panics");
            let b = p.written();
            let Some(all) = frames(&b) else { return check(false, "whole frames are sent") };
            let mut want = vec![];
            if *served || *kind > 3 {
                want.push(welcome());
            }
            if *served {
                want.push(Want::Ack(1, 1, echo("m")));
            }
            // without a service the hello may be answered or not
            if *kind < 4 && all.first().map_or(false, |f| f[0] == spec::T_AGENT_HELLO) {
                want.push(welcome());
            }
            // a disconnect explains the end or not
            if all.len() > want.len() {
                want.push(Want::Refusal);
            }
            sent_bytes(&b, &want);
        }
        w.agent.shutdown().cancel();
        rest().await;
        check(h.is_finished(), "an agent returns when every open connection has ended");
        w.returned(h).await;
        check(before.closed() && after.closed(), "an agent returns after every connection has ended");
    });
}

// --------------------------------------------------------------------------- C36

/// a whole agent of which everything is traced
pub fn c36_agent() {
    let w = World::new(&Config::default(), choose(2) as u64);
    let _t = crate::trace::traced(true);
    w.rt.block_on(async {
        let h = w.serve();
        rest().await;
        let fails = any_bool();
        if fails {
            fail_accept(EMFILE);
        }
        let (p, q) = (dial(), dial());
        p.push(&hello());
        p.push(&whole_notify(1, "m"));
        q.push(&hello());
        let bad = choose(3);
        match bad {
            0 => q.push(&whole_notify(1, "fail")),
            1 => q.push(&[0, 0, 0, 1, 77]),
            _ => q.end(),
        }
        sleep(Duration::from_secs(1)).await;
        check(!h.is_finished(), "an agent goes on until it is shut down");
        sent_bytes(&p.written(), &[welcome(), Want::Ack(1, 1, echo("m"))]);
        match bad {
            0 => sent_bytes(&q.written(), &[welcome(), Want::Because(99, "failed".into())]),
            1 => sent_bytes(&q.written(), &[welcome(), Want::Refusal]),
            _ => sent_bytes(&q.written(), &[welcome()]),
        }
        check(q.closed(), "a connection ends with a disconnect or the end of its input");
        w.agent.shutdown().cancel();
        w.returned(h).await;
        check(p.closed(), "an agent returns after every connection has ended");
        cover(bad as u32);
    });
}
