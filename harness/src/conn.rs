//! Connections: handshake, notify and ack, fragments, errors, shutdown (C09, C12 to C23).
use crate::codec::read;
use crate::gen::*;
use crate::io::*;
use crate::rt::*;
use crate::spec::{self, Verdict};
use haproxy_spoa::{Connection, Runtime};
use haproxy_spop::{
    Action, AgentAck, Capability, Error as Status, Frame, Framer, HaproxyHello, HaproxyNotify, Message,
    Scope, Typed, Version,
};
use std::cell::RefCell;
use std::collections::VecDeque;
use std::future::Future;
use std::pin::{pin, Pin};
use std::rc::Rc;
use std::sync::Arc;
use std::task::{Context, Poll, Waker};
use std::time::Duration;
use tokio_util::sync::CancellationToken;

// --------------------------------------------------------------------------- the service

/// what a service does before it comes to its result
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Wait {
    No,
    /// waits this many times, to be polled again at once
    Polls(usize),
    Ms(u64),
    Forever,
    /// a panic, as far as everything but the hook is concerned
    Panic,
    LatePanic,
}
pub fn unwind() -> ! {
    std::panic::resume_unwind(Box::new(()))
}
/// what the service does with one call
#[derive(Clone, Debug)]
pub struct Act(pub Wait, pub Result<Vec<Action>, String>);

pub fn reply(a: Vec<Action>) -> Act {
    Act(Wait::No, Ok(a))
}
pub fn slow(n: usize, a: Vec<Action>) -> Act {
    Act(Wait::Polls(n), Ok(a))
}

async fn wait(w: Wait) {
    match w {
        Wait::No => {}
        Wait::Polls(n) => {
            for _ in 0..n {
                Yield(false).await;
            }
        }
        Wait::Ms(ms) => tokio::time::sleep(Duration::from_millis(ms)).await,
        Wait::Forever => std::future::pending().await,
        Wait::Panic => unwind(),
        Wait::LatePanic => {
            tokio::time::sleep(Duration::from_millis(20)).await;
            unwind()
        }
    }
}

#[derive(Default)]
pub struct Log {
    /// services made, with the state each was made from
    pub made: Vec<u32>,
    /// what happens when a service is made; nothing special when empty
    pub makes: VecDeque<(Wait, Option<String>)>,
    /// the messages of each call, and which service was called
    pub calls: Vec<(usize, Vec<Message>)>,
    /// calls that came to an end
    pub finished: usize,
    /// what happens to the calls; when empty, it goes by the name of the first message
    pub plan: VecDeque<Act>,
    /// what happens when a service is asked whether it is ready; it is at once when empty
    pub gates: VecDeque<(Wait, Option<String>)>,
    /// the same for the maker
    pub maker_gates: VecDeque<(Wait, Option<String>)>,
    /// calls of a service or a maker that had not said it was ready
    pub unready: usize,
    /// services or makers asked again after they had failed
    pub asked_after_failure: usize,
}

/// Readiness as tower has it: to be asked for before each call, and the call may use it up.
#[derive(Default)]
struct Gate {
    opening: Option<Pin<Box<dyn Future<Output = Result<(), String>>>>>,
    open: bool,
    failed: bool,
}
impl Gate {
    fn poll(&mut self, cx: &mut Context<'_>, log: &Shared, next: fn(&mut Log) -> Option<(Wait, Option<String>)>) -> Poll<Result<(), String>> {
        if self.failed {
            log.borrow_mut().asked_after_failure += 1;
        }
        if self.open {
            return Poll::Ready(Ok(()));
        }
        if self.opening.is_none() {
            let Some((w, fail)) = next(&mut log.borrow_mut()) else {
                self.open = true;
                return Poll::Ready(Ok(()));
            };
            self.opening = Some(Box::pin(async move {
                wait(w).await;
                fail.map_or(Ok(()), Err)
            }));
        }
        // taken out, for it may panic
        let mut opening = self.opening.take().unwrap();
        let Poll::Ready(r) = opening.as_mut().poll(cx) else {
            self.opening = Some(opening);
            return Poll::Pending;
        };
        self.open = r.is_ok();
        self.failed = r.is_err();
        Poll::Ready(r)
    }
    fn enter(&mut self, log: &Shared) {
        if !std::mem::take(&mut self.open) {
            log.borrow_mut().unready += 1;
        }
    }
}
pub type Shared = Rc<RefCell<Log>>;

#[derive(Debug, Clone)]
pub struct MakeFailed(pub String);
impl std::fmt::Display for MakeFailed {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for MakeFailed {}

pub struct Maker(pub Shared, Gate);
impl Maker {
    pub fn new(log: &Shared) -> Maker {
        Maker(log.clone(), Gate::default())
    }
}
impl tower::Service<u32> for Maker {
    type Response = Svc;
    type Error = MakeFailed;
    type Future = Pin<Box<dyn Future<Output = Result<Svc, MakeFailed>>>>;
    fn poll_ready(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), MakeFailed>> {
        self.1.poll(cx, &self.0, |l| l.maker_gates.pop_front()).map_err(MakeFailed)
    }
    fn call(&mut self, state: u32) -> Self::Future {
        self.1.enter(&self.0);
        let mut l = self.0.borrow_mut();
        let n = l.made.len();
        l.made.push(state);
        let (w, fail) = l.makes.pop_front().unwrap_or((Wait::No, None));
        let log = self.0.clone();
        drop(l);
        if w == Wait::Panic && fail.is_some() {
            unwind();
        }
        Box::pin(async move {
            wait(w).await;
            match fail {
                Some(t) => Err(MakeFailed(t)),
                None => Ok(Svc(log, n, Gate::default())),
            }
        })
    }
}

/// the reply to a message of this name, when there is no plan
pub fn echo(name: &str) -> Vec<Action> {
    vec![Action::SetVar { scope: Scope::Session, name: name.into(), value: Typed::Null }]
}

pub struct Svc(Shared, usize, Gate);
impl tower::Service<Vec<Message>> for Svc {
    type Response = Vec<Action>;
    type Error = String;
    type Future = Pin<Box<dyn Future<Output = Result<Vec<Action>, String>>>>;
    fn poll_ready(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), String>> {
        self.2.poll(cx, &self.0, |l| l.gates.pop_front())
    }
    fn call(&mut self, messages: Vec<Message>) -> Self::Future {
        self.2.enter(&self.0);
        let mut l = self.0.borrow_mut();
        let act = match l.plan.pop_front() {
            Some(act) => act,
            None => match messages.first().map(|m| m.name.as_str()) {
                Some("fail") => Act(Wait::No, Err("failed".into())),
                Some("never") => Act(Wait::Forever, Ok(vec![])),
                Some("slow") => Act(Wait::Polls(2), Ok(echo("slow"))),
                Some(name) => reply(echo(name)),
                None => reply(vec![]),
            },
        };
        l.calls.push((self.1, messages));
        drop(l);
        if act.0 == Wait::Panic && act.1.is_err() {
            unwind();
        }
        let log = self.0.clone();
        Box::pin(async move {
            wait(act.0).await;
            log.borrow_mut().finished += 1;
            act.1
        })
    }
}

/// waits once
struct Yield(bool);
impl Future for Yield {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if self.0 {
            return Poll::Ready(());
        }
        self.0 = true;
        cx.waker().wake_by_ref();
        Poll::Pending
    }
}

// --------------------------------------------------------------------------- the agent

#[derive(Clone)]
pub struct Config {
    pub versions: Vec<Version>,
    pub max_frame_size: usize,
    pub caps: Vec<Capability>,
    pub process_ms: u64,
}
impl Default for Config {
    fn default() -> Self {
        Config { versions: vec![Version::V2_0], max_frame_size: 1024, caps: vec![], process_ms: 15000 }
    }
}
impl Config {
    pub fn fragmenting() -> Self {
        Config { caps: vec![Capability::Fragmentation], ..Default::default() }
    }
}

pub struct Agent {
    pub log: Shared,
    pub runtime: Arc<Runtime<Maker, u32>>,
    pub rt: tokio::runtime::Runtime,
}

pub const STATE: u32 = 77;
pub type Live = Pin<Box<dyn Future<Output = Result<(), haproxy_spoa::Error>>>>;

impl Agent {
    pub fn new(c: &Config) -> Agent {
        Agent::seeded(c, 1)
    }
    pub fn seeded(c: &Config, seed: u64) -> Agent {
        warm();
        let log: Shared = Default::default();
        let runtime = Arc::new(Runtime::new(
            c.versions.clone(),
            c.caps.clone(),
            c.max_frame_size,
            Duration::from_millis(c.process_ms),
            Maker::new(&log),
            STATE,
        ));
        let rt = tokio::runtime::Builder::new_current_thread()
            .enable_time()
            .start_paused(true)
            .rng_seed(tokio::runtime::RngSeed::from_bytes(&seed.to_le_bytes()))
            .build()
            .unwrap();
        Agent { log, runtime, rt }
    }
    pub fn plan(&self, acts: Vec<Act>) {
        self.log.borrow_mut().plan = acts.into();
    }
    pub fn connect(&self, pipe: &Pipe) -> Connection<Pipe, Maker, u32> {
        Connection::new(self.runtime.clone(), pipe.clone(), CancellationToken::new())
    }
    /// a connection being served, and the token that ends it
    pub fn live(&self, pipe: &Pipe) -> (Live, CancellationToken) {
        let tok = CancellationToken::new();
        (self.live_with(pipe, tok.clone()), tok)
    }
    pub fn live_with(&self, pipe: &Pipe, tok: CancellationToken) -> Live {
        let mut c = Connection::new(self.runtime.clone(), pipe.clone(), tok);
        Box::pin(async move { c.serve().await })
    }
    /// Poll until it ends or waits. Every poll is within the runtime, from which `select!` has its
    /// randomness, and which was given a seed.
    pub fn settle(&self, l: &mut Live) -> Option<Result<(), haproxy_spoa::Error>> {
        let bell = Bell::new();
        let waker = Waker::from(bell.clone());
        loop {
            let before = bell.rung();
            if let Poll::Ready(v) = self.within(l, &waker) {
                return Some(v);
            }
            if bell.rung() == before {
                return None;
            }
        }
    }
    /// poll once
    pub fn poll(&self, l: &mut Live) -> Option<Result<(), haproxy_spoa::Error>> {
        match self.within(l, Waker::noop()) {
            Poll::Ready(v) => Some(v),
            Poll::Pending => None,
        }
    }
    fn within(&self, l: &mut Live, w: &Waker) -> Poll<Result<(), haproxy_spoa::Error>> {
        self.rt.block_on(std::future::poll_fn(|_| Poll::Ready(l.as_mut().poll(&mut Context::from_waker(w)))))
    }
    /// Serve a connection, the clock running ahead whenever nothing else can happen, until it
    /// ends or an hour has gone by: whether it ended, and after how many milliseconds.
    pub fn talk_in_time(&self, pipe: &Pipe) -> (bool, u64) {
        let mut c = self.connect(pipe);
        self.rt.block_on(async {
            let t = tokio::time::Instant::now();
            let r = tokio::time::timeout(Duration::from_secs(3600), c.serve()).await;
            (r.is_ok(), t.elapsed().as_millis() as u64)
        })
    }
    /// Serve a connection until it ends or waits for input. True: it ended.
    pub fn talk(&self, pipe: &Pipe) -> bool {
        let mut c = self.connect(pipe);
        let _g = self.rt.enter();
        drive(pipe, c.serve()).is_some()
    }
    pub fn calls(&self) -> Vec<Vec<Message>> {
        self.log.borrow().calls.iter().map(|c| c.1.clone()).collect()
    }
    pub fn made(&self) -> usize {
        self.log.borrow().made.len()
    }
}

// --------------------------------------------------------------------------- what is sent

/// a frame the agent has to send
#[derive(Clone, Debug)]
pub enum Want {
    Hello { version: Version, max_frame_size: u32, caps: Vec<Capability> },
    Ack(u64, u64, Vec<Action>),
    /// with exactly this status
    Disconnect(u32),
    /// with this status and a text that holds this one
    Because(u32, String),
    /// with any status but 0
    Refusal,
}

fn one_frame<'a>(b: &mut &'a [u8]) -> Option<&'a [u8]> {
    if b.len() < 4 {
        return None;
    }
    let n = u32::from_be_bytes([b[0], b[1], b[2], b[3]]) as usize;
    if b.len() - 4 < n {
        return None;
    }
    let f = &b[4..4 + n];
    *b = &b[4 + n..];
    Some(f)
}

fn holds(text: &str, part: &str) -> bool {
    text == part || text.contains(part)
}

/// what was sent is exactly these frames
pub fn sent(pipe: &Pipe, want: &[Want]) {
    sent_bytes(&pipe.written(), want)
}
pub fn sent_bytes(w: &[u8], want: &[Want]) {
    let mut b = w;
    for x in want {
        if let Want::Ack(s, f, actions) = x {
            let e = spec::encode(&ack(*s, *f, actions.clone()));
            if b.len() >= e.len() && b[..e.len()] == e[..] {
                b = &b[e.len()..];
                observe(200);
                continue;
            }
            check(false, "the ack of this notify, with its identifiers and the service's actions, is sent");
            return;
        }
        let Some(f) = one_frame(&mut b) else {
            check(false, "a frame is sent where one is due");
            return;
        };
        let f = match spec::parse(f) {
            Verdict::Frame(f) => f,
            _ => {
                check(false, "what is sent is a well-formed frame");
                return;
            }
        };
        observe(spec::type_code(&f) as u64);
        match (x, f) {
            (Want::Hello { version, max_frame_size, caps }, Frame::AgentHello(h)) => {
                check(h.version == *version, "the version is the highest common one");
                check(h.max_frame_size == *max_frame_size, "the frame size is the smaller one");
                for c in caps {
                    check(h.capabilities.contains(c), "every common capability is announced");
                }
                check(h.capabilities.len() == caps.len(), "only common capabilities are announced, once");
            }
            (Want::Disconnect(st), Frame::AgentDisconnect(d)) => {
                check(d.status_code == *st, "the status of the disconnect");
            }
            (Want::Because(st, t), Frame::AgentDisconnect(d)) => {
                check(d.status_code == *st, "the status of the disconnect");
                check(holds(&d.message, t), "the text of the disconnect");
            }
            (Want::Refusal, Frame::AgentDisconnect(d)) => {
                check(d.status_code != 0, "the status of a refusal is not 0");
            }
            _ => check(false, "the frame sent is of the kind that is due"),
        }
    }
    check(b.is_empty(), "nothing else is sent");
}

// --------------------------------------------------------------------------- what is received

pub fn hello_with(caps: Vec<Capability>) -> HaproxyHello {
    HaproxyHello {
        supported_versions: vec![Version::V2_0],
        max_frame_size: 1000,
        capabilities: caps,
        healthcheck: None,
        engine_id: None,
    }
}
pub fn hello() -> Vec<u8> {
    spec::encode(&Frame::HaproxyHello(hello_with(vec![])))
}
pub fn hello_fragmenting() -> Vec<u8> {
    spec::encode(&Frame::HaproxyHello(hello_with(vec![Capability::Fragmentation])))
}
pub fn welcome() -> Want {
    Want::Hello { version: Version::V2_0, max_frame_size: 1000, caps: vec![] }
}
pub fn welcome_fragmenting() -> Want {
    Want::Hello { version: Version::V2_0, max_frame_size: 1000, caps: vec![Capability::Fragmentation] }
}
pub fn msg(name: &str) -> Message {
    Message { name: name.into(), args: vec![] }
}
pub fn fragment(s: u64, f: u64, last: bool, messages: Vec<Message>) -> Vec<u8> {
    spec::encode(&Frame::HaproxyNotify(HaproxyNotify { fragmented: !last, stream_id: s, frame_id: f, messages }))
}
pub fn set(name: &str, v: Typed) -> Action {
    Action::SetVar { scope: Scope::Session, name: name.into(), value: v }
}

// --------------------------------------------------------------------------- C12

fn versions(n: usize) -> Vec<Version> {
    (0..n).map(|_| digit_version()).collect()
}

fn handshake(agent_versions: Vec<Version>, peer_versions: Vec<Version>) {
    let c = Config { versions: agent_versions.clone(), ..Default::default() };
    let a = Agent::new(&c);
    let h = HaproxyHello { supported_versions: peer_versions.clone(), ..hello_with(vec![]) };
    let mut input = spec::encode(&Frame::HaproxyHello(h));
    input.extend_from_slice(&fragment(1, 2, true, vec![msg("m")]));
    let pipe = Pipe::new(input);
    let ended = a.talk(&pipe);
    // the highest that is in both
    let mut best: Option<Version> = None;
    for p in &peer_versions {
        for m in &agent_versions {
            if (p.major == m.major) & (p.minor == m.minor) {
                let higher = match best {
                    None => true,
                    Some(b) => (p.major as u32 * 256 + p.minor as u32) > (b.major as u32 * 256 + b.minor as u32),
                };
                if higher {
                    best = Some(*p);
                }
            }
        }
    }
    match best {
        Some(version) => {
            cover(0);
            sent(&pipe, &[Want::Hello { version, max_frame_size: 1000, caps: vec![] }, Want::Ack(1, 2, echo("m"))]);
            check(!ended, "the connection goes on after the handshake");
            check(a.made() == 1, "one service is made");
        }
        None => {
            cover(1);
            sent(&pipe, &[Want::Refusal]);
            check(ended, "the connection ends when there is no common version");
            check(a.made() == 0, "no service is made when there is no common version");
            check(a.calls().is_empty(), "no service is used when there is no common version");
        }
    }
}

/// versions of arbitrary digits on both sides
pub fn c12_digits() {
    handshake(versions(1), versions(1 + choose(2)));
}
pub fn c12_digits_2() {
    handshake(versions(2), versions(1));
}

const MENU: [Version; 5] =
    [Version::new(1, 9), Version::new(1, 10), Version::new(2, 0), Version::new(10, 0), Version::new(9, 255)];

/// `n` entries of the menu, in any order and with repetitions
fn picks(n: usize, menu: usize) -> Vec<Version> {
    (0..n).map(|_| MENU[choose(menu)]).collect()
}

/// lists of up to three versions, in any order and with repetitions
pub fn c12_lists() {
    let n = choose(3);
    handshake(picks(1 + choose(2), 4), picks(1 + n, 4));
}
pub fn c12_lists_3() {
    let n = 1 + choose(3);
    handshake(picks(n, 5), picks(3, 5));
}

// --------------------------------------------------------------------------- C13

fn all_caps(k: usize) -> Vec<Capability> {
    use Capability::*;
    [Fragmentation, Pipelining, Async].into_iter().enumerate().filter(|(i, _)| k >> i & 1 == 1).map(|(_, c)| c).collect()
}

/// frame sizes of any value on both sides
pub fn c13_sizes() {
    // the agent sets aside a buffer of this size
    let mine = [256, 1000, 65535 + 2, (1 << 24) + 1, (1usize << 32) - 1, (1usize << 32) + 300][choose(6)];
    let theirs = any_u32();
    let a = Agent::new(&Config { max_frame_size: mine, ..Default::default() });
    let h = HaproxyHello { max_frame_size: theirs, ..hello_with(vec![]) };
    let pipe = Pipe::new(spec::encode(&Frame::HaproxyHello(h)));
    let ended = a.talk(&pipe);
    let smaller = if (theirs as u64) < mine as u64 { theirs } else { mine as u32 };
    observe(smaller as u64);
    sent(&pipe, &[Want::Hello { version: Version::V2_0, max_frame_size: smaller, caps: vec![] }]);
    check(!ended, "the connection goes on after the handshake");
}

/// any capabilities on both sides, in any order
pub fn c13_caps() {
    let mine = all_caps(choose(8));
    let theirs = if any_bool() {
        cover(1);
        caps()
    } else {
        // named twice
        let mut c = all_caps(choose(8));
        if let Some(x) = c.first().copied() {
            c.push(x);
        }
        c
    };
    let a = Agent::new(&Config { caps: mine.clone(), ..Default::default() });
    let mut input = spec::encode(&Frame::HaproxyHello(hello_with(theirs.clone())));
    input.extend_from_slice(&fragment(1, 2, true, vec![msg("m")]));
    let pipe = Pipe::new(input);
    let ended = a.talk(&pipe);
    let both = mine.iter().copied().filter(|c| theirs.contains(c)).collect();
    sent(
        &pipe,
        &[Want::Hello { version: Version::V2_0, max_frame_size: 1000, caps: both }, Want::Ack(1, 2, echo("m"))],
    );
    check(!ended, "the connection goes on after the handshake");
}

/// what only one side announced is not acted upon: fragments are joined when both named
/// fragmentation and refused otherwise, acks come at once and in order in any case
pub fn c13_acted() {
    let mine = all_caps(choose(8));
    let theirs = all_caps(choose(8));
    let a = Agent::new(&Config { caps: mine.clone(), ..Default::default() });
    let mut input = spec::encode(&Frame::HaproxyHello(hello_with(theirs.clone())));
    for (s, f, last) in [(1, 1, true), (2, 1, true), (3, 1, false), (3, 1, true)] {
        input.extend_from_slice(&fragment(s, f, last, vec![msg("m")]));
    }
    let pipe = Pipe::new(input);
    a.plan(vec![slow(2, vec![]), reply(vec![]), reply(vec![])]);
    let ended = a.talk(&pipe);
    let both: Vec<_> = mine.iter().copied().filter(|c| theirs.contains(c)).collect();
    let frag = both.contains(&Capability::Fragmentation);
    let mut want = vec![
        Want::Hello { version: Version::V2_0, max_frame_size: 1000, caps: both },
        Want::Ack(1, 1, vec![]),
        Want::Ack(2, 1, vec![]),
    ];
    if frag {
        want.push(Want::Ack(3, 1, vec![]));
    } else {
        want.push(Want::Disconnect(Status::FragmentNotSupported as u32));
    }
    sent(&pipe, &want);
    check(ended != frag, "the connection ends exactly when a fragment was refused");
    cover(frag as u32);
}

// --------------------------------------------------------------------------- C14

/// health checks and normal hellos, with anything after them
pub fn c14_healthcheck() {
    let mine = all_caps(choose(8));
    let health = [None, Some(false), Some(true)][choose(3)];
    let h = HaproxyHello {
        healthcheck: health,
        capabilities: all_caps(choose(8)),
        max_frame_size: [256, 1000][choose(2)],
        ..hello_with(vec![])
    };
    let a = Agent::new(&Config { caps: mine.clone(), max_frame_size: 260, ..Default::default() });
    let mut input = spec::encode(&Frame::HaproxyHello(h.clone()));
    let more = choose(4);
    match more {
        0 => {}
        1 => input.extend_from_slice(&fragment(1, 2, true, vec![msg("m")])),
        2 => input.extend_from_slice(&spec::encode(&Frame::HaproxyHello(h.clone()))),
        // not a frame
        _ => input.extend_from_slice(&[0, 0, 0, 1, any_u8()]),
    }
    let pipe = Pipe::new(input);
    let ended = a.talk(&pipe);
    let welcome = Want::Hello {
        version: Version::V2_0,
        max_frame_size: if h.max_frame_size < 260 { h.max_frame_size } else { 260 },
        caps: mine.into_iter().filter(|c| h.capabilities.contains(c)).collect(),
    };
    if health == Some(true) {
        cover(0);
        sent(&pipe, &[welcome]);
        check(ended, "the connection ends after a health check");
        check(a.made() == 0, "a health check makes no service");
        check(a.calls().is_empty(), "a health check calls no service");
    } else {
        cover(1);
        match more {
            0 => sent(&pipe, &[welcome]),
            1 => sent(&pipe, &[welcome, Want::Ack(1, 2, echo("m"))]),
            2 => sent(&pipe, &[welcome, Want::Disconnect(Status::Invalid as u32)]),
            _ => sent(&pipe, &[welcome, Want::Refusal]),
        }
        check(ended == (more > 1), "the connection goes on after a hello that is no health check");
        check(a.made() == 1, "a service is made");
        check(a.calls().len() == (more == 1) as usize, "the service is called for the notify");
    }
}

// --------------------------------------------------------------------------- C15

/// a frame of any kind with contents of its own
fn any_frame(kind: usize) -> Vec<u8> {
    let f = match kind {
        0 => Frame::HaproxyHello(hello_with(vec![])),
        1 => Frame::HaproxyNotify(HaproxyNotify {
            fragmented: any_bool(),
            stream_id: small_id(),
            frame_id: small_frame_id(),
            messages: if any_bool() { vec![msg("x")] } else { vec![] },
        }),
        2 => Frame::HaproxyDisconnect(disconnect(any_u8() as u32 & 0x7f, choose(2))),
        3 => Frame::AgentHello(agent_hello(Version::V2_0, 512)),
        4 => Frame::AgentDisconnect(disconnect(any_u8() as u32 & 0x7f, choose(2))),
        _ => Frame::AgentAck(AgentAck {
            fragmented: any_bool(),
            aborted: any_bool(),
            stream_id: small_id(),
            frame_id: small_frame_id(),
            actions: if any_bool() { vec![set("v", Typed::Null)] } else { vec![] },
        }),
    };
    spec::encode(&f)
}

/// the first frame is not a hello
pub fn c15_first() {
    let frag = any_bool();
    let a = Agent::new(&if frag { Config::fragmenting() } else { Config::default() });
    let kind = 1 + choose(5);
    let mut input = any_frame(kind);
    input.extend_from_slice(&hello());
    input.extend_from_slice(&fragment(1, 2, true, vec![msg("m")]));
    let pipe = Pipe::new(input);
    let ended = a.talk(&pipe);
    sent(&pipe, &[Want::Disconnect(Status::Invalid as u32)]);
    check(ended, "the connection ends after a frame out of order");
    check(a.made() == 0, "no service is made without a hello");
    check(a.calls().is_empty(), "no service sees a frame out of order");
    cover(kind as u32);
}

/// a frame that is neither notify nor disconnect, after up to two notifies (one of them a fragment)
pub fn c15_later() {
    let frag = any_bool();
    let a = Agent::new(&if frag { Config::fragmenting() } else { Config::default() });
    let mut input = if frag { hello_fragmenting() } else { hello() };
    let mut want = vec![if frag { welcome_fragmenting() } else { welcome() }];
    let before = choose(3);
    for i in 0..before {
        let last = !(frag && i == 1);
        input.extend_from_slice(&fragment(i as u64, 1, last, vec![msg("m")]));
        if last {
            want.push(Want::Ack(i as u64, 1, echo("m")));
        }
    }
    let acked = want.len() - 1;
    let kind = [0, 3, 4, 5][choose(4)];
    input.extend_from_slice(&any_frame(kind));
    input.extend_from_slice(&fragment(1, 1, true, vec![msg("n")]));
    want.push(Want::Disconnect(Status::Invalid as u32));
    let pipe = Pipe::new(input);
    let ended = a.talk(&pipe);
    sent(&pipe, &want);
    check(ended, "the connection ends after a frame out of order");
    check(a.calls().len() == acked, "no service sees what comes with or after a frame out of order");
    check(a.made() == 1, "one service is made");
    cover(kind as u32);
}

// --------------------------------------------------------------------------- C16

fn any_actions(n: usize) -> Vec<Action> {
    (0..n).map(|_| action(KINDS)).collect()
}

/// one notify with any identifiers
pub fn c16_ids() {
    let (s, f) = if any_bool() { (any_u64(), small_frame_id()) } else { (small_id(), any_u64()) };
    assume(f != 0);
    let a = Agent::new(&Config::default());
    let mut input = hello();
    input.extend_from_slice(&fragment(s, f, true, vec![msg("m")]));
    let pipe = Pipe::new(input);
    let ended = a.talk(&pipe);
    sent(&pipe, &[welcome(), Want::Ack(s, f, echo("m"))]);
    check(!ended, "the connection goes on after a notify");
    check(a.calls() == [vec![msg("m")]], "the service gets the messages of the notify, once");
}

/// one notify with up to two messages, answered with up to two actions
fn content(msgs: usize, acts: usize) {
    let frag = any_bool();
    let a = Agent::new(&if frag { Config::fragmenting() } else { Config::default() });
    let mut messages = vec![];
    for _ in 0..choose(msgs + 1) {
        let n = choose(3);
        messages.push(message(n, KINDS));
    }
    let actions = any_actions(choose(acts + 1));
    a.plan(vec![slow(choose(3), actions.clone())]);
    let (s, f) = if frag { (7, 8) } else { (small_id(), small_frame_id()) };
    let mut input = if frag { hello_fragmenting() } else { hello() };
    input.extend_from_slice(&fragment(s, f, true, messages.clone()));
    let pipe = Pipe::new(input);
    let ended = a.talk(&pipe);
    sent(&pipe, &[if frag { welcome_fragmenting() } else { welcome() }, Want::Ack(s, f, actions)]);
    check(!ended, "the connection goes on after a notify");
    check(a.calls() == [messages], "the service gets exactly the messages of the notify, in order, once");
    check(a.made() == 1, "one service is made");
}
pub fn c16_messages() {
    content(1, 0);
}
pub fn c16_actions() {
    content(0, 2);
}
pub fn c16_both() {
    content(1, 1);
}

/// several notifies, at once or one after the other, some slow, delivered in pieces
pub fn c16_order() {
    let frag = any_bool();
    let a = Agent::new(&if frag { Config::fragmenting() } else { Config::default() });
    let mut want = vec![if frag { welcome_fragmenting() } else { welcome() }];
    let mut input = if frag { hello_fragmenting() } else { hello() };
    let mut calls = vec![];
    let mut plan = vec![];
    let n = 1 + choose(3);
    for i in 0..n {
        // with fragments the identifiers are looked up, here they may be the same again
        let (s, f) = if frag { (choose(2) as u64, 1) } else { (small_id(), small_frame_id()) };
        let m = vec![msg(["a", "b", "c"][i])];
        input.extend_from_slice(&fragment(s, f, true, m.clone()));
        let acts = vec![set("v", Typed::Uint32(i as u32))];
        plan.push(slow(choose(2) * 2, acts.clone()));
        want.push(Want::Ack(s, f, acts));
        calls.push(m);
    }
    a.plan(plan);
    let len = input.len();
    let pipe = Pipe::new(input);
    if any_bool() {
        pipe.script(vec![Step::Give(choose(len)), Step::Pause, Step::Rest, Step::Wait]);
    }
    let ended = a.talk(&pipe);
    sent(&pipe, &want);
    check(!ended, "the connection goes on");
    check(a.calls() == calls, "every notify is handed over once, in order");
    check(a.made() == 1, "one service is made for a connection");
    cover(n as u32);
}

/// every ack is sent as soon as the service is done, without waiting for more input
pub fn c16_at_once() {
    let a = Agent::new(&Config::default());
    let pipe = Pipe::new(vec![]);
    let (mut live, _tok) = a.live(&pipe);
    let mut want = vec![];
    check(a.settle(&mut live).is_none(), "the connection waits for a hello");
    sent(&pipe, &want);
    pipe.push(&hello());
    want.push(welcome());
    check(a.settle(&mut live).is_none(), "the connection waits for a notify");
    sent(&pipe, &want);
    for i in 0..3 {
        let (s, f) = (small_id(), small_frame_id());
        pipe.push(&fragment(s, f, true, vec![msg("m")]));
        check(a.settle(&mut live).is_none(), "the connection waits for a notify");
        want.push(Want::Ack(s, f, echo("m")));
        sent(&pipe, &want);
        check(a.calls().len() == i + 1, "the service has been called");
    }
}

/// many notifies on one connection
pub fn c16_long() {
    let frag = any_bool();
    let a = Agent::new(&if frag { Config::fragmenting() } else { Config::default() });
    let mut want = vec![if frag { welcome_fragmenting() } else { welcome() }];
    let mut input = if frag { hello_fragmenting() } else { hello() };
    for i in 0..40u64 {
        input.extend_from_slice(&fragment(i / 3, 1 + i % 3, true, vec![msg("m")]));
        want.push(Want::Ack(i / 3, 1 + i % 3, echo("m")));
    }
    let pipe = Pipe::new(input);
    let ended = a.talk(&pipe);
    sent(&pipe, &want);
    check(!ended, "the connection goes on");
    check(a.calls().len() == 40, "every notify is handed over");
}

// --------------------------------------------------------------------------- C17

/// pairs of identifiers that differ in one part, swapped, or only in their high bits
const PAIRS: [(u64, u64); 6] =
    [(1, 1), (1, 2), (2, 1), ((1 << 32) + 1, 1), (1, (1 << 32) + 1), (0, 3)];

/// two pairs of any identifiers that differ
pub fn any_pairs(id: fn() -> u64) -> [(u64, u64); 2] {
    let p = [(id(), id()), (id(), id())];
    assume((p[0].0 != p[1].0) | (p[0].1 != p[1].1));
    p
}

fn fragments(n: usize, pairs: &[usize]) {
    fragments_of(n, pairs, &PAIRS)
}
fn fragments_of(n: usize, pairs: &[usize], ids: &[(u64, u64)]) {
    let a = Agent::new(&Config::fragmenting());
    let mut input = hello_fragmenting();
    let mut want = vec![welcome_fragmenting()];
    let mut calls: Vec<Vec<Message>> = vec![];
    let mut open: Vec<Vec<Message>> = vec![vec![]; ids.len()];
    for i in 0..n {
        let k = pairs[choose(pairs.len())];
        let last = any_bool();
        let (s, f) = ids[k];
        let ms: Vec<Message> = match choose(3) {
            0 => vec![],
            1 => vec![msg(["a", "b", "c", "d", "e", "f"][i])],
            _ => vec![msg(["a1", "b1", "c1", "d1", "e1", "f1"][i]), msg("z")],
        };
        input.extend_from_slice(&fragment(s, f, last, ms.clone()));
        open[k].extend(ms);
        if last {
            let all = std::mem::take(&mut open[k]);
            want.push(Want::Ack(s, f, match all.first() {
                Some(m) => echo(&m.name),
                None => vec![],
            }));
            calls.push(all);
        }
    }
    let pipe = Pipe::new(input);
    let ended = a.talk(&pipe);
    sent(&pipe, &want);
    check(!ended, "the connection goes on");
    check(a.calls() == calls, "the messages of the fragments of one notify are handed over together, in order, once");
    cover(calls.len() as u32);
}
/// up to four fragments of two notifies, interleaved
pub fn c17_fragments() {
    let other = [1, 2][choose(2)];
    fragments(3, &[0, other]);
}
pub fn c17_fragments_4() {
    let other = 1 + choose(4);
    fragments(4, &[0, other]);
}
/// identifiers of which only parts differ
pub fn c17_pairs() {
    fragments(2, &[0, 1, 2, 3, 4, 5]);
}
pub fn c17_pairs_3() {
    fragments(3, &[0, 1, 2, 3, 4, 5]);
}

/// the table by itself, with more steps
fn table(n: usize, pairs: &[usize]) {
    table_of(n, pairs, &PAIRS)
}
fn table_of(n: usize, pairs: &[usize], ids: &[(u64, u64)]) {
    let t: haproxy_spop::Reassembly<u32> = Default::default();
    let mut open: Vec<Vec<u32>> = vec![vec![]; ids.len()];
    for i in 0..n {
        let k = pairs[choose(pairs.len())];
        let last = any_bool();
        let (s, f) = ids[k];
        let v: Vec<u32> = if i % 2 == 0 { vec![i as u32, any_u32()] } else { vec![100 + i as u32] };
        open[k].extend(v.iter().copied());
        match t.reassemble(!last, s, f, v) {
            Ok(Some(all)) => {
                check(last, "nothing is handed over before the last fragment");
                check(all == open[k], "the parts are joined in order");
                open[k].clear();
                observe(all.len() as u64);
            }
            Ok(None) => check(!last, "the last fragment hands over the whole"),
            Err(_) => check(false, "fragments are accepted"),
        }
    }
    cover(n as u32);
}
pub fn c17_table() {
    table(5, &[0, 1, 2]);
}
pub fn c17_table_7() {
    table(7, &[0, 1, 2]);
}
pub fn c17_table_ids() {
    table(3, &[0, 1, 2, 3, 4, 5]);
}

/// the same with any identifiers
pub fn c17_table_any() {
    table_of(4, &[0, 1], &any_pairs(any_u64));
}
pub fn c17_any() {
    fragments_of(3, &[0, 1], &any_pairs(small_frame_id));
}

// --------------------------------------------------------------------------- C18

/// a fragment on a connection without fragmentation, after any number of whole notifies
pub fn c18_refused() {
    let mine = all_caps(choose(8));
    let theirs = all_caps(choose(8));
    assume(!(mine.contains(&Capability::Fragmentation) && theirs.contains(&Capability::Fragmentation)));
    let both: Vec<_> = mine.iter().copied().filter(|c| theirs.contains(c)).collect();
    let a = Agent::new(&Config { caps: mine, ..Default::default() });
    let mut input = spec::encode(&Frame::HaproxyHello(hello_with(theirs)));
    let mut want = vec![Want::Hello { version: Version::V2_0, max_frame_size: 1000, caps: both }];
    let before = choose(3);
    for i in 0..before {
        input.extend_from_slice(&fragment(5, i as u64 + 1, true, vec![msg("m")]));
        want.push(Want::Ack(5, i as u64 + 1, echo("m")));
    }
    let (s, f) = (small_id(), small_frame_id());
    let ms = if any_bool() { vec![msg("x")] } else { vec![] };
    input.extend_from_slice(&fragment(s, f, false, ms));
    input.extend_from_slice(&fragment(s, f, true, vec![msg("y")]));
    want.push(Want::Disconnect(Status::FragmentNotSupported as u32));
    let pipe = Pipe::new(input);
    let ended = a.talk(&pipe);
    sent(&pipe, &want);
    check(ended, "a fragment that was not negotiated ends the connection");
    check(a.calls().len() == before, "a fragment that was not negotiated is not handed over");
    cover(before as u32);
}

// --------------------------------------------------------------------------- C19

/// the service fails with any text, at once or later, after any number of good calls
pub fn c19_fails() {
    let frag = any_bool();
    let a = Agent::new(&if frag { Config::fragmenting() } else { Config::default() });
    let mut input = if frag { hello_fragmenting() } else { hello() };
    let mut want = vec![if frag { welcome_fragmenting() } else { welcome() }];
    let mut plan = vec![];
    let before = choose(3);
    for i in 0..before {
        input.extend_from_slice(&fragment(5, i as u64 + 1, true, vec![msg("m")]));
        want.push(Want::Ack(5, i as u64 + 1, vec![]));
        plan.push(reply(vec![]));
    }
    let text = ascii(choose(4));
    plan.push(Act([Wait::No, Wait::Polls(2)][choose(2)], Err(text.clone())));
    a.plan(plan);
    input.extend_from_slice(&fragment(6, 1, true, vec![msg("x")]));
    input.extend_from_slice(&fragment(6, 2, true, vec![msg("y")]));
    want.push(Want::Because(Status::Unknown as u32, text));
    let pipe = Pipe::new(input);
    let ended = a.talk(&pipe);
    sent(&pipe, &want);
    check(ended, "a failing service call ends the connection");
    check(a.calls().len() == before + 1, "nothing is handed over after a failing call");
    cover(before as u32);
}

/// the service fails with a long text that has any character in it, or never becomes ready with one
pub fn c19_long() {
    let a = Agent::new(&Config::default());
    let n = [77, 78, 79, 97, 124, 125, 126, 236, 237, 238, 239, 252, 253, 254, 509, 800][choose(16)];
    let mut text: String = (0..n).map(|i| char::from(b'a' + (i % 26) as u8)).collect();
    match choose(3) {
        0 => text.push(character()),
        1 => text.insert(0, character()),
        _ => text.insert_str(n / 2, &ascii(2)),
    }
    a.plan(vec![reply(vec![]), Act([Wait::No, Wait::Polls(1)][choose(2)], Err(text.clone()))]);
    let mut input = hello();
    for f in 1..4 {
        input.extend_from_slice(&fragment(6, f, true, vec![msg("x")]));
    }
    let pipe = Pipe::new(input);
    let ended = a.talk(&pipe);
    sent(&pipe, &[welcome(), Want::Ack(6, 1, vec![]), Want::Because(Status::Unknown as u32, text)]);
    check(ended, "a failing service call ends the connection");
    check(a.calls().len() == 2, "nothing is handed over after a failing call");
}

/// calls that take any of some times against some limits
pub fn c19_time() {
    let limit = [1u64, 250, 15000, 120_000][choose(4)];
    let frag = any_bool();
    let c = if frag { Config::fragmenting() } else { Config::default() };
    let a = Agent::new(&Config { process_ms: limit, ..c });
    let mut input = if frag { hello_fragmenting() } else { hello() };
    let mut want = vec![if frag { welcome_fragmenting() } else { welcome() }];
    let mut plan = vec![];
    let (mut expect, mut at) = (None, 0u64);
    let mut calls = 0;
    for i in 0..1 + choose(3) as u64 {
        input.extend_from_slice(&fragment(5, i + 1, true, vec![msg("m")]));
        // well within the limit, just within, beyond, or without end
        let w = match choose(5) {
            0 => Wait::No,
            1 => Wait::Ms(limit / 2),
            2 => Wait::Ms(limit - 1),
            3 => Wait::Ms(limit + 2),
            _ => Wait::Forever,
        };
        let fails = any_bool();
        plan.push(Act(w, if fails { Err("no".into()) } else { Ok(vec![]) }));
        if expect.is_none() {
            calls += 1;
            let (over, took) = match w {
                Wait::Ms(t) if t < limit => (false, t),
                Wait::No => (false, 0),
                _ => (true, limit),
            };
            at += took;
            if over {
                expect = Some(Want::Disconnect(Status::Timeout as u32));
            } else if fails {
                expect = Some(Want::Because(Status::Unknown as u32, "no".into()));
            } else {
                want.push(Want::Ack(5, i + 1, vec![]));
            }
        }
    }
    a.plan(plan);
    let over = expect.is_some();
    cover(over as u32);
    want.extend(expect);
    let pipe = Pipe::new(input);
    let (ended, ms) = a.talk_in_time(&pipe);
    sent(&pipe, &want);
    check(ended == over, "the connection ends exactly when a call failed or took too long");
    check(a.calls().len() == calls, "nothing is handed over after a call that failed or took too long");
    if over {
        // a timer may be late by a millisecond, for every call that needs one
        check((ms >= at) & (ms <= at + 6), "a call is given up when its time is over, not earlier or later");
    }
}

/// the service cannot be made
pub fn c19_make() {
    let a = Agent::new(&Config::default());
    a.log.borrow_mut().makes.push_back(([Wait::No, Wait::Polls(1)][choose(2)], Some(ascii(choose(3)))));
    let mut input = hello();
    let n = choose(3);
    for i in 0..n {
        input.extend_from_slice(&fragment(1, 1 + i as u64, true, vec![msg("m")]));
    }
    let pipe = Pipe::new(input);
    let ended = a.talk(&pipe);
    check(ended, "the connection ends when no service can be made");
    check(a.calls().is_empty(), "nothing is handed over without a service");
    // a hello may have been sent before
    let w = pipe.written();
    let mut b = &w[..];
    let mut first = one_frame(&mut b);
    if let Some(f) = first {
        if f[0] == spec::T_AGENT_HELLO {
            first = one_frame(&mut b);
        }
    }
    match first.map(spec::parse) {
        Some(Verdict::Frame(Frame::AgentDisconnect(d))) => {
            check(d.status_code != 0, "the status of the disconnect is not 0")
        }
        _ => check(false, "a disconnect is sent when no service can be made"),
    }
    check(b.is_empty(), "nothing is sent after the disconnect");
    observe(w.len() as u64);
}

/// Ends of connections whose agreed frame size leaves little or no room for an explanation.
fn tight(kinds: &[usize]) {
    let a = Agent::new(&Config { process_ms: 50, ..Default::default() });
    let limit = 31 + choose(50) as u32;
    let mut input = spec::encode(&Frame::HaproxyHello(HaproxyHello { max_frame_size: limit, ..hello_with(vec![]) }));
    let kind = kinds[choose(kinds.len())];
    let (frame, status, text) = match kind {
        // a failure with a text of any length around the limit
        0 => {
            let n = [0, 1, 20, 40, 60][choose(5)];
            let mut t = vec![b'e'; n];
            if n > 0 {
                let b = any_u8();
                assume(b < 0x80);
                t[n - 1] = b;
            }
            let t = String::from_utf8(t).unwrap();
            a.plan(vec![Act(Wait::No, Err(t.clone()))]);
            (fragment(1, 1, true, vec![msg("x")]), Status::Unknown, t)
        }
        // a call that never ends
        1 => {
            a.plan(vec![Act(Wait::Forever, Ok(vec![]))]);
            (fragment(1, 1, true, vec![msg("x")]), Status::Timeout, String::new())
        }
        // a frame out of order; one that cannot be read; one that is too long; the end
        2 => (hello(), Status::Invalid, String::new()),
        3 => (vec![0, 0, 0, 1, 3], Status::Invalid, String::new()),
        4 => ((limit + 1).to_be_bytes().to_vec(), Status::BadFrameSize, String::new()),
        5 => (fragment(1, 1, false, vec![msg("x")]), Status::FragmentNotSupported, String::new()),
        _ => (spec::encode(&Frame::HaproxyDisconnect(disconnect(0, 0))), Status::Normal, String::new()),
    };
    let fits = frame.len() - 4 <= limit as usize;
    input.extend_from_slice(&frame);
    let pipe = Pipe::new(input);
    let (ended, _) = a.talk_in_time(&pipe);
    check(ended, "the connection ends");
    let w = pipe.written();
    let mut b = &w[..];
    check(one_frame(&mut b).is_some_and(|f| f[0] == spec::T_AGENT_HELLO), "the hello is answered");
    let Some(f) = one_frame(&mut b) else {
        check(false, "a disconnect is sent however little room there is for an explanation");
        return;
    };
    check(f.len() <= limit as usize, "nothing longer than the agreed size is sent");
    check(b.is_empty(), "nothing is sent after the disconnect");
    match spec::parse(f) {
        Verdict::Frame(Frame::AgentDisconnect(d)) => {
            let status = if fits { status } else { Status::BadFrameSize };
            check(d.status_code == status as u32, "the status of the disconnect");
            if fits && 31 + text.len() <= limit as usize {
                check(holds(&d.message, &text), "the text of the disconnect, when there is room for it");
                cover(0);
            } else {
                cover(1);
            }
        }
        _ => check(false, "a disconnect is sent however little room there is for an explanation"),
    }
    observe(f.len() as u64);
}
pub fn c19_tight() {
    tight(&[0, 1]);
}
pub fn c21_tight() {
    tight(&[2, 3, 4, 5, 6]);
}

// --------------------------------------------------------------------------- long histories

/// hundreds of notifies on one connection, with any first identifiers of one byte
pub fn c16_hundreds() {
    let a = Agent::new(&Config::default());
    let (mut want, mut input) = (vec![welcome()], hello());
    let s = any_u8();
    assume(s < 0xf0);
    let n = 300u64;
    for i in 0..n {
        // every identifier twice, not in a row
        let f = 1 + i % 150;
        input.extend_from_slice(&fragment(s as u64, f, true, vec![msg("m")]));
        want.push(Want::Ack(s as u64, f, echo("m")));
    }
    let pipe = Pipe::new(input);
    let ended = a.talk(&pipe);
    sent(&pipe, &want);
    check(!ended, "the connection goes on");
    check(a.calls().len() == n as usize, "every notify is handed over");
    check(a.made() == 1, "one service for the connection");
}

/// Many notifies whose fragments are open at once, finished in another order, twice with the same identifiers;
/// and one notify of many fragments in between.
pub fn c17_many() {
    let a = Agent::new(&Config::fragmenting());
    let (mut want, mut input) = (vec![welcome_fragmenting()], hello_fragmenting());
    let mut calls: Vec<Vec<Message>> = vec![];
    let n = 40u64;
    let (s, parts) = (any_u8(), 30u64);
    assume(s < 0x80);
    let s = s as u64;
    let turn = choose(3) as u64;
    let long = choose(2) as u64;
    let name = |i: u64, k: u64| format!("{i}.{k}");
    for round in 0..2 {
        for i in 0..n {
            input.extend_from_slice(&fragment(s, 1 + i, false, vec![msg(&name(i, round))]));
        }
        let mut all = vec![];
        for k in 0..parts {
            let m = msg(&name(k, 100 + round));
            input.extend_from_slice(&fragment(s + long, 1 + (1 - long) * n, k + 1 == parts, vec![m.clone()]));
            all.push(m);
        }
        want.push(Want::Ack(s + long, 1 + (1 - long) * n, echo(&all[0].name)));
        calls.push(all);
        for i in 0..n {
            let i = match turn {
                0 => i,
                1 => n - 1 - i,
                _ => (i * 7) % n,
            };
            input.extend_from_slice(&fragment(s, 1 + i, true, vec![msg("end")]));
            want.push(Want::Ack(s, 1 + i, echo(&name(i, round))));
            calls.push(vec![msg(&name(i, round)), msg("end")]);
        }
    }
    let pipe = Pipe::new(input);
    let ended = a.talk(&pipe);
    sent(&pipe, &want);
    check(!ended, "the connection goes on");
    check(a.calls() == calls, "the messages of the fragments of one notify are handed over together, in order, once");
    cover(turn as u32);
}

/// long lists of versions with any one or two in common, or none
pub fn c12_long() {
    let all: Vec<Version> = [(0, 9), (1, 0), (1, 5), (1, 10), (2, 0), (2, 1), (2, 9), (2, 10), (3, 0), (10, 0), (11, 2), (20, 1)]
        .map(|(a, b)| Version::new(a, b))
        .to_vec();
    let (i, j) = (choose(13), choose(13));
    assume(i <= j);
    let common: Vec<usize> = [i, j].into_iter().filter(|k| *k < 12).collect();
    // the others go to one side or the other
    let (mut mine, mut theirs) = (vec![], vec![]);
    for (k, v) in all.iter().enumerate() {
        let both = common.contains(&k);
        if both || k % 2 == 0 {
            mine.push(*v);
        }
        if both || k % 2 == 1 {
            theirs.push(*v);
        }
    }
    match choose(3) {
        0 => {}
        1 => {
            mine.reverse();
            theirs.reverse();
        }
        _ => {
            let (m, t) = (mine.len() / 2, theirs.len() / 3);
            mine.rotate_left(m);
            theirs.rotate_left(t);
        }
    }
    handshake(mine, theirs);
    cover(common.len() as u32);
}

// --------------------------------------------------------------------------- C33

/// a service that is not ready at once, or never, or fails instead, before any of several calls
pub fn c33_service() {
    let limit = 100u64;
    let a = Agent::new(&Config { process_ms: limit, ..Default::default() });
    let before = choose(3);
    let text = ascii(choose(4));
    let how = [Wait::No, Wait::Polls(1), Wait::Polls(3), Wait::Ms(99), Wait::Ms(101), Wait::Forever][choose(6)];
    let fails = any_bool();
    {
        let mut l = a.log.borrow_mut();
        for _ in 0..before {
            l.gates.push_back((Wait::Polls(1), None));
        }
        l.gates.push_back((how.clone(), fails.then(|| text.clone())));
    }
    let mut input = hello();
    let mut want = vec![welcome()];
    let ids = [any_u8(), any_u8()];
    for i in 0..before + 1 {
        input.extend_from_slice(&fragment(ids[0] as u64, 1 + (ids[1] as u64), true, vec![msg(["a", "b", "c"][i])]));
        if i < before {
            want.push(Want::Ack(ids[0] as u64, 1 + ids[1] as u64, echo(["a", "b", "c"][i])));
        }
    }
    let pipe = Pipe::new(input);
    let (ended, ms) = a.talk_in_time(&pipe);
    let late = matches!(how, Wait::Ms(101) | Wait::Forever);
    let mut calls = before;
    if late {
        want.push(Want::Disconnect(Status::Timeout as u32));
        check(ms <= limit + 3, "a service that does not become ready has no longer than one that does not answer");
    } else if fails {
        want.push(Want::Because(Status::Unknown as u32, text));
    } else {
        want.push(Want::Ack(ids[0] as u64, 1 + ids[1] as u64, echo(["a", "b", "c"][before])));
        calls += 1;
    }
    sent(&pipe, &want);
    check(ended == (late || fails), "the connection ends when the service fails, and only then");
    let l = a.log.borrow();
    check(l.unready == 0, "a service is called when it has said it is ready, once each time");
    check(l.calls.len() == calls, "a service that is not ready is not called");
    check(l.asked_after_failure == 0, "a service that has failed is left alone");
    cover(late as u32 * 2 + fails as u32);
    observe(ms);
}

/// a maker that is not ready at once, or never, or fails instead
pub fn c33_maker() {
    let a = Agent::new(&Config::default());
    let how = [Wait::No, Wait::Polls(1), Wait::Polls(3), Wait::Forever][choose(4)];
    let fails = any_bool();
    let never = matches!(how, Wait::Forever);
    let first_fails = fails && !never;
    a.log.borrow_mut().maker_gates.push_back((how, fails.then(|| "no".into())));
    let parts = [hello(), fragment(1, 1, true, vec![msg("m")])];
    let pipes = [Pipe::new(parts.concat()), Pipe::new(parts.concat())];
    let mut lives = [a.live(&pipes[0]), a.live(&pipes[1])];
    let ended = a.settle(&mut lives[0].0).is_some();
    check(ended == first_fails, "the connection ends when the maker fails, and only then");
    if never {
        check(a.made() == 0 && a.calls().is_empty(), "a maker that is not ready makes nothing");
    } else {
        // another one; the maker is ready for it, having failed for the first or not
        check(a.settle(&mut lives[1].0).is_none(), "the next connection is served");
        sent(&pipes[1], &[welcome(), Want::Ack(1, 1, echo("m"))]);
        if first_fails {
            let w = pipes[0].written();
            let mut b = &w[..];
            let mut f = one_frame(&mut b);
            if f.is_some_and(|f| f[0] == spec::T_AGENT_HELLO) {
                f = one_frame(&mut b);
            }
            match f.map(spec::parse) {
                Some(Verdict::Frame(Frame::AgentDisconnect(d))) => check(d.status_code != 0, "the status of the disconnect is not 0"),
                _ => check(false, "a disconnect is sent when no service can be made"),
            }
            check(b.is_empty(), "nothing is sent after the disconnect");
        } else {
            sent(&pipes[0], &[welcome(), Want::Ack(1, 1, echo("m"))]);
        }
        check(a.made() == 1 + !first_fails as usize, "one service for each connection");
    }
    check(a.log.borrow().unready == 0, "a maker is called when it has said it is ready, once each time");
    cover(never as u32 * 2 + fails as u32);
    observe(pipes[0].written().len() as u64);
}

/// services that are slow to be ready, on two connections of one agent
pub fn c33_two() {
    let a = Agent::new(&Config::default());
    let pipes = [Pipe::new(hello()), Pipe::new(hello())];
    let mut lives = [a.live(&pipes[0]), a.live(&pipes[1])];
    for l in &mut lives {
        check(a.settle(&mut l.0).is_none(), "the connection goes on");
    }
    let waits = [[Wait::No, Wait::Polls(2), Wait::Forever][choose(3)], [Wait::No, Wait::Polls(2)][choose(2)]];
    let order = choose(2);
    let stuck = matches!(waits[0], Wait::Forever);
    a.log.borrow_mut().gates.extend(waits.iter().map(|w| (w.clone(), None)));
    for i in [order, 1 - order] {
        pipes[i].push(&fragment(1, 1, true, vec![msg(["a", "b"][i])]));
        check(a.settle(&mut lives[i].0).is_none(), "the connection goes on");
    }
    for i in 0..2 {
        let mut want = vec![welcome()];
        if !(stuck && i == order) {
            want.push(Want::Ack(1, 1, echo(["a", "b"][i])));
        }
        sent(&pipes[i], &want);
    }
    let l = a.log.borrow();
    check(l.unready == 0, "a service is called when it has said it is ready, once each time");
    check(l.calls.len() == 2 - stuck as usize, "a service that is not ready is not called");
    cover(stuck as u32);
}

// --------------------------------------------------------------------------- C20

/// a disconnect with any status and text, after any number of notifies and open fragments
pub fn c20_disconnect() {
    let frag = any_bool();
    let a = Agent::new(&if frag { Config::fragmenting() } else { Config::default() });
    let mut input = if frag { hello_fragmenting() } else { hello() };
    let mut want = vec![if frag { welcome_fragmenting() } else { welcome() }];
    let before = choose(3);
    for i in 0..before {
        input.extend_from_slice(&fragment(5, i as u64 + 1, true, vec![msg("m")]));
        want.push(Want::Ack(5, i as u64 + 1, echo("m")));
    }
    if frag && any_bool() {
        input.extend_from_slice(&fragment(5, 9, false, vec![msg("open")]));
    }
    let d = disconnect(any_u32(), choose(4));
    input.extend_from_slice(&spec::encode(&Frame::HaproxyDisconnect(d)));
    match choose(3) {
        0 => {}
        1 => input.extend_from_slice(&fragment(5, 9, true, vec![msg("more")])),
        _ => input.extend_from_slice(&spec::encode(&Frame::HaproxyDisconnect(disconnect(0, 0)))),
    }
    want.push(Want::Disconnect(0));
    let pipe = Pipe::new(input);
    let ended = a.talk(&pipe);
    sent(&pipe, &want);
    check(ended, "the connection ends after a disconnect");
    check(a.calls().len() == before, "nothing is handed over after a disconnect");
    cover(before as u32);
}

// --------------------------------------------------------------------------- C21

/// Something that is a frame's body or not, after the handshake or instead of it.
fn unreadable(body: Vec<u8>) {
    let done = any_bool();
    let a = Agent::new(&Config::default());
    let mut input = if done { hello() } else { vec![] };
    let bytes = spec::framed(&body);
    input.extend_from_slice(&bytes);
    let mut want = if done { vec![welcome()] } else { vec![] };
    let err = match read(&Framer::new(1000), &bytes).0 {
        Err(e) => e,
        Ok(_) => {
            assume(false);
            unreachable!()
        }
    };
    input.extend_from_slice(&fragment(1, 2, true, vec![msg("m")]));
    want.push(Want::Disconnect(err as u32));
    check(err as u32 != 0, "an error has a status of its own");
    let pipe = Pipe::new(input);
    let ended = a.talk(&pipe);
    sent(&pipe, &want);
    check(ended, "the connection ends after unreadable input");
    check(a.calls().is_empty(), "nothing is handed over from or after unreadable input");
    observe(err as u64);
    cover(done as u32);
}

/// any notify that is malformed in its first bytes
pub fn c21_notify() {
    let p = any::<6>();
    let mut body = vec![spec::T_HAPROXY_NOTIFY, 0, 0, 0, 1, 1, 2];
    body.extend_from_slice(&p[..1 + choose(6)]);
    match spec::parse(&body) {
        Verdict::Refused => {}
        _ => assume(false),
    }
    unreadable(body);
}
/// any type, flags and identifiers that are not those of a frame
pub fn c21_envelope() {
    let p = any::<5>();
    let mut body = vec![p[0], p[1], 0, 0, p[2], p[3], p[4]];
    body.truncate(choose(8));
    match spec::parse(&body) {
        Verdict::Refused => {}
        _ => assume(false),
    }
    unreadable(body);
}

/// a length beyond the maximum
pub fn c21_too_long() {
    let done = any_bool();
    let a = Agent::new(&Config::default());
    let n = any_u32();
    // the agent's own limit is 1024; what it does between that and the negotiated 1000 is its affair
    assume(n > 1024);
    let mut input = if done { hello() } else { vec![] };
    input.extend_from_slice(&n.to_be_bytes());
    if any_bool() {
        input.extend_from_slice(&fragment(1, 2, true, vec![msg("m")])[4..]);
    }
    let mut want = if done { vec![welcome()] } else { vec![] };
    want.push(Want::Disconnect(Status::BadFrameSize as u32));
    let pipe = Pipe::new(input);
    let ended = a.talk(&pipe);
    sent(&pipe, &want);
    check(ended, "the connection ends after a frame that is too long");
    check(a.calls().is_empty(), "nothing is handed over from a frame that is too long");
    cover(done as u32);
}

/// the stream ends or fails anywhere
pub fn c21_end() {
    let a = Agent::new(&Config::default());
    let parts = [hello(), fragment(1, 1, true, vec![msg("m")]), fragment(1, 2, true, vec![msg("n")])];
    let mut input = vec![];
    for p in &parts {
        input.extend_from_slice(p);
    }
    let at = choose(input.len() + 1);
    let pipe = Pipe::new(input);
    let end = [Step::End, Step::Fail][choose(2)];
    pipe.script(vec![Step::Give(at), end]);
    let ended = a.talk(&pipe);
    check(ended, "the connection ends with its stream");
    let mut want = vec![];
    let mut len = 0;
    for (i, p) in parts.iter().enumerate() {
        len += p.len();
        if at >= len {
            want.push([welcome(), Want::Ack(1, 1, echo("m")), Want::Ack(1, 2, echo("n"))][i].clone());
        }
    }
    sent(&pipe, &want);
    check(a.calls().len() == want.len().saturating_sub(1), "only whole notifies are handed over");
    cover(want.len() as u32);
}

/// the peer stops reading: writes fail after any number of bytes
pub fn c21_deaf() {
    let a = Agent::new(&Config::default());
    let mut input = hello();
    input.extend_from_slice(&fragment(1, 1, true, vec![msg("m")]));
    input.extend_from_slice(&fragment(1, 2, true, vec![msg("n")]));
    let pipe = Pipe::new(input);
    let room = choose(100);
    pipe.room(room);
    let ended = a.talk(&pipe);
    let w = pipe.written();
    if w.len() == room {
        cover(0);
        let b = &w[..];
        let whole = {
            let mut c = b;
            let mut n = 0;
            while one_frame(&mut c).is_some() {
                n += 1;
            }
            (n, c.len())
        };
        // everything was sent: it may have fitted exactly
        check(ended | ((whole.0 == 3) & (whole.1 == 0)), "the connection ends when nothing can be sent");
    } else {
        cover(1);
        check(!ended, "the connection goes on");
        sent(&pipe, &[welcome(), Want::Ack(1, 1, echo("m")), Want::Ack(1, 2, echo("n"))]);
    }
    observe(w.len() as u64);
}

// --------------------------------------------------------------------------- C34

/// a peer that waits for each reply, over a transport that passes on what is flushed
pub fn c34_connection() {
    let frag = any_bool();
    let a = Agent::new(&if frag { Config::fragmenting() } else { Config::default() });
    let pipe = Pipe::new(vec![]);
    pipe.hold(if any_bool() { Flush::Now } else { Flush::Later });
    let (mut live, tok) = a.live(&pipe);
    let mut want = vec![if frag { welcome_fragmenting() } else { welcome() }];
    pipe.push(&if frag { hello_fragmenting() } else { hello() });
    check(a.settle(&mut live).is_none(), "the connection goes on");
    sent(&pipe, &want);
    let n = choose(3);
    for i in 0..n as u64 {
        a.plan(vec![slow(choose(2), echo("m"))]);
        pipe.push(&fragment(5, i + 1, true, vec![msg("m")]));
        check(a.settle(&mut live).is_none(), "the connection goes on");
        want.push(Want::Ack(5, i + 1, echo("m")));
        sent(&pipe, &want);
    }
    match choose(4) {
        0 => {
            pipe.push(&fragment(5, 9, true, vec![msg("fail")]));
            want.push(Want::Because(99, "failed".into()));
        }
        1 => {
            pipe.push(&[0, 0, 0, 1, 77]);
            want.push(Want::Refusal);
        }
        2 => {
            pipe.push(&spec::encode(&Frame::HaproxyDisconnect(disconnect(0, 0))));
            want.push(Want::Disconnect(0));
        }
        _ => tok.cancel(),
    }
    check(a.settle(&mut live).is_some(), "the connection ends");
    sent(&pipe, &want);
    cover(n as u32);
}
/// a health check over such a transport, and a disconnect the owner of the connection sends
pub fn c34_check() {
    let a = Agent::new(&Config::default());
    let pipe = Pipe::new(vec![]);
    pipe.hold(if any_bool() { Flush::Now } else { Flush::Later });
    if any_bool() {
        pipe.push(&spec::encode(&Frame::HaproxyHello(HaproxyHello { healthcheck: Some(true), ..hello_with(vec![]) })));
        let (mut live, _tok) = a.live(&pipe);
        check(a.settle(&mut live).is_some(), "the connection ends");
        sent(&pipe, &[welcome()]);
        cover(0);
    } else {
        let mut c = Connection::new(a.runtime.clone(), pipe.clone(), CancellationToken::new());
        let r = drive(&pipe, c.disconnect(haproxy_spop::Error::Io, "why"));
        check(matches!(r, Some(Ok(()))), "a disconnect is sent");
        sent(&pipe, &[Want::Disconnect(1)]);
        cover(1);
    }
}
