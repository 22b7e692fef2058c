//! Arbitrary values of the protocol's types.
use crate::rt::*;
use haproxy_spop::{
    Action, AgentAck, AgentHello, Capability, Disconnect, Frame, HaproxyHello, HaproxyNotify,
    Message, Scope, Typed, Version,
};

/// `n` arbitrary ASCII characters
pub fn ascii(n: usize) -> String {
    let mut v = vec![0u8; n];
    fill(&mut v);
    for b in &v {
        assume(*b < 0x80);
    }
    unsafe { String::from_utf8_unchecked(v) }
}

/// an arbitrary Unicode character
pub fn character() -> char {
    let n = any_u32();
    match char::from_u32(n) {
        Some(c) => c,
        None => {
            assume(false);
            unreachable!()
        }
    }
}

/// `n` bytes, the first and the last arbitrary and the rest fixed
pub fn edged(n: usize) -> Vec<u8> {
    let mut v = vec![b'x'; n];
    if n > 0 {
        let e = any::<2>();
        assume(e[0] < 0x80);
        assume(e[1] < 0x80);
        v[0] = e[0];
        v[n - 1] = e[1];
    }
    v
}

pub const KINDS: usize = 10;

/// an arbitrary value of the `kind`-th type; strings and binaries have `len` arbitrary bytes
pub fn typed(kind: usize, len: usize) -> Typed {
    match kind {
        0 => Typed::Null,
        1 => Typed::Boolean(any_u8() & 1 == 1),
        2 => Typed::Int32(any_u32() as i32),
        3 => Typed::Uint32(any_u32()),
        4 => Typed::Int64(any_u64() as i64),
        5 => Typed::Uint64(any_u64()),
        6 => Typed::Ipv4(any::<4>().into()),
        7 => Typed::Ipv6(any::<16>().into()),
        8 => Typed::String(ascii(len)),
        _ => {
            let mut v = vec![0u8; len];
            fill(&mut v);
            Typed::Binary(v.into())
        }
    }
}

/// like `typed`, with integers that take a single byte on the wire
pub fn small(kind: usize, len: usize) -> Typed {
    let byte = || {
        let b = any_u8();
        assume(b < 240);
        b
    };
    match kind {
        2 => Typed::Int32(byte() as i32),
        3 => Typed::Uint32(byte() as u32),
        4 => Typed::Int64(byte() as i64),
        5 => Typed::Uint64(byte() as u64),
        _ => typed(kind, len),
    }
}

pub fn scope() -> Scope {
    match choose(5) {
        0 => Scope::Process,
        1 => Scope::Session,
        2 => Scope::Transaction,
        3 => Scope::Request,
        _ => Scope::Response,
    }
}

/// an identifier: below 240 (one byte on the wire), or one of the values around which the number
/// of bytes changes
pub fn id() -> u64 {
    const AT: [u64; 6] = [240, 2287, 2288, 1 << 32, 1161999626690365680, u64::MAX];
    let k = choose(AT.len() + 1);
    if k == 0 {
        let b = any_u8();
        assume(b < 240);
        b as u64
    } else {
        AT[k - 1]
    }
}

/// an arbitrary identifier below 240
pub fn small_id() -> u64 {
    let b = any_u8();
    assume(b < 240);
    b as u64
}

pub fn frame_id() -> u64 {
    let v = id();
    assume(v != 0);
    v
}

pub fn small_frame_id() -> u64 {
    let v = small_id();
    assume(v != 0);
    v
}

/// any subset of the capabilities, as a list in one of its orders
pub fn caps() -> Vec<Capability> {
    use Capability::*;
    match choose(16) {
        0 => vec![],
        1 => vec![Fragmentation],
        2 => vec![Pipelining],
        3 => vec![Async],
        4 => vec![Fragmentation, Pipelining],
        5 => vec![Pipelining, Fragmentation],
        6 => vec![Fragmentation, Async],
        7 => vec![Async, Fragmentation],
        8 => vec![Pipelining, Async],
        9 => vec![Async, Pipelining],
        10 => vec![Fragmentation, Pipelining, Async],
        11 => vec![Fragmentation, Async, Pipelining],
        12 => vec![Pipelining, Fragmentation, Async],
        13 => vec![Pipelining, Async, Fragmentation],
        14 => vec![Async, Fragmentation, Pipelining],
        _ => vec![Async, Pipelining, Fragmentation],
    }
}

pub fn version() -> Version {
    let b = any::<2>();
    Version { major: b[0], minor: b[1] }
}

/// a version of single digits
pub fn digit_version() -> Version {
    let b = any::<2>();
    assume(b[0] < 10);
    assume(b[1] < 10);
    Version { major: b[0], minor: b[1] }
}

pub fn message(nargs: usize, kinds: usize) -> Message {
    let mut args = vec![];
    let name = ascii(choose(3));
    for _ in 0..nargs {
        let k = choose(kinds);
        args.push((ascii(1), small(k, 1)));
    }
    Message { name, args }
}

pub fn action(kinds: usize) -> Action {
    let scope = scope();
    if any_bool() {
        let name = ascii(choose(2));
        Action::SetVar { scope, name, value: small(choose(kinds), 1) }
    } else {
        Action::UnsetVar { scope, name: ascii(2) }
    }
}

pub fn haproxy_hello(versions: Vec<Version>, max_frame_size: u32) -> HaproxyHello {
    HaproxyHello {
        supported_versions: versions,
        max_frame_size,
        capabilities: caps(),
        healthcheck: match choose(3) {
            0 => None,
            n => Some(n == 2),
        },
        engine_id: match choose(4) {
            0 => None,
            n => Some(ascii(n - 1)),
        },
    }
}

pub fn agent_hello(version: Version, max_frame_size: u32) -> AgentHello {
    AgentHello { version, max_frame_size, capabilities: caps() }
}

pub fn disconnect(status_code: u32, len: usize) -> Disconnect {
    Disconnect { status_code, message: ascii(len) }
}

pub fn notify(stream_id: u64, frame_id: u64, messages: Vec<Message>) -> Frame {
    Frame::HaproxyNotify(HaproxyNotify { fragmented: false, stream_id, frame_id, messages })
}

pub fn ack(stream_id: u64, frame_id: u64, actions: Vec<Action>) -> Frame {
    Frame::AgentAck(AgentAck { fragmented: false, aborted: false, stream_id, frame_id, actions })
}

/// Have tables that are built on first use built now, once, before the inputs branch.
pub fn warm() {
    let v: Result<Version, _> = "2.0".parse();
    assume(v.is_ok());
    let c: Result<Capability, _> = "async".parse();
    assume(c.is_ok());
}
