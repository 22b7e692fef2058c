//! The codec: integers, values, frames, limits, chunks (C01 to C10).
use crate::gen::*;
use crate::io::*;
use crate::rt::*;
use crate::spec::{self, Verdict};
use bytes::Bytes;
use haproxy_spop::{
    varint, Action, AgentAck, AgentHello, BufCodec, Capability, Codec, Disconnect, Error, Frame, Framer,
    HaproxyHello, HaproxyNotify, Message, Scope, Typed, Version,
};

type R = Result<Frame, Error>;

pub fn write(framer: &Framer, f: Frame) -> Result<Vec<u8>, Error> {
    let mut out = Vec::new();
    match now(framer.write_frame(&mut out, f)) {
        Some(Ok(n)) => {
            check(n == out.len(), "the number of bytes reported is the number written");
            Ok(out)
        }
        Some(Err(e)) => {
            check(out.is_empty(), "nothing is written of a frame that is refused");
            Err(e)
        }
        None => {
            check(false, "writing to memory never waits");
            Err(Error::Io)
        }
    }
}

/// read one frame; also the number of bytes consumed
pub fn read(framer: &Framer, b: &[u8]) -> (R, usize) {
    let mut r = b;
    // no single memory request out of proportion to what is read
    let res = within(16384 + 64 * b.len() as u64, || now(framer.read_frame(&mut r)));
    let res = match res {
        Some(res) => res,
        None => {
            check(false, "reading from memory never waits");
            Err(Error::Io)
        }
    };
    let used = b.len() - r.len();
    (res, used)
}

pub fn outcome(r: &R) {
    match r {
        Ok(f) => observe(100 + spec::type_code(f) as u64),
        Err(e) => observe(*e as u64),
    }
}

/// varint::put, get and size_of against the table
pub fn c01_varint() {
    let n = any_u64();
    let tail = any_u8();
    let mut b = Vec::new();
    let sz = varint::put(&mut b, n);
    let mut want = Vec::new();
    spec::put_varint(&mut want, n);
    check(b == want, "bytes of a varint");
    check(sz == want.len(), "size returned by put");
    check(varint::size_of(n) == want.len(), "size_of");
    b.push(tail);
    let mut r = &b[..];
    check(varint::get(&mut r) == Some(n), "get(put(n)) == n");
    check(r.len() == 1, "get consumes what put wrote");
    observe_bytes(&b);
    cover(want.len() as u32);
}

/// the identifiers of notify and ack frames: any stream with a small frame identifier, and the
/// other way round
pub fn c01_ids() {
    let (s, f) =
        if any_bool() { (any_u64(), small_frame_id()) } else { (small_id(), any_u64()) };
    assume(f != 0);
    ids(s, f);
}

/// any pair of identifiers
pub fn c01_all_ids() {
    let (s, f) = (any_u64(), any_u64());
    assume(f != 0);
    ids(s, f);
}

fn ids(s: u64, f: u64) {
    let ack_side = any_bool();
    let frame = if ack_side { ack(s, f, vec![]) } else { notify(s, f, vec![]) };
    let ty = spec::type_code(&frame);
    let md = frame.metadata().unwrap();
    let want = spec::framed(&spec::head(ty, spec::FIN, s, f));
    check(md.size() == want.len() - 5, "metadata size");
    check(md.stream_id == s && md.frame_id == f, "metadata identifiers");
    let framer = Framer::new(64);
    let b = write(&framer, frame.clone()).unwrap();
    check(b == want, "bytes of the identifiers");
    let (r, used) = read(&framer, &b);
    check(r == Ok(frame), "identifiers read back");
    check(used == b.len(), "all bytes consumed");
    observe_bytes(&b);
    cover(want.len() as u32);
}

/// a value in a message argument, or in a set-variable action
fn carried(v: Typed, in_action: bool) -> Frame {
    if in_action {
        ack(1, 2, vec![Action::SetVar { scope: Scope::Session, name: "v".into(), value: v }])
    } else {
        notify(1, 2, vec![Message { name: "m".into(), args: vec![("a".into(), v)] }])
    }
}

/// write, compare with the specification, read back
fn there_and_back(frame: Frame, max: usize) -> Vec<u8> {
    let framer = Framer::new(max);
    let b = match write(&framer, frame.clone()) {
        Ok(b) => b,
        Err(_) => {
            check(false, "a frame that fits is written");
            return vec![];
        }
    };
    same_layout(&frame, &b);
    let (r, used) = read(&framer, &b);
    check(used == b.len(), "reading consumes exactly what was written");
    check(r == Ok(frame), "the frame read is the frame written");
    b
}

/// integer values of all four types
pub fn c01_ints() {
    let k = 2 + choose(4);
    let v = typed(k, 0);
    let b = there_and_back(carried(v, any_bool()), 64);
    observe_bytes(&b);
    cover(k as u32);
}

/// lengths around the sizes where a varint grows: the field that has the length is a message
/// name, an argument name, a string, a binary, a variable name or a disconnect text
fn length_frame(n: usize) -> Frame {
    let e = edged(n);
    let f = choose(8);
    cover(f as u32);
    let text = || unsafe { String::from_utf8_unchecked(e.clone()) };
    match f {
        0 => notify(1, 2, vec![Message { name: text(), args: vec![] }]),
        1 => notify(1, 2, vec![Message { name: "m".into(), args: vec![(text(), Typed::Null)] }]),
        2 => carried(Typed::String(text()), false),
        3 => carried(Typed::Binary(Bytes::from(e.clone())), true),
        4 => ack(1, 2, vec![Action::UnsetVar { scope: Scope::Process, name: text() }]),
        5 => Frame::AgentDisconnect(Disconnect { status_code: 0, message: text() }),
        6 => ack(1, 2, vec![Action::SetVar { scope: Scope::Response, name: text(), value: Typed::Uint32(5) }]),
        _ => {
            warm();
            let mut h = haproxy_hello(vec![Version { major: 2, minor: 0 }], 1024);
            h.engine_id = Some(text());
            Frame::HaproxyHello(h)
        }
    }
}
fn length(n: usize) {
    let b = there_and_back(length_frame(n), n + 128);
    observe(b.len() as u64);
}

pub fn c01_lengths() {
    const N: [usize; 10] = [0, 1, 127, 128, 239, 240, 241, 255, 256, 2287];
    length(N[choose(N.len())]);
}

pub fn c01_long() {
    const N: [usize; 2] = [2288, 2289];
    length(N[choose(N.len())]);
}

pub fn c01_very_long() {
    const N: [usize; 2] = [264431, 264432];
    length(N[choose(N.len())]);
}

/// every length up to 300
pub fn c01_every_length() {
    let a = choose(3);
    let n = a * 100 + choose(100);
    length(n);
}

/// a value of every type, in an argument and in an action
fn value(max_len: usize) {
    let k = choose(KINDS);
    let len = if k >= 8 { choose(max_len + 1) } else { 0 };
    let v = typed(k, len);
    let b = there_and_back(carried(v, any_bool()), 64);
    observe_bytes(&b);
    cover(k as u32);
}
pub fn c02_values() {
    value(5);
}
pub fn c02_values_12() {
    value(12);
}

/// strings of any Unicode characters
fn unicode(n: usize) {
    let mut s = String::new();
    for _ in 0..n {
        s.push(character());
    }
    let len = s.len();
    let b = there_and_back(carried(Typed::String(s), any_bool()), 64);
    observe_bytes(&b);
    cover(len as u32);
}
pub fn c02_unicode() {
    unicode(1);
}
pub fn c02_unicode_2() {
    unicode(2);
}

/// the bytes of a value, read: whatever they are
fn wire_value<const N: usize>() {
    let tail = any::<N>();
    let k = choose(KINDS);
    // one argument whose value is of type k, the other bytes of the value arbitrary
    let hi = any_u8();
    assume(hi < 16);
    let mut body = spec::head(spec::T_HAPROXY_NOTIFY, spec::FIN, 1, 2);
    body.extend_from_slice(&[1, b'm', 1, 1, b'a', k as u8 | hi << 4]);
    body.extend_from_slice(&tail[..choose(N + 1)]);
    judge(&body, 64);
    cover(k as u32);
}
pub fn c02_wire() {
    wire_value::<5>();
}
pub fn c02_wire_11() {
    wire_value::<11>();
}

// ------------------------------------------------------------------------------------ frames

/// Read a frame with this body and compare with what the specification says about it.
pub fn judge(body: &[u8], max: usize) {
    let framer = Framer::new(max);
    let b = spec::framed(body);
    let (r, used) = read(&framer, &b);
    check(used == b.len(), "exactly the declared frame is consumed");
    match spec::parse(body) {
        Verdict::Frame(f) => {
            cover(61);
            match &r {
                Ok(g) => {
                    check(*g == f, "the content is that on the wire");
                }
                Err(_) => check(false, "a well-formed frame is accepted"),
            }
        }
        Verdict::Refused => {
            cover(62);
            check(r.is_err(), "a malformed frame is refused");
        }
        Verdict::Unspecified => cover(63),
    }
    outcome(&r);
}

/// hello frames in which one thing at a time is arbitrary
fn any_haproxy_hello() -> Frame {
    use Capability::*;
    warm();
    let v = |major, minor| Version { major, minor };
    let mut h = HaproxyHello {
        supported_versions: vec![v(2, 0)],
        max_frame_size: 16380,
        capabilities: vec![Pipelining, Async],
        healthcheck: None,
        engine_id: None,
    };
    match choose(5) {
        0 => {
            let b = any_u8();
            h.supported_versions =
                if any_bool() { vec![v(b, 0), v(2, 0)] } else { vec![v(1, 0), v(2, b), v(1, 5)] }
        }
        1 => h.max_frame_size = any_u32(),
        2 => h.capabilities = caps(),
        3 => h = haproxy_hello(vec![v(2, 0), v(12, 34)], 1024),
        _ => {
            h.healthcheck = Some(any_bool());
            h.engine_id = Some(ascii(choose(9)));
            h.capabilities = vec![];
        }
    }
    Frame::HaproxyHello(h)
}

fn any_agent_hello() -> Frame {
    warm();
    let mut h = AgentHello {
        version: Version { major: 2, minor: 0 },
        max_frame_size: 16384,
        capabilities: vec![],
    };
    match choose(4) {
        // one of the two numbers of the version is arbitrary
        0 => h.version.major = any_u8(),
        1 => h.version.minor = any_u8(),
        2 => h.capabilities = caps(),
        _ => h.max_frame_size = any_u32(),
    }
    Frame::AgentHello(h)
}

fn any_disconnect() -> Frame {
    let d = disconnect(any_u32(), choose(4));
    if any_bool() {
        Frame::AgentDisconnect(d)
    } else {
        Frame::HaproxyDisconnect(d)
    }
}

fn any_notify(max_msgs: usize, max_args: usize, kinds: usize) -> Frame {
    let (s, f) = (small_id(), small_frame_id());
    let mut messages = vec![];
    for _ in 0..choose(max_msgs + 1) {
        let n = choose(max_args + 1);
        messages.push(message(n, kinds));
    }
    Frame::HaproxyNotify(HaproxyNotify {
        fragmented: any_bool(),
        stream_id: s,
        frame_id: f,
        messages,
    })
}

fn any_ack(max: usize, kinds: usize) -> Frame {
    let (s, f) = (small_id(), small_frame_id());
    let mut actions = vec![];
    for _ in 0..choose(max + 1) {
        actions.push(action(kinds));
    }
    Frame::AgentAck(AgentAck {
        fragmented: any_bool(),
        aborted: any_bool(),
        stream_id: s,
        frame_id: f,
        actions,
    })
}

/// Hello and disconnect frames: their items are in no particular order, so the bytes are compared
/// item by item.
fn items_layout(frame: &Frame, b: &[u8]) {
    let head = spec::head(spec::type_code(frame), spec::FIN, 0, 0);
    check(b.len() >= 4 + head.len(), "room for the head");
    check(u32::from_be_bytes([b[0], b[1], b[2], b[3]]) as usize == b.len() - 4, "length of the rest");
    check(b[4..4 + head.len()] == head[..], "type, FIN flag and identifiers 0");
    let Some(got) = spec::Cur::new(&b[4 + head.len()..]).kvs() else {
        check(false, "a list of items");
        return;
    };
    let want = spec::items(frame);
    check(got.len() == want.len(), "number of items");
    for (k, v) in want {
        let n = got.iter().filter(|(gk, gv)| gk == k && *gv == v).count();
        check(n == 1, "each item once, with its name, type and value");
    }
}

fn same_layout(frame: &Frame, b: &[u8]) {
    match frame {
        Frame::HaproxyNotify(_) | Frame::AgentAck(_) => check(*b == spec::encode(frame)[..], "bytes of the frame"),
        f => items_layout(f, b),
    }
}

fn layout_within(max: usize, frame: Frame) {
    let framer = Framer::new(max);
    let Ok(b) = write(&framer, frame.clone()) else {
        check(false, "a frame that fits is written");
        return;
    };
    same_layout(&frame, &b);
    observe_bytes(&b);
}
fn layout(frame: Frame) {
    layout_within(512, frame);
}

fn round_trip_within(max: usize, frame: Frame) {
    let framer = Framer::new(max);
    let Ok(mut b) = write(&framer, frame.clone()) else {
        check(false, "a frame that fits is written");
        return;
    };
    let n = b.len();
    b.push(7);
    let (r, used) = read(&framer, &b);
    check(used == n, "reading consumes exactly what was written");
    check(r == Ok(frame), "the frame read is the frame written");
    observe(n as u64);
}
fn round_trip(frame: Frame) {
    round_trip_within(512, frame);
}

pub fn c03_haproxy_hello() {
    round_trip(any_haproxy_hello());
}
pub fn c03_agent_hello() {
    round_trip(any_agent_hello());
}
pub fn c03_disconnect() {
    round_trip(any_disconnect());
}
pub fn c03_notify() {
    round_trip(any_notify(2, 1, 3));
}
pub fn c03_args() {
    let (s, f) = (small_id(), small_frame_id());
    let n = choose(3);
    let m = message(n, KINDS);
    round_trip(notify(s, f, vec![m]));
}
pub fn c03_ack() {
    round_trip(any_ack(1, KINDS));
}
fn several_actions(max: usize) -> Frame {
    let (s, f) = (small_id(), small_frame_id());
    let a = |k: usize| match k {
        0 => Action::UnsetVar { scope: Scope::Process, name: ascii(1) },
        1 => Action::SetVar { scope: Scope::Response, name: ascii(2), value: small(2, 0) },
        _ => Action::SetVar { scope: Scope::Request, name: ascii(0), value: Typed::Null },
    };
    let mut v = vec![];
    for _ in 0..choose(max + 1) {
        v.push(a(choose(3)));
    }
    ack(s, f, v)
}
pub fn c03_acks() {
    round_trip(several_actions(3));
}

/// many arguments, messages and actions: counts are written in one byte or not at all
fn many(n: usize) -> Frame {
    match choose(3) {
        0 => {
            let args = (0..n).map(|i| (String::new(), Typed::Boolean(i % 3 == 0))).collect();
            notify(1, 2, vec![Message { name: "m".into(), args }, Message { name: ascii(1), args: vec![] }])
        }
        1 => notify(1, 2, (0..n).map(|_| Message { name: String::new(), args: vec![] }).collect()),
        _ => ack(
            1,
            2,
            (0..n).map(|_| Action::UnsetVar { scope: Scope::Session, name: String::new() }).collect(),
        ),
    }
}
const COUNTS: [usize; 9] = [5, 16, 127, 128, 129, 239, 240, 250, 255];
pub fn c03_many() {
    round_trip_within(4096, many(COUNTS[choose(COUNTS.len())]));
}
const LENGTHS: [usize; 9] = [0, 127, 128, 239, 240, 241, 255, 256, 2288];
pub fn c03_lengths() {
    round_trip_within(2500, length_frame(LENGTHS[choose(LENGTHS.len())]));
}
/// text of any Unicode character wherever a frame has text
fn text_frame() -> Frame {
    let mut t = String::from("a");
    t.push(character());
    match choose(6) {
        0 => notify(1, 2, vec![Message { name: t, args: vec![] }]),
        1 => notify(1, 2, vec![Message { name: "m".into(), args: vec![(t, Typed::Null)] }]),
        2 => ack(1, 2, vec![Action::UnsetVar { scope: Scope::Process, name: t }]),
        3 => ack(1, 2, vec![Action::SetVar { scope: Scope::Process, name: t, value: Typed::Null }]),
        4 => Frame::AgentDisconnect(Disconnect { status_code: 2, message: t }),
        _ => {
            warm();
            let mut h = haproxy_hello(vec![Version { major: 2, minor: 0 }], 1024);
            h.engine_id = Some(t);
            Frame::HaproxyHello(h)
        }
    }
}
pub fn c03_unicode() {
    round_trip(text_frame());
}

/// a message with more arguments than can be counted is refused, not written wrongly
pub fn c03_too_many() {
    let n = 255 + choose(4);
    let args: Vec<_> = (0..n).map(|_| (String::new(), Typed::Null)).collect();
    let pos = choose(2);
    let mut ms = vec![Message { name: ascii(1), args: vec![] }];
    ms.insert(pos, Message { name: "m".into(), args });
    let frame = notify(1, 2, ms);
    let r = write(&Framer::new(4096), frame.clone());
    match r {
        Ok(b) => {
            check(n <= 255, "more than 255 arguments are refused");
            let (r, _) = read(&Framer::new(4096), &b);
            check(r == Ok(frame), "the frame read is the frame written");
            cover(1);
        }
        Err(_) => {
            check(n > 255, "255 arguments are accepted");
            cover(2);
        }
    }
    observe(n as u64);
}

/// frames written one after the other are read one after the other
pub fn c03_sequence() {
    warm();
    let mut frames = vec![];
    for _ in 0..3 {
        frames.push(match choose(4) {
            0 => notify(small_id(), small_frame_id(), vec![Message { name: ascii(1), args: vec![] }]),
            1 => ack(small_id(), small_frame_id(), vec![]),
            2 => Frame::HaproxyDisconnect(disconnect(3, 1)),
            _ => Frame::AgentHello(AgentHello {
                version: Version { major: 2, minor: 0 },
                max_frame_size: 1,
                capabilities: vec![Capability::Async],
            }),
        });
    }
    let framer = Framer::new(128);
    let mut b = vec![];
    for f in &frames {
        match write(&framer, f.clone()) {
            Ok(x) => b.extend_from_slice(&x),
            Err(_) => check(false, "a frame that fits is written"),
        }
    }
    let mut r = &b[..];
    for f in frames {
        match now(framer.read_frame(&mut r)) {
            Some(Ok(g)) => check(g == f, "each frame in turn"),
            _ => check(false, "each frame is read"),
        }
    }
    check(r.is_empty(), "nothing is left");
    observe_bytes(&b);
}

pub fn c04_haproxy_hello() {
    layout(any_haproxy_hello());
}
pub fn c04_agent_hello() {
    layout(any_agent_hello());
}
pub fn c04_disconnect() {
    layout(any_disconnect());
}
pub fn c04_notify() {
    layout(any_notify(2, 1, 3));
}
pub fn c04_args() {
    let (s, f) = (small_id(), small_frame_id());
    let n = choose(3);
    let m = message(n, KINDS);
    layout(notify(s, f, vec![m]));
}
pub fn c04_ack() {
    layout(any_ack(1, KINDS));
}
pub fn c04_acks() {
    layout(several_actions(3));
}
pub fn c04_many() {
    layout_within(4096, many(COUNTS[choose(COUNTS.len())]));
}
pub fn c04_lengths() {
    layout_within(2500, length_frame(LENGTHS[choose(LENGTHS.len())]));
}
pub fn c04_unicode() {
    layout(text_frame());
}
/// identifiers of every size, all flags
pub fn c04_envelope() {
    let (s, f) = if any_bool() { (id(), 9) } else { (9, frame_id()) };
    let (fragmented, aborted) = (any_bool(), any_bool());
    layout(if any_bool() {
        Frame::HaproxyNotify(HaproxyNotify { fragmented, stream_id: s, frame_id: f, messages: vec![] })
    } else {
        Frame::AgentAck(AgentAck { fragmented, aborted, stream_id: s, frame_id: f, actions: vec![] })
    });
}
/// the frame that starts and ends no exchange
pub fn c04_unset() {
    let b = write(&Framer::new(64), Frame::Unset).unwrap_or_default();
    check(b == [0, 0, 0, 7, 0, 0, 0, 0, 1, 0, 0], "bytes of an unset frame");
}

// ------------------------------------------------------------------------------- any bytes

/// `N` arbitrary bytes on the wire, the length included
fn raw<const N: usize>(max: usize) {
    let b = any::<N>();
    let framer = Framer::new(max);
    let (r, used) = read(&framer, &b);
    let len = u32::from_be_bytes([b[0], b[1], b[2], b[3]]) as usize;
    check(used <= 4 || used - 4 <= len, "nothing beyond the declared frame is consumed");
    if let Ok(_) = &r {
        check(used == 4 + len, "a frame is consumed as declared");
        cover(1);
    } else {
        cover(2);
    }
    outcome(&r);
}
pub fn c05_raw() {
    raw::<16>(64);
}
pub fn c05_raw_20() {
    raw::<20>(64);
}

/// A frame of type `ty` whose payload is `N` arbitrary bytes cut at any length, judged.
fn payload<const N: usize>(ty: u8) {
    let p = any::<N>();
    let flags = any_u32();
    let md = small_id();
    let mut body = vec![ty];
    body.extend_from_slice(&flags.to_be_bytes());
    let two = matches!(ty, spec::T_HAPROXY_NOTIFY | spec::T_AGENT_ACK);
    body.push(if two { md as u8 } else { 0 });
    body.push(if two { 5 } else { 0 });
    body.extend_from_slice(&p[..choose(N + 1)]);
    judge(&body, 64);
}
pub fn c06_notify() {
    payload::<8>(spec::T_HAPROXY_NOTIFY);
}
pub fn c06_notify_12() {
    payload::<12>(spec::T_HAPROXY_NOTIFY);
}
pub fn c06_ack() {
    payload::<9>(spec::T_AGENT_ACK);
}
pub fn c06_ack_13() {
    payload::<13>(spec::T_AGENT_ACK);
}
pub fn c06_hello() {
    warm();
    payload::<6>(if any_bool() { spec::T_HAPROXY_HELLO } else { spec::T_AGENT_HELLO });
}
pub fn c06_disconnect() {
    payload::<6>(if any_bool() { spec::T_HAPROXY_DISCON } else { spec::T_AGENT_DISCON });
}

/// well-formed frames of every kind, as bytes
fn sample(k: usize) -> Vec<u8> {
    let f = match k {
        0 => Frame::HaproxyHello(HaproxyHello {
            supported_versions: vec![Version { major: 2, minor: 0 }, Version { major: 1, minor: 5 }],
            max_frame_size: 300,
            capabilities: vec![Capability::Async, Capability::Fragmentation],
            healthcheck: Some(true),
            engine_id: Some("e1".into()),
        }),
        1 => Frame::AgentHello(AgentHello {
            version: Version { major: 2, minor: 0 },
            max_frame_size: 16380,
            capabilities: vec![Capability::Pipelining],
        }),
        2 => Frame::HaproxyDisconnect(Disconnect { status_code: 300, message: "b\u{e9}".into() }),
        3 => Frame::AgentDisconnect(Disconnect { status_code: 4, message: String::new() }),
        4 => notify(
            300,
            7,
            vec![
                Message {
                    name: "m1".into(),
                    args: vec![
                        ("a".into(), Typed::Uint32(4000)),
                        (String::new(), Typed::Binary(vec![1, 2, 255].into())),
                        ("c".into(), Typed::Boolean(true)),
                    ],
                },
                Message { name: "m2".into(), args: vec![("d".into(), Typed::Ipv4([1, 2, 3, 4].into()))] },
            ],
        ),
        5 => notify(
            1,
            70000,
            vec![Message {
                name: "m".into(),
                args: vec![
                    ("s".into(), Typed::String("t\u{e9}".into())),
                    ("n".into(), Typed::Int32(-5)),
                    ("z".into(), Typed::Null),
                ],
            }],
        ),
        6 => ack(
            9,
            10,
            vec![
                Action::SetVar { scope: Scope::Request, name: "v".into(), value: Typed::Int64(-1) },
                Action::UnsetVar { scope: Scope::Response, name: "w".into() },
                Action::SetVar {
                    scope: Scope::Process,
                    name: "x".into(),
                    value: Typed::String("ok".into()),
                },
            ],
        ),
        _ => ack(
            0,
            1,
            vec![Action::SetVar {
                scope: Scope::Session,
                name: "a6".into(),
                value: Typed::Ipv6([0x20, 1, 0xd, 0xb8, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1].into()),
            }],
        ),
    };
    spec::encode(&f)[4..].to_vec()
}
const SAMPLES: usize = 8;

/// a well-formed frame in which `W` consecutive bytes, anywhere, are replaced by arbitrary ones
fn window<const W: usize>(k: usize) {
    let mut body = sample(k);
    let at = choose(body.len() - W + 1);
    let w = any::<W>();
    body[at..at + W].copy_from_slice(&w);
    judge(&body, 256);
    cover(k as u32);
}
/// a well-formed frame cut anywhere, with arbitrary bytes in place of its last two
fn cut(k: usize) {
    let mut body = sample(k);
    let n = choose(body.len());
    body.truncate(n);
    if n >= 2 {
        let w = any::<2>();
        body[n - 2..].copy_from_slice(&w);
    }
    judge(&body, 256);
    cover(k as u32);
}
/// a well-formed frame with up to two arbitrary bytes inserted anywhere
fn inserted(k: usize) {
    let mut body = sample(k);
    let at = choose(body.len() + 1);
    let n = 1 + choose(2);
    let w = any::<2>();
    for i in 0..n {
        body.insert(at, w[i]);
    }
    judge(&body, 256);
    cover(k as u32);
}

pub fn c06_window_messages() {
    window::<2>(4 + choose(4));
}
pub fn c06_window_items() {
    warm();
    window::<1>(choose(4));
}
pub fn c06_window_3() {
    window::<3>(4 + choose(4));
}
pub fn c06_window_items_2() {
    warm();
    window::<2>(choose(4));
}
pub fn c06_cut() {
    warm();
    cut(choose(SAMPLES));
}
pub fn c06_inserted() {
    inserted(4 + choose(4));
}

/// identifiers and sizes that are unterminated or too large, in every place an integer can be
fn varints<const N: usize>(long: bool) {
    let v = any::<N>();
    assume(v[0] >= 240);
    let n = 1 + choose(N);
    if long {
        // all but the last two bytes are part of one integer
        for b in &v[1..(n - 1).max(2) - 1] {
            assume(*b >= 128);
        }
    }
    let place = choose(6);
    let mut body = vec![spec::T_HAPROXY_NOTIFY, 0, 0, 0, 1];
    match place {
        0 => {
            body.extend_from_slice(&v[..n]);
            body.push(1);
        }
        1 => {
            body.push(1);
            body.extend_from_slice(&v[..n]);
        }
        // the length of a name, and the four types of integers
        2 => {
            body.extend_from_slice(&[1, 1]);
            body.extend_from_slice(&v[..n]);
        }
        p => {
            body.extend_from_slice(&[1, 1, 0, 1, 0, [2, 3, 5][p - 3]]);
            body.extend_from_slice(&v[..n]);
        }
    }
    judge(&body, 64);
    cover(place as u32);
}
pub fn c06_varints() {
    varints::<11>(true);
}
pub fn c06_all_varints() {
    varints::<11>(false);
}

/// flags, identifiers and type, all arbitrary, with an empty payload or one message
pub fn c07_envelope() {
    let ty = any_u8();
    let flags = any_u32();
    let mut body = vec![ty];
    body.extend_from_slice(&flags.to_be_bytes());
    body.push(any_u8());
    body.push(any_u8());
    if any_bool() {
        body.extend_from_slice(&[1, b'm', 0]);
        cover(2);
    } else {
        cover(1);
    }
    judge(&body, 64);
}

fn as_written(frame: Frame) {
    let b = spec::encode(&frame);
    judge(&b[4..], 4096);
}
/// many messages, arguments and actions
pub fn c07_many() {
    as_written(many(COUNTS[choose(COUNTS.len())]));
}
/// long texts in every place
pub fn c07_lengths() {
    as_written(length_frame(LENGTHS[choose(LENGTHS.len())]));
}
/// any text in every place
pub fn c07_unicode() {
    as_written(text_frame());
}

/// identifiers of several bytes on frames that must have 0 or may not have 0
pub fn c07_identifiers() {
    warm();
    const TY: [u8; 6] = [1, 2, 3, 101, 102, 103];
    let ty = TY[choose(6)];
    let v = any::<4>();
    let mut body = vec![ty, 0, 0, 0, 1];
    body.extend_from_slice(&v);
    judge(&body, 64);
    cover(ty as u32 & 15);
}

/// integer items of any integer type
pub fn c07_integer_items() {
    warm();
    let t = match choose(4) {
        0 => Typed::Int32(any_u32() as i32),
        1 => Typed::Uint32(any_u32()),
        2 => Typed::Int64(any_u64() as i64),
        _ => Typed::Uint64(any_u64()),
    };
    let mut body;
    if any_bool() {
        body = spec::head(spec::T_AGENT_DISCON, spec::FIN, 0, 0);
        spec::put_kv(&mut body, "message", &Typed::String(ascii(1)));
        spec::put_kv(&mut body, "status-code", &t);
        cover(1);
    } else {
        body = spec::head(spec::T_AGENT_HELLO, spec::FIN, 0, 0);
        spec::put_kv(&mut body, "max-frame-size", &t);
        spec::put_kv(&mut body, "capabilities", &Typed::String(String::new()));
        spec::put_kv(&mut body, "version", &Typed::String("2.0".into()));
        cover(2);
    }
    judge(&body, 128);
}

// ---------------------------------------------------------------------------------- limits

/// any declared length against a limit
pub fn c08_length() {
    const MAX: [usize; 5] = [0, 1, 7, 11, 24];
    let max = MAX[choose(MAX.len())];
    let len = any_u32();
    // a notify whose declared length may be anything, followed by more than enough bytes
    let mut b = len.to_be_bytes().to_vec();
    b.extend_from_slice(&[3, 0, 0, 0, 1, 1, 2]);
    for _ in 0..5 {
        b.extend_from_slice(&[1, b'm', 0, 1, b'n', 0, 0, 0]);
    }
    let (r, used) = read(&Framer::new(max), &b);
    if len as usize > max {
        check(r == Err(Error::BadFrameSize), "a longer frame is refused for its size");
        check(used == 4, "only the length is consumed");
        cover(1);
    } else {
        check(r != Err(Error::BadFrameSize) && r != Err(Error::TooBig), "a frame within the limit is not refused for its size");
        check(used == 4 + len as usize, "the declared frame is consumed");
        cover(2);
    }
    outcome(&r);
}

/// a well-formed frame of any size up to 40 bytes around a limit
fn sized(n: usize) -> Frame {
    // 7 bytes of head, 3 of message, 2 + n of argument
    notify(
        1,
        2,
        vec![Message { name: "m".into(), args: vec![(String::new(), Typed::Binary(edged(n).into()))] }],
    )
}
pub fn c08_frames() {
    let n = choose(24);
    let b = spec::encode(&sized(n));
    let len = b.len() - 4;
    let max = choose(48);
    let (r, used) = read(&Framer::new(max), &b);
    if len > max {
        check(r == Err(Error::BadFrameSize), "a longer frame is refused for its size");
        check(used == 4, "only the length is consumed");
        cover(1);
    } else {
        check(r.is_ok(), "a frame that fits is read");
        check(used == b.len(), "the whole frame is consumed");
        if len == max {
            cover(3);
        }
        cover(2);
    }
    outcome(&r);
}

/// a reader refuses a long frame whatever the stream holds after the length, or if nothing comes
pub fn c08_starved() {
    let max = choose(3) * 20;
    let len = any_u32();
    assume(len as usize > max);
    let b = len.to_be_bytes();
    let (r, used) = read(&Framer::new(max), &b);
    check(r == Err(Error::BadFrameSize), "a longer frame is refused for its size");
    check(used == 4, "only the length is consumed");
    outcome(&r);
}

/// A frame of exactly `n` bytes.
fn of_size(n: usize) -> Frame {
    // what is left for the content of the argument, whose length takes one byte or more
    let over = spec::encode(&sized(0)).len() - 4;
    let mut k = n - over;
    while spec::encode(&sized(k)).len() - 4 > n {
        k -= 1;
    }
    sized(k)
}
const LARGE: [usize; 6] = [255, 256, 1500, 16384, 65536, 70000];
/// larger limits, and frames just around and far beyond them
pub fn c08_large() {
    let max = LARGE[choose(LARGE.len())];
    let len = match choose(5) {
        0 => max - 1,
        1 => max,
        2 => max + 1,
        3 => max + 256,
        _ => max + 65536,
    };
    let b = spec::encode(&of_size(len));
    assume(b.len() - 4 == len);
    let (r, used) = read(&Framer::new(max), &b);
    if len > max {
        check(r == Err(Error::BadFrameSize), "a longer frame is refused for its size");
        check(used == 4, "only the length is consumed");
        cover(1);
    } else {
        check(r.is_ok(), "a frame that fits is read");
        check(used == b.len(), "the whole frame is consumed");
        cover(2);
    }
    outcome(&r);
}
pub fn c09_large() {
    let max = LARGE[choose(LARGE.len())];
    let len = match choose(5) {
        0 => max - 1,
        1 => max,
        2 => max + 1,
        3 => max + 256,
        _ => max + 65536,
    };
    let frame = of_size(len);
    let want = spec::encode(&frame);
    assume(want.len() - 4 == len);
    match write(&Framer::new(max), frame) {
        Ok(b) => {
            check(b == want, "a frame is written whole");
            check(len <= max, "a frame beyond the limit is refused");
            cover(1);
        }
        Err(e) => {
            check(len > max, "a frame within the limit is written");
            check(e == Error::TooBig, "it is refused as too big");
            cover(2);
        }
    }
    observe(len as u64);
}

/// the limit of a writer
pub fn c09_frames() {
    let n = choose(24);
    let max = choose(48);
    let frame = sized(n);
    let want = spec::encode(&frame);
    let framer = Framer::new(max);
    match write(&framer, frame) {
        Ok(b) => {
            check(b == want, "a frame is written whole");
            check(b.len() - 4 <= max, "a frame beyond the limit is refused");
            if b.len() - 4 == max {
                cover(3);
            }
            cover(1);
        }
        Err(e) => {
            check(want.len() - 4 > max, "a frame within the limit is written");
            check(e == Error::TooBig, "it is refused as too big");
            cover(2);
        }
    }
    observe(n as u64 * 100 + max as u64);
}
pub fn c09_kinds() {
    warm();
    let k = choose(SAMPLES);
    let Verdict::Frame(f) = spec::parse(&sample(k)) else { unreachable!() };
    let want = spec::encode(&f);
    let d = choose(5);
    let max = want.len() - 4 + 2 - d;
    // the transport may take a frame in pieces
    let pipe = Pipe::new(vec![]);
    let take = [usize::MAX, 7, 1][choose(3)];
    pipe.accept(take, take != usize::MAX);
    let framer = Framer::new(max);
    match drive(&pipe, framer.write_frame(pipe.clone(), f)) {
        Some(Ok(n)) => {
            check(d <= 2, "a frame beyond the limit is refused");
            check(n == want.len(), "the number of bytes reported is the number written");
            check(pipe.written() == want, "a frame is written whole");
            cover(1);
        }
        Some(Err(e)) => {
            check(d > 2, "a frame within the limit is written");
            check(e == Error::TooBig, "it is refused as too big");
            check(pipe.written().is_empty(), "nothing is written of a frame that is refused");
            cover(2);
        }
        None => check(false, "writing goes on when the transport is ready"),
    }
    observe(max as u64);
}

// ---------------------------------------------------------------------------------- chunks

fn short_frame(k: usize) -> Frame {
    match k {
        0 => notify(small_id(), 3, vec![Message { name: ascii(1), args: vec![] }]),
        1 => ack(2288, small_frame_id(), vec![]),
        2 => Frame::HaproxyDisconnect(Disconnect { status_code: 0, message: String::new() }),
        _ => notify(1, 2, vec![Message { name: "m".into(), args: vec![(ascii(1), Typed::Boolean(true))] }]),
    }
}

/// Read the frames from a stream that comes in pieces; then its end, or an error.
fn read_all(buffered: bool, pipe: &Pipe, frames: &[Frame]) {
    let framer = Framer::new(64);
    let mut buf = BufCodec::buffered(pipe.clone(), framer.clone());
    let mut plain = Codec::new(pipe.clone(), framer);
    for f in frames.iter().map(Some).chain([None]) {
        let r = drive(pipe, async {
            if buffered {
                buf.read_frame().await
            } else {
                plain.read_frame().await
            }
        });
        match (r, f) {
            (Some(Ok(g)), Some(f)) => check(g == *f, "the frames are those sent"),
            (Some(Err(e)), None) => check(e == Error::Io, "the end of the stream is an I/O error"),
            (Some(Ok(_)), None) => check(false, "no frame after the last"),
            (Some(Err(_)), Some(_)) => check(false, "every frame is read"),
            (None, _) => check(false, "reading does not stall"),
        }
    }
}

/// three frames in up to three pieces, with or without a pause between two pieces, through both
/// kinds of codec
pub fn c10_pieces() {
    let frames = [short_frame(choose(2)), short_frame(2), short_frame(3)];
    let mut b = vec![];
    for f in &frames {
        b.extend_from_slice(&spec::encode(f));
    }
    let buffered = any_bool();
    let first = choose(b.len());
    let second = first + choose(b.len() - first);
    let pause = any_bool();
    let pipe = Pipe::new(b);
    pipe.script(vec![
        Step::Give(first),
        if pause { Step::Pause } else { Step::Give(0) },
        Step::Give(second - first),
        if pause { Step::Pause } else { Step::Give(0) },
        Step::Rest,
        Step::End,
    ]);
    read_all(buffered, &pipe, &frames);
    observe(first as u64);
}

/// at most `n` bytes at a time, a pause before each
pub fn c10_trickle() {
    let frames = [short_frame(0), short_frame(1), short_frame(2)];
    let mut b = vec![];
    for f in &frames {
        b.extend_from_slice(&spec::encode(f));
    }
    let n = 1 + choose(9);
    let pause = any_bool();
    let buffered = any_bool();
    let mut steps = vec![];
    for _ in 0..b.len() {
        if pause {
            steps.push(Step::Pause);
        }
        steps.push(Step::Give(n));
    }
    steps.push(Step::Rest);
    steps.push(Step::End);
    let pipe = Pipe::new(b);
    pipe.script(steps);
    read_all(buffered, &pipe, &frames);
    observe(n as u64);
}

/// the stream ends, or fails, anywhere inside the second frame or between frames
pub fn c10_end() {
    let frames = [short_frame(0), short_frame(choose(4))];
    let mut b = spec::encode(&frames[0]);
    let whole = b.len();
    b.extend_from_slice(&spec::encode(&frames[1]));
    b.truncate(whole + choose(b.len() - whole));
    let first = choose(b.len() + 1);
    let ended = any_bool();
    let pipe = Pipe::new(b);
    pipe.script(vec![Step::Give(first), Step::Pause, Step::Rest, if ended { Step::End } else { Step::Fail }]);
    read_all(any_bool(), &pipe, &frames[..1]);
    observe(first as u64);
    cover(ended as u32);
}

/// frames written to a transport that takes any number of bytes at a time
pub fn c10_writes() {
    let frames = [short_frame(choose(2)), short_frame(2), short_frame(3)];
    let mut want = vec![];
    for f in &frames {
        want.extend_from_slice(&spec::encode(f));
    }
    let pipe = Pipe::new(vec![]);
    let n = 1 + choose(40);
    pipe.accept(n, any_bool());
    let buffered = any_bool();
    let framer = Framer::new(64);
    let mut buf = BufCodec::buffered(pipe.clone(), framer.clone());
    let mut plain = Codec::new(pipe.clone(), framer);
    for f in frames {
        let len = spec::encode(&f).len();
        let r = drive(&pipe, async {
            if buffered {
                buf.write_frame(f).await
            } else {
                plain.write_frame(f).await
            }
        });
        check(r == Some(Ok(len)), "the whole frame is written");
    }
    check(pipe.written() == want, "the bytes arrive complete and in order");
    observe_bytes(&pipe.written());
}

/// a transport that fails after any number of bytes
pub fn c10_write_fails() {
    let f = short_frame(choose(4));
    let want = spec::encode(&f);
    let pipe = Pipe::new(vec![]);
    let room = choose(want.len());
    pipe.accept(1 + choose(12), false);
    pipe.room(room);
    let mut plain = Codec::new(pipe.clone(), Framer::new(64));
    let r = drive(&pipe, plain.write_frame(f));
    check(r == Some(Err(Error::Io)), "a failed write is an I/O error");
    check(pipe.written() == want[..room], "nothing but the beginning of the frame was written");
    observe(room as u64);
}

/// frames longer than any buffer in between (8 KiB), whole or in pieces, each followed by a short one
pub fn c10_large() {
    let sizes = [8170, 8187, 8188, 8189, 8191, 8192, 8193, 8204, 9000, 16300, 16384];
    let n = sizes[choose(sizes.len())];
    let mut big = vec![b'.'; 1];
    let b = any_u8();
    assume(b < 0x80);
    let of = |t: Vec<u8>| {
        Frame::notify(1, 2, [Message { name: "m".into(), args: vec![(String::new(), Typed::String(String::from_utf8(t).unwrap()))] }])
    };
    let over = spec::encode(&of(vec![b'.'; n - 64])).len() - 4 - (n - 64);
    big.resize(n - over, b'.');
    let k = [0, 1, n / 2, n - over - 1][choose(4)];
    big[k] = b;
    let frames = [of(big), short_frame(2)];
    let bytes = frames.iter().flat_map(spec::encode).collect::<Vec<_>>();
    check(bytes.len() > n, "the frame has the length that was meant");
    let pipe = Pipe::new(bytes.clone());
    let piece = [usize::MAX, 1000, 4096, 8191, 8192, 8193][choose(6)];
    let pause = any_bool();
    let mut steps = vec![];
    let mut at = 0;
    while at < bytes.len() {
        let g = piece.min(bytes.len() - at);
        steps.push(Step::Give(g));
        if pause {
            steps.push(Step::Pause);
        }
        at += g;
    }
    steps.push(Step::End);
    pipe.script(steps);
    let framer = Framer::new(16384);
    let buffered = any_bool();
    let mut buf = BufCodec::buffered(pipe.clone(), framer.clone());
    let mut plain = Codec::new(pipe.clone(), framer.clone());
    for f in &frames {
        let r = drive(&pipe, async {
            if buffered {
                buf.read_frame().await
            } else {
                plain.read_frame().await
            }
        });
        match r {
            Some(Ok(g)) => check(g == *f, "the frames are those sent"),
            Some(Err(_)) => check(false, "every frame is read"),
            None => check(false, "reading does not stall"),
        }
    }
    check(pipe.unread() == 0, "all is read");
    // and written again, through a transport that takes pieces
    let out = Pipe::new(vec![]);
    out.accept(piece, pause);
    let mut w = Codec::new(out.clone(), framer);
    for f in frames {
        let r = drive(&out, w.write_frame(f));
        check(matches!(r, Some(Ok(_))), "every frame is written");
    }
    check(out.written() == bytes, "the bytes arrive complete and in order");
    observe(n as u64);
}

/// the default limit: the largest frame passes, one byte more does not
pub fn c09_default() {
    let framer = Framer::new(haproxy_spop::MAX_FRAME_SIZE);
    check(haproxy_spop::MAX_FRAME_SIZE == 16384, "the default limit is that of HAProxy");
    let n = 16380 + choose(9);
    let of = |k: usize| Frame::ack(1, 2, [Action::set_var(Scope::Session, "v", Typed::Binary(Bytes::from(vec![7; k])))]);
    let over = spec::encode(&of(16000)).len() - 4 - 16000;
    let f = of(n - over);
    let e = spec::encode(&f);
    match write(&framer, f.clone()) {
        Ok(b) => {
            check(n <= 16384, "a frame longer than the limit is not written");
            check(b == e, "a frame that fits is written whole");
            let (r, used) = read(&framer, &b);
            check(used == b.len(), "reading consumes exactly what was written");
            check(r == Ok(f), "the frame read is the frame written");
        }
        Err(x) => {
            check(n > 16384, "a frame that fits is written");
            check(x == Error::TooBig, "a frame that does not fit is too big");
            let (r, used) = read(&framer, &e);
            check(r.is_err() && used == 4, "a frame longer than the limit is not read");
        }
    }
    cover((n > 16384) as u32);
}

// ----------------------------------------------------------------------------------- flush

/// frames written to a transport that passes them on when it is flushed
pub fn c34_frames() {
    warm();
    let frames = [short_frame(choose(4)), short_frame(2), short_frame(choose(2))];
    let pipe = Pipe::new(vec![]);
    let how = [Flush::Now, Flush::Later, Flush::Fail][choose(3)];
    pipe.hold(how);
    let take = [usize::MAX, 9][choose(2)];
    pipe.accept(take, any_bool());
    let framer = Framer::new(64);
    let mut buf = BufCodec::buffered(pipe.clone(), framer.clone());
    let mut plain = Codec::new(pipe.clone(), framer.clone());
    let through = choose(3);
    let mut want = vec![];
    for f in frames {
        let b = spec::encode(&f);
        let r = drive(&pipe, async {
            match through {
                0 => framer.write_frame(pipe.clone(), f).await,
                1 => plain.write_frame(f).await,
                _ => buf.write_frame(f).await,
            }
        });
        if how == Flush::Fail {
            check(r == Some(Err(Error::Io)), "a frame that cannot be passed on is not written");
        } else {
            want.extend_from_slice(&b);
            check(r == Some(Ok(b.len())), "the frame is written");
            check(pipe.written() == want, "a frame that is written has been passed on");
        }
        cover(how as u32);
    }
    observe_bytes(&pipe.written());
}
