//! An independent reading of the SPOP specification: what bytes a frame has, and what a sequence
//! of bytes means. Nothing here calls the code under test; only its plain data types are used.
use haproxy_spop::{
    Action, AgentAck, AgentHello, Capability, Disconnect, Frame, HaproxyHello, HaproxyNotify,
    Message, Scope, Typed, Version,
};
use std::net::{Ipv4Addr, Ipv6Addr};

pub const T_UNSET: u8 = 0;
pub const T_HAPROXY_HELLO: u8 = 1;
pub const T_HAPROXY_DISCON: u8 = 2;
pub const T_HAPROXY_NOTIFY: u8 = 3;
pub const T_AGENT_HELLO: u8 = 101;
pub const T_AGENT_DISCON: u8 = 102;
pub const T_AGENT_ACK: u8 = 103;

pub const FIN: u32 = 1;
pub const ABORT: u32 = 2;

// ---------------------------------------------------------------- writing

/// the first value that needs `i + 2` bytes
const STEPS: [u64; 9] = [
    240,
    2288,
    264432,
    33818864,
    4328786160,
    554084600048,
    70922828777712,
    9078122083518704,
    1161999626690365680,
];

pub fn varint_len(v: u64) -> usize {
    let mut n = 1;
    for s in STEPS {
        if v >= s {
            n += 1;
        }
    }
    n
}

pub fn put_varint(out: &mut Vec<u8>, v: u64) {
    let mut n = 0;
    while n < 9 && v >= STEPS[n] {
        n += 1;
    }
    if n == 0 {
        out.push(v as u8);
        return;
    }
    // what is left once the smallest value of that size is taken away, spread over 4 bits in the
    // first byte and 7 in each of the others
    let rest = v - STEPS[n - 1];
    out.push(0xf0 | (rest & 0x0f) as u8);
    let mut rest = rest >> 4;
    for i in 1..=n {
        let more = if i < n { 0x80 } else { 0 };
        out.push((rest & 0x7f) as u8 | more);
        rest >>= 7;
    }
}

pub fn put_bytes(out: &mut Vec<u8>, b: &[u8]) {
    put_varint(out, b.len() as u64);
    out.extend_from_slice(b);
}

pub fn put_typed(out: &mut Vec<u8>, t: &Typed) {
    match t {
        Typed::Null => out.push(0),
        Typed::Boolean(b) => out.push(if *b { 0x11 } else { 0x01 }),
        Typed::Int32(n) => {
            out.push(2);
            put_varint(out, *n as i64 as u64)
        }
        Typed::Uint32(n) => {
            out.push(3);
            put_varint(out, *n as u64)
        }
        Typed::Int64(n) => {
            out.push(4);
            put_varint(out, *n as u64)
        }
        Typed::Uint64(n) => {
            out.push(5);
            put_varint(out, *n)
        }
        Typed::Ipv4(a) => {
            out.push(6);
            out.extend_from_slice(&u32::from(*a).to_be_bytes())
        }
        Typed::Ipv6(a) => {
            out.push(7);
            out.extend_from_slice(&u128::from(*a).to_be_bytes())
        }
        Typed::String(s) => {
            out.push(8);
            put_bytes(out, s.as_bytes())
        }
        Typed::Binary(b) => {
            out.push(9);
            put_bytes(out, b)
        }
    }
}

pub fn put_kv(out: &mut Vec<u8>, k: &str, v: &Typed) {
    put_bytes(out, k.as_bytes());
    put_typed(out, v);
}

pub fn put_message(out: &mut Vec<u8>, m: &Message) {
    put_bytes(out, m.name.as_bytes());
    out.push(m.args.len() as u8);
    for (k, v) in &m.args {
        put_kv(out, k, v);
    }
}

pub fn scope_code(s: Scope) -> u8 {
    match s {
        Scope::Process => 0,
        Scope::Session => 1,
        Scope::Transaction => 2,
        Scope::Request => 3,
        Scope::Response => 4,
    }
}

pub fn put_action(out: &mut Vec<u8>, a: &Action) {
    match a {
        Action::SetVar { scope, name, value } => {
            out.extend_from_slice(&[1, 3, scope_code(*scope)]);
            put_bytes(out, name.as_bytes());
            put_typed(out, value);
        }
        Action::UnsetVar { scope, name } => {
            out.extend_from_slice(&[2, 2, scope_code(*scope)]);
            put_bytes(out, name.as_bytes());
        }
    }
}

/// the frame without its length: type, flags, identifiers
pub fn head(ty: u8, flags: u32, stream: u64, frame: u64) -> Vec<u8> {
    let mut v = vec![ty];
    v.extend_from_slice(&flags.to_be_bytes());
    put_varint(&mut v, stream);
    put_varint(&mut v, frame);
    v
}

/// prefix with the length
pub fn framed(body: &[u8]) -> Vec<u8> {
    let mut v = (body.len() as u32).to_be_bytes().to_vec();
    v.extend_from_slice(body);
    v
}

/// a decimal number of at most three digits
pub fn dec(n: u8) -> String {
    let mut s = String::new();
    if n >= 100 {
        s.push((b'0' + n / 100) as char);
    }
    if n >= 10 {
        s.push((b'0' + n / 10 % 10) as char);
    }
    s.push((b'0' + n % 10) as char);
    s
}

pub fn version_text(v: Version) -> String {
    let mut s = dec(v.major);
    s.push('.');
    s.push_str(&dec(v.minor));
    s
}

pub fn cap_text(c: Capability) -> &'static str {
    match c {
        Capability::Fragmentation => "fragmentation",
        Capability::Pipelining => "pipelining",
        Capability::Async => "async",
    }
}

pub fn join<'a>(items: impl Iterator<Item = String>, sep: &str) -> String {
    let mut s = String::new();
    for (i, t) in items.enumerate() {
        if i > 0 {
            s.push_str(sep);
        }
        s.push_str(&t);
    }
    s
}

/// the items of a hello or disconnect frame
pub fn items(f: &Frame) -> Vec<(&'static str, Typed)> {
    match f {
        Frame::HaproxyHello(h) => {
            let mut v = vec![
                (
                    "supported-versions",
                    Typed::String(join(h.supported_versions.iter().map(|v| version_text(*v)), ",")),
                ),
                ("max-frame-size", Typed::Uint32(h.max_frame_size)),
                (
                    "capabilities",
                    Typed::String(join(h.capabilities.iter().map(|c| cap_text(*c).to_string()), ",")),
                ),
            ];
            if let Some(b) = h.healthcheck {
                v.push(("healthcheck", Typed::Boolean(b)));
            }
            if let Some(id) = &h.engine_id {
                v.push(("engine-id", Typed::String(id.clone())));
            }
            v
        }
        Frame::AgentHello(h) => vec![
            ("version", Typed::String(version_text(h.version))),
            ("max-frame-size", Typed::Uint32(h.max_frame_size)),
            (
                "capabilities",
                Typed::String(join(h.capabilities.iter().map(|c| cap_text(*c).to_string()), ",")),
            ),
        ],
        Frame::HaproxyDisconnect(d) | Frame::AgentDisconnect(d) => vec![
            ("status-code", Typed::Uint32(d.status_code)),
            ("message", Typed::String(d.message.clone())),
        ],
        _ => vec![],
    }
}

pub fn type_code(f: &Frame) -> u8 {
    match f {
        Frame::Unset => T_UNSET,
        Frame::HaproxyHello(_) => T_HAPROXY_HELLO,
        Frame::HaproxyDisconnect(_) => T_HAPROXY_DISCON,
        Frame::HaproxyNotify(_) => T_HAPROXY_NOTIFY,
        Frame::AgentHello(_) => T_AGENT_HELLO,
        Frame::AgentDisconnect(_) => T_AGENT_DISCON,
        Frame::AgentAck(_) => T_AGENT_ACK,
    }
}

/// The bytes of a frame, length included. Items are in the order of the specification's own list,
/// which readers must not depend on.
pub fn encode(f: &Frame) -> Vec<u8> {
    let body = match f {
        Frame::HaproxyNotify(n) => {
            let mut v = head(
                T_HAPROXY_NOTIFY,
                if n.fragmented { 0 } else { FIN },
                n.stream_id,
                n.frame_id,
            );
            for m in &n.messages {
                put_message(&mut v, m);
            }
            v
        }
        Frame::AgentAck(a) => {
            let mut v = head(
                T_AGENT_ACK,
                if a.fragmented { 0 } else { FIN } | if a.aborted { ABORT } else { 0 },
                a.stream_id,
                a.frame_id,
            );
            for x in &a.actions {
                put_action(&mut v, x);
            }
            v
        }
        _ => {
            let mut v = head(type_code(f), FIN, 0, 0);
            for (k, t) in items(f) {
                put_kv(&mut v, k, &t);
            }
            v
        }
    };
    framed(&body)
}

// ---------------------------------------------------------------- reading

/// What the specification says about the payload of a frame.
#[derive(Debug)]
pub enum Verdict {
    /// it is this frame
    Frame(Frame),
    /// it must be refused
    Refused,
    /// nothing is claimed
    Unspecified,
}

pub struct Cur<'a> {
    pub b: &'a [u8],
    pub pos: usize,
}

impl<'a> Cur<'a> {
    pub fn new(b: &'a [u8]) -> Self {
        Cur { b, pos: 0 }
    }
    pub fn left(&self) -> usize {
        self.b.len() - self.pos
    }
    pub fn u8(&mut self) -> Option<u8> {
        if self.pos < self.b.len() {
            self.pos += 1;
            Some(self.b[self.pos - 1])
        } else {
            None
        }
    }
    pub fn take(&mut self, n: u64) -> Option<&'a [u8]> {
        if n > self.left() as u64 {
            return None;
        }
        let s = &self.b[self.pos..self.pos + n as usize];
        self.pos += n as usize;
        Some(s)
    }
    /// the value is the sum of the bytes, the first at bit 0, the others at bits 4, 11, 18, ...
    pub fn varint(&mut self) -> Option<u64> {
        let b0 = self.u8()?;
        if b0 < 240 {
            return Some(b0 as u64);
        }
        let mut sum = b0 as u128;
        let mut at = 4;
        loop {
            let b = self.u8()?;
            if at < 64 {
                sum += (b as u128) << at;
            } else {
                // a whole further byte can only add bits above the 64th, or nothing at all: in
                // both cases no 64-bit integer has this form
                return None;
            }
            at += 7;
            if b < 128 {
                break;
            }
        }
        if sum >> 64 == 0 {
            Some(sum as u64)
        } else {
            None
        }
    }
    pub fn bytes(&mut self) -> Option<&'a [u8]> {
        let n = self.varint()?;
        self.take(n)
    }
    pub fn string(&mut self) -> Option<String> {
        let b = self.bytes()?;
        core::str::from_utf8(b).ok().map(|s| s.to_string())
    }
    pub fn typed(&mut self) -> Option<Typed> {
        let b = self.u8()?;
        Some(match b & 0x0f {
            0 => Typed::Null,
            1 => Typed::Boolean(b & 0x10 != 0),
            2 => {
                let n = self.varint()?;
                // -2^31 .. 2^31, sign-extended to 64 bits or kept in 32
                if n <= 0xffff_ffff || n >= 0xffff_ffff_8000_0000 {
                    Typed::Int32(n as u32 as i32)
                } else {
                    return None;
                }
            }
            3 => {
                let n = self.varint()?;
                if n > 0xffff_ffff {
                    return None;
                }
                Typed::Uint32(n as u32)
            }
            4 => Typed::Int64(self.varint()? as i64),
            5 => Typed::Uint64(self.varint()?),
            6 => {
                let a = self.take(4)?;
                Typed::Ipv4(Ipv4Addr::new(a[0], a[1], a[2], a[3]))
            }
            7 => {
                let a: [u8; 16] = self.take(16)?.try_into().ok()?;
                Typed::Ipv6(Ipv6Addr::from(u128::from_be_bytes(a)))
            }
            8 => Typed::String(self.string()?),
            9 => Typed::Binary(self.bytes()?.to_vec().into()),
            _ => return None,
        })
    }
    pub fn kv(&mut self) -> Option<(String, Typed)> {
        let k = self.string()?;
        let v = self.typed()?;
        Some((k, v))
    }
    pub fn kvs(&mut self) -> Option<Vec<(String, Typed)>> {
        let mut v = vec![];
        while self.left() > 0 {
            v.push(self.kv()?);
        }
        Some(v)
    }
    pub fn message(&mut self) -> Option<Message> {
        let name = self.string()?;
        let n = self.u8()?;
        let mut args = vec![];
        for _ in 0..n {
            args.push(self.kv()?);
        }
        Some(Message { name, args })
    }
    pub fn action(&mut self) -> Option<Action> {
        let ty = self.u8()?;
        let n = self.u8()?;
        let set = match (ty, n) {
            (1, 3) => true,
            (2, 2) => false,
            _ => return None,
        };
        let scope = match self.u8()? {
            0 => Scope::Process,
            1 => Scope::Session,
            2 => Scope::Transaction,
            3 => Scope::Request,
            4 => Scope::Response,
            _ => return None,
        };
        let name = self.string()?;
        Some(if set {
            Action::SetVar { scope, name, value: self.typed()? }
        } else {
            Action::UnsetVar { scope, name }
        })
    }
}

/// an item that nothing is claimed about, or one that has to be refused
pub enum No {
    Refused,
    Unspecified,
}

fn item<'a>(kvs: &'a [(String, Typed)], key: &str) -> Result<Option<&'a Typed>, No> {
    let mut found = None;
    for (k, v) in kvs {
        if k == key {
            if found.is_some() {
                return Err(No::Unspecified);
            }
            found = Some(v);
        }
    }
    Ok(found)
}

fn text<'a>(kvs: &'a [(String, Typed)], key: &str) -> Result<Option<&'a str>, No> {
    match item(kvs, key)? {
        None => Ok(None),
        Some(Typed::String(s)) => Ok(Some(s)),
        Some(_) => Err(No::Unspecified),
    }
}

fn uint32(kvs: &[(String, Typed)], key: &str) -> Result<Option<u32>, No> {
    let n = match item(kvs, key)? {
        None => return Ok(None),
        Some(Typed::Int32(n)) => *n as i128,
        Some(Typed::Uint32(n)) => *n as i128,
        Some(Typed::Int64(n)) => *n as i128,
        Some(Typed::Uint64(n)) => *n as i128,
        Some(_) => return Err(No::Unspecified),
    };
    if n >= 0 && n <= u32::MAX as i128 {
        Ok(Some(n as u32))
    } else {
        Err(No::Refused)
    }
}

/// without the spaces around it
fn blank_trim(s: &[u8]) -> &[u8] {
    let mut a = 0;
    let mut b = s.len();
    while a < b && s[a] == b' ' {
        a += 1;
    }
    while b > a && s[b - 1] == b' ' {
        b -= 1;
    }
    &s[a..b]
}

fn split_commas(s: &[u8]) -> Vec<&[u8]> {
    let mut v = vec![];
    let mut from = 0;
    for i in 0..s.len() {
        if s[i] == b',' {
            v.push(blank_trim(&s[from..i]));
            from = i + 1;
        }
    }
    v.push(blank_trim(&s[from..]));
    v
}

fn small_number(s: &[u8]) -> Result<u8, No> {
    if s.is_empty() {
        return Err(No::Refused);
    }
    let mut n = 0u32;
    for c in s {
        if *c < b'0' || *c > b'9' {
            return Err(No::Refused);
        }
        n = n * 10 + (*c - b'0') as u32;
        if n > 255 {
            return Err(No::Refused);
        }
    }
    Ok(n as u8)
}

pub fn parse_version(s: &[u8]) -> Result<Version, No> {
    for c in s {
        // white space other than a space, or a plus sign before a number: nothing is claimed
        if (*c < b' ') | (*c >= 0x7f) | (*c == b'+') {
            return Err(No::Unspecified);
        }
    }
    let mut dot = None;
    for (i, c) in s.iter().enumerate() {
        if *c == b'.' {
            if dot.is_some() {
                return Err(No::Refused);
            }
            dot = Some(i);
        }
    }
    let Some(dot) = dot else { return Err(No::Refused) };
    Ok(Version { major: small_number(&s[..dot])?, minor: small_number(&s[dot + 1..])? })
}

fn parse_caps(s: &str) -> Result<Vec<Capability>, No> {
    if blank_trim(s.as_bytes()).is_empty() {
        return Ok(vec![]);
    }
    let mut v = vec![];
    for c in split_commas(s.as_bytes()) {
        v.push(match c {
            b"fragmentation" => Capability::Fragmentation,
            b"pipelining" => Capability::Pipelining,
            b"async" => Capability::Async,
            // nothing is claimed about names that are not known
            _ => return Err(No::Unspecified),
        });
    }
    Ok(v)
}

fn hello(kvs: &[(String, Typed)]) -> Result<Frame, No> {
    // a missing item refuses the frame whatever the others hold
    for k in ["supported-versions", "max-frame-size", "capabilities"] {
        if item(kvs, k)?.is_none() {
            return Err(No::Refused);
        }
    }
    let mut versions = vec![];
    for v in split_commas(text(kvs, "supported-versions")?.unwrap().as_bytes()) {
        versions.push(parse_version(v)?);
    }
    let max_frame_size = uint32(kvs, "max-frame-size")?.unwrap();
    let capabilities = parse_caps(text(kvs, "capabilities")?.unwrap())?;
    let healthcheck = match item(kvs, "healthcheck")? {
        None => None,
        Some(Typed::Boolean(b)) => Some(*b),
        Some(_) => return Err(No::Unspecified),
    };
    let engine_id = text(kvs, "engine-id")?.map(|s| s.to_string());
    Ok(Frame::HaproxyHello(HaproxyHello {
        supported_versions: versions,
        max_frame_size,
        capabilities,
        healthcheck,
        engine_id,
    }))
}

fn agent_hello(kvs: &[(String, Typed)]) -> Result<Frame, No> {
    for k in ["version", "max-frame-size", "capabilities"] {
        if item(kvs, k)?.is_none() {
            return Err(No::Refused);
        }
    }
    Ok(Frame::AgentHello(AgentHello {
        version: parse_version(blank_trim(text(kvs, "version")?.unwrap().as_bytes()))?,
        max_frame_size: uint32(kvs, "max-frame-size")?.unwrap(),
        capabilities: parse_caps(text(kvs, "capabilities")?.unwrap())?,
    }))
}

fn disconnect(kvs: &[(String, Typed)]) -> Result<Disconnect, No> {
    // the specification requires both items
    let Some(status_code) = uint32(kvs, "status-code")? else { return Err(No::Unspecified) };
    let Some(message) = text(kvs, "message")? else { return Err(No::Unspecified) };
    Ok(Disconnect { status_code, message: message.to_string() })
}

/// What the bytes after the length mean.
pub fn parse(b: &[u8]) -> Verdict {
    match parse_inner(b) {
        Ok(f) => Verdict::Frame(f),
        Err(No::Refused) => Verdict::Refused,
        Err(No::Unspecified) => Verdict::Unspecified,
    }
}

fn need<T>(o: Option<T>) -> Result<T, No> {
    o.ok_or(No::Refused)
}

fn parse_inner(b: &[u8]) -> Result<Frame, No> {
    let mut c = Cur::new(b);
    let ty = need(c.u8())?;
    let f = need(c.take(4))?;
    let flags = u32::from_be_bytes([f[0], f[1], f[2], f[3]]);
    let stream = need(c.varint())?;
    let frame = need(c.varint())?;
    let fragmented = flags & FIN == 0;
    match ty {
        T_HAPROXY_HELLO | T_AGENT_HELLO | T_HAPROXY_DISCON | T_AGENT_DISCON => {
            if stream != 0 || frame != 0 {
                return Err(No::Refused);
            }
            let kvs = need(c.kvs())?;
            if fragmented {
                // these frames are never fragmented; nothing is said about a missing FIN
                return Err(No::Unspecified);
            }
            match ty {
                T_HAPROXY_HELLO => hello(&kvs),
                T_AGENT_HELLO => agent_hello(&kvs),
                T_HAPROXY_DISCON => disconnect(&kvs).map(Frame::HaproxyDisconnect),
                _ => disconnect(&kvs).map(Frame::AgentDisconnect),
            }
        }
        T_HAPROXY_NOTIFY | T_AGENT_ACK => {
            if frame == 0 {
                return Err(No::Refused);
            }
            if ty == T_HAPROXY_NOTIFY {
                let mut messages = vec![];
                while c.left() > 0 {
                    messages.push(need(c.message())?);
                }
                Ok(Frame::HaproxyNotify(HaproxyNotify {
                    fragmented,
                    stream_id: stream,
                    frame_id: frame,
                    messages,
                }))
            } else {
                let mut actions = vec![];
                while c.left() > 0 {
                    actions.push(need(c.action())?);
                }
                Ok(Frame::AgentAck(AgentAck {
                    fragmented,
                    aborted: flags & ABORT != 0,
                    stream_id: stream,
                    frame_id: frame,
                    actions,
                }))
            }
        }
        _ => Err(No::Refused),
    }
}
