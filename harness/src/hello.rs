//! Hello frames: order, blanks, extras, missing items, version texts (C11).
use crate::codec::{outcome, read};
use crate::gen::*;
use crate::rt::*;
use crate::spec::{self, Verdict};
use haproxy_spop::{AgentHello, Capability, Frame, Framer, HaproxyHello, Typed, Version};

fn v(major: u8, minor: u8) -> Version {
    Version { major, minor }
}

fn body_of(ty: u8, items: &[(String, Typed)]) -> Vec<u8> {
    let mut b = spec::head(ty, spec::FIN, 0, 0);
    for (k, t) in items {
        spec::put_kv(&mut b, k, t);
    }
    b
}

/// reads as exactly this frame
fn reads_as(body: &[u8], want: Frame) {
    let framer = Framer::new(1024);
    let b = spec::framed(body);
    let (r, used) = read(&framer, &b);
    check(used == b.len(), "the whole frame is consumed");
    outcome(&r);
    match r {
        Ok(f) => check(f == want, "the hello means what its items say"),
        Err(_) => check(false, "the hello is accepted"),
    }
}

fn refused(body: &[u8]) {
    let framer = Framer::new(1024);
    let b = spec::framed(body);
    let (r, _) = read(&framer, &b);
    check(r.is_err(), "the hello is refused");
    outcome(&r);
}

fn own(items: Vec<(&'static str, Typed)>) -> Vec<(String, Typed)> {
    items.into_iter().map(|(k, t)| (k.to_string(), t)).collect()
}

/// an arbitrary order of the items
fn shuffle(items: Vec<(String, Typed)>) -> Vec<(String, Typed)> {
    let mut left = items;
    let mut out = vec![];
    while left.len() > 1 {
        let k = choose(left.len());
        out.push(left.remove(k));
    }
    out.append(&mut left);
    out
}

fn sample_haproxy() -> HaproxyHello {
    HaproxyHello {
        supported_versions: vec![v(2, 0), v(1, 5)],
        max_frame_size: 300,
        capabilities: vec![Capability::Async, Capability::Fragmentation],
        healthcheck: Some(true),
        engine_id: Some("e1".into()),
    }
}
fn sample_agent() -> AgentHello {
    AgentHello { version: v(2, 0), max_frame_size: 300, capabilities: vec![Capability::Pipelining] }
}

/// every order of the items of both hellos
pub fn c11_order() {
    warm();
    if any_bool() {
        let f = Frame::HaproxyHello(sample_haproxy());
        let items = shuffle(own(spec::items(&f)));
        reads_as(&body_of(spec::T_HAPROXY_HELLO, &items), f);
        cover(0);
    } else {
        let f = Frame::AgentHello(sample_agent());
        let items = shuffle(own(spec::items(&f)));
        reads_as(&body_of(spec::T_AGENT_HELLO, &items), f);
        cover(1);
    }
}

/// one or two unrecognised items anywhere, with any short name and a value of any type
pub fn c11_extras() {
    warm();
    let haproxy = any_bool();
    let f = if haproxy { Frame::HaproxyHello(sample_haproxy()) } else { Frame::AgentHello(sample_agent()) };
    let ty = spec::type_code(&f);
    let mut items = own(spec::items(&f));
    for i in 0..1 + choose(2) {
        let at = choose(items.len() + 1);
        if i == 1 {
            items.insert(at, ("x-2".into(), Typed::Uint32(2)));
            break;
        }
        let name = match choose(5) {
            // nearly the name of an item
            0 => "max-frame-sizes".to_string(),
            1 => "Version".to_string(),
            2 => "engine-i".to_string(),
            3 => "x".to_string(),
            _ => ascii(1),
        };
        items.insert(at, (name, small(choose(KINDS), 1)));
    }
    reads_as(&body_of(ty, &items), f);
    cover(haproxy as u32);
}

fn blanks() -> &'static str {
    ["", " ", "  "][choose(3)]
}

/// blanks around the entries of the version and capability lists
pub fn c11_blanks() {
    warm();
    let h = HaproxyHello { healthcheck: None, engine_id: None, ..sample_haproxy() };
    let mut items = own(spec::items(&Frame::HaproxyHello(h.clone())));
    let which = choose(2);
    let words: [&str; 2] = if which == 0 { ["2.0", "1.5"] } else { ["async", "fragmentation"] };
    let text = [blanks(), words[0], blanks(), ",", blanks(), words[1], blanks()].concat();
    items[if which == 0 { 0 } else { 2 }].1 = Typed::String(text);
    reads_as(&body_of(spec::T_HAPROXY_HELLO, &items), Frame::HaproxyHello(h));
    cover(which as u32);
}

/// the same for single entries and in the agent's hello, where the version is no list
pub fn c11_blanks_agent() {
    warm();
    let mut h = sample_agent();
    let mut items = own(spec::items(&Frame::AgentHello(h.clone())));
    match choose(3) {
        0 => items[0].1 = Typed::String([blanks(), "2.0", blanks()].concat()),
        1 => items[2].1 = Typed::String([blanks(), "pipelining", blanks()].concat()),
        _ => {
            h.capabilities = vec![Capability::Async, Capability::Pipelining, Capability::Fragmentation];
            items[2].1 = Typed::String(
                [blanks(), "async", blanks(), ",", blanks(), "pipelining", ",", blanks(), "fragmentation"].concat(),
            );
        }
    }
    reads_as(&body_of(spec::T_AGENT_HELLO, &items), Frame::AgentHello(h));
}

/// an empty or blank capability list means none, wherever it stands
pub fn c11_no_caps() {
    warm();
    let text = Typed::String(["", " ", "   "][choose(3)].to_string());
    if any_bool() {
        let h = HaproxyHello { capabilities: vec![], ..sample_haproxy() };
        let mut items = own(spec::items(&Frame::HaproxyHello(h.clone())));
        items[2].1 = text;
        let k = choose(items.len());
        items.rotate_left(k);
        reads_as(&body_of(spec::T_HAPROXY_HELLO, &items), Frame::HaproxyHello(h));
        cover(0);
    } else {
        let h = AgentHello { capabilities: vec![], ..sample_agent() };
        let mut items = own(spec::items(&Frame::AgentHello(h.clone())));
        items[2].1 = text;
        let k = choose(items.len());
        items.rotate_left(k);
        reads_as(&body_of(spec::T_AGENT_HELLO, &items), Frame::AgentHello(h));
        cover(1);
    }
}

/// any subset of the items, in any rotation: refused exactly when a required one is missing
pub fn c11_missing() {
    warm();
    let haproxy = any_bool();
    let f = if haproxy { Frame::HaproxyHello(sample_haproxy()) } else { Frame::AgentHello(sample_agent()) };
    let ty = spec::type_code(&f);
    let all = own(spec::items(&f));
    let mut items = vec![];
    let mut missing = false;
    let mut h = sample_haproxy();
    for (i, it) in all.into_iter().enumerate() {
        if any_bool() {
            items.push(it);
        } else {
            match i {
                0..=2 => missing = true,
                3 => h.healthcheck = None,
                _ => h.engine_id = None,
            }
        }
    }
    if any_bool() {
        items.push(("unknown".into(), Typed::Null));
    }
    let k = choose(items.len().max(1));
    items.rotate_left(k);
    let b = body_of(ty, &items);
    if missing {
        refused(&b);
        cover(0);
    } else {
        reads_as(&b, if haproxy { Frame::HaproxyHello(h) } else { f });
        cover(1);
    }
}

fn with_version(text: String, agent: bool, before: &str, after: &str) -> Vec<u8> {
    let f = if agent { Frame::AgentHello(sample_agent()) } else { Frame::HaproxyHello(sample_haproxy()) };
    let mut items = own(spec::items(&f));
    items[0].1 = Typed::String([before, &text, after].concat());
    body_of(spec::type_code(&f), &items)
}

fn judge_version(t: String, agent: bool, before: &str, after: &str) {
    let b = with_version(t, agent, before, after);
    match spec::parse(&b) {
        Verdict::Frame(f) => {
            cover(0);
            reads_as(&b, f);
        }
        Verdict::Refused => {
            cover(1);
            refused(&b);
        }
        Verdict::Unspecified => cover(2),
    }
}
fn place() -> (bool, &'static str, &'static str) {
    [(true, "", ""), (false, "", ""), (false, "2.0,", ""), (false, "", ", 1.0")][choose(4)]
}
fn texts(max: usize) {
    warm();
    let (agent, before, after) = place();
    let mut t = String::new();
    for _ in 0..choose(max + 1) {
        t.push(['0', '2', '9', '.', ' ', '-', 'v'][choose(7)]);
    }
    judge_version(t, agent, before, after);
}
/// up to four characters in place of a version
pub fn c11_version_text() {
    texts(4);
}
pub fn c11_version_text_6() {
    texts(6);
}
/// a version in which any one character is replaced by, or has inserted before it, any byte of ASCII
pub fn c11_version_any() {
    warm();
    let (agent, before, after) = place();
    let mut t = [&b"2.0"[..], b"12.34", b""][choose(3)].to_vec();
    let c = any_u8();
    assume(c < 0x80);
    if !agent {
        assume(c != b',');
    }
    let at = choose(t.len() + 1);
    if at < t.len() && any_bool() {
        t[at] = c;
    } else {
        t.insert(at, c);
    }
    judge_version(unsafe { String::from_utf8_unchecked(t) }, agent, before, after);
}

/// numbers of any digits around the limit of what is small
pub fn c11_version_numbers() {
    warm();
    let mut t = String::new();
    let mut n = 0u32;
    for _ in 0..1 + choose(3) {
        let k = choose(10);
        t.push((b'0' + k as u8) as char);
        n = n * 10 + k as u32;
    }
    let major = any_bool();
    let text = if major { [&t, ".7"].concat() } else { ["7.", &t].concat() };
    let agent = any_bool();
    let b = with_version(text, agent, "", "");
    if n < 256 {
        let x = if major { v(n as u8, 7) } else { v(7, n as u8) };
        let f = if agent {
            Frame::AgentHello(AgentHello { version: x, ..sample_agent() })
        } else {
            Frame::HaproxyHello(HaproxyHello { supported_versions: vec![x], ..sample_haproxy() })
        };
        reads_as(&b, f);
        cover(0);
    } else {
        refused(&b);
        cover(1);
    }
}
