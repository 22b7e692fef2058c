//! A subscriber that writes out everything that is traced (C36).
use crate::misc::some_frame;
use crate::conn::*;
use crate::gen::*;
use crate::io::*;
use crate::rt::*;
use crate::spec;
use haproxy_spop::{BufCodec, Codec, Disconnect, Error as Status, Frame, Framer, HaproxyHello, Typed, Version};
use std::fmt::{Debug, Write};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use tracing::field::{Field, Visit};
use tracing::span::{Attributes, Id, Record};
use tracing::{Event, Metadata, Subscriber};

static NEXT: AtomicU64 = AtomicU64::new(1);
static WRITTEN: AtomicU64 = AtomicU64::new(0);

struct Everything;
struct Text;
impl Visit for Text {
    fn record_debug(&mut self, field: &Field, value: &dyn Debug) {
        let mut s = String::new();
        let r = write!(s, "{}={value:?}", field.name());
        check(r.is_ok(), "what is traced can be written out");
        WRITTEN.fetch_add(s.len() as u64, Relaxed);
    }
}
impl Subscriber for Everything {
    fn enabled(&self, _: &Metadata<'_>) -> bool {
        true
    }
    fn new_span(&self, a: &Attributes<'_>) -> Id {
        a.record(&mut Text);
        Id::from_u64(NEXT.fetch_add(1, Relaxed))
    }
    fn record(&self, _: &Id, r: &Record<'_>) {
        r.record(&mut Text);
    }
    fn record_follows_from(&self, _: &Id, _: &Id) {}
    fn event(&self, e: &Event<'_>) {
        e.record(&mut Text);
    }
    fn enter(&self, _: &Id) {}
    fn exit(&self, _: &Id) {}
}
/// as long as this lives, everything is traced
pub fn traced(yes: bool) -> Option<tracing::subscriber::DefaultGuard> {
    yes.then(|| tracing::subscriber::set_default(Everything))
}

/// one conversation, with and without
pub fn c36_connection() {
    let frag = any_bool();
    let (first, second) = (choose(5), choose(9));
    let text = ascii(1);
    let talk = |trace: bool| {
        let _t = traced(trace);
        let mut c = if frag { Config::fragmenting() } else { Config::default() };
        c.process_ms = 100;
        let a = Agent::new(&c);
        let mut input = match first {
            0 | 1 => vec![],
            2 => spec::encode(&Frame::HaproxyHello(HaproxyHello { healthcheck: Some(true), ..hello_with(vec![]) })),
            3 => spec::encode(&Frame::HaproxyHello(HaproxyHello {
                supported_versions: vec![Version::new(9, 9)],
                ..hello_with(vec![])
            })),
            _ => fragment(1, 1, true, vec![]),
        };
        if first < 2 {
            input.extend_from_slice(&if frag { hello_fragmenting() } else { hello() });
            if first == 1 {
                a.log.borrow_mut().makes.push_back((Wait::No, Some("no service".into())));
            }
        }
        match second {
            0 => input.extend_from_slice(&fragment(1, 1, true, vec![msg("m"), msg("")])),
            1 => {
                input.extend_from_slice(&fragment(1, 1, false, vec![msg(&text)]));
                input.extend_from_slice(&fragment(1, 1, true, vec![msg("n")]));
            }
            2 => input.extend_from_slice(&fragment(1, 1, true, vec![msg("fail")])),
            3 => input.extend_from_slice(&fragment(1, 1, true, vec![msg("never")])),
            4 => {
                let d = Disconnect { status_code: Status::Timeout as u32, message: text.clone() };
                input.extend_from_slice(&spec::encode(&Frame::HaproxyDisconnect(d)));
            }
            5 => input.extend_from_slice(&[0, 0, 0, 1, 77]),
            6 => input.extend_from_slice(&[0, 0, 0, 0]),
            7 => input.extend_from_slice(&[0xff, 0, 0, 0]),
            _ => {
                let mut m = msg("m");
                m.args = [
                    Typed::Null,
                    Typed::Boolean(true),
                    Typed::Int32(-1),
                    Typed::Uint64(u64::MAX),
                    Typed::Ipv4([1, 2, 3, 4].into()),
                    Typed::Ipv6([0xff; 16].into()),
                    Typed::String("\u{1F980}\n".into()),
                    Typed::Binary(vec![0, 0xff].into()),
                ]
                .into_iter()
                .map(|v| ("k".to_string(), v))
                .collect();
                a.plan(vec![reply(vec![set("v", Typed::String("x".into()))])]);
                input.extend_from_slice(&fragment(1, 1, true, vec![m]));
            }
        }
        let pipe = Pipe::new(input);
        let (mut live, tok) = a.live(&pipe);
        let mut r = a.settle(&mut live);
        if r.is_none() {
            a.rt.block_on(tokio::time::advance(std::time::Duration::from_millis(101)));
            r = a.settle(&mut live);
        }
        if r.is_none() {
            tok.cancel();
            r = a.settle(&mut live);
        }
        (pipe.written(), r.map(|r| r.is_ok()), a.calls())
    };
    let without = talk(false);
    let before = WRITTEN.load(Relaxed);
    let with = talk(true);
    check(with == without, "what is traced changes nothing about a connection");
    check(without.1.is_some(), "the connection ends");
    cover((WRITTEN.load(Relaxed) > before) as u32);
    observe_bytes(&with.0);
}

/// frames written, by the framer or either codec, and read back; and bytes that are no frame
pub fn c36_frames() {
    let (k, through, limit, kind) = (1 + choose(6), choose(3), [64, 8][choose(2)], [3, 77][choose(2)]);
    let (mut f, junk) = (some_frame(k), [[0, 0x7f, 0xff][choose(3)], [0, 1][choose(2)]]);
    if let Frame::HaproxyDisconnect(d) | Frame::AgentDisconnect(d) = &mut f {
        d.status_code = [0, 10, 99, u32::MAX][choose(4)];
    }
    let go = |trace: bool| {
        let _t = traced(trace);
        let pipe = Pipe::new(vec![]);
        let framer = Framer::new(limit);
        let mut buf = BufCodec::buffered(pipe.clone(), framer.clone());
        let mut plain = Codec::new(pipe.clone(), framer.clone());
        let f = f.clone();
        let w = drive(&pipe, async {
            match through {
                0 => framer.write_frame(pipe.clone(), f).await,
                1 => plain.write_frame(f).await,
                _ => buf.write_frame(f).await,
            }
        });
        pipe.push(&pipe.written());
        pipe.push(&[0, 0, 0, 3, kind]);
        pipe.push(&junk);
        let mut read = vec![];
        for _ in 0..3 {
            read.push(drive(&pipe, async {
                match through {
                    0 => framer.read_frame(pipe.clone()).await,
                    1 => plain.read_frame().await,
                    _ => buf.read_frame().await,
                }
            }));
        }
        (w, pipe.written(), read)
    };
    let without = go(false);
    let with = go(true);
    check(with == without, "what is traced changes nothing about frames");
    observe_bytes(&with.1);
}
