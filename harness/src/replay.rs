//! Native replay. `replay paths FILE`: run every line `entry input hash` and compare the hash of
//! what the harness observed. `replay one ENTRY HEX`: run once and report how it ended.
#![allow(clippy::all)]
include!("modules.rs");

macro_rules! entries {
    ($($m:ident :: $f:ident),* $(,)?) => {
        pub static ENTRIES: &[(&str, fn())] = &[$((stringify!($f), $m::$f as fn())),*];
    };
}
include!("entries.rs");

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::panic::{catch_unwind, AssertUnwindSafe};

struct Counting;
thread_local! {
    static LIMIT: Cell<usize> = const { Cell::new(usize::MAX) };
    static OVER: Cell<usize> = const { Cell::new(0) };
    static INPUT: RefCell<(Vec<u8>, usize)> = const { RefCell::new((Vec::new(), 0)) };
    static HASH: Cell<u64> = const { Cell::new(0) };
    static FAILED: RefCell<Option<String>> = const { RefCell::new(None) };
    static ASSUME: Cell<bool> = const { Cell::new(false) };
    static SHORT: Cell<bool> = const { Cell::new(false) };
    static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        note(l.size());
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        note(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        note(n);
        System.realloc(p, l, n)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
}
fn note(n: usize) {
    let _ = LIMIT.try_with(|l| {
        if n > l.get() {
            let _ = OVER.try_with(|o| o.set(o.get().max(n)));
        }
    });
}
#[global_allocator]
static A: Counting = Counting;

#[no_mangle]
unsafe extern "C" fn vp_sym(p: *mut u8, n: usize) {
    INPUT.with(|i| {
        let mut i = i.borrow_mut();
        for k in 0..n {
            let at = i.1;
            *p.add(k) = match i.0.get(at) {
                Some(b) => *b,
                None => {
                    SHORT.with(|s| s.set(true));
                    0
                }
            };
            i.1 += 1;
        }
    })
}
struct Assumed;
#[no_mangle]
extern "C-unwind" fn vp_assume(c: bool) {
    if !c {
        ASSUME.with(|a| a.set(true));
        std::panic::resume_unwind(Box::new(Assumed));
    }
}
#[no_mangle]
unsafe extern "C" fn vp_assert(c: bool, p: *const u8, n: usize) {
    if !c {
        let label = String::from_utf8_lossy(std::slice::from_raw_parts(p, n)).into_owned();
        FAILED.with(|f| {
            f.borrow_mut().get_or_insert(label);
        });
    }
}
#[no_mangle]
extern "C" fn vp_observe(v: u64) {
    HASH.with(|h| {
        let mut x = h.get();
        for b in v.to_le_bytes() {
            x = (x ^ b as u64).wrapping_mul(0x100000001b3);
        }
        h.set(x)
    })
}
#[no_mangle]
extern "C" fn vp_cover(_id: u32) {}
#[no_mangle]
extern "C" fn vp_limit(n: u64) {
    LIMIT.with(|l| l.set(n as usize));
}
#[no_mangle]
extern "C" fn vp_concretize(v: u64) -> u64 {
    v
}

fn unhex(s: &str) -> Vec<u8> {
    if s == "-" {
        return vec![];
    }
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

/// how a run ended
struct End {
    what: String,
    hash: u64,
}

fn run(f: fn(), input: Vec<u8>) -> End {
    INPUT.with(|i| *i.borrow_mut() = (input, 0));
    HASH.with(|h| h.set(0xcbf29ce484222325));
    FAILED.with(|f| *f.borrow_mut() = None);
    PANIC.with(|f| *f.borrow_mut() = None);
    ASSUME.with(|a| a.set(false));
    SHORT.with(|a| a.set(false));
    OVER.with(|a| a.set(0));
    LIMIT.with(|a| a.set(usize::MAX));
    let r = catch_unwind(AssertUnwindSafe(f));
    LIMIT.with(|a| a.set(usize::MAX));
    let what = if let Some(l) = FAILED.with(|f| f.borrow_mut().take()) {
        format!("assert {l}")
    } else if ASSUME.with(|a| a.get()) {
        "assume".into()
    } else if OVER.with(|a| a.get()) > 0 {
        format!("alloc {}", OVER.with(|a| a.get()))
    } else if r.is_err() {
        format!("panic {}", PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default())
    } else if SHORT.with(|s| s.get()) {
        "short".into()
    } else {
        "ok".into()
    };
    End { what, hash: HASH.with(|h| h.get()) }
}

fn main() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        PANIC.with(|p| {
            p.borrow_mut().get_or_insert(format!("{msg} at {loc}"));
        });
    }));
    let args: Vec<String> = std::env::args().collect();
    let find = |n: &str| ENTRIES.iter().find(|e| e.0 == n).map(|e| e.1);
    match args.get(1).map(|s| s.as_str()) {
        Some("one") => {
            let f = find(&args[2]).expect("no such entry");
            let e = run(f, unhex(&args[3]));
            println!("{:016x} {}", e.hash, e.what);
        }
        Some("paths") => {
            let f = find(&args[2]).expect("no such entry");
            let text = std::fs::read_to_string(&args[3]).unwrap();
            let (mut n, mut bad) = (0u64, 0u64);
            for line in text.lines() {
                let mut w = line.split(' ');
                let input = w.next().unwrap();
                let hash = u64::from_str_radix(w.next().unwrap(), 16).unwrap();
                let e = run(f, unhex(input));
                n += 1;
                if e.what != "ok" || e.hash != hash {
                    bad += 1;
                    if bad <= 5 {
                        println!("MISMATCH {input} symbolic={hash:016x} native={:016x} {}", e.hash, e.what);
                    }
                }
            }
            println!("REPLAYED {n} MISMATCHED {bad}");
        }
        Some("list") => {
            for e in ENTRIES {
                println!("{}", e.0);
            }
        }
        _ => panic!("usage"),
    }
    let _ = rt::choose;
}
