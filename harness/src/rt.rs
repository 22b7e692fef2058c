//! What a harness may ask of its environment. Under the symbolic executor the `vp_*` calls are
//! intercepted; in the native replay they are the functions of `replay.rs`.
#![allow(dead_code)]
use std::future::Future;
use std::pin::{pin, Pin};
use std::task::{Context, Poll, Waker};

extern "C-unwind" {
    fn vp_sym(p: *mut u8, n: usize);
    fn vp_assume(c: bool);
    fn vp_assert(c: bool, p: *const u8, n: usize);
    fn vp_observe(v: u64);
    fn vp_cover(id: u32);
    fn vp_concretize(v: u64) -> u64;
    fn vp_limit(n: u64);
}

/// `N` arbitrary bytes
#[inline(never)]
pub fn any<const N: usize>() -> [u8; N] {
    let mut b = [0u8; N];
    unsafe { vp_sym(b.as_mut_ptr(), N) };
    b
}
pub fn any_u8() -> u8 {
    any::<1>()[0]
}
pub fn any_u32() -> u32 {
    u32::from_le_bytes(any())
}
pub fn any_u64() -> u64 {
    u64::from_le_bytes(any())
}
pub fn any_bool() -> bool {
    choose(2) == 1
}
pub fn fill(b: &mut [u8]) {
    unsafe { vp_sym(b.as_mut_ptr(), b.len()) };
}
pub fn assume(c: bool) {
    unsafe { vp_assume(c) }
}
#[inline(never)]
pub fn check(c: bool, label: &str) {
    unsafe { vp_assert(c, label.as_ptr(), label.len()) }
}
pub fn observe(v: u64) {
    unsafe { vp_observe(v) }
}
#[inline(never)]
pub fn observe_bytes(b: &[u8]) {
    observe(b.len() as u64);
    for c in b {
        observe(*c as u64);
    }
}
pub fn cover(id: u32) {
    unsafe { vp_cover(id) }
}
pub fn concretize(v: u64) -> u64 {
    unsafe { vp_concretize(v) }
}
/// run `f`; a memory request of more than `n` bytes within it is a violation
pub fn within<R>(n: u64, f: impl FnOnce() -> R) -> R {
    unsafe { vp_limit(n) };
    let r = f();
    unsafe { vp_limit(u64::MAX) };
    r
}
/// an arbitrary number below `n`, one path per value
pub fn choose(n: usize) -> usize {
    let b = any_u8();
    assume((b as usize) < n);
    concretize(b as u64) as usize
}

/// poll once with a no-op waker
pub fn poll_once<F: Future + ?Sized>(f: Pin<&mut F>) -> Option<F::Output> {
    let mut cx = Context::from_waker(Waker::noop());
    match f.poll(&mut cx) {
        Poll::Ready(v) => Some(v),
        Poll::Pending => None,
    }
}
/// run a future that never has to wait for anything but its own (always ready) input
pub fn now<F: Future>(f: F) -> Option<F::Output> {
    let mut f = pin!(f);
    poll_once(f.as_mut())
}
