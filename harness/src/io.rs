//! A transport whose every step is scripted, and a loop that polls a future as an executor would:
//! again only when it was woken.
use std::cell::RefCell;
use std::collections::VecDeque;
use std::future::Future;
use std::io;
use std::pin::{pin, Pin};
use std::rc::Rc;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};
use tokio::io::{AsyncRead, AsyncWrite, ReadBuf};

#[derive(Clone, Copy, Debug)]
pub enum Step {
    /// at most this many bytes are available to the next read
    Give(usize),
    /// nothing until the next round
    Pause,
    /// all that is left
    Rest,
    /// nothing, and nobody is told when that changes, until `push` is called
    Wait,
    /// the end of the stream
    End,
    /// an error
    Fail,
}

#[derive(Default)]
struct Inner {
    input: Vec<u8>,
    pos: usize,
    steps: VecDeque<Step>,
    waker: Option<Waker>,
    written: Vec<u8>,
    /// most bytes taken by one write
    take: usize,
    /// wait before every write
    pause: bool,
    paused: bool,
    room: usize,
    reads: usize,
    shut: bool,
    /// what is written stays here until it is flushed
    held: Vec<u8>,
    hold: bool,
    flush: Flush,
    flushing: bool,
}
#[derive(Clone, Copy, Default, PartialEq)]
pub enum Flush {
    #[default]
    Now,
    /// not at once
    Later,
    Fail,
}

#[derive(Clone)]
pub struct Pipe(Rc<RefCell<Inner>>);

impl Pipe {
    pub fn new(input: Vec<u8>) -> Pipe {
        Pipe(Rc::new(RefCell::new(Inner {
            input,
            take: usize::MAX,
            room: usize::MAX,
            ..Default::default()
        })))
    }
    pub fn script(&self, steps: Vec<Step>) {
        self.0.borrow_mut().steps = steps.into();
    }
    /// more input; wakes the reader
    pub fn push(&self, b: &[u8]) {
        let mut i = self.0.borrow_mut();
        i.input.extend_from_slice(b);
        if let Some(w) = i.waker.take() {
            w.wake();
        }
    }
    pub fn then(&self, s: Step) {
        let mut i = self.0.borrow_mut();
        i.steps.push_back(s);
        if let Some(w) = i.waker.take() {
            w.wake();
        }
    }
    pub fn accept(&self, take: usize, pause: bool) {
        let mut i = self.0.borrow_mut();
        i.take = take;
        i.pause = pause;
    }
    /// a transport that passes on what is written only when it is flushed
    pub fn hold(&self, f: Flush) {
        let mut i = self.0.borrow_mut();
        i.hold = true;
        i.flush = f;
    }
    pub fn room(&self, n: usize) {
        self.0.borrow_mut().room = n;
    }
    pub fn written(&self) -> Vec<u8> {
        self.0.borrow().written.clone()
    }
    pub fn unread(&self) -> usize {
        let i = self.0.borrow();
        i.input.len() - i.pos
    }
}

impl AsyncRead for Pipe {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
        let mut i = self.0.borrow_mut();
        let i = &mut *i;
        i.reads += 1;
        loop {
            let left = i.input.len() - i.pos;
            let n = match i.steps.front().copied() {
                // without a script: what there is, then wait
                None if left == 0 => {
                    i.waker = Some(cx.waker().clone());
                    return Poll::Pending;
                }
                None => left,
                Some(Step::Give(0)) => {
                    i.steps.pop_front();
                    continue;
                }
                Some(Step::Give(n)) => {
                    if left == 0 {
                        i.steps.pop_front();
                        continue;
                    }
                    // what is not taken now stays available
                    let n = n.min(left);
                    let k = n.min(buf.remaining());
                    i.steps.pop_front();
                    if k < n {
                        i.steps.push_front(Step::Give(n - k));
                    }
                    k
                }
                Some(Step::Pause) => {
                    i.steps.pop_front();
                    cx.waker().wake_by_ref();
                    return Poll::Pending;
                }
                Some(Step::Rest) if left == 0 => {
                    i.steps.pop_front();
                    continue;
                }
                Some(Step::Rest) => left,
                Some(Step::Wait) if left == 0 => {
                    i.waker = Some(cx.waker().clone());
                    return Poll::Pending;
                }
                Some(Step::Wait) => left,
                Some(Step::End) => return Poll::Ready(Ok(())),
                Some(Step::Fail) => {
                    return Poll::Ready(Err(io::ErrorKind::ConnectionReset.into()));
                }
            };
            let n = n.min(buf.remaining());
            buf.put_slice(&i.input[i.pos..i.pos + n]);
            i.pos += n;
            return Poll::Ready(Ok(()));
        }
    }
}

impl AsyncWrite for Pipe {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[u8]) -> Poll<io::Result<usize>> {
        let mut i = self.0.borrow_mut();
        if i.pause && !i.paused {
            i.paused = true;
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        i.paused = false;
        if i.shut || (i.room == 0 && !b.is_empty()) {
            return Poll::Ready(Err(io::ErrorKind::BrokenPipe.into()));
        }
        let n = b.len().min(i.take).min(i.room);
        if i.hold {
            i.held.extend_from_slice(&b[..n]);
        } else {
            i.written.extend_from_slice(&b[..n]);
        }
        i.room -= n;
        Poll::Ready(Ok(n))
    }
    fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        let mut i = self.0.borrow_mut();
        if !i.hold {
            return Poll::Ready(Ok(()));
        }
        match i.flush {
            Flush::Fail => return Poll::Ready(Err(io::ErrorKind::BrokenPipe.into())),
            Flush::Later if !i.flushing => {
                i.flushing = true;
                cx.waker().wake_by_ref();
                return Poll::Pending;
            }
            _ => {}
        }
        i.flushing = false;
        let held = std::mem::take(&mut i.held);
        i.written.extend_from_slice(&held);
        Poll::Ready(Ok(()))
    }
    fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        self.0.borrow_mut().shut = true;
        Poll::Ready(Ok(()))
    }
}

/// counts how often it was woken
pub struct Bell(pub AtomicUsize);
impl Bell {
    pub fn new() -> Arc<Bell> {
        Arc::new(Bell(AtomicUsize::new(0)))
    }
    pub fn rung(&self) -> usize {
        self.0.load(Ordering::SeqCst)
    }
}
impl Wake for Bell {
    fn wake(self: Arc<Self>) {
        self.0.fetch_add(1, Ordering::SeqCst);
    }
    fn wake_by_ref(self: &Arc<Self>) {
        self.0.fetch_add(1, Ordering::SeqCst);
    }
}

/// Poll until the future is done, or until it waits without having been woken.
pub fn settle<F: Future + ?Sized>(mut f: Pin<&mut F>) -> Option<F::Output> {
    let bell = Bell::new();
    let waker = Waker::from(bell.clone());
    let mut cx = Context::from_waker(&waker);
    loop {
        let before = bell.rung();
        if let Poll::Ready(v) = f.as_mut().poll(&mut cx) {
            return Some(v);
        }
        if bell.rung() == before {
            return None;
        }
    }
}

pub fn drive<F: Future>(_: &Pipe, f: F) -> Option<F::Output> {
    let f = pin!(f);
    settle(f)
}
