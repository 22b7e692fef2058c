//! The operating system as an agent sees it: a listening socket, the streams accepted from it, and
//! readiness as epoll reports it (edge triggered). The calls of the standard library, mio and tokio
//! end here (`__wrap_*`: the linker's --wrap in the native replay, the executor otherwise) when they
//! are about one of these sockets, and go on to the system when they are not.
#![allow(dead_code)]
use crate::rt::check;
use std::ffi::{c_int, c_void};
use std::net::TcpListener;
use std::os::fd::FromRawFd;
use std::sync::{Mutex, MutexGuard};

const BASE: c_int = 5000;
const IN: u32 = 1;
const OUT: u32 = 4;
const ERR: u32 = 8;
const HUP: u32 = 0x10;
const RDHUP: u32 = 0x2000;
pub const EINTR: i32 = 4;
const EAGAIN: i32 = 11;
const EBADF: i32 = 9;
pub const ENFILE: i32 = 23;
pub const EMFILE: i32 = 24;
pub const EPIPE: i32 = 32;
pub const ENOBUFS: i32 = 105;
pub const ENOMEM: i32 = 12;
pub const EPERM: i32 = 1;
pub const EPROTO: i32 = 71;
pub const ECONNABORTED: i32 = 103;
pub const ECONNRESET: i32 = 104;

#[derive(Default)]
struct Sock {
    input: Vec<u8>,
    pos: usize,
    eof: bool,
    failed: bool,
    written: Vec<u8>,
    room: usize,
    /// the agent closed it
    closed: bool,
}
enum Kind {
    Epoll,
    Event(u64),
    Listener,
    Stream(Sock),
}
struct Interest {
    fd: c_int,
    data: u64,
    wanted: u32,
    edges: u32,
}
#[derive(Default)]
struct Kernel {
    fds: Vec<Kind>,
    interest: Vec<Interest>,
    queue: Vec<Result<c_int, i32>>,
    listening: bool,
    /// the listening socket is as `bind` leaves it: accepting waits for a connection
    blocking: bool,
}
static KERNEL: Mutex<Option<Kernel>> = Mutex::new(None);

fn lock() -> MutexGuard<'static, Option<Kernel>> {
    KERNEL.lock().unwrap_or_else(|e| e.into_inner())
}
fn ours(fd: c_int) -> bool {
    fd >= BASE
}

impl Kernel {
    fn open(&mut self, k: Kind) -> c_int {
        self.fds.push(k);
        BASE + self.fds.len() as c_int - 1
    }
    fn kind(&mut self, fd: c_int) -> Option<&mut Kind> {
        self.fds.get_mut((fd - BASE) as usize)
    }
    fn sock(&mut self, fd: c_int) -> &mut Sock {
        match self.kind(fd) {
            Some(Kind::Stream(s)) => s,
            _ => panic!("not a stream"),
        }
    }
    fn edge(&mut self, fd: c_int, what: u32) {
        for i in &mut self.interest {
            if i.fd == fd {
                i.edges |= what & (i.wanted | ERR | HUP);
            }
        }
    }
    fn state(&mut self, fd: c_int) -> u32 {
        let queued = !self.queue.is_empty();
        match self.kind(fd) {
            Some(Kind::Event(n)) if *n > 0 => IN,
            Some(Kind::Listener) if queued => IN,
            Some(Kind::Stream(s)) => {
                let mut e = 0;
                if s.pos < s.input.len() {
                    e |= IN;
                }
                if s.eof {
                    e |= IN | RDHUP;
                }
                if s.room > 0 {
                    e |= OUT;
                }
                if s.failed {
                    e |= IN | OUT | ERR | HUP;
                }
                e
            }
            _ => 0,
        }
    }
}

fn errno(e: i32) -> isize {
    extern "C" {
        fn __errno_location() -> *mut c_int;
    }
    unsafe { *__errno_location() = e };
    -1
}

// --------------------------------------------------------------------------- the calls

#[no_mangle]
pub unsafe extern "C" fn __wrap_epoll_create1(_flags: c_int) -> c_int {
    let mut g = lock();
    g.get_or_insert_with(Default::default).open(Kind::Epoll)
}
#[no_mangle]
pub unsafe extern "C" fn __wrap_eventfd(init: u32, _flags: c_int) -> c_int {
    let mut g = lock();
    g.get_or_insert_with(Default::default).open(Kind::Event(init as u64))
}
#[no_mangle]
pub unsafe extern "C" fn __wrap_epoll_ctl(_ep: c_int, op: c_int, fd: c_int, ev: *const u8) -> c_int {
    let mut g = lock();
    let Some(k) = g.as_mut() else { return errno(EBADF) as c_int };
    k.interest.retain(|i| i.fd != fd);
    if op == 1 || op == 3 {
        let wanted = (ev as *const u32).read_unaligned();
        let data = (ev.add(4) as *const u64).read_unaligned();
        let edges = k.state(fd) & (wanted | ERR | HUP);
        k.interest.push(Interest { fd, data, wanted, edges });
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn __wrap_epoll_wait(_ep: c_int, out: *mut u8, max: c_int, timeout: c_int) -> c_int {
    let mut g = lock();
    let Some(k) = g.as_mut() else { return errno(EBADF) as c_int };
    let mut n = 0;
    for i in &mut k.interest {
        if i.edges != 0 && n < max {
            let at = out.add(12 * n as usize);
            (at as *mut u32).write_unaligned(i.edges);
            (at.add(4) as *mut u64).write_unaligned(i.data);
            i.edges = 0;
            n += 1;
        }
    }
    if n == 0 && timeout < 0 {
        drop(g);
        check(false, "something is left to wait for");
        panic!("waits for ever");
    }
    n
}
#[no_mangle]
pub unsafe extern "C" fn __wrap_fcntl(fd: c_int, cmd: c_int, arg: usize) -> c_int {
    extern "C" {
        fn __real_fcntl(fd: c_int, cmd: c_int, arg: usize) -> c_int;
    }
    if !ours(fd) {
        return __real_fcntl(fd, cmd, arg);
    }
    match cmd {
        // only epoll descriptors are duplicated, and there is one instance
        0 | 1030 => lock().as_mut().map_or(-1, |k| k.open(Kind::Epoll)),
        3 => match lock().as_ref() {
            Some(k) if fd == BASE && k.blocking => 0o2,
            _ => 0o4002,
        },
        4 => {
            if let (BASE, Some(k)) = (fd, lock().as_mut()) {
                k.blocking = arg & 0o4000 == 0;
            }
            0
        }
        _ => 0,
    }
}
/// only FIONBIO
#[no_mangle]
pub unsafe extern "C" fn __wrap_ioctl(fd: c_int, req: u64, arg: usize) -> c_int {
    extern "C" {
        fn __real_ioctl(fd: c_int, req: u64, arg: usize) -> c_int;
    }
    if !ours(fd) {
        return __real_ioctl(fd, req, arg);
    }
    if req == 0x5421 {
        if let (BASE, Some(k)) = (fd, lock().as_mut()) {
            k.blocking = (arg as *const c_int).read() == 0;
        }
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn __wrap_accept4(fd: c_int, addr: *mut u8, len: *mut u32, _flags: c_int) -> c_int {
    let _ = fd;
    let mut g = lock();
    let Some(k) = g.as_mut() else { return errno(EBADF) as c_int };
    if k.queue.is_empty() {
        if k.blocking {
            drop(g);
            check(false, "accepting never holds up everything else");
            panic!("blocked in accept");
        }
        return errno(EAGAIN) as c_int;
    }
    match k.queue.remove(0) {
        Err(e) => errno(e) as c_int,
        Ok(s) => {
            if !addr.is_null() {
                // 127.0.0.1, and a port by the number
                let port = 1024 + s as u16;
                let a = [2, 0, (port >> 8) as u8, port as u8, 127, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0];
                addr.copy_from(a.as_ptr(), 16);
                *len = 16;
            }
            s
        }
    }
}
unsafe fn receive(fd: c_int, p: *mut u8, n: usize) -> isize {
    let mut g = lock();
    let Some(k) = g.as_mut() else { return errno(EBADF) };
    match k.kind(fd) {
        Some(Kind::Event(v)) => {
            if *v == 0 {
                return errno(EAGAIN);
            }
            (p as *mut u64).write_unaligned(std::mem::take(v));
            8
        }
        Some(Kind::Stream(s)) => {
            if s.failed {
                return errno(ECONNRESET);
            }
            let left = s.input.len() - s.pos;
            if left == 0 {
                return if s.eof { 0 } else { errno(EAGAIN) };
            }
            let m = left.min(n);
            p.copy_from(s.input[s.pos..].as_ptr(), m);
            s.pos += m;
            m as isize
        }
        _ => errno(EBADF),
    }
}
unsafe fn transmit(fd: c_int, p: *const u8, n: usize) -> isize {
    let mut g = lock();
    let Some(k) = g.as_mut() else { return errno(EBADF) };
    match k.kind(fd) {
        Some(Kind::Event(v)) => {
            *v += (p as *const u64).read_unaligned();
            k.edge(fd, IN);
            8
        }
        Some(Kind::Stream(s)) => {
            if s.failed {
                return errno(EPIPE);
            }
            if s.room == 0 {
                return errno(EAGAIN);
            }
            let m = s.room.min(n);
            s.written.extend_from_slice(std::slice::from_raw_parts(p, m));
            s.room -= m;
            m as isize
        }
        _ => errno(EBADF),
    }
}
#[no_mangle]
pub unsafe extern "C" fn __wrap_recv(fd: c_int, p: *mut u8, n: usize, flags: c_int) -> isize {
    extern "C" {
        fn __real_recv(fd: c_int, p: *mut u8, n: usize, flags: c_int) -> isize;
    }
    if ours(fd) {
        receive(fd, p, n)
    } else {
        __real_recv(fd, p, n, flags)
    }
}
#[no_mangle]
pub unsafe extern "C" fn __wrap_send(fd: c_int, p: *const u8, n: usize, flags: c_int) -> isize {
    extern "C" {
        fn __real_send(fd: c_int, p: *const u8, n: usize, flags: c_int) -> isize;
    }
    if ours(fd) {
        transmit(fd, p, n)
    } else {
        __real_send(fd, p, n, flags)
    }
}
#[no_mangle]
pub unsafe extern "C" fn __wrap_read(fd: c_int, p: *mut u8, n: usize) -> isize {
    extern "C" {
        fn __real_read(fd: c_int, p: *mut u8, n: usize) -> isize;
    }
    if ours(fd) {
        receive(fd, p, n)
    } else {
        __real_read(fd, p, n)
    }
}
#[no_mangle]
pub unsafe extern "C" fn __wrap_write(fd: c_int, p: *const u8, n: usize) -> isize {
    extern "C" {
        fn __real_write(fd: c_int, p: *const u8, n: usize) -> isize;
    }
    if ours(fd) {
        transmit(fd, p, n)
    } else {
        __real_write(fd, p, n)
    }
}
#[no_mangle]
pub unsafe extern "C" fn __wrap_close(fd: c_int) -> c_int {
    extern "C" {
        fn __real_close(fd: c_int) -> c_int;
    }
    if !ours(fd) {
        return __real_close(fd);
    }
    if let Some(k) = lock().as_mut() {
        k.interest.retain(|i| i.fd != fd);
        match k.kind(fd) {
            Some(Kind::Stream(s)) => {
                check(!s.closed, "a stream is closed once");
                s.closed = true;
            }
            Some(Kind::Listener) => k.listening = false,
            _ => {}
        }
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn __wrap_shutdown(fd: c_int, how: c_int) -> c_int {
    extern "C" {
        fn __real_shutdown(fd: c_int, how: c_int) -> c_int;
    }
    if !ours(fd) {
        return __real_shutdown(fd, how);
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn __wrap_setsockopt(fd: c_int, l: c_int, o: c_int, v: *const c_void, n: u32) -> c_int {
    extern "C" {
        fn __real_setsockopt(fd: c_int, l: c_int, o: c_int, v: *const c_void, n: u32) -> c_int;
    }
    if !ours(fd) {
        return __real_setsockopt(fd, l, o, v, n);
    }
    0
}

// --------------------------------------------------------------------------- the other side

/// forget everything; a new listening socket
pub fn listener() -> TcpListener {
    let mut k = Kernel::default();
    k.listening = true;
    let fd = k.open(Kind::Listener);
    *lock() = Some(k);
    unsafe { TcpListener::from_raw_fd(fd) }
}
/// a listening socket that nobody has made non-blocking
pub fn blocking_listener() -> TcpListener {
    let l = listener();
    lock().as_mut().unwrap().blocking = true;
    l
}
pub fn listening() -> bool {
    lock().as_ref().is_some_and(|k| k.listening)
}
/// connections nobody has accepted
pub fn waiting() -> usize {
    lock().as_ref().map_or(0, |k| k.queue.len())
}
pub fn fail_accept(e: i32) {
    let mut g = lock();
    let k = g.as_mut().unwrap();
    k.queue.push(Err(e));
    k.edge(BASE, IN);
}
#[derive(Clone, Copy)]
pub struct Peer(c_int);
pub fn dial() -> Peer {
    let mut g = lock();
    let k = g.as_mut().unwrap();
    let fd = k.open(Kind::Stream(Sock { room: usize::MAX, ..Default::default() }));
    k.queue.push(Ok(fd));
    k.edge(BASE, IN);
    Peer(fd)
}
impl Peer {
    fn with<R>(&self, f: impl FnOnce(&mut Sock) -> R) -> R {
        f(lock().as_mut().unwrap().sock(self.0))
    }
    pub fn push(&self, b: &[u8]) {
        self.with(|s| s.input.extend_from_slice(b));
        lock().as_mut().unwrap().edge(self.0, IN);
    }
    pub fn end(&self) {
        self.with(|s| s.eof = true);
        lock().as_mut().unwrap().edge(self.0, IN | RDHUP);
    }
    pub fn reset(&self) {
        self.with(|s| s.failed = true);
        lock().as_mut().unwrap().edge(self.0, IN | OUT | ERR | HUP);
    }
    /// takes at most this many more bytes
    pub fn room(&self, n: usize) {
        self.with(|s| s.room = n);
        if n > 0 {
            lock().as_mut().unwrap().edge(self.0, OUT);
        }
    }
    pub fn written(&self) -> Vec<u8> {
        self.with(|s| s.written.clone())
    }
    pub fn unread(&self) -> usize {
        self.with(|s| s.input.len() - s.pos)
    }
    pub fn closed(&self) -> bool {
        self.with(|s| s.closed)
    }
}
