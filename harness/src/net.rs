//! Sockets, runtimes, waiting, and syscall fault injection.
use crate::core::*;
use std::cell::{Cell, RefCell};
use std::net::SocketAddr;
use std::os::fd::AsRawFd;
use std::sync::atomic::{AtomicU32, Ordering};
use std::sync::Arc;
use std::time::Duration;
use tokio::net::{TcpListener, TcpSocket, TcpStream};

// ---------------------------------------------------------------- runtime
pub fn block_on<F: std::future::Future>(f: F) -> F::Output {
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().expect("runtime");
    // (threads of a multi-threaded runtime would disagree about the time)
    LEAPING.with(|l| l.set(true));
    struct Back;
    impl Drop for Back {
        fn drop(&mut self) {
            LEAPING.with(|l| l.set(false));
            CLOCK.with(|c| c.set(0));
        }
    }
    let _back = Back;
    let out = rt.block_on(f);
    // tasks are dropped here, on this thread
    drop(rt);
    out
}

// ---------------------------------------------------------------- time
// The clock of a case's thread can be put forward: code that does something after a while does it then.
thread_local! {
    /// (state of the generator or 0 for never, leaps so far)
    static LEAPS: std::cell::Cell<(u64, u64)> = const { std::cell::Cell::new((0, 0)) };
    static LEAPING: Cell<bool> = const { Cell::new(false) };
    static CLOCK: std::cell::Cell<i64> = const { std::cell::Cell::new(0) };
}
/// start a case: 0 = time passes as usual
pub fn leaps(seed: u64) {
    LEAPS.with(|l| l.set((seed, 0)));
    CLOCK.with(|c| c.set(0));
}
pub fn leapt() -> u64 {
    LEAPS.with(|l| l.get().1)
}
/// waiting in the kernel until a point in time wants to know the real one
pub fn real_time(f: impl FnOnce()) {
    let was = CLOCK.with(|c| c.replace(0));
    f();
    CLOCK.with(|c| c.set(was));
}
fn tick(slot: &Slot) {
    slot.turns.fetch_add(1, Ordering::Relaxed);
    LEAPS.with(|l| {
        let (s, n) = l.get();
        if s != 0 && LEAPING.with(|l| l.get()) {
            let s = mix(s.wrapping_add(0x9e37_79b9)) | 1;
            let hit = (s >> 8) % 48 == 0 && n < 200;
            if hit {
                let by = [2i64, 45, 700, 8000, 100_000][(s >> 20) as usize % 5];
                CLOCK.with(|c| c.set(c.get() + by));
            }
            l.set((s, n + hit as u64));
        }
    });
}
/// One turn of the runtime: every runnable task gets to run and io is polled.
pub async fn turn(slot: &Slot) {
    tick(slot);
    tokio::task::yield_now().await;
}
pub async fn turns(slot: &Slot, n: usize) {
    for _ in 0..n {
        turn(slot).await;
    }
}
/// Turns, then a real pause: lets kernel timers and anything off-thread happen.
pub async fn settle(slot: &Slot) {
    turns(slot, 40).await;
    slot.turns.fetch_add(1, Ordering::Relaxed);
    tokio::time::sleep(Duration::from_millis(2)).await;
    turns(slot, 40).await;
}

const SPIN: u32 = 300;
fn stall_turns() -> u32 {
    if cfg!(miri) {
        20_000
    } else {
        4_300
    }
}

/// Detects absence of progress.
pub struct Patience {
    last: u64,
    idle: u32,
}
impl Patience {
    pub fn new() -> Self {
        Patience { last: u64::MAX, idle: 0 }
    }
    /// `progress` is any number that changes whenever something moved
    pub async fn wait(&mut self, slot: &Slot, progress: u64, what: impl Fn() -> String) -> Res {
        if progress != self.last {
            self.last = progress;
            self.idle = 0;
        }
        self.idle += 1;
        if self.idle > stall_turns() {
            return Err(Bad::Stall(what()));
        }
        tick(slot);
        if self.idle > SPIN {
            tokio::time::sleep(Duration::from_millis(1)).await;
        } else {
            tokio::task::yield_now().await;
        }
        Ok(())
    }
}

/// Wait for a condition that has to come true without further stimulus.
pub async fn wait_until(slot: &Slot, what: &str, mut cond: impl FnMut() -> bool) -> Res {
    let mut p = Patience::new();
    while !cond() {
        p.wait(slot, 0, || format!("still waiting for: {what}")).await?;
    }
    Ok(())
}
pub async fn await_or_stall<T>(slot: &Slot, what: &str, f: impl std::future::Future<Output = T>) -> Res<T> {
    let mut f = std::pin::pin!(f);
    let mut idle = 0;
    loop {
        // poll once per turn with a real waker; the turn keeps the runtime going
        tokio::select! {
            biased;
            v = &mut f => return Ok(v),
            _ = async {
                tick(slot);
                if idle > SPIN { tokio::time::sleep(Duration::from_millis(1)).await } else { tokio::task::yield_now().await }
            } => {}
        }
        idle += 1;
        if idle > stall_turns() {
            return Err(Bad::Stall(format!("still waiting for: {what}")));
        }
    }
}

// ---------------------------------------------------------------- addresses and pairs
static NEXT: AtomicU32 = AtomicU32::new(0);
/// a loopback address nobody else in this process (and hardly anyone else) uses
pub fn fresh_addr() -> SocketAddr {
    let n = NEXT.fetch_add(1, Ordering::Relaxed);
    let pid = std::process::id();
    let ip = [127, (1 + (pid ^ (n >> 16)) % 250) as u8, (n >> 8) as u8, (n & 255) as u8];
    let port = 20_000 + ((pid.wrapping_mul(7919) ^ (n >> 16)) % 9_000) as u16;
    let a = SocketAddr::from((ip, port));
    match std::net::TcpListener::bind(a) {
        Ok(_) => a,
        Err(_) => {
            // no 127/8 here? take any free port
            let l = std::net::TcpListener::bind("127.0.0.1:0").expect("bind");
            l.local_addr().expect("addr")
        }
    }
}

#[derive(Clone, Copy, Default, Debug)]
pub struct Bufs {
    /// receive/send buffer of the side under test and of the peer; 0 = default
    pub ours: usize,
    pub theirs: usize,
}

pub async fn listen(b: usize) -> Res<TcpListener> {
    let s = TcpSocket::new_v4()?;
    if b > 0 && !cfg!(miri) {
        s.set_recv_buffer_size(b as u32)?;
        s.set_send_buffer_size(b as u32)?;
    }
    // a loopback address per listener: the kernel then never runs out of (address, port) pairs
    let n = NEXT.fetch_add(1, Ordering::Relaxed);
    let ip = if cfg!(miri) { [127, 0, 0, 1] } else { [127, 1 + (n % 250) as u8, (n >> 8) as u8, 1 + (n >> 16) as u8 % 250] };
    if s.bind(SocketAddr::from((ip, 0))).is_err() {
        s.bind("127.0.0.1:0".parse().unwrap())?;
    }
    Ok(s.listen(64)?)
}
pub async fn dial(addr: SocketAddr, b: usize) -> Res<TcpStream> {
    let s = TcpSocket::new_v4()?;
    if b > 0 && !cfg!(miri) {
        s.set_recv_buffer_size(b as u32)?;
        s.set_send_buffer_size(b as u32)?;
    }
    let s = s.connect(addr).await?;
    s.set_nodelay(true)?;
    Ok(s)
}
/// (side under test, peer)
pub async fn pair(b: Bufs) -> Res<(TcpStream, TcpStream)> {
    let l = listen(b.ours).await?;
    let (peer, ours) = tokio::join!(dial(l.local_addr()?, b.theirs), l.accept());
    let ours = ours?.0;
    ours.set_nodelay(true)?;
    Ok((ours, peer?))
}
fn ioctl_int(fd: i32, req: u64) -> usize {
    let mut v: libc::c_int = 0;
    let r = unsafe { libc::ioctl(fd, req as _, &mut v) };
    if r < 0 {
        0
    } else {
        v as usize
    }
}
/// bytes received and not yet read
pub fn unread(s: &TcpStream) -> usize {
    if cfg!(miri) {
        return 0;
    }
    ioctl_int(s.as_raw_fd(), libc::FIONREAD as u64)
}
/// bytes written and not yet acknowledged
pub fn unsent(fd: i32) -> usize {
    if cfg!(miri) {
        return 0;
    }
    ioctl_int(fd, libc::TIOCOUTQ as u64)
}
pub fn reset(s: Arc<TcpStream>) -> Res {
    #[allow(deprecated)]
    s.set_linger(Some(Duration::ZERO))?;
    drop(s);
    Ok(())
}

#[derive(Debug, PartialEq, Clone, Copy)]
pub enum Got {
    Bytes(usize),
    Nothing,
    Eof,
    Reset,
}
pub fn try_read(s: &TcpStream, buf: &mut [u8]) -> Got {
    match s.try_read(buf) {
        Ok(0) => Got::Eof,
        Ok(n) => Got::Bytes(n),
        Err(e) if e.kind() == std::io::ErrorKind::WouldBlock => Got::Nothing,
        Err(_) => Got::Reset,
    }
}
/// None: the peer is gone
pub fn try_write(s: &TcpStream, buf: &[u8]) -> Option<usize> {
    match s.try_write(buf) {
        Ok(n) => Some(n),
        Err(e) if e.kind() == std::io::ErrorKind::WouldBlock => Some(0),
        Err(_) => None,
    }
}

// ---------------------------------------------------------------- fault injection
#[derive(Clone, Copy, Default, Debug, PartialEq)]
pub struct Inject {
    /// cap of bytes moved per recv / writev (0 = none)
    pub short_read: usize,
    pub short_write: usize,
    /// one in n calls is interrupted (0 = never)
    pub eintr: usize,
}
thread_local! {
    static INJ: Cell<Option<(Inject, i32)>> = const { Cell::new(None) };
    static INJ_RNG: RefCell<Rng> = RefCell::new(Rng::new(1));
    static ACCEPT_FAULTS: Cell<(u32, i32)> = const { Cell::new((0, 0)) };
    static NODELAY_FAULTS: Cell<u32> = const { Cell::new(0) };
    static HITS: Cell<u64> = const { Cell::new(0) };
    static WAITS: Cell<u64> = const { Cell::new(0) };
    static HANDED: Cell<(i32, u64)> = const { Cell::new((-1, 0)) };
}
/// how often this thread has waited for, or looked for, io events
pub fn io_waits() -> u64 {
    WAITS.with(|h| h.get())
}
/// count the bytes this thread hands to the kernel on this descriptor
pub fn watch_handed(fd: i32) {
    HANDED.with(|h| h.set((fd, 0)));
}
pub fn handed() -> u64 {
    HANDED.with(|h| h.get().1)
}
/// the sockets of this process: (descriptor, local, peer)
pub fn sockets() -> Vec<(i32, SocketAddr, SocketAddr)> {
    use std::os::fd::FromRawFd;
    let mut v = vec![];
    let Ok(d) = std::fs::read_dir("/proc/self/fd") else { return v };
    for e in d.flatten() {
        let Ok(fd) = e.file_name().to_string_lossy().parse::<i32>() else { continue };
        // never closed through this handle
        let s = std::mem::ManuallyDrop::new(unsafe { std::net::TcpStream::from_raw_fd(fd) });
        if let (Ok(l), Ok(p)) = (s.local_addr(), s.peer_addr()) {
            v.push((fd, l, p));
        }
    }
    v
}
/// Some(on?) unless the descriptor is gone
pub fn nodelay(fd: i32) -> Option<bool> {
    let (mut v, mut l) = (0 as libc::c_int, std::mem::size_of::<libc::c_int>() as libc::socklen_t);
    let r = unsafe { libc::getsockopt(fd, libc::IPPROTO_TCP, libc::TCP_NODELAY, (&mut v as *mut libc::c_int).cast(), &mut l) };
    (r == 0).then_some(v != 0)
}
pub fn inject(cfg: Inject, fd: i32, seed: u64) {
    INJ_RNG.with(|r| *r.borrow_mut() = Rng::new(seed));
    INJ.with(|i| i.set(if cfg == Inject::default() { None } else { Some((cfg, fd)) }));
}
pub fn inject_off() {
    INJ.with(|i| i.set(None));
    ACCEPT_FAULTS.with(|i| i.set((0, 0)));
    NODELAY_FAULTS.with(|i| i.set(0));
}
pub fn inject_accept(n: u32, errno: i32) {
    ACCEPT_FAULTS.with(|i| i.set((n, errno)));
}
pub fn inject_nodelay(n: u32) {
    NODELAY_FAULTS.with(|i| i.set(n));
}
pub fn injected_hits() -> u64 {
    HITS.with(|h| h.replace(0))
}

#[cfg(not(miri))]
mod interpose {
    use super::*;
    #[cfg(psmon_msan)]
    extern "C" {
        fn __msan_unpoison(p: *const libc::c_void, n: usize);
        fn __msan_check_mem_is_initialized(p: *const libc::c_void, n: usize);
    }
    fn hit() {
        HITS.with(|h| h.set(h.get() + 1));
    }
    fn set_errno(e: i32) {
        unsafe { *libc::__errno_location() = e }
    }
    /// (cap, interrupt?)
    fn decide(fd: i32, read: bool) -> Option<(usize, bool)> {
        let (cfg, want) = INJ.try_with(|i| i.get()).ok()??;
        if fd != want {
            return None;
        }
        INJ_RNG.with(|r| {
            let mut r = r.borrow_mut();
            let eintr = cfg.eintr > 0 && r.chance(1, cfg.eintr);
            let cap = if read { cfg.short_read } else { cfg.short_write };
            let cap = if cap == 0 { usize::MAX } else { r.range(1, cap) };
            Some((cap, eintr))
        })
    }
    #[no_mangle]
    pub unsafe extern "C" fn recv(fd: i32, buf: *mut libc::c_void, len: usize, flags: i32) -> isize {
        let mut len = len;
        if flags & libc::MSG_PEEK == 0 {
            if let Some((cap, eintr)) = decide(fd, true) {
                if eintr {
                    hit();
                    set_errno(libc::EINTR);
                    return -1;
                }
                if cap < len {
                    hit();
                    len = cap;
                }
            }
        }
        let null = std::ptr::null_mut::<libc::c_void>();
        // the kernel's accesses are invisible to the sanitizers: make them visible
        #[cfg(psmon_asan)]
        unsafe {
            libc::memset(buf, 0x5a, len);
        }
        let n = unsafe { libc::syscall(libc::SYS_recvfrom, fd, buf, len, flags, null, null) as isize };
        #[cfg(psmon_msan)]
        if n > 0 {
            unsafe { __msan_unpoison(buf, n as usize) };
        }
        n
    }
    #[no_mangle]
    pub unsafe extern "C" fn writev(fd: i32, iov: *const libc::iovec, cnt: i32) -> isize {
        #[cfg(psmon_asan)]
        for i in 0..cnt.max(0) as usize {
            let v = unsafe { *iov.add(i) };
            let mut copy = vec![0u8; v.iov_len];
            unsafe { libc::memcpy(copy.as_mut_ptr() as *mut _, v.iov_base, v.iov_len) };
            std::hint::black_box(&copy);
        }
        #[cfg(psmon_msan)]
        for i in 0..cnt.max(0) as usize {
            let v = unsafe { *iov.add(i) };
            unsafe { __msan_check_mem_is_initialized(v.iov_base, v.iov_len) };
        }
        if let Some((cap, eintr)) = decide(fd, false) {
            if eintr {
                hit();
                set_errno(libc::EINTR);
                return -1;
            }
            let mut left = cap;
            let mut short: Vec<libc::iovec> = Vec::new();
            for i in 0..cnt.max(0) as usize {
                let mut v = unsafe { *iov.add(i) };
                if left == 0 {
                    hit();
                    break;
                }
                if v.iov_len > left {
                    v.iov_len = left;
                }
                left -= v.iov_len;
                short.push(v);
            }
            return passed(fd, unsafe { libc::syscall(libc::SYS_writev, fd, short.as_ptr(), short.len() as i32) as isize });
        }
        passed(fd, unsafe { libc::syscall(libc::SYS_writev, fd, iov, cnt) as isize })
    }
    fn passed(fd: i32, n: isize) -> isize {
        let (f, k) = HANDED.try_with(|h| h.get()).unwrap_or((-1, 0));
        if f == fd && n > 0 {
            HANDED.with(|h| h.set((f, k + n as u64)));
        }
        n
    }
    #[no_mangle]
    pub unsafe extern "C" fn send(fd: i32, buf: *const libc::c_void, len: usize, flags: i32) -> isize {
        let mut len = len;
        #[cfg(psmon_asan)]
        {
            let mut copy = vec![0u8; len];
            unsafe { libc::memcpy(copy.as_mut_ptr() as *mut _, buf, len) };
            std::hint::black_box(&copy);
        }
        #[cfg(psmon_msan)]
        unsafe {
            __msan_check_mem_is_initialized(buf, len)
        };
        if let Some((cap, eintr)) = decide(fd, false) {
            if eintr {
                hit();
                set_errno(libc::EINTR);
                return -1;
            }
            if cap < len {
                hit();
                len = cap;
            }
        }
        let null = std::ptr::null_mut::<libc::c_void>();
        passed(fd, unsafe { libc::syscall(libc::SYS_sendto, fd, buf, len, flags, null, 0usize) as isize })
    }
    #[no_mangle]
    pub unsafe extern "C" fn accept4(fd: i32, a: *mut libc::sockaddr, l: *mut libc::socklen_t, f: i32) -> i32 {
        let (n, e) = ACCEPT_FAULTS.try_with(|i| i.get()).unwrap_or((0, 0));
        if n > 0 {
            ACCEPT_FAULTS.with(|i| i.set((n - 1, e)));
            hit();
            if e == libc::ECONNABORTED {
                // the connection is gone, as when the peer reset it in the backlog
                let got = unsafe { libc::syscall(libc::SYS_accept4, fd, 0usize, 0usize, f) };
                if got < 0 {
                    // nothing to accept: not a fault after all
                    ACCEPT_FAULTS.with(|i| i.set((n, e)));
                    return -1;
                }
                unsafe { libc::close(got as i32) };
            }
            set_errno(e);
            return -1;
        }
        let got = unsafe { libc::syscall(libc::SYS_accept4, fd, a, l, f) as i32 };
        #[cfg(psmon_msan)]
        if got >= 0 && !a.is_null() && !l.is_null() {
            unsafe {
                __msan_unpoison(l as *const _, std::mem::size_of::<libc::socklen_t>());
                __msan_unpoison(a as *const _, *l as usize);
            }
        }
        got
    }
    // tokio registers a pointer with one epoll descriptor and gets it back from a duplicate of it, which
    // ThreadSanitizer does not connect: show it that registration happens before the event
    #[cfg(psmon_tsan)]
    static REGISTERED: AtomicU32 = AtomicU32::new(0);
    #[cfg(psmon_tsan)]
    #[no_mangle]
    pub unsafe extern "C" fn epoll_ctl(ep: i32, op: i32, fd: i32, ev: *mut libc::epoll_event) -> i32 {
        REGISTERED.fetch_add(1, Ordering::Release);
        unsafe { libc::syscall(libc::SYS_epoll_ctl, ep, op, fd, ev) as i32 }
    }
    #[cfg(not(any(psmon_asan, psmon_msan)))]
    #[no_mangle]
    pub unsafe extern "C" fn epoll_wait(ep: i32, ev: *mut libc::epoll_event, max: i32, ms: i32) -> i32 {
        let _ = WAITS.try_with(|w| w.set(w.get() + 1));
        let n = unsafe { libc::syscall(libc::SYS_epoll_wait, ep, ev, max, ms) as i32 };
        #[cfg(psmon_tsan)]
        std::hint::black_box(REGISTERED.load(Ordering::Acquire));
        n
    }
    #[cfg(not(any(psmon_asan, psmon_msan, psmon_tsan)))]
    #[no_mangle]
    pub unsafe extern "C" fn clock_gettime(id: libc::clockid_t, t: *mut libc::timespec) -> i32 {
        let r = unsafe { libc::syscall(libc::SYS_clock_gettime, id, t) as i32 };
        if r == 0 && (id == libc::CLOCK_MONOTONIC || id == libc::CLOCK_REALTIME || id == libc::CLOCK_BOOTTIME) {
            unsafe { (*t).tv_sec += super::CLOCK.try_with(|c| c.get()).unwrap_or(0) };
        }
        r
    }
    #[no_mangle]
    pub unsafe extern "C" fn setsockopt(fd: i32, level: i32, name: i32, v: *const libc::c_void, l: libc::socklen_t) -> i32 {
        if level == libc::IPPROTO_TCP && name == libc::TCP_NODELAY {
            let n = NODELAY_FAULTS.try_with(|i| i.get()).unwrap_or(0);
            if n > 0 {
                NODELAY_FAULTS.with(|i| i.set(n - 1));
                hit();
                set_errno(libc::EINVAL);
                return -1;
            }
        }
        unsafe { libc::syscall(libc::SYS_setsockopt, fd, level, name, v, l) as i32 }
    }
}
