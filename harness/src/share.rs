//! C23: nobody is starved. C24: nothing spins. C25: nothing waits without need.
use crate::cli::{connect_pair, Comp, Setup};
use crate::core::*;
use crate::ensure;
use crate::msg::*;
use crate::net::*;
use crate::raw::*;
use protosocket::*;
use std::future::Future;
use std::io::{Read, Write};
use std::os::fd::AsRawFd;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::*};
use std::sync::Arc;
use std::task::{Context, Poll};
use std::time::Duration;
use tokio::sync::mpsc;

macro_rules! both {
    ($c:expr, $f:ident) => {
        if $c.rng.chance(1, 2) {
            $c.d("prost");
            block_on($f::<Pc>($c))
        } else {
            $c.d("msgpack");
            block_on($f::<Mc>($c))
        }
    };
}

// ------------------------------------------------------------------ a connection that only counts
#[derive(Default)]
struct Counts {
    in_bytes: AtomicU64,
    in_messages: AtomicU64,
    encoded: AtomicU64,
    polls: AtomicU64,
}
struct CountCodec(Arc<Counts>);
impl Deserializer for CountCodec {
    type Message = usize;
    fn decode(&mut self, mut buffer: impl bytes::Buf) -> std::result::Result<(usize, usize), DeserializeError> {
        if buffer.remaining() < 4 {
            return Err(DeserializeError::IncompleteBuffer { next_message_size: 4 });
        }
        let have = buffer.remaining();
        let n = buffer.get_u32() as usize;
        if have < n {
            return Err(DeserializeError::IncompleteBuffer { next_message_size: n });
        }
        self.0.in_bytes.fetch_add(n as u64, Relaxed);
        Ok((n, n))
    }
}
impl Serializer for CountCodec {
    type Message = usize;
    fn encode(&mut self, n: usize, buffer: &mut Vec<u8>) {
        self.0.encoded.fetch_add(1, Relaxed);
        buffer.resize(n, 7);
    }
}
struct CountRx(Arc<Counts>);
impl MessageReactor for CountRx {
    type Inbound = usize;
    fn on_inbound_messages(&mut self, messages: impl IntoIterator<Item = usize>) -> ReactorStatus {
        self.0.in_messages.fetch_add(messages.into_iter().count() as u64, Relaxed);
        ReactorStatus::Continue
    }
}
struct CountB;
impl ConnectionBindings for CountB {
    type Deserializer = CountCodec;
    type Serializer = CountCodec;
    type Reactor = CountRx;
}
/// counts how often the runtime polls it
struct Polled<F>(F, Arc<Counts>);
impl<F: Future<Output = ()> + Unpin> Future for Polled<F> {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        self.1.polls.fetch_add(1, Relaxed);
        Pin::new(&mut self.0).poll(cx)
    }
}
fn counting(ours: tokio::net::TcpStream, max_buf: usize, q: usize, chan: usize) -> Res<(Arc<Counts>, mpsc::Sender<usize>, tokio::task::JoinHandle<()>)> {
    let k = Arc::new(Counts::default());
    let (tx, rx) = mpsc::channel(chan);
    let a = ours.peer_addr()?;
    let conn: Connection<CountB> = Connection::new(ours, a, CountCodec(k.clone()), CountCodec(k.clone()), max_buf, q, rx, CountRx(k.clone()));
    let task = tokio::spawn(Polled(conn, k.clone()));
    Ok((k, tx, task))
}
fn frame(n: usize) -> Vec<u8> {
    let n = n.max(4);
    let mut v = (n as u32).to_be_bytes().to_vec();
    v.resize(n, 3);
    v
}

// ------------------------------------------------------------------ C23
/// peers on threads of their own; ends them when dropped
struct Flood {
    s: std::net::TcpStream,
    stop: Arc<AtomicBool>,
    read: Arc<AtomicU64>,
    threads: Vec<std::thread::JoinHandle<()>>,
}
impl Flood {
    fn new(peer: tokio::net::TcpStream) -> Res<Flood> {
        let s = peer.into_std()?;
        s.set_nonblocking(false)?;
        Ok(Flood { s, stop: Default::default(), read: Default::default(), threads: vec![] })
    }
    fn write_forever(&mut self, block: Vec<u8>) -> Res {
        let (mut s, stop) = (self.s.try_clone()?, self.stop.clone());
        self.threads.push(std::thread::spawn(move || {
            while !stop.load(Relaxed) && s.write_all(&block).is_ok() {}
        }));
        Ok(())
    }
    fn read_forever(&mut self) -> Res {
        let (mut s, stop, read) = (self.s.try_clone()?, self.stop.clone(), self.read.clone());
        self.threads.push(std::thread::spawn(move || {
            let mut b = vec![0; 1 << 18];
            while !stop.load(Relaxed) {
                match s.read(&mut b) {
                    Ok(0) | Err(_) => break,
                    Ok(n) => read.fetch_add(n as u64, Relaxed),
                };
            }
        }));
        Ok(())
    }
}
impl Drop for Flood {
    fn drop(&mut self) {
        self.stop.store(true, Relaxed);
        let _ = self.s.shutdown(std::net::Shutdown::Both);
        for t in self.threads.drain(..) {
            let _ = t.join();
        }
    }
}
/// to the end of the run queue (tokio's own yield_now waits for the next look at the io driver as well)
async fn requeue() {
    let mut once = false;
    std::future::poll_fn(|cx| {
        if std::mem::replace(&mut once, true) {
            return Poll::Ready(());
        }
        cx.waker().wake_by_ref();
        Poll::Pending
    })
    .await
}
/// a task that takes its turns like any other, and notes how much happened between two of them
fn ticker(k: &Arc<Counts>, slot: &Arc<Slot>) -> (Arc<AtomicU64>, Arc<AtomicU64>, tokio::task::JoinHandle<()>) {
    let (ticks, worst) = (Arc::new(AtomicU64::new(0)), Arc::new(AtomicU64::new(0)));
    let (t, w, k, slot) = (ticks.clone(), worst.clone(), k.clone(), slot.clone());
    let h = tokio::spawn(async move {
        let mut last = k.in_bytes.load(Relaxed);
        loop {
            let now = k.in_bytes.load(Relaxed);
            w.fetch_max(now - last, Relaxed);
            last = now;
            t.fetch_add(1, Relaxed);
            slot.turns.fetch_add(1, Relaxed);
            requeue().await;
        }
    });
    (ticks, worst, h)
}
/// a peer that never stops sending: other tasks run, and the other direction works
pub fn c23_inbound(c: &mut Case) -> Res {
    leaps(0);
    let r = &mut c.rng;
    let max_buf = r.pick(&[5000, 65_536, 65_536, 300_000, 1 << 20]);
    let q = r.pick(&[1, 8, 128, 1000]);
    let len = r.pick(&[16, 400, 4000]).min(max_buf);
    let target = r.range(8, 40) as u64 * 1_000_000;
    let bufs = r.pick(&[0usize, 1 << 16]);
    c.d(format!("max_buf={max_buf} q={q} len={len} target={target} bufs={bufs}"));
    block_on(async {
        let slot = c.slot.clone();
        let (ours, peer) = pair(Bufs { ours: bufs, theirs: bufs }).await?;
        let fd = ours.as_raw_fd();
        watch_handed(fd);
        let (k, tx, task) = counting(ours, max_buf, q, q)?;
        let mut f = Flood::new(peer)?;
        let mut block = vec![];
        while block.len() < 1 << 19 {
            block.extend_from_slice(&frame(len));
        }
        f.write_forever(block)?;
        f.read_forever()?;
        let (ticks, worst, t) = ticker(&k, &slot);
        let started = std::time::Instant::now();
        let (mut sent, mut due) = (0u64, 0u64);
        let mut longest = 0;
        let mut at_bytes = 0;
        let mut last = (0, std::time::Instant::now());
        loop {
            let (now, got) = (ticks.load(Relaxed), k.in_bytes.load(Relaxed));
            ensure!(!task.is_finished(), "the connection ended by itself");
            if handed() >= sent {
                if due > 0 {
                    longest = longest.max(now - due);
                }
                // (small steps need many turns for the same number of bytes)
                if got >= target || started.elapsed() > Duration::from_secs(3) {
                    break;
                }
                let n = c.rng.range(1, 60.min(max_buf));
                if tx.try_send(n).is_ok() {
                    sent += n as u64;
                }
                due = now;
                at_bytes = got;
            } else if now > due + 3000 && got > at_bytes {
                return violation(format!("after {} turns, during which {} more bytes were received, an accepted message has still not been given to the (writable) socket", now - due, got - at_bytes));
            }
            if got != last.0 {
                last = (got, std::time::Instant::now());
            } else if last.1.elapsed() > Duration::from_secs(12) {
                return Err(Bad::Stall(format!("no inbound progress under a flood after {got} bytes")));
            }
            tokio::task::yield_now().await;
        }
        t.abort();
        let bound = 2 * (max_buf as u64 + (2 << 20)) + (1 << 20);
        let w = worst.load(Relaxed);
        c.count("inbound_bytes", k.in_bytes.load(Relaxed));
        c.count("inbound_messages", k.in_messages.load(Relaxed));
        c.count("turns_of_another_task", ticks.load(Relaxed));
        c.count("outbound_bytes_meanwhile", sent);
        c.nontrivial = k.in_bytes.load(Relaxed) > 2 * bound && sent > 0;
        let _ = longest;
        ensure!(w <= bound, "{w} bytes were processed without any other task of the runtime getting a turn (receive limit {max_buf})");
        drop(tx);
        task.abort();
        Ok(())
    })
}
/// an application that never stops sending: what arrives is delivered
pub fn c23_outbound(c: &mut Case) -> Res {
    leaps(0);
    let r = &mut c.rng;
    let max_buf = r.pick(&[5000, 65_536, 300_000]);
    let q = r.pick(&[1, 8, 128, 1000]);
    let chan = r.pick(&[q, 4 * q + 1, 2000]);
    let len = r.pick(&[16, 400, 4000]).min(max_buf);
    let rounds = r.range(5, 30) as u64;
    c.d(format!("max_buf={max_buf} q={q} chan={chan} len={len} rounds={rounds}"));
    block_on(async {
        let slot = c.slot.clone();
        let (ours, peer) = pair(Bufs::default()).await?;
        let fd = ours.as_raw_fd();
        watch_handed(fd);
        let (k, tx, task) = counting(ours, max_buf, q, chan)?;
        let mut f = Flood::new(peer)?;
        f.read_forever()?;
        let (ticks, _, t) = ticker(&k, &slot);
        let feed = {
            let tx = tx.clone();
            tokio::spawn(async move {
                loop {
                    while tx.try_send(len).is_ok() {}
                    tokio::task::yield_now().await;
                }
            })
        };
        let mut at = std::time::Instant::now();
        for round in 1..=rounds {
            let n = c.rng.range(4, 2000.min(max_buf));
            (&f.s).write_all(&frame(n))?;
            let (mut due, mut h0) = (0, 0);
            while k.in_messages.load(Relaxed) < round {
                ensure!(!task.is_finished(), "the connection ended by itself");
                let now = ticks.load(Relaxed);
                if due == 0 && (ioctl_unread(fd) > 0) {
                    (due, h0) = (now, handed());
                }
                if due > 0 && now > due + 5000 && handed() > h0 {
                    return violation(format!("after {} turns, during which {} more bytes were sent, a message that has arrived has still not been delivered", now - due, handed() - h0));
                }
                if at.elapsed() > Duration::from_secs(15) {
                    return Err(Bad::Stall("an inbound message is not delivered while the application keeps sending".into()));
                }
                tokio::task::yield_now().await;
            }
            at = std::time::Instant::now();
            // let some outbound traffic pass
            let h = handed();
            let want = c.rng.below(200_000) as u64;
            while handed() < h + want {
                ensure!(!task.is_finished(), "the connection ended by itself");
                if at.elapsed() > Duration::from_secs(15) {
                    return Err(Bad::Stall("no outbound progress although the peer reads".into()));
                }
                tokio::task::yield_now().await;
            }
            at = std::time::Instant::now();
        }
        feed.abort();
        t.abort();
        c.count("outbound_bytes", handed());
        c.count("inbound_messages_meanwhile", rounds);
        c.count("turns_of_another_task", ticks.load(Relaxed));
        c.nontrivial = handed() > 0;
        task.abort();
        Ok(())
    })
}
fn ioctl_unread(fd: i32) -> usize {
    let mut v: libc::c_int = 0;
    if unsafe { libc::ioctl(fd, libc::FIONREAD as _, &mut v) } < 0 {
        0
    } else {
        v as usize
    }
}
/// endless streams on a server: every stream moves on, unary calls are answered, cancels work, others are served
pub fn c23_streams(c: &mut Case) -> Res {
    leaps(0);
    both!(c, streams)
}
async fn streams<C: Codec>(c: &mut Case) -> Res {
    let slot = c.slot.clone();
    let mut r = c.rng.fork();
    let q = r.pick(&[1, 2, 8, 128]);
    let n = r.range(1, 6);
    let size = r.pick(&[200u32, 600, 1500]);
    let chunk = r.pick(&[3000usize, 60_000]);
    let steps = r.range(4, 9);
    c.d(format!("q={q} streams={n} size={size} chunk={chunk} steps={steps}"));
    let s = serve::<C>(0, q).await?;
    let mut raw = Raw::connect(s.addr, C::C, 131_072).await?;
    accepted(&slot, &s.w, 1).await?;
    let mut led = Ledger::default();
    let mut uid = 1u64;
    let mut live = vec![];
    for _ in 0..n {
        let mut m = Msg::stream(uid, uid, u32::MAX);
        m.size = size;
        m.yields = r.pick(&[0, 0, 0, 1]);
        led.sent(&m);
        raw.send(&m);
        live.push(uid);
        uid += 1;
    }
    // what may be under way at any time: socket buffers and queues
    let slack = 14_000_000 / size as u64 + 4 * q as u64;
    let mut p = Patience::new();
    let mut done = 0;
    // (what, uid, received at the time)
    let mut pending: Option<(u8, u64, u64)> = None;
    let mut other: Option<(Raw, Ledger)> = None;
    let mut floor: std::collections::HashMap<u64, u32> = Default::default();
    let mut base = 0;
    let mut quiet_since = 0;
    while done < steps {
        raw.flush(usize::MAX);
        raw.pull(chunk)?;
        led.take(&mut raw)?;
        ensure!(!raw.over(), "the server closed the connection");
        s.w.check()?;
        match &mut pending {
            None if led.received >= base + 100 => {
                base = led.received;
                let what = r.pick(&[0u8, 0, 1, 2, 3]);
                match what {
                    0 => {
                        let mut m = Msg::req(uid, uid, UNARY);
                        m.yields = r.pick(&[0, 2]);
                        m.size = 10;
                        led.sent(&m);
                        raw.send(&m);
                        pending = Some((0, uid, base));
                        uid += 1;
                    }
                    1 if live.len() > 1 => {
                        let i = r.below(live.len());
                        let u = live.swap_remove(i);
                        raw.send(&Msg { code: CANCEL, ..Msg::req(u, 0, 0) });
                        led.cancel_sent(u);
                        pending = Some((1, u, base));
                        quiet_since = base;
                        floor.insert(u, led.by_uid[&u].got);
                    }
                    2 => {
                        let mut o = Raw::connect(s.addr, C::C, 0).await?;
                        let mut l = Ledger::default();
                        let m = Msg::stream(5, 1 << 40 | uid, 30);
                        l.sent(&m);
                        o.send(&m);
                        other = Some((o, l));
                        pending = Some((2, 0, base));
                        uid += 1;
                    }
                    _ => {
                        // every stream moves on
                        floor = live.iter().map(|u| (*u, led.by_uid[u].got)).collect();
                        pending = Some((3, 0, base));
                    }
                }
            }
            None => {}
            Some((what, u, since)) => {
                let (what, u, since) = (*what, *u, *since);
                let over = match what {
                    0 => led.by_uid[&u].got == 1,
                    1 => {
                        let now = led.by_uid[&u].got;
                        if floor[&u] != now {
                            floor.insert(u, now);
                            quiet_since = led.received;
                        }
                        // no item of it for a long while
                        led.received > quiet_since + 300 * n as u64 && s.w.call(u).is_some_and(|k| k.dropped > 0)
                    }
                    2 => {
                        let (o, l) = other.as_mut().unwrap();
                        o.flush(usize::MAX);
                        o.pull(1 << 16)?;
                        l.take(o)?;
                        ensure!(!o.over(), "the server closed another connection");
                        l.all_done()
                    }
                    _ => live.iter().all(|u| led.by_uid[u].got > floor[u]),
                };
                if over {
                    done += 1;
                    pending = None;
                    c.count(["unary_amid_streams", "cancels_amid_streams", "other_connections", "rounds_of_all_streams"][what as usize], 1);
                } else if led.received > since + slack * if what == 1 { 2 } else { 1 } {
                    let all: Vec<_> = live.iter().map(|u| (*u, led.by_uid[u].got)).collect();
                    return violation(match what {
                        0 => format!("{} stream items were sent after a unary request, which is still not answered", led.received - since),
                        1 => format!("{} stream items were sent after a cancel, and the cancelled call is still there", led.received - since),
                        2 => format!("{} stream items were sent while another connection waits for its first answers", led.received - since),
                        _ => format!("{} stream items were sent, none for some of the streams: (call, items) {all:?}", led.received - since),
                    });
                }
            }
        }
        p.wait(&slot, raw.progress() + led.received, || "endless streams stopped".into()).await?;
    }
    c.count("stream_items", led.received);
    c.nontrivial = true;
    Ok(())
}

// ------------------------------------------------------------------ C24
/// io waits of this thread's runtime in a quiet period; nothing is going on
async fn quiet_waits(slot: &Slot, ms: u64) -> u64 {
    slot.turns.fetch_add(1, Relaxed);
    let a = io_waits();
    tokio::time::sleep(Duration::from_millis(ms)).await;
    io_waits() - a
}
const SPIN_LIMIT: u64 = 100;
async fn no_spin(c: &mut Case, what: &str, polls: Option<&Counts>) -> Res {
    let slot = c.slot.clone();
    settle(&slot).await;
    let mut seen = vec![];
    for i in 0..4 {
        let a = polls.map(|k| k.polls.load(Relaxed)).unwrap_or(0);
        let waits = quiet_waits(&slot, 15 + 10 * i).await;
        let b = polls.map(|k| k.polls.load(Relaxed)).unwrap_or(0) - a;
        seen.push((waits, b));
        if waits <= SPIN_LIMIT && b <= SPIN_LIMIT {
            c.count("quiet_periods", 1);
            c.count("io_waits_in_quiet_periods", waits);
            c.count("polls_in_quiet_periods", b);
            return Ok(());
        }
    }
    violation(format!("{what}: nothing is going on, but the runtime does not come to rest: (io waits, polls of the connection) in four periods: {seen:?}"))
}
pub fn c24_conn(c: &mut Case) -> Res {
    leaps(0);
    let r = &mut c.rng;
    let max_buf = r.pick(&[64usize, 1000, 5000, 70_000, 3 << 20]);
    let q = r.pick(&[1, 3, 128, 300]);
    let bufs = r.pick(&[4096usize, 16_384]);
    let warm = r.below(30);
    c.d(format!("max_buf={max_buf} q={q} bufs={bufs} warm={warm}"));
    block_on(async {
        let slot = c.slot.clone();
        let (ours, peer) = pair(Bufs { ours: bufs, theirs: bufs }).await?;
        let (k, tx, task) = counting(ours, max_buf, q, q)?;
        let mut tx = Some(tx);
        let mut sent = 0u64;
        let mut pending: Vec<u8> = vec![];
        no_spin(c, "a fresh connection", Some(&k)).await?;
        let mut trail = String::new();
        for _ in 0..c.rng.range(2, 6) {
            // some traffic: whole messages in, and out to a reading peer
            for _ in 0..warm {
                let n = c.rng.range(4, max_buf.min(3000));
                pending.extend_from_slice(&frame(n));
                sent += 1;
                if let Some(tx) = &tx {
                    let _ = tx.try_send(c.rng.range(0, max_buf.min(2000)));
                }
                if c.rng.chance(1, 2) {
                    turn(&slot).await;
                }
            }
            let mut b = vec![0; 1 << 16];
            let mut pat = Patience::new();
            while k.in_messages.load(Relaxed) < sent {
                if !pending.is_empty() {
                    let n = try_write(&peer, &pending).unwrap_or(0);
                    pending.drain(..n);
                }
                while let Got::Bytes(_) = try_read(&peer, &mut b) {}
                ensure!(!task.is_finished(), "the connection ended by itself ({trail})");
                pat.wait(&slot, k.in_messages.load(Relaxed) + pending.len() as u64, || format!("inbound messages not delivered ({trail})")).await?;
            }
            settle(&slot).await;
            while let Got::Bytes(_) = try_read(&peer, &mut b) {}
            let kind = c.rng.below(5);
            match kind {
                0 => {
                    no_spin(c, "after traffic", Some(&k)).await?;
                }
                1 => {
                    // part of a message
                    let n = match c.rng.below(4) {
                        0 => max_buf,
                        1 => c.rng.range(4, max_buf),
                        2 => max_buf - c.rng.below(3),
                        _ => c.rng.range(max_buf / 2, max_buf),
                    };
                    let f = frame(n);
                    let at = match c.rng.below(3) {
                        0 => f.len() - 1,
                        1 => c.rng.range(1, f.len().min(5)),
                        _ => c.rng.range(1, f.len()),
                    }
                    .min(f.len() - 1)
                    .max(1);
                    let mut off = 0;
                    let mut pat = Patience::new();
                    while off < at {
                        off += try_write(&peer, &f[off..at]).unwrap_or(0);
                        pat.wait(&slot, off as u64, || "the connection does not read".into()).await?;
                    }
                    no_spin(c, &format!("{at} of {n} bytes of a message received, limit {max_buf} ({trail})"), Some(&k)).await?;
                    pending.extend_from_slice(&f[at..]);
                    sent += 1;
                }
                2 => {
                    // a peer that does not read: everything is full
                    if let Some(tx) = &tx {
                        let mut full = 0;
                        while full < 30 {
                            full = if tx.try_send(max_buf.min(c.rng.range(1, 20_000))).is_ok() { 0 } else { full + 1 };
                            turn(&slot).await;
                        }
                    }
                    no_spin(c, &format!("blocked on a peer that does not read ({trail})"), Some(&k)).await?;
                    if c.rng.chance(1, 2) {
                        // and meanwhile part of a message arrives
                        let f = frame(c.rng.range(6, max_buf.min(2000)));
                        if try_write(&peer, &f[..5]) == Some(5) {
                            pending.extend_from_slice(&f[5..]);
                            sent += 1;
                            no_spin(c, &format!("blocked on a peer that does not read, with part of a message received ({trail})"), Some(&k)).await?;
                        }
                    }
                }
                3 => {
                    // messages that encode to nothing
                    if let Some(tx) = &tx {
                        for _ in 0..c.rng.range(1, 3 * q) {
                            let _ = tx.try_send(0);
                            if c.rng.chance(1, 3) {
                                turn(&slot).await;
                            }
                        }
                    }
                    no_spin(c, &format!("after empty messages ({trail})"), Some(&k)).await?;
                }
                _ => {
                    // the last sender goes while the peer does not read; then the connection is as good as over
                    if let Some(tx) = tx.take() {
                        let mut full = 0;
                        while full < 30 {
                            full = if tx.try_send(max_buf.min(9000)).is_ok() { 0 } else { full + 1 };
                            turn(&slot).await;
                        }
                        drop(tx);
                        no_spin(c, &format!("no senders left, blocked on a peer that does not read ({trail})"), Some(&k)).await?;
                    }
                    trail.push('4');
                    break;
                }
            }
            trail.push((b'0' + kind as u8) as char);
            c.nontrivial = true;
        }
        c.d(trail);
        task.abort();
        Ok(())
    })
}
pub fn c24_server(c: &mut Case) -> Res {
    leaps(0);
    both!(c, quiet_server)
}
async fn quiet_server<C: Codec>(c: &mut Case) -> Res {
    let slot = c.slot.clone();
    let mut r = c.rng.fork();
    let q = r.pick(&[1, 2, 16, 128]);
    let conns = r.range(1, 4);
    c.d(format!("q={q} conns={conns}"));
    let s = serve::<C>(0, q).await?;
    no_spin(c, "a server without connections", None).await?;
    let mut raws = vec![];
    let mut what = String::new();
    let mut uid = 1u64;
    for i in 0..conns {
        let mut raw = Raw::connect(s.addr, C::C, 4096).await?;
        accepted(&slot, &s.w, i + 1).await?;
        for _ in 0..r.range(1, 4) {
            let kind = r.below(8);
            what.push_str(&format!("{i}:{kind} "));
            match kind {
                0 => {}
                1 | 2 => {
                    for _ in 0..r.range(1, 200) {
                        raw.send(&Msg::req(uid, uid, if kind == 1 { NEVER_UNARY } else { NEVER_STREAM }));
                        uid += 1;
                    }
                }
                3 => {
                    // more than the client will read
                    let mut m = Msg::stream(uid, uid, 40_000);
                    m.size = 2000;
                    raw.send(&m);
                    uid += 1;
                }
                4 => {
                    for _ in 0..r.range(1, 60) {
                        let mut m = Msg::stream(uid, uid, r.range(0, 20) as u32);
                        m.size = 10;
                        m.yields = r.below(2) as u32;
                        raw.send(&m);
                        raw.send(&Msg::req(uid + 1, uid + 1, r.pick(&[UNARY, DECLINE])));
                        uid += 2;
                    }
                }
                5 => {
                    for _ in 0..r.range(1, 30) {
                        raw.send(&Msg::req(uid, uid, r.pick(&[NEVER_UNARY, NEVER_STREAM])));
                        raw.send(&Msg { code: CANCEL, ..Msg::req(uid, 0, 0) });
                        raw.send(&Msg { code: r.pick(&[CANCEL, END, 77]), ..Msg::req(uid + 7, 0, 0) });
                        uid += 1;
                    }
                }
                6 => {
                    // unary responses for a client that does not read
                    for _ in 0..3000 {
                        let mut m = Msg::req(uid, uid, UNARY);
                        m.size = 2000;
                        raw.send(&m);
                        uid += 1;
                    }
                }
                _ => {
                    // part of a request
                    let mut m = Msg::req(uid, uid, UNARY);
                    m.body = vec![5; 50];
                    let b = enc(C::C, &m);
                    let n = r.range(1, b.len() - 1);
                    raw.out.extend_from_slice(&b[..n]);
                    break;
                }
            }
        }
        raws.push(raw);
        let mut pat = Patience::new();
        let mut still = 0;
        while still < 50 {
            let mut moved = 0;
            for x in &mut raws {
                moved += x.flush(usize::MAX);
            }
            still = if moved == 0 { still + 1 } else { 0 };
            pat.wait(&slot, raws.iter().map(|x| x.written).sum(), || "?".into()).await?;
        }
        no_spin(c, &format!("{what}: clients do not read"), None).await?;
        if r.chance(1, 2) {
            // now they do
            let mut still = 0;
            let mut pat = Patience::new();
            while still < 50 {
                let mut moved = 0;
                for x in &mut raws {
                    moved += x.flush(usize::MAX) + x.pull(1 << 17)?;
                    x.got.clear();
                }
                still = if moved == 0 { still + 1 } else { 0 };
                pat.wait(&slot, raws.iter().map(|x| x.progress()).sum(), || "?".into()).await?;
            }
            no_spin(c, &format!("{what}: clients have read everything"), None).await?;
        }
        if r.chance(1, 4) {
            let x = raws.remove(0);
            drop(x);
            no_spin(c, &format!("{what}: a connection was closed"), None).await?;
        }
    }
    c.d(what);
    c.nontrivial = true;
    ensure!(!s.task.is_finished(), "the server stopped");
    Ok(())
}
pub fn c24_client(c: &mut Case) -> Res {
    leaps(0);
    both!(c, quiet_client)
}
async fn quiet_client<C: Codec>(c: &mut Case) -> Res {
    let slot = c.slot.clone();
    let mut r = c.rng.fork();
    let q = r.pick(&[1, 2, 16, 256]);
    let (client, conn, mut peer) = connect_pair::<C>(&Setup { q, max_buf: 0, sock: 4096, clones: 1, style: 0 }).await?;
    let task = tokio::spawn(conn);
    no_spin(c, "a fresh client", None).await?;
    let mut what = format!("q={q} ");
    let mut held: Vec<Comp> = vec![];
    let mut waiting = vec![];
    let mut id = 1;
    for _ in 0..r.range(1, 5) {
        let kind = r.below(5);
        what.push_str(&format!("{kind} "));
        match kind {
            0 | 1 => {
                // calls that are not answered (yet); some given up
                for _ in 0..r.range(1, 40) {
                    let mut m = Msg::req(id, id, 0);
                    m.body = vec![1; r.below(3000)];
                    let cl = client.clone();
                    let stream = r.chance(1, 2);
                    id += 1;
                    let h = tokio::spawn(async move {
                        let x = if stream { cl.send_streaming(m).await.map(Comp::S) } else { cl.send_unary(m).await.map(Comp::U) };
                        x.ok()
                    });
                    waiting.push(h);
                }
                turns(&slot, 100).await;
            }
            2 => {
                // answers, ends and cancels; also for nobody
                for _ in 0..r.range(1, 50) {
                    let m = Msg { code: r.pick(&[NORMAL, NORMAL, CANCEL, END]), ..Msg::item(r.range(1, 60) as u64, 0, 0, 20) };
                    peer.send(&m);
                }
                peer.flush(usize::MAX);
            }
            3 => {
                let mut keep = vec![];
                for h in waiting.drain(..) {
                    if h.is_finished() {
                        if let Ok(Some(x)) = h.await {
                            held.push(x);
                        }
                    } else {
                        keep.push(h);
                    }
                }
                waiting = keep;
                while held.len() > 3 {
                    held.pop();
                }
            }
            _ => {
                // the peer reads what it has
                for _ in 0..200 {
                    peer.pull(1 << 16)?;
                    peer.got.clear();
                    turn(&slot).await;
                }
            }
        }
        no_spin(c, &format!("client, {what}"), None).await?;
    }
    // part of an answer
    let b = enc(C::C, &Msg::item(3, 3, 0, 100));
    let n = r.range(1, b.len() - 1);
    peer.out.extend_from_slice(&b[..n]);
    peer.flush(usize::MAX);
    no_spin(c, &format!("client, {what}, {n} bytes of an answer"), None).await?;
    c.d(what);
    c.nontrivial = true;
    ensure!(!task.is_finished(), "the client's connection ended by itself");
    for h in waiting {
        h.abort();
    }
    Ok(())
}

// ------------------------------------------------------------------ C25
/// an accepted message is given to a writable socket at once: no timers, no waiting for company
pub fn c25_conn(c: &mut Case) -> Res {
    let r = &mut c.rng;
    let max_buf = r.pick(&[64usize, 1000, 5000, 70_000]);
    let q = r.pick(&[1, 2, 16, 128]);
    let rounds = r.range(3, 20);
    c.d(format!("max_buf={max_buf} q={q} rounds={rounds}"));
    block_on(async {
        let slot = c.slot.clone();
        let (ours, peer) = pair(Bufs::default()).await?;
        watch_handed(ours.as_raw_fd());
        let (k, tx, task) = counting(ours, max_buf, q, q)?;
        turns(&slot, 5).await;
        let mut b = vec![0; 1 << 16];
        let mut total = 0u64;
        for i in 0..rounds {
            if c.rng.chance(1, 3) {
                settle(&slot).await;
            }
            if c.rng.chance(1, 3) {
                // an inbound message is half there
                let f = frame(40.min(max_buf));
                let _ = try_write(&peer, &f);
            }
            let n = match c.rng.below(3) {
                0 => 1,
                1 => c.rng.range(1, q),
                _ => c.rng.range(1, 3),
            };
            let mut k0 = 0;
            for _ in 0..n {
                let len = c.rng.range(1, max_buf.min(if n > 8 { 300 } else { 3000 }));
                if tx.try_send(len).is_ok() {
                    total += len as u64;
                    k0 += 1;
                }
            }
            // the task needs a few turns, and no time at all
            let limit = 40 + 10 * k0;
            let mut used = 0;
            while handed() < total {
                ensure!(!task.is_finished(), "the connection ended by itself");
                ensure!(used < limit, "round {i}: {} bytes of {k0} accepted messages are not with the (writable) socket after {limit} turns of the runtime", total - handed());
                used += 1;
                turn(&slot).await;
            }
            c.count("prompt_messages", k0);
            c.count("turns_needed", used);
            loop {
                match try_read(&peer, &mut b) {
                    Got::Bytes(_) => {}
                    _ => break,
                }
            }
        }
        let _ = k;
        c.nontrivial = true;
        task.abort();
        Ok(())
    })
}
/// requests and responses of the rpc layer leave at once, too
pub fn c25_rpc(c: &mut Case) -> Res {
    both!(c, prompt_rpc)
}
async fn prompt_rpc<C: Codec>(c: &mut Case) -> Res {
    let slot = c.slot.clone();
    let mut r = c.rng.fork();
    let rounds = r.range(3, 12);
    let q = r.pick(&[1, 2, 16, 128]);
    let server = r.chance(1, 2);
    c.d(format!("server={server} q={q} rounds={rounds}"));
    let mut uid = 0u64;
    if server {
        let s = serve::<C>(0, q).await?;
        let mut raw = Raw::connect(s.addr, C::C, 0).await?;
        accepted(&slot, &s.w, 1).await?;
        let Some((fd, _, _)) = sockets().into_iter().find(|(_, l, _)| *l == s.addr) else { return Err(Bad::Inconclusive("no socket".into())) };
        watch_handed(fd);
        let mut led = Ledger::default();
        let mut want = 0u64;
        for i in 0..rounds {
            // calls that wait for a permit: opening it is the moment their response is ready
            let n = r.range(1, 5);
            let first = uid + 1;
            for _ in 0..n {
                uid += 1;
                let mut m = if r.chance(1, 2) { Msg::req(uid, uid, UNARY) } else { Msg::stream(uid, uid, r.range(1, 4) as u32) };
                m.gate = 1;
                m.size = r.range(0, 400) as u32;
                led.sent(&m);
                raw.send(&m);
            }
            raw.flush(usize::MAX);
            wait_until(&slot, "the calls to start", || (first..=uid).all(|u| s.w.call(u).is_some_and(|k| k.polls > 0))).await?;
            if r.chance(1, 2) {
                settle(&slot).await;
            }
            let mut items = 0;
            for u in first..=uid {
                let m = &led.by_uid[&u].req;
                let k = if m.op == STREAM { m.n } else { 1 };
                for j in 0..k {
                    want += enc(C::C, &Msg::item(m.id, m.uid, j, m.size)).len() as u64;
                }
                if m.op == STREAM {
                    want += enc(C::C, &<Msg as protosocket_rpc::Message>::ended(m.id)).len() as u64;
                }
                items += k as u64 + 1;
                s.w.open(u);
            }
            let limit = 60 + 20 * items;
            let mut used = 0;
            while handed() < want {
                ensure!(used < limit, "round {i}: {} bytes of responses that are ready are not with the (writable) socket after {limit} turns of the runtime", want - handed());
                used += 1;
                turn(&slot).await;
            }
            c.count("prompt_responses", items);
            c.count("turns_needed", used);
            let mut pat = Patience::new();
            while !led.all_done() {
                raw.pull(1 << 16)?;
                led.take(&mut raw)?;
                pat.wait(&slot, raw.progress(), || "responses do not arrive".into()).await?;
            }
        }
    } else {
        let (client, conn, mut peer) = connect_pair::<C>(&Setup { q, max_buf: 0, sock: 0, clones: 1, style: 0 }).await?;
        let at = peer.s.as_ref().unwrap().local_addr()?;
        let Some((fd, _, _)) = sockets().into_iter().find(|(_, _, p)| *p == at) else { return Err(Bad::Inconclusive("no socket".into())) };
        watch_handed(fd);
        let task = tokio::spawn(conn);
        let mut want = 0u64;
        let mut held = vec![];
        for i in 0..rounds {
            if r.chance(1, 2) {
                settle(&slot).await;
            }
            let n = r.range(1, 5.min(q));
            for _ in 0..n {
                uid += 1;
                let mut m = Msg::req(uid, uid, 0);
                let len = r.below(2000);
                m.body = vec![9; len];
                want += enc(C::C, &m).len() as u64;
                let x = if r.chance(1, 2) { client.send_unary(m).await.map(Comp::U) } else { client.send_streaming(m).await.map(Comp::S) };
                match x {
                    Ok(x) => held.push(x),
                    Err(e) => return violation(format!("a call failed on a live connection: {e:?}")),
                }
            }
            if r.chance(1, 4) {
                // giving up is a message, too; it may only be skipped when the queue is full
                turns(&slot, 60).await;
                if handed() == want {
                    held.pop();
                    want += enc(C::C, &<Msg as protosocket_rpc::Message>::cancelled(uid)).len() as u64;
                }
            }
            let limit = 60 + 20 * n as u64;
            let mut used = 0;
            while handed() < want {
                ensure!(used < limit, "round {i}: {} bytes of requests are not with the (writable) socket after {limit} turns of the runtime", want - handed());
                used += 1;
                turn(&slot).await;
            }
            c.count("prompt_requests", n as u64);
            c.count("turns_needed", used);
            peer.pull(1 << 17)?;
            peer.got.clear();
        }
        ensure!(!task.is_finished(), "the client's connection ended by itself");
    }
    c.nontrivial = true;
    Ok(())
}
/// every entry point switches Nagle's algorithm off
pub fn c25_nodelay(c: &mut Case) -> Res {
    let which = c.index % 4;
    c.d(format!("entry point {which}"));
    let n = c.rng.range(1, 4);
    block_on(async {
        let slot = c.slot.clone();
        let check = |local: Option<std::net::SocketAddr>, peer: Option<std::net::SocketAddr>, n: usize, what: &str| -> Res<u64> {
            let all: Vec<_> = sockets().into_iter().filter(|(_, l, p)| local.is_none_or(|x| x == *l) && peer.is_none_or(|x| x == *p)).collect();
            if all.len() != n {
                return Err(Bad::Inconclusive(format!("{} sockets instead of {n}", all.len())));
            }
            for (fd, _, _) in &all {
                ensure!(nodelay(*fd) != Some(false), "{what}: small messages are delayed (TCP_NODELAY is off)");
            }
            Ok(all.len() as u64)
        };
        let checked = match which {
            0 => {
                let s = serve::<Pc>(0, 0).await?;
                let mut keep = vec![];
                for i in 0..n {
                    keep.push(Raw::connect(s.addr, Cd::Prost, 0).await?);
                    accepted(&slot, &s.w, i + 1).await?;
                }
                turns(&slot, 100).await;
                check(Some(s.addr), None, n, "rpc server")?
            }
            1 => {
                let l = listen(0).await?;
                let a = l.local_addr()?;
                let cfg = protosocket_rpc::client::Configuration::default();
                let mut keep = vec![];
                for _ in 0..n {
                    let (x, y) = tokio::join!(protosocket_rpc::client::connect::<<Pc as Codec>::S, <Pc as Codec>::D>(a, &cfg), l.accept());
                    keep.push((x.map_err(|e| Bad::Stall(format!("cannot connect: {e:?}")))?, y?));
                }
                check(None, Some(a), n, "rpc client")?
            }
            2 => {
                let e = crate::iso::Echo::default();
                let (a, s) = crate::iso::echo_server::<Pc>(e.clone(), None).await?;
                let _t = tokio::spawn(s);
                let mut keep = vec![];
                for i in 0..n {
                    keep.push(dial(a, 0).await?);
                    wait_until(&slot, "the server to accept", || e.l().reactors > i as u64).await?;
                }
                turns(&slot, 100).await;
                check(Some(a), None, n, "server")?
            }
            _ => {
                let l = listen(0).await?;
                let a = l.local_addr()?;
                let reg = protosocket_prost::ClientRegistry::new(tokio::runtime::Handle::current());
                let mut keep = vec![];
                for _ in 0..n {
                    let (x, y) = tokio::join!(reg.register_client::<Msg, Msg, _>(a.to_string(), Sink), l.accept());
                    keep.push((x.map_err(|e| Bad::Stall(format!("cannot connect: {e:?}")))?, y?));
                }
                check(None, Some(a), n, "client registry")?
            }
        };
        c.count("sockets_checked", checked);
        c.nontrivial = true;
        Ok(())
    })
}
struct Sink;
impl MessageReactor for Sink {
    type Inbound = Msg;
    fn on_inbound_messages(&mut self, messages: impl IntoIterator<Item = Msg>) -> ReactorStatus {
        messages.into_iter().for_each(drop);
        ReactorStatus::Continue
    }
}
