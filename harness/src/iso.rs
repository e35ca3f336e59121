//! C19: connections are isolated and the server keeps accepting, on both servers, while hostile peers and
//! accept-time faults are injected.
use crate::conn::fill;
use crate::core::*;
use crate::ensure;
use crate::msg::*;
use crate::net::*;
use crate::raw::*;
use crate::svc::*;
use protosocket::{ConnectionBindings, MessageReactor, ReactorStatus};
use protosocket_server::{ProtosocketServer, ServerConnector};
use std::collections::HashMap;
use std::net::SocketAddr;
use std::sync::{Arc, Mutex, MutexGuard};
use tokio::sync::mpsc;

// ------------------------------------------------------------------ an echo server on ProtosocketServer
#[derive(Default)]
pub struct EchoLog {
    pub reactors: u64,
    /// messages by reactor
    pub seen: HashMap<u64, Vec<u64>>,
    pub dropped: u64,
    /// try_send calls that succeeded before the connection could have run
    pub burst: Option<usize>,
    pub accepted: Vec<usize>,
}
#[derive(Clone, Default)]
pub struct Echo(pub Arc<Mutex<EchoLog>>);
impl Echo {
    pub fn l(&self) -> MutexGuard<'_, EchoLog> {
        self.0.lock().unwrap_or_else(|e| e.into_inner())
    }
}
pub struct EchoReactor {
    e: Echo,
    n: u64,
    tx: mpsc::Sender<Msg>,
}
impl Drop for EchoReactor {
    fn drop(&mut self) {
        self.e.l().dropped += 1;
    }
}
impl MessageReactor for EchoReactor {
    type Inbound = Msg;
    fn on_inbound_messages(&mut self, messages: impl IntoIterator<Item = Msg>) -> ReactorStatus {
        for m in messages {
            if m.op == PANIC_NEW {
                panic!("{INJECTED} panic in a reactor");
            }
            if m.op == DECLINE {
                return ReactorStatus::Disconnect;
            }
            self.e.l().seen.entry(self.n).or_default().push(m.uid);
            // the reactor's number travels in `n`
            // junk may happen to ask for gigabytes; the largest default limit is 32 MiB
            let mut a = Msg::item(m.id, m.uid, 0, m.size.min(64 << 20));
            a.n = self.n as u32;
            if self.tx.try_send(a).is_err() {
                return ReactorStatus::Disconnect;
            }
        }
        ReactorStatus::Continue
    }
}
pub struct EchoBind<C>(std::marker::PhantomData<C>);
impl<C: Codec> ConnectionBindings for EchoBind<C> {
    type Deserializer = C::D;
    type Serializer = C::S;
    type Reactor = EchoReactor;
}
pub struct EchoConnector<C> {
    pub e: Echo,
    /// what the connector's own (declared) limits say
    pub limits: Option<(usize, usize)>,
    pub _c: std::marker::PhantomData<C>,
}
impl<C> Unpin for EchoConnector<C> {}
impl<C: Codec> ServerConnector for EchoConnector<C> {
    type Bindings = EchoBind<C>;
    fn serializer(&self) -> C::S {
        C::S::default()
    }
    fn deserializer(&self) -> C::D {
        C::D::default()
    }
    fn new_reactor(&self, tx: mpsc::Sender<Msg>) -> EchoReactor {
        let mut l = self.e.l();
        l.reactors += 1;
        let n = l.reactors;
        if let Some(max) = l.burst {
            let mut k = 0;
            while k < max {
                let mut m = Msg::item(k as u64, k as u64, 0, 4);
                m.n = n as u32;
                if tx.try_send(m).is_err() {
                    break;
                }
                k += 1;
            }
            l.accepted.push(k);
        }
        drop(l);
        EchoReactor { e: self.e.clone(), n, tx }
    }
    fn maximum_message_length(&self) -> usize {
        self.limits.map(|l| l.0).unwrap_or(4 * (2 << 20))
    }
    fn max_queued_outbound_messages(&self) -> usize {
        self.limits.map(|l| l.1).unwrap_or(256)
    }
}
pub async fn echo_server<C: Codec>(e: Echo, limits: Option<(usize, usize)>) -> Res<(SocketAddr, ProtosocketServer<EchoConnector<C>>)> {
    let addr = fresh_addr();
    let s = ProtosocketServer::new(addr, tokio::runtime::Handle::current(), EchoConnector::<C> { e, limits, _c: Default::default() })
        .await
        .map_err(|e| Bad::Inconclusive(format!("bind {addr}: {e:?}")))?;
    Ok((addr, s))
}

// ------------------------------------------------------------------ both servers behind one face
enum Under {
    Rpc(W),
    Echo(Echo),
}
impl Under {
    fn connections(&self) -> usize {
        match self {
            Under::Rpc(w) => w.l().conns.len(),
            Under::Echo(e) => e.l().reactors as usize,
        }
    }
    fn progress(&self) -> u64 {
        match self {
            Under::Rpc(w) => w.progress(),
            Under::Echo(e) => {
                let l = e.l();
                l.reactors + l.dropped + l.seen.values().map(|v| v.len() as u64).sum::<u64>()
            }
        }
    }
}
/// a client that behaves, and everything it is owed
struct Good {
    raw: Raw,
    led: Ledger,
    sent: Vec<Msg>,
    local: SocketAddr,
    left: usize,
    style: usize,
    /// echo: uid -> request, and the reactor that answered
    open: HashMap<u64, Msg>,
    reactor: Option<u32>,
    got: u64,
    ids: u64,
}
impl Good {
    fn done(&self, rpc: bool) -> bool {
        self.left == 0 && self.raw.flushed() && if rpc { self.led.all_done() } else { self.open.is_empty() }
    }
    fn step(&mut self, r: &mut Rng, uid: &mut u64, rpc: bool) -> Res {
        if self.left > 0 && r.chance(1, 2) {
            for _ in 0..r.range(1, 4).min(self.left) {
                self.left -= 1;
                self.ids += 1;
                *uid += 1;
                // every client uses the same ids
                let m = if rpc {
                    let mut m = gen_req(r, self.ids, *uid);
                    m.n = m.n.min(20);
                    m.size = m.size.min(500);
                    m
                } else {
                    let mut m = Msg::req(self.ids, *uid, UNARY);
                    m.size = r.range(0, 300) as u32;
                    m.body = fill(*uid, 5, r.range(0, 200));
                    m
                };
                if rpc {
                    self.led.sent(&m);
                } else {
                    self.open.insert(m.uid, m.clone());
                }
                self.raw.send(&m);
                self.sent.push(m);
            }
        }
        let n = match self.style {
            0 => usize::MAX,
            1 => r.range(1, 9),
            _ => r.range(1, 300),
        };
        self.raw.flush(n);
        self.raw.pull(1 << 16)?;
        if rpc {
            let b = self.led.received;
            self.led.take(&mut self.raw)?;
            self.got += self.led.received - b;
        } else {
            while let Some(m) = self.raw.got.pop_front() {
                self.got += 1;
                let Some(q) = self.open.remove(&m.uid) else { return violation(format!("echo of message {} which this connection is not waiting for (crossed or duplicated)", m.uid)) };
                ensure!(m.id == q.id && m.body == fill(m.uid, 0, q.size as usize), "echo of {} altered", m.uid);
                ensure!(*self.reactor.get_or_insert(m.n) == m.n, "two reactors ({} and {}) answer one connection", self.reactor.unwrap(), m.n);
            }
        }
        ensure!(!self.raw.over(), "the server closed a connection that did nothing wrong");
        Ok(())
    }
}

const HOSTILE: [&str; 13] = ["junk", "reset-in-backlog", "reset-mid-message", "stall", "flood", "panic", "oversize", "half-close", "accept-fault", "nodelay-fault", "close-at-once", "panic-poll", "many"];

pub fn c19_rpc(c: &mut Case) -> Res {
    let k = c.rng.below(2);
    if k == 0 {
        c.d("rpc prost");
        block_on(mixed::<Pc>(c, true))
    } else {
        c.d("rpc msgpack");
        block_on(mixed::<Mc>(c, true))
    }
}
pub fn c19_server(c: &mut Case) -> Res {
    let k = c.rng.below(2);
    if k == 0 {
        c.d("server prost");
        block_on(mixed::<Pc>(c, false))
    } else {
        c.d("server msgpack");
        block_on(mixed::<Mc>(c, false))
    }
}
async fn join_good(c: &mut Case, addr: SocketAddr, r: &mut Rng) -> Res<Good> {
    let raw = Raw::connect(addr, Cd::Prost, 0).await?;
    let local = raw.s.as_ref().unwrap().local_addr()?;
    c.count("healthy_connections", 1);
    Ok(Good { raw, led: Default::default(), sent: vec![], local, left: r.range(1, 25), style: r.below(3), open: Default::default(), reactor: None, got: 0, ids: 0 })
}
async fn mixed<C: Codec>(c: &mut Case, rpc: bool) -> Res {
    let slot = c.slot.clone();
    let mut r = c.rng.fork();
    let max_buf = r.pick(&[0usize, 0, 70_000, 1 << 20]);
    let q = r.pick(&[0usize, 0, 4, 64]);
    c.d(format!("max_buf={max_buf} q={q}"));
    let (addr, under, task) = if rpc {
        let s = serve::<C>(max_buf, q).await?;
        s.w.l().size_cap = Some(1 << 20);
        (s.addr, Under::Rpc(s.w), s.task)
    } else {
        let e = Echo::default();
        let (addr, mut s) = echo_server::<C>(e.clone(), None).await?;
        if max_buf > 0 {
            s.set_max_buffer_length(max_buf);
        }
        // echoes of one batch must fit
        s.set_max_queued_outbound_messages(q.max(128));
        (addr, Under::Echo(e), tokio::spawn(s))
    };
    let mut good: Vec<Good> = vec![];
    let mut bad: Vec<Raw> = vec![];
    let mut uid = 0u64;
    for _ in 0..r.range(1, 3) {
        let mut g = join_good(c, addr, &mut r).await?;
        g.raw.cd = C::C;
        good.push(g);
    }
    let rounds = r.range(2, 6);
    let res = async {
        for round in 0..rounds {
            let kind = r.pick(&HOSTILE);
            c.d(kind);
            c.count(kind, 1);
            match kind {
                "junk" => {
                    let mut x = Raw::connect(addr, C::C, 0).await?;
                    let n = r.range(1, 400);
                    let mut b = fill(r.u64(), 1, n);
                    if r.chance(1, 2) {
                        // a valid frame around junk
                        b = frame(C::C, &b);
                    }
                    x.out.extend_from_slice(&b);
                    bad.push(x);
                }
                "reset-in-backlog" => {
                    // before the server gets to run
                    for _ in 0..r.range(1, 4) {
                        let x = std::net::TcpStream::connect(addr)?;
                        let x = socket_linger_zero(x);
                        drop(x);
                    }
                }
                "reset-mid-message" => {
                    let mut x = Raw::connect(addr, C::C, 0).await?;
                    let b = enc(C::C, &Msg { body: vec![7; 300], ..Msg::req(1, 1 << 50, UNARY) });
                    let n = r.range(1, b.len() - 1);
                    x.out.extend_from_slice(&b[..n]);
                    x.flush(usize::MAX);
                    turns(&slot, r.below(12)).await;
                    reset(x.s.take().unwrap())?;
                }
                "stall" => {
                    let mut x = Raw::connect(addr, C::C, 0).await?;
                    let b = enc(C::C, &Msg::req(1, 1 << 50, UNARY));
                    let n = r.range(1, b.len() - 1);
                    x.out.extend_from_slice(&b[..n]);
                    bad.push(x);
                }
                "flood" => {
                    // asks for a lot, never reads
                    let mut x = Raw::connect(addr, C::C, 4096).await?;
                    for k in 0..r.range(50, 400) as u64 {
                        let mut m = if rpc && r.chance(1, 2) { Msg::stream(k, (1 << 50) + k, 200) } else { Msg::req(k, (1 << 50) + k, UNARY) };
                        m.size = 3000;
                        x.send(&m);
                    }
                    bad.push(x);
                }
                "panic" | "panic-poll" => {
                    let mut x = Raw::connect(addr, C::C, 0).await?;
                    for k in 0..r.below(4) as u64 {
                        x.send(&Msg::req(k, (1 << 50) + k, UNARY));
                    }
                    let op = if kind == "panic" || !rpc { PANIC_NEW } else { r.pick(&[PANIC_POLL, PANIC_STREAM]) };
                    let mut m = Msg::req(99, (1 << 50) + 99, op);
                    m.n = r.below(3) as u32;
                    x.send(&m);
                    bad.push(x);
                }
                "oversize" => {
                    let mut x = Raw::connect(addr, C::C, 0).await?;
                    let mut b = vec![];
                    match C::C {
                        Cd::Prost => varint(r.pick(&[40_000_000, u32::MAX as u64, 1 << 40, u64::MAX]), &mut b),
                        Cd::Mp => {
                            b.push(0xce);
                            b.extend_from_slice(&r.pick(&[40_000_000u32, u32::MAX]).to_be_bytes());
                        }
                    }
                    x.out.extend_from_slice(&b);
                    x.out.extend_from_slice(&[0; 100]);
                    bad.push(x);
                }
                "half-close" => {
                    let mut x = Raw::connect(addr, C::C, 0).await?;
                    x.send(&Msg::req(1, 1 << 50, UNARY));
                    x.flush(usize::MAX);
                    use std::os::fd::AsRawFd;
                    unsafe { libc::shutdown(x.s.as_ref().unwrap().as_raw_fd(), libc::SHUT_WR) };
                    bad.push(x);
                }
                "accept-fault" | "nodelay-fault" if !c.no_inject && !cfg!(miri) => {
                    // nobody who matters is in the backlog
                    let due = good.len();
                    wait_until(&slot, "healthy connections to be accepted", || under.connections() >= due).await?;
                    settle(&slot).await;
                    let n = r.range(1, 4);
                    // the faults are armed once their victims wait in the backlog, before the server gets to run
                    let victims: Vec<_> = (0..n).map(|_| std::net::TcpStream::connect(addr)).collect::<Result<_, _>>()?;
                    if kind == "accept-fault" {
                        let errno = r.pick(&[libc::ECONNABORTED, libc::EMFILE, libc::EINTR, libc::ENFILE, libc::ENOBUFS, libc::EPROTO, libc::ENOMEM]);
                        c.d(format!("errno={errno} x{n}"));
                        inject_accept(n as u32, errno);
                    } else {
                        c.d(format!("x{n}"));
                        inject_nodelay(n as u32);
                    }
                    settle(&slot).await;
                    c.count("injected_faults", injected_hits());
                    inject_off();
                    drop(victims);
                }
                "many" => {
                    // more than a batch of connections at once
                    let v: Vec<_> = (0..r.range(5, 40)).map(|_| std::net::TcpStream::connect(addr)).collect::<Result<_, _>>()?;
                    turns(&slot, r.below(20)).await;
                    drop(v);
                }
                _ => {
                    let x = Raw::connect(addr, C::C, 0).await?;
                    turns(&slot, r.below(5)).await;
                    drop(x);
                }
            }
            for _ in 0..r.below(40) {
                for x in bad.iter_mut() {
                    x.flush(usize::MAX);
                }
                for g in good.iter_mut() {
                    g.step(&mut r, &mut uid, rpc)?;
                }
                turn(&slot).await;
            }
            if r.chance(1, 2) || round + 1 == rounds {
                // a later connection
                let mut g = join_good(c, addr, &mut r).await?;
                g.raw.cd = C::C;
                good.push(g);
            }
        }
        let mut pat = Patience::new();
        loop {
            ensure!(!task.is_finished(), "the server stopped");
            for x in bad.iter_mut() {
                x.flush(usize::MAX);
            }
            for g in good.iter_mut() {
                g.step(&mut r, &mut uid, rpc)?;
            }
            if good.iter().all(|g| g.done(rpc)) {
                break;
            }
            let pr = under.progress() + good.iter().map(|g| g.raw.progress() + g.got).sum::<u64>();
            pat.wait(&slot, pr, || format!("healthy connections are not served: {} of {} done", good.iter().filter(|g| g.done(rpc)).count(), good.len())).await?;
        }
        Ok(())
    }
    .await;
    inject_off();
    injected_hits();
    ensure!(!task.is_finished(), "the server stopped");
    res?;
    settle(&slot).await;
    for g in good.iter_mut() {
        g.step(&mut r, &mut uid, rpc)?;
    }
    ensure!(!task.is_finished(), "the server stopped");
    // own service or reactor, which saw exactly this connection's messages
    match &under {
        Under::Rpc(w) => {
            let l = w.l();
            for g in &good {
                let mine: Vec<_> = l.conns.iter().filter(|k| k.addr == Some(g.local)).collect();
                ensure!(mine.len() == 1, "{} services for the connection from {}", mine.len(), g.local);
                ensure!(mine[0].requests == g.sent, "the service of {} saw {} requests, its connection sent {} (or in another order, or others')", g.local, mine[0].requests.len(), g.sent.len());
                ensure!(mine[0].dropped == 0, "the service of a live connection was dropped");
            }
            drop(l);
            w.check()?;
        }
        Under::Echo(e) => {
            let l = e.l();
            let mut used = std::collections::HashSet::new();
            for g in &good {
                if let Some(n) = g.reactor {
                    ensure!(used.insert(n), "reactor {n} serves two connections");
                    let want: Vec<u64> = g.sent.iter().map(|m| m.uid).collect();
                    ensure!(l.seen.get(&(n as u64)) == Some(&want), "reactor {n} saw other messages than its connection sent");
                }
            }
        }
    }
    c.count("healthy_responses", good.iter().map(|g| g.got).sum());
    c.count("server_connections", under.connections() as u64);
    Ok(())
}
fn socket_linger_zero(s: std::net::TcpStream) -> std::net::TcpStream {
    use std::os::fd::AsRawFd;
    let l = libc::linger { l_onoff: 1, l_linger: 0 };
    unsafe {
        libc::setsockopt(s.as_raw_fd(), libc::SOL_SOCKET, libc::SO_LINGER, &l as *const _ as *const _, std::mem::size_of::<libc::linger>() as u32);
    }
    s
}
