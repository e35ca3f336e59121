//! Raw peers that speak the wire formats without using any of the code under test, and the ledger of what a
//! client may and must receive.
use crate::conn::fill;
use crate::core::*;
use crate::ensure;
use crate::msg::*;
use crate::net::*;
use crate::svc::*;
use std::collections::HashMap;
use std::net::SocketAddr;
use std::sync::Arc;
use tokio::net::TcpStream;

pub struct Raw {
    pub s: Option<Arc<TcpStream>>,
    pub cd: Cd,
    pub out: Vec<u8>,
    pub out_at: usize,
    inb: Vec<u8>,
    pub got: std::collections::VecDeque<Msg>,
    pub eof: bool,
    pub reset: bool,
    pub read: u64,
    pub written: u64,
    pub messages: u64,
}
impl Raw {
    pub async fn connect(addr: SocketAddr, cd: Cd, buf: usize) -> Res<Raw> {
        Ok(Raw::on(dial(addr, buf).await?, cd))
    }
    pub fn on(s: TcpStream, cd: Cd) -> Raw {
        Raw { s: Some(Arc::new(s)), cd, out: vec![], out_at: 0, inb: vec![], got: Default::default(), eof: false, reset: false, read: 0, written: 0, messages: 0 }
    }
    pub fn send(&mut self, m: &Msg) {
        let b = enc(self.cd, m);
        self.out.extend_from_slice(&b);
    }
    pub fn over(&self) -> bool {
        self.eof || self.reset || self.s.is_none()
    }
    pub fn flushed(&self) -> bool {
        self.out_at == self.out.len()
    }
    pub fn flush(&mut self, n: usize) -> usize {
        let Some(s) = &self.s else { return 0 };
        if self.flushed() {
            return 0;
        }
        let end = self.out_at.saturating_add(n).min(self.out.len());
        match try_write(s, &self.out[self.out_at..end]) {
            Some(k) => {
                self.out_at += k;
                self.written += k as u64;
                if self.out_at == self.out.len() {
                    self.out.clear();
                    self.out_at = 0;
                }
                k
            }
            None => {
                self.reset = true;
                0
            }
        }
    }
    pub fn pull(&mut self, n: usize) -> Res<usize> {
        let Some(s) = &self.s else { return Ok(0) };
        if self.eof || self.reset {
            return Ok(0);
        }
        let mut b = vec![0u8; n.min(1 << 17)];
        let k = match try_read(s, &mut b) {
            Got::Bytes(k) => k,
            Got::Nothing => 0,
            Got::Eof => {
                self.eof = true;
                0
            }
            Got::Reset => {
                self.reset = true;
                0
            }
        };
        self.read += k as u64;
        self.feed(&b[..k])?;
        Ok(k)
    }
    fn feed(&mut self, b: &[u8]) -> Res {
        self.inb.extend_from_slice(b);
        let mut at = 0;
        loop {
            match parse(self.cd, &self.inb[at..]) {
                Parsed::Need => break,
                Parsed::Bad(e) => return violation(format!("the stream is not a sequence of messages any more: {e} after {} messages", self.messages)),
                Parsed::Msg(n, m) => {
                    at += n;
                    self.messages += 1;
                    self.got.push_back(m);
                }
            }
        }
        self.inb.drain(..at);
        Ok(())
    }
    /// drain the kernel without letting the runtime (and so the server) run; returns bytes
    pub fn drain_kernel(&mut self, slot: &Slot) -> Res<usize> {
        use std::os::fd::AsRawFd;
        let fd = self.s.as_ref().unwrap().as_raw_fd();
        let mut total = 0;
        let mut idle = 0;
        let mut b = vec![0u8; 1 << 17];
        while idle < 40 {
            slot.turns.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
            let k = unsafe { libc::read(fd, b.as_mut_ptr().cast(), b.len()) };
            if k > 0 {
                total += k as usize;
                self.read += k as u64;
                idle = 0;
                self.feed(&b[..k as usize])?;
            } else {
                idle += 1;
                std::thread::sleep(std::time::Duration::from_millis(1));
            }
        }
        Ok(total)
    }
    pub fn progress(&self) -> u64 {
        self.read + self.written + self.over() as u64
    }
}

#[derive(Debug, Clone)]
pub struct Exp {
    pub req: Msg,
    pub got: u32,
    pub ended: bool,
    pub cancelled: bool,
}
#[derive(Default)]
pub struct Ledger {
    pub by_uid: HashMap<u64, Exp>,
    pub active: HashMap<u64, u64>,
    /// streams that were cancelled before their id was used again: their end marker may have been under way
    pub stale: HashMap<u64, Vec<u64>>,
    pub open: usize,
    pub received: u64,
    pub ends: u64,
}
impl Ledger {
    pub fn sent(&mut self, m: &Msg) {
        if m.op == DECLINE {
            return;
        }
        if let Some(old) = self.active.insert(m.id, m.uid) {
            let e = &self.by_uid[&old];
            if e.req.op == STREAM && e.cancelled && !e.ended {
                self.stale.entry(m.id).or_default().push(old);
            }
        }
        self.by_uid.insert(m.uid, Exp { req: m.clone(), got: 0, ended: false, cancelled: false });
        self.open += 1;
    }
    pub fn cancel_sent(&mut self, id: u64) {
        if let Some(u) = self.active.get(&id) {
            let e = self.by_uid.get_mut(u).unwrap();
            if !e.cancelled && !e.done() {
                e.cancelled = true;
                self.open -= 1;
            }
        }
    }
    pub fn receive(&mut self, m: &Msg) -> Res {
        self.received += 1;
        match m.code {
            NORMAL => {
                let Some(e) = self.by_uid.get_mut(&m.uid) else { return violation(format!("a response nobody asked for on this connection: id {} uid {}", m.id, m.uid)) };
                ensure!(m.idx != 0xdead_beef, "call {} was polled again after it had finished, and the result was sent", m.uid);
                ensure!(m.id == e.req.id, "response to call {} carries id {} instead of {}", m.uid, m.id, e.req.id);
                let stream = e.req.op != UNARY && e.req.op != NEVER_UNARY && e.req.op != PANIC_POLL;
                let limit = if stream { e.req.n } else { 1 };
                ensure!(!e.ended, "item {} of call {} after its end marker", m.idx, m.uid);
                ensure!(m.idx == e.got, "call {}: item {} where {} was due", m.uid, m.idx, e.got);
                ensure!(e.got < limit, "call {}: more responses than the service produced", m.uid);
                ensure!(m.body == fill(m.uid, m.idx as u64, e.req.size as usize), "call {}: payload of item {} altered", m.uid, m.idx);
                e.got += 1;
                if !stream && !e.cancelled {
                    self.open -= 1;
                }
            }
            END => {
                self.ends += 1;
                let Some(u) = self.active.get(&m.id).copied() else { return violation(format!("end marker for id {} which was never used", m.id)) };
                let late = self.stale.get(&m.id).and_then(|v| v.iter().position(|u| self.by_uid[u].got == self.by_uid[u].req.n));
                let e = self.by_uid.get_mut(&u).unwrap();
                let fits = e.req.op == STREAM && !e.ended && e.got == e.req.n;
                if let Some(i) = late {
                    // of the cancelled call that used the id before, or of an empty stream (then the other one may follow)
                    if !fits {
                        let v = self.stale.get_mut(&m.id).unwrap();
                        let old = v.remove(i);
                        self.by_uid.get_mut(&old).unwrap().ended = true;
                        return Ok(());
                    }
                }
                ensure!(e.req.op == STREAM, "end marker for call {} which is not a finite stream (op {})", u, e.req.op);
                ensure!(!e.ended, "second end marker for call {u}");
                ensure!(e.got == e.req.n, "end marker for call {u} after {} of {} items", e.got, e.req.n);
                e.ended = true;
                if !e.cancelled {
                    self.open -= 1;
                }
            }
            x => return violation(format!("the server sent a control message of its own: id {} code {x}", m.id)),
        }
        Ok(())
    }
    pub fn take(&mut self, r: &mut Raw) -> Res {
        while let Some(m) = r.got.pop_front() {
            self.receive(&m)?;
        }
        Ok(())
    }
    /// calls that can complete and have not
    pub fn missing(&self) -> Vec<u64> {
        self.by_uid.values().filter(|e| !e.cancelled && !e.done() && matches!(e.req.op, UNARY | STREAM)).map(|e| e.req.uid).collect()
    }
    pub fn all_done(&self) -> bool {
        self.open == 0 || self.missing().is_empty()
    }
}
impl Exp {
    pub fn done(&self) -> bool {
        match self.req.op {
            STREAM => self.ended,
            UNARY => self.got == 1,
            _ => false,
        }
    }
}

pub struct Srv {
    pub addr: SocketAddr,
    pub w: W,
    pub task: tokio::task::JoinHandle<std::io::Result<()>>,
}
pub async fn serve<C: Codec>(max_buf: usize, max_q: usize) -> Res<Srv> {
    let w = W::default();
    serve_on::<C>(w, max_buf, max_q).await
}
pub async fn serve_on<C: Codec>(w: W, max_buf: usize, max_q: usize) -> Res<Srv> {
    let addr = fresh_addr();
    let mut s = protosocket_rpc::server::SocketRpcServer::new(addr, Svc::<C>::new(w.clone())).await.map_err(|e| Bad::Inconclusive(format!("bind {addr}: {e:?}")))?;
    if max_buf > 0 {
        s.set_max_buffer_length(max_buf);
    }
    if max_q > 0 {
        s.set_max_queued_outbound_messages(max_q);
    }
    let task = tokio::spawn(s);
    Ok(Srv { addr, w, task })
}
/// wait until the server has seen the n-th connection
pub async fn accepted(slot: &Slot, w: &W, n: usize) -> Res {
    wait_until(slot, "the server to accept a connection", || w.l().conns.len() >= n).await
}

/// a request with all its parameters
pub fn gen_req(r: &mut Rng, id: u64, uid: u64) -> Msg {
    let mut m = if r.chance(1, 2) {
        Msg::req(id, uid, UNARY)
    } else {
        let n = match r.below(6) {
            0 => 0,
            1 => 1,
            2 => r.range(2, 15),
            3 => r.range(15, 18),
            4 => r.range(100, 140),
            _ => r.range(2, 40),
        };
        Msg::stream(id, uid, n as u32)
    };
    m.size = r.pick(&[0, 1, 8, 30, 200]);
    if r.chance(1, 40) {
        m.size = r.range(1000, 60_000) as u32;
        m.n = m.n.min(6);
    }
    m.yields = if r.chance(1, 4) { r.range(1, 3) as u32 } else { 0 };
    if r.chance(1, 6) {
        let n = r.range(0, 3000);
        m.body = fill(uid, 3, n);
    }
    m
}
pub struct Ids {
    next: u64,
    style: usize,
}
impl Ids {
    pub fn new(r: &mut Rng) -> Ids {
        Ids { next: 0, style: r.below(4) }
    }
    pub fn next(&mut self, r: &mut Rng) -> u64 {
        self.next += 1;
        let n = self.next;
        match self.style {
            0 => n - 1,
            1 => u64::MAX - (n - 1),
            2 => (n << 32) | (n & 3),
            _ => {
                if n == 1 {
                    0
                } else {
                    r.u64() << 20 | n
                }
            }
        }
    }
}
