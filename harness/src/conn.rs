//! A `protosocket::Connection` against a raw tcp peer, with monitors on the decoder's view, the reactor's
//! deliveries and the bytes on the wire.
use crate::core::*;
use crate::ensure;
use crate::net::*;
use protosocket::{Connection, ConnectionBindings, DeserializeError, Deserializer, MessageReactor, ReactorStatus, Serializer};
use std::os::fd::AsRawFd;
use std::sync::{Arc, Mutex, MutexGuard};
use tokio::net::TcpStream;
use tokio::sync::mpsc;

pub fn fill(seed: u64, idx: u64, len: usize) -> Vec<u8> {
    if cfg!(miri) && len > 4096 {
        return vec![mix(seed.wrapping_add(idx)) as u8; len];
    }
    let mut v = Vec::with_capacity(len + 8);
    let mut r = Rng::new(mix(seed ^ 0xf111).wrapping_add(mix(idx + 1)));
    while v.len() < len {
        v.extend_from_slice(&r.u64().to_le_bytes());
    }
    v.truncate(len);
    v
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    Long = 0,
    Skip = 1,
    Short = 2,
    Invalid = 3,
}
#[derive(Clone, Copy, Debug)]
pub struct Frame {
    pub kind: Kind,
    pub off: usize,
    pub len: usize,
}
#[derive(Default)]
pub struct Inbound {
    pub bytes: Vec<u8>,
    pub frames: Vec<Frame>,
    pub deliver: Vec<usize>,
}
pub const HEADER: usize = 5;
impl Inbound {
    pub fn build(seed: u64, spec: &[(Kind, usize)]) -> Inbound {
        let mut s = Inbound::default();
        for (i, (kind, len)) in spec.iter().enumerate() {
            let off = s.bytes.len();
            let b0 = (*kind as u8) | (((i % 64) as u8) << 2);
            s.bytes.push(b0);
            let len = match kind {
                Kind::Long | Kind::Skip => {
                    let len = (*len).max(HEADER);
                    s.bytes.extend_from_slice(&((len - HEADER) as u32).to_le_bytes());
                    s.bytes.extend_from_slice(&fill(seed, i as u64, len - HEADER));
                    len
                }
                _ => 1,
            };
            if matches!(kind, Kind::Long | Kind::Short) {
                s.deliver.push(i);
            }
            s.frames.push(Frame { kind: *kind, off, len });
        }
        s
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Hint {
    Total,
    Remaining,
    Payload,
    One,
    Zero,
    Max,
}
pub const HINTS: [Hint; 6] = [Hint::Total, Hint::Remaining, Hint::Payload, Hint::One, Hint::Zero, Hint::Max];

#[derive(Debug)]
pub struct InMsg {
    pub b0: u8,
    pub payload: Vec<u8>,
}
#[derive(Debug)]
pub struct OutMsg {
    pub idx: u64,
    pub len: usize,
}

#[derive(Default)]
pub struct Log {
    pub inb: Inbound,
    pub written: usize,
    pub consumed: usize,
    pub pending_skip: Option<usize>,
    pub delivered: usize,
    pub decode_calls: u64,
    pub batches: u64,
    pub max_batch: u64,
    pub incomplete: u64,
    pub skips: u64,
    pub bad: Option<String>,
    pub disconnected: bool,
    pub reactor_drops: u32,
    pub codec_drops: u32,
    // outbound
    pub seed: u64,
    pub submitted: u64,
    pub out_expected: Vec<u8>,
    pub out_limit: Option<usize>,
    pub out_read: usize,
    pub encoded: u64,
    pub max_buf: usize,
}
pub type L = Arc<Mutex<Log>>;
pub fn lk(l: &L) -> MutexGuard<'_, Log> {
    l.lock().unwrap_or_else(|e| e.into_inner())
}

fn same(a: &[u8], b: &[u8], salt: u64) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let n = a.len();
    if n <= 1 << 16 {
        return a == b;
    }
    // long views are compared at both ends and in windows; the message itself is compared whole on delivery
    let w = 2048;
    if a[..w] != b[..w] || a[n - w..] != b[n - w..] {
        return false;
    }
    let mut r = Rng::new(salt);
    (0..8).all(|_| {
        let i = r.below(n - w);
        a[i..i + w] == b[i..i + w]
    })
}
impl Log {
    fn fail(&mut self, s: String) {
        if self.bad.is_none() {
            self.bad = Some(s);
        }
    }
    /// the decoder is shown `b`; what is it looking at?
    fn view(&mut self, b: &[u8]) {
        let salt = self.decode_calls;
        let fits = |at: usize, me: &Log| at + b.len() <= me.written && same(b, &me.inb.bytes[at..at + b.len()], salt);
        if b.is_empty() {
            return;
        }
        if fits(self.consumed, self) {
            return;
        }
        if let Some(d) = self.pending_skip {
            if fits(self.consumed + d, self) {
                self.consumed += d;
                self.pending_skip = None;
                return;
            }
        }
        let c = self.consumed;
        let w = self.written;
        if c + b.len() > w {
            self.fail(format!("decoder shown {} bytes at stream offset {c} but only {w} bytes were ever sent (pending skip {:?})", b.len(), self.pending_skip));
        } else {
            let exp = &self.inb.bytes[c..c + b.len()];
            let d = b.iter().zip(exp).position(|(x, y)| x != y).unwrap_or(0);
            let m = format!(
                "decoder view of {} bytes at stream offset {c} differs from what was sent at +{d}: {:?} instead of {:?} (pending skip {:?})",
                b.len(),
                &b[d..(d + 8).min(b.len())],
                &exp[d..(d + 8).min(exp.len())],
                self.pending_skip
            );
            self.fail(m);
        }
    }
    fn deliver(&mut self, m: InMsg) {
        let n = self.delivered;
        let Some(fi) = self.inb.deliver.get(n).copied() else {
            self.fail(format!("reactor got message {n} but only {n} were sent (duplicate or invented): b0={} len={}", m.b0, m.payload.len()));
            return;
        };
        let f = self.inb.frames[fi];
        let body = if f.kind == Kind::Long { &self.inb.bytes[f.off + HEADER..f.off + f.len] } else { &[] };
        if m.b0 != self.inb.bytes[f.off] || m.payload != body {
            let t = format!("delivery {n} is not frame {fi}: tag {} len {} instead of tag {} len {}", m.b0, m.payload.len(), self.inb.bytes[f.off], body.len());
            self.fail(t);
        }
        self.delivered += 1;
    }
}

pub struct Dec {
    pub log: L,
    pub hint: Hint,
}
impl Drop for Dec {
    fn drop(&mut self) {
        lk(&self.log).codec_drops += 1;
    }
}
impl Deserializer for Dec {
    type Message = InMsg;
    fn decode(&mut self, mut buffer: impl bytes::Buf) -> Result<(usize, InMsg), DeserializeError> {
        let n = buffer.remaining();
        let own;
        let b: &[u8] = if buffer.chunk().len() == n {
            buffer.chunk()
        } else {
            own = buffer.copy_to_bytes(n);
            &own
        };
        let mut log = lk(&self.log);
        log.decode_calls += 1;
        log.view(b);
        let max = log.max_buf;
        let inc = |log: &mut Log, total: usize| {
            log.incomplete += 1;
            let s = match self.hint {
                Hint::Total => total,
                Hint::Remaining => total.saturating_sub(n).max(1),
                Hint::Payload => total.saturating_sub(HEADER).max(1),
                Hint::One => 1,
                Hint::Zero => 0,
                Hint::Max => max.max(total),
            };
            Err(DeserializeError::IncompleteBuffer { next_message_size: s })
        };
        if n == 0 {
            return inc(&mut log, 1);
        }
        let b0 = b[0];
        match b0 & 3 {
            2 => {
                log.pending_skip = None;
                log.consumed += 1;
                Ok((1, InMsg { b0, payload: vec![] }))
            }
            3 => Err(DeserializeError::InvalidBuffer),
            k => {
                if n < HEADER {
                    return inc(&mut log, HEADER);
                }
                let total = HEADER + u32::from_le_bytes([b[1], b[2], b[3], b[4]]) as usize;
                if k == 1 {
                    log.skips += 1;
                    log.pending_skip = Some(total);
                    return Err(DeserializeError::SkipMessage { distance: total });
                }
                if n < total {
                    return inc(&mut log, total);
                }
                log.pending_skip = None;
                log.consumed += total;
                Ok((total, InMsg { b0, payload: b[HEADER..total].to_vec() }))
            }
        }
    }
}
pub struct Ser {
    pub log: L,
    pub seed: u64,
}
impl Drop for Ser {
    fn drop(&mut self) {
        lk(&self.log).codec_drops += 1;
    }
}
impl Serializer for Ser {
    type Message = OutMsg;
    fn encode(&mut self, m: OutMsg, buffer: &mut Vec<u8>) {
        lk(&self.log).encoded += 1;
        buffer.extend_from_slice(&fill(self.seed, m.idx, m.len));
    }
}
pub struct Rx {
    pub log: L,
    pub disconnect_at: Option<usize>,
    pub echo: Option<(mpsc::Sender<OutMsg>, usize)>,
}
impl Drop for Rx {
    fn drop(&mut self) {
        lk(&self.log).reactor_drops += 1;
    }
}
/// account for a message the outbound channel has just accepted
fn accepted(log: &mut Log, idx: u64, len: usize) {
    log.submitted += 1;
    if len > log.max_buf {
        if log.out_limit.is_none() {
            log.out_limit = Some(log.out_expected.len());
        }
    } else {
        let b = fill(log.seed, idx, len);
        log.out_expected.extend_from_slice(&b);
    }
}
impl MessageReactor for Rx {
    type Inbound = InMsg;
    fn on_inbound_messages(&mut self, messages: impl IntoIterator<Item = InMsg>) -> ReactorStatus {
        let mut log = lk(&self.log);
        if log.disconnected {
            log.fail("the reactor was called again after it asked to disconnect".into());
        }
        log.batches += 1;
        let mut n = 0;
        for m in messages {
            if self.disconnect_at.is_some_and(|d| log.delivered >= d) {
                log.disconnected = true;
                return ReactorStatus::Disconnect;
            }
            n += 1;
            log.deliver(m);
            if let Some((tx, len)) = &self.echo {
                let idx = log.submitted;
                if tx.try_send(OutMsg { idx, len: *len }).is_ok() {
                    accepted(&mut log, idx, *len);
                }
            }
        }
        log.max_batch = log.max_batch.max(n);
        if self.disconnect_at.is_some_and(|d| log.delivered >= d) {
            log.disconnected = true;
            return ReactorStatus::Disconnect;
        }
        ReactorStatus::Continue
    }
}
pub struct B;
impl ConnectionBindings for B {
    type Deserializer = Dec;
    type Serializer = Ser;
    type Reactor = Rx;
}

#[derive(Clone, Debug)]
pub struct P {
    pub max_buf: usize,
    pub max_q: usize,
    pub chan: usize,
    pub hint: Hint,
    pub bufs: Bufs,
    pub inject: Inject,
    pub disconnect_at: Option<usize>,
    pub echo: Option<usize>,
}
impl P {
    pub fn new(max_buf: usize, max_q: usize) -> P {
        P { max_buf, max_q, chan: max_q, hint: Hint::Total, bufs: Bufs::default(), inject: Inject::default(), disconnect_at: None, echo: None }
    }
}

pub struct Duplex {
    pub log: L,
    pub peer: Option<Arc<TcpStream>>,
    pub tx: Option<mpsc::Sender<OutMsg>>,
    pub task: Option<tokio::task::JoinHandle<()>>,
    pub slot: Arc<Slot>,
    /// the peer's view
    pub peer_eof: bool,
    pub peer_reset: bool,
    pub fd: i32,
    pub p: P,
    pub next_out: u64,
}
impl Drop for Duplex {
    fn drop(&mut self) {
        inject_off();
    }
}
impl Duplex {
    pub async fn start(c: &mut Case, p: &P, inb: Inbound) -> Res<Duplex> {
        let (ours, peer) = pair(p.bufs).await?;
        let seed = c.rng.u64();
        let log: L = Arc::new(Mutex::new(Log { inb, seed, max_buf: p.max_buf, ..Default::default() }));
        let (tx, rx) = mpsc::channel(p.chan);
        let fd = ours.as_raw_fd();
        let addr = ours.peer_addr()?;
        let inj = if c.no_inject { Inject::default() } else { p.inject };
        inject(inj, fd, c.rng.u64());
        let conn: Connection<B> = Connection::new(
            ours,
            addr,
            Dec { log: log.clone(), hint: p.hint },
            Ser { log: log.clone(), seed },
            p.max_buf,
            p.max_q,
            rx,
            Rx { log: log.clone(), disconnect_at: p.disconnect_at, echo: p.echo.map(|l| (tx.clone(), l)) },
        );
        let task = tokio::spawn(conn);
        Ok(Duplex {
            log,
            peer: Some(Arc::new(peer)),
            tx: Some(tx),
            task: Some(task),
            slot: c.slot.clone(),
            peer_eof: false,
            peer_reset: false,
            fd,
            p: p.clone(),
            next_out: 0,
        })
    }
    pub fn l(&self) -> MutexGuard<'_, Log> {
        lk(&self.log)
    }
    pub fn ended(&self) -> bool {
        self.task.as_ref().map(|t| t.is_finished()).unwrap_or(true)
    }
    pub fn check(&self) -> Res {
        match &self.l().bad {
            Some(b) => violation(b.clone()),
            None => Ok(()),
        }
    }
    pub fn progress(&self) -> u64 {
        let l = self.l();
        l.written as u64 + l.consumed as u64 + l.delivered as u64 + l.submitted + l.out_read as u64 + l.encoded + self.ended() as u64 + (self.peer_eof || self.peer_reset) as u64
    }
    /// peer writes up to n of the remaining inbound bytes
    pub fn write_some(&mut self, n: usize) -> usize {
        let Some(peer) = &self.peer else { return 0 };
        let mut l = lk(&self.log);
        let at = l.written;
        let end = (at + n).min(l.inb.bytes.len());
        if at == end {
            return 0;
        }
        match try_write(peer, &l.inb.bytes[at..end]) {
            Some(k) => {
                l.written += k;
                k
            }
            None => {
                self.peer_reset = true;
                0
            }
        }
    }
    /// peer reads up to n bytes; they are compared with what was submitted
    pub fn read_some(&mut self, n: usize) -> Res<usize> {
        let Some(peer) = &self.peer else { return Ok(0) };
        let mut buf = vec![0u8; n.min(1 << 18)];
        match try_read(peer, &mut buf) {
            Got::Bytes(k) => {
                let mut l = lk(&self.log);
                let at = l.out_read;
                let lim = l.out_limit.unwrap_or(l.out_expected.len());
                if at + k > lim {
                    return violation(format!("peer received {} bytes, but only {lim} may ever be on the wire (oversized message submitted: {})", at + k, l.out_limit.is_some()));
                }
                if buf[..k] != l.out_expected[at..at + k] {
                    let d = buf[..k].iter().zip(&l.out_expected[at..]).position(|(a, b)| a != b).unwrap_or(0);
                    return violation(format!("wire byte {} differs from the concatenation of the submitted messages (repeated, lost, reordered or altered)", at + d));
                }
                l.out_read += k;
                Ok(k)
            }
            Got::Nothing => Ok(0),
            Got::Eof => {
                self.peer_eof = true;
                Ok(0)
            }
            Got::Reset => {
                self.peer_reset = true;
                Ok(0)
            }
        }
    }
    /// Some(true): accepted. Some(false): queue is full. None: closed.
    pub fn submit(&mut self, len: usize) -> Option<bool> {
        let tx = self.tx.as_ref()?;
        let idx = if self.p.echo.is_some() { self.l().submitted } else { self.next_out };
        match tx.try_send(OutMsg { idx, len }) {
            Ok(()) => {
                self.next_out += 1;
                accepted(&mut lk(&self.log), idx, len);
                Some(true)
            }
            Err(mpsc::error::TrySendError::Full(_)) => Some(false),
            Err(mpsc::error::TrySendError::Closed(_)) => None,
        }
    }
    pub fn wrote(&self) -> usize {
        self.l().written
    }
    pub fn delivered(&self) -> usize {
        self.l().delivered
    }
    pub fn all_written(&self) -> bool {
        let l = self.l();
        l.written == l.inb.bytes.len()
    }
    /// (read by the peer, submitted)
    pub fn wire(&self) -> (usize, usize) {
        let l = self.l();
        (l.out_read, l.out_expected.len())
    }
    pub fn inbound_done(&self) -> bool {
        let l = self.l();
        l.written == l.inb.bytes.len() && l.delivered == l.inb.deliver.len()
    }
    pub fn wire_done(&self) -> bool {
        let l = self.l();
        l.out_read == l.out_expected.len()
    }
    pub async fn turn(&self) {
        turn(&self.slot).await
    }
    /// wait for the connection task to end; other parties do what `act` does each turn
    pub async fn wait_end(&mut self, what: &str, read: bool) -> Res {
        let mut p = Patience::new();
        while !self.ended() {
            self.check()?;
            if read {
                self.read_some(1 << 16)?;
            }
            let pr = self.progress();
            p.wait(&self.slot.clone(), pr, || format!("connection did not end: {what}")).await?;
        }
        self.check()
    }
    /// everything that has to be true once the connection's task has ended
    pub async fn check_ended(&mut self) -> Res {
        let t = self.task.take();
        if let Some(t) = t {
            match t.await {
                Ok(()) => {}
                Err(e) if e.is_cancelled() => {}
                Err(e) => return violation(format!("the connection panicked: {e}")),
            }
        }
        self.check()?;
        {
            let l = self.l();
            ensure!(l.reactor_drops == 1, "reactor dropped {} times when the connection ended", l.reactor_drops);
            ensure!(l.codec_drops == 2, "{} of 2 codecs dropped when the connection ended", l.codec_drops);
        }
        if let Some(tx) = &self.tx {
            ensure!(tx.is_closed(), "the connection ended but senders do not see a closed channel");
        }
        Ok(())
    }
    /// the peer reads until it sees the end of the connection
    pub async fn peer_sees_end(&mut self) -> Res {
        let mut p = Patience::new();
        while self.peer.is_some() && !self.peer_eof && !self.peer_reset {
            self.read_some(1 << 16)?;
            let pr = self.progress();
            p.wait(&self.slot.clone(), pr, || "the connection ended but its socket is still open".into()).await?;
        }
        Ok(())
    }
}

// ---------------------------------------------------------------- generators
#[derive(Clone, Debug, PartialEq)]
pub enum Seg {
    All,
    One,
    Small(usize),
    Fixed(usize),
    Frames,
    AroundFrames,
    Mixed,
}
pub fn gen_seg(r: &mut Rng, p: &P) -> Seg {
    match r.below(8) {
        0 | 1 => Seg::All,
        2 => Seg::One,
        3 => Seg::Small(r.range(2, 40)),
        4 => {
            let d = r.range(0, 2);
            Seg::Fixed((p.max_buf + d).saturating_sub(1).max(1))
        }
        5 => Seg::Frames,
        6 => Seg::AroundFrames,
        _ => Seg::Mixed,
    }
}
impl Seg {
    /// how many bytes to write next at offset `at`
    pub fn next(&self, r: &mut Rng, at: usize, inb: &Inbound) -> usize {
        let frame_end = |at: usize| {
            let i = inb.frames.partition_point(|f| f.off + f.len <= at);
            inb.frames.get(i).map(|f| f.off + f.len - at).unwrap_or(1)
        };
        match self {
            Seg::All => usize::MAX >> 1,
            Seg::One => {
                if inb.bytes.len() > 20_000 {
                    // one byte around boundaries only
                    let e = frame_end(at);
                    if e > 12 {
                        e - 8
                    } else {
                        1
                    }
                } else {
                    1
                }
            }
            Seg::Small(n) => {
                if inb.bytes.len() > 100_000 {
                    r.range(1, n * 400)
                } else {
                    r.range(1, *n)
                }
            }
            Seg::Fixed(n) => *n,
            Seg::Frames => {
                let k = r.range(1, 6);
                let mut n = 0;
                for _ in 0..k {
                    n += frame_end(at + n);
                }
                n
            }
            Seg::AroundFrames => {
                let e = frame_end(at);
                match r.below(4) {
                    0 => e.saturating_sub(1).max(1),
                    1 => e + 1,
                    2 => e + r.range(1, 6),
                    _ => (e / 2).max(1),
                }
            }
            Seg::Mixed => {
                let k = r.below(3);
                [r.range(1, 9), r.range(1, 3000), r.range(1, 300_000)][k]
            }
        }
    }
}
pub fn gen_max_q(r: &mut Rng) -> usize {
    r.pick(&[1, 1, 2, 3, 4, 7, 16, 17, 64, 127, 128, 129, 130, 200, 256, 257, 300])
}
/// inbound frame sizes that fit `max`
pub fn gen_frames(r: &mut Rng, max: usize, budget: usize, n_max: usize, skips: bool) -> Vec<(Kind, usize)> {
    let mut v = Vec::new();
    let mut total = 0;
    let style = r.below(5);
    let only_short = max < HEADER;
    while v.len() < n_max && total < budget {
        let k = if only_short {
            Kind::Short
        } else {
            match r.below(10) {
                0 | 1 if skips => Kind::Skip,
                2 => Kind::Short,
                _ => Kind::Long,
            }
        };
        let hi = max.max(HEADER);
        let len = match (style, r.below(6)) {
            (0, _) => r.range(HEADER, hi.min(24)),
            (1, _) => r.range(HEADER, hi),
            (2, 0..=1) => hi - r.below(3.min(hi - HEADER + 1)),
            (3, _) => r.range(hi * 2 / 3, hi).max(HEADER),
            (4, 0) => hi,
            (4, _) => r.range(HEADER, hi.min(9)),
            _ => r.range(HEADER, hi.min(2000)),
        };
        total += len;
        v.push((k, len));
    }
    v
}
pub fn gen_bufs(r: &mut Rng) -> Bufs {
    match r.below(4) {
        0 => Bufs { ours: 4096, theirs: 4096 },
        1 => Bufs { ours: 16384, theirs: 8192 },
        _ => Bufs::default(),
    }
}
pub fn gen_inject(r: &mut Rng) -> Inject {
    match r.below(6) {
        0 => Inject { short_read: r.pick(&[1, 3, 7, 100, 5000]), ..Default::default() },
        1 => Inject { short_write: r.pick(&[1, 2, 5, 64, 1000, 20_000]), ..Default::default() },
        2 => Inject { eintr: r.range(2, 9), ..Default::default() },
        3 => Inject { short_read: r.pick(&[11, 3000]), short_write: r.pick(&[13, 1500]), eintr: r.range(3, 20) },
        _ => Inject::default(),
    }
}

/// What the three parties do. Holds are positions at which a party stops until nothing else moves.
#[derive(Clone, Debug)]
pub struct Plan {
    pub seg: Seg,
    pub out: Vec<usize>,
    pub read_chunk: usize,
    pub pace: usize,
    pub lockstep: bool,
    pub w_holds: Vec<usize>,
    pub r_holds: Vec<usize>,
    pub a_holds: Vec<usize>,
    pub submit_burst: usize,
    pub close_ok: bool,
}
impl Plan {
    pub fn new(seg: Seg, out: Vec<usize>) -> Plan {
        Plan { seg, out, read_chunk: 1 << 16, pace: 1, lockstep: false, w_holds: vec![], r_holds: vec![], a_holds: vec![], submit_burst: 64, close_ok: false }
    }
}
pub fn gen_out(r: &mut Rng, max: usize, n_max: usize, budget: usize, empties: bool) -> Vec<usize> {
    let mut v = Vec::new();
    let style = r.below(4);
    let mut total = 0;
    let n = r.range(1, n_max);
    while v.len() < n && total < budget {
        let len = match style {
            0 => r.range(1, max.min(16)),
            1 => r.range(1, max.min(3000)),
            2 => {
                if r.chance(1, 4) {
                    r.range(max / 2 + 1, max)
                } else {
                    r.range(1, max.min(40))
                }
            }
            _ => r.range(1, max),
        };
        let len = if empties && r.chance(1, 7) { 0 } else { len };
        total += len;
        v.push(len);
    }
    v
}

/// Run the three parties to completion. Every inbound message must be delivered and every submitted message
/// must reach the wire. While a party holds, the others must still get everything done that does not depend on it.
pub async fn exchange(c: &mut Case, d: &mut Duplex, plan: &Plan) -> Res {
    let slot = d.slot.clone();
    let mut r = c.rng.fork();
    let mut pat = Patience::new();
    let mut quiet = 0u32;
    let mut last = u64::MAX;
    let (mut wh, mut rh, mut ah) = (plan.w_holds.clone(), plan.r_holds.clone(), plan.a_holds.clone());
    for h in [&mut wh, &mut rh, &mut ah] {
        h.sort();
        h.reverse();
    }
    let mut next_out = 0usize;
    let mut want_w = 0usize;
    loop {
        d.check()?;
        let (written, total_in, delivered, total_del, out_read) = {
            let l = d.l();
            (l.written, l.inb.bytes.len(), l.delivered, l.inb.deliver.len(), l.out_read)
        };
        let w_held = wh.last().is_some_and(|h| written >= *h);
        let r_held = rh.last().is_some_and(|h| out_read >= *h);
        let a_held = ah.last().is_some_and(|h| next_out >= *h);
        let in_done = written == total_in && delivered == total_del;
        let sub_done = next_out == plan.out.len();
        if in_done && sub_done && d.wire_done() {
            break;
        }
        if d.ended() {
            if plan.close_ok {
                return Ok(());
            }
            let l = d.l();
            return violation(format!(
                "connection ended by itself: {delivered}/{total_del} delivered, {written}/{total_in} bytes written, {out_read}/{} bytes read, {next_out} submitted, decode calls {}",
                l.out_expected.len(),
                l.decode_calls
            ));
        }
        // act
        if !w_held && written < total_in {
            if want_w == 0 {
                let ok = !plan.lockstep || d.l().consumed + 64 >= written || r.chance(1, 3);
                if ok {
                    want_w = plan.seg.next(&mut r, written, &d.l().inb);
                    if let Some(h) = wh.last() {
                        want_w = want_w.min(h - written);
                    }
                }
            }
            if want_w > 0 {
                let k = d.write_some(want_w);
                want_w = if k == 0 { want_w } else { want_w - k.min(want_w) };
            }
        }
        if !a_held && !sub_done {
            let mut n = r.range(1, plan.submit_burst);
            if let Some(h) = ah.last() {
                n = n.min(h - next_out);
            }
            while n > 0 && next_out < plan.out.len() {
                match d.submit(plan.out[next_out]) {
                    Some(true) => next_out += 1,
                    Some(false) => break,
                    None => {
                        if plan.close_ok {
                            return Ok(());
                        }
                        break;
                    }
                }
                n -= 1;
            }
        }
        if !r_held {
            let mut n = r.range(1, plan.read_chunk);
            if let Some(h) = rh.last() {
                n = n.min(h - out_read);
            }
            d.read_some(n)?;
        }
        for _ in 0..plan.pace.saturating_sub(1) {
            d.turn().await;
        }
        let pr = d.progress();
        if pr == last {
            quiet += 1;
        } else {
            quiet = 0;
            last = pr;
        }
        if quiet > 80 && (w_held || r_held || a_held) {
            // Nothing moves. Is everything done that can be done without the held parties?
            let inbound_due = !w_held && !in_done;
            let outbound_due = !r_held && ((!a_held && !sub_done) || !d.wire_done());
            if !inbound_due && !outbound_due {
                c.count("holds_released", 1);
                if w_held {
                    wh.pop();
                }
                if r_held {
                    rh.pop();
                }
                if a_held {
                    ah.pop();
                }
                quiet = 0;
                continue;
            }
        }
        pat.wait(&slot, pr, || {
            let l = d.l();
            format!(
                "nothing moves: {delivered}/{total_del} messages delivered, {written}/{total_in} bytes written by the peer, {out_read}/{} bytes read by the peer, {next_out}/{} submitted; held: writer {w_held} reader {r_held} app {a_held}; unread at peer {}",
                l.out_expected.len(),
                plan.out.len(),
                d.peer.as_ref().map(|p| unread(p)).unwrap_or(0)
            )
        })
        .await?;
    }
    let l = d.l();
    c.count("inbound_messages", l.delivered as u64);
    c.count("inbound_bytes", l.written as u64);
    c.count("decode_calls", l.decode_calls);
    c.count("incomplete_decodes", l.incomplete);
    c.count("skips", l.skips);
    c.count("reactor_batches", l.batches);
    c.count("outbound_messages", l.submitted);
    c.count("outbound_bytes", l.out_read as u64);
    drop(l);
    c.count("injected_faults", injected_hits());
    Ok(())
}
/// keep the number of system calls of an injected case in bounds
pub fn tame(p: &mut P, in_bytes: usize, out_bytes: usize) {
    if p.inject.short_read > 0 {
        p.inject.short_read = p.inject.short_read.max(in_bytes / 2500);
    }
    if p.inject.short_write > 0 {
        p.inject.short_write = p.inject.short_write.max(out_bytes / 2500);
    }
}
pub fn describe(c: &mut Case, p: &P, plan: &Plan, n_in: usize, in_bytes: usize) {
    c.d(format!("{p:?} in={n_in}/{in_bytes}B seg={:?} lockstep={} pace={} out={} read_chunk={} holds={:?}/{:?}/{:?}", plan.seg, plan.lockstep, plan.pace, plan.out.len(), plan.read_chunk, plan.w_holds, plan.r_holds, plan.a_holds));
}
