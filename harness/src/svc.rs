//! An instrumented rpc service: every call is recorded, can be gated, and reports how it is polled and dropped.
use crate::core::*;
use crate::msg::*;
use protosocket_rpc::server::{ConnectionService, RpcKind, SocketService};
use std::collections::HashMap;
use std::future::Future;
use std::net::SocketAddr;
use std::pin::Pin;
use std::sync::{Arc, Mutex, MutexGuard};
use std::task::{Context, Poll, Waker};

#[derive(Debug, Clone)]
pub struct Call {
    pub conn: usize,
    pub req: Msg,
    pub polls: u64,
    pub produced: u32,
    pub finished: bool,
    pub dropped: u32,
    /// number of pollings at the time `mark()` was called
    pub mark: u64,
    pub in_poll: bool,
}
#[derive(Debug, Default, Clone)]
pub struct ConnRec {
    pub requests: Vec<Msg>,
    pub dropped: u32,
    pub addr: Option<SocketAddr>,
}
#[derive(Default)]
pub struct World {
    pub calls: Vec<Call>,
    pub by_uid: HashMap<u64, usize>,
    pub conns: Vec<ConnRec>,
    permits: HashMap<u64, u32>,
    wakers: HashMap<u64, Waker>,
    pub bad: Option<String>,
    pub total_polls: u64,
    pub total_produced: u64,
    pub total_drops: u64,
    /// do not keep per-call records (for long runs)
    pub lean: bool,
    pub live_calls: i64,
    /// no response is larger (bytes from hostile peers may happen to ask for gigabytes)
    pub size_cap: Option<u32>,
}
#[derive(Clone, Default)]
pub struct W(pub Arc<Mutex<World>>);
impl W {
    pub fn l(&self) -> MutexGuard<'_, World> {
        self.0.lock().unwrap_or_else(|e| e.into_inner())
    }
    /// let a gated call go on
    pub fn open(&self, uid: u64) {
        let w = {
            let mut l = self.l();
            *l.permits.entry(uid).or_default() += 1;
            l.wakers.remove(&uid)
        };
        if let Some(w) = w {
            w.wake();
        }
    }
    /// wake a gated call without letting it go on
    pub fn poke(&self, uid: u64) {
        let w = self.l().wakers.get(&uid).cloned();
        if let Some(w) = w {
            w.wake();
        }
    }
    pub fn call(&self, uid: u64) -> Option<Call> {
        let l = self.l();
        l.by_uid.get(&uid).map(|i| l.calls[*i].clone())
    }
    pub fn check(&self) -> Res {
        match &self.l().bad {
            Some(b) => violation(b.clone()),
            None => Ok(()),
        }
    }
    pub fn progress(&self) -> u64 {
        let l = self.l();
        l.calls.len() as u64 + l.total_produced + l.total_drops + l.conns.iter().map(|c| c.dropped as u64 + c.requests.len() as u64).sum::<u64>() + l.conns.len() as u64
    }
    pub fn conn_dropped(&self, c: usize) -> u32 {
        self.l().conns.get(c).map(|c| c.dropped).unwrap_or(0)
    }
    /// every call of the connection has been dropped
    pub fn calls_gone(&self, c: usize) -> bool {
        self.l().calls.iter().filter(|k| k.conn == c).all(|k| k.dropped > 0)
    }
}
impl World {
    pub fn fail(&mut self, s: String) {
        if self.bad.is_none() {
            self.bad = Some(s);
        }
    }
}

pub struct Svc<C: Codec> {
    pub w: W,
    pub _c: std::marker::PhantomData<C>,
}
impl<C: Codec> Svc<C> {
    pub fn new(w: W) -> Self {
        Svc { w, _c: std::marker::PhantomData }
    }
}
pub struct Cs {
    w: W,
    conn: usize,
}
impl Drop for Cs {
    fn drop(&mut self) {
        self.w.l().conns[self.conn].dropped += 1;
    }
}
impl<C: Codec> SocketService for Svc<C> {
    type RequestDeserializer = C::D;
    type ResponseSerializer = C::S;
    type ConnectionService = Cs;
    fn deserializer(&self) -> C::D {
        C::D::default()
    }
    fn serializer(&self) -> C::S {
        C::S::default()
    }
    fn new_connection_service(&self, address: SocketAddr) -> Cs {
        let mut l = self.w.l();
        l.conns.push(ConnRec { addr: Some(address), ..Default::default() });
        Cs { w: self.w.clone(), conn: l.conns.len() - 1 }
    }
}
/// both the future of a unary call and the stream of a streaming call
pub struct Work {
    w: W,
    i: usize,
    req: Msg,
    k: u32,
    yields: u32,
    finished: bool,
    lean: bool,
}
impl Drop for Work {
    fn drop(&mut self) {
        let mut l = self.w.l();
        l.total_drops += 1;
        l.live_calls -= 1;
        if !self.lean {
            l.calls[self.i].dropped += 1;
        }
        l.wakers.remove(&self.req.uid);
        l.permits.remove(&self.req.uid);
    }
}
impl ConnectionService for Cs {
    type Request = Msg;
    type Response = Msg;
    type UnaryFutureType = Work;
    type StreamType = Work;
    fn new_rpc(&mut self, m: Msg) -> RpcKind<Work, Work> {
        let mut l = self.w.l();
        if m.code != NORMAL {
            l.fail(format!("the service was given a control message: id {} code {}", m.id, m.code));
        }
        let lean = l.lean;
        if l.conns[self.conn].dropped > 0 {
            l.fail("new_rpc on a dropped service".into());
        }
        if !lean {
            l.conns[self.conn].requests.push(m.clone());
        }
        if m.op == PANIC_NEW {
            drop(l);
            panic!("{INJECTED} panic in new_rpc");
        }
        if m.op == DECLINE {
            return RpcKind::Unknown;
        }
        let i = l.calls.len();
        if !lean {
            l.by_uid.insert(m.uid, i);
            l.calls.push(Call { conn: self.conn, req: m.clone(), polls: 0, produced: 0, finished: false, dropped: 0, mark: 0, in_poll: false });
        }
        l.live_calls += 1;
        let op = m.op;
        let work = Work { w: self.w.clone(), i, yields: m.yields, req: m, k: 0, finished: false, lean };
        drop(l);
        match op {
            STREAM | NEVER_STREAM | PANIC_STREAM => RpcKind::Streaming(work),
            _ => RpcKind::Unary(work),
        }
    }
}
impl Work {
    /// Some(Some(item)) / Some(None): end of the stream / None: pending
    fn step(&mut self, cx: &mut Context<'_>) -> Option<Option<Msg>> {
        let mut l = self.w.l();
        l.total_polls += 1;
        if !self.lean {
            l.calls[self.i].polls += 1;
        }
        if self.finished {
            // what a real stream does after its end is anyone's guess: this one talks nonsense
            l.total_produced += 1;
            return Some(Some(Msg { id: self.req.id, uid: self.req.uid, idx: 0xdead_beef, ..Default::default() }));
        }
        if self.yields > 0 {
            self.yields -= 1;
            cx.waker().wake_by_ref();
            return None;
        }
        if self.req.gate == self.k + 1 {
            let p = l.permits.entry(self.req.uid).or_default();
            if *p == 0 {
                l.wakers.insert(self.req.uid, cx.waker().clone());
                return None;
            }
            *p -= 1;
            self.req.gate = 0;
        }
        let never = matches!(self.req.op, NEVER_STREAM | NEVER_UNARY);
        let streaming = matches!(self.req.op, STREAM | NEVER_STREAM | PANIC_STREAM);
        if (self.req.op == PANIC_POLL) || (self.req.op == PANIC_STREAM && self.k == self.req.n) {
            drop(l);
            panic!("{INJECTED} panic in poll");
        }
        if never && (!streaming || self.k == self.req.n) {
            l.wakers.insert(self.req.uid, cx.waker().clone());
            return None;
        }
        if streaming && self.k == self.req.n {
            self.finished = true;
            if !self.lean {
                l.calls[self.i].finished = true;
            }
            return Some(None);
        }
        let size = self.req.size.min(l.size_cap.unwrap_or(u32::MAX));
        let m = Msg::item(self.req.id, self.req.uid, self.k, size);
        self.k += 1;
        self.yields = self.req.yields;
        l.total_produced += 1;
        if !self.lean {
            l.calls[self.i].produced += 1;
        }
        if !streaming {
            self.finished = true;
            if !self.lean {
                l.calls[self.i].finished = true;
            }
        }
        Some(Some(m))
    }
}
impl Future for Work {
    type Output = Msg;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Msg> {
        match self.step(cx) {
            Some(Some(m)) => Poll::Ready(m),
            _ => Poll::Pending,
        }
    }
}
impl futures::Stream for Work {
    type Item = Msg;
    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Msg>> {
        match self.step(cx) {
            Some(m) => Poll::Ready(m),
            None => Poll::Pending,
        }
    }
}
