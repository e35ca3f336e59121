//! The real rpc client against a scripted server: a simulator that issues, answers, drops and disturbs calls at random
//! while monitors compare every observable result with what the script allows.
use crate::conn::fill;
use crate::core::*;
use crate::ensure;
use crate::msg::*;
use crate::net::*;
use crate::raw::*;
use futures::Stream;
use protosocket_rpc::client::{Configuration, RpcClient, StreamingCompletion, UnaryCompletion};
use protosocket_rpc::Error;
use std::collections::HashMap;
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};

pub struct Flag(AtomicBool);
impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.0.store(true, Ordering::SeqCst);
    }
}
#[derive(Debug, Clone, PartialEq)]
pub enum Out {
    Reply(Msg),
    Err(&'static str),
}
pub fn name(e: &Error) -> &'static str {
    match e {
        Error::IoFailure(_) => "io",
        Error::CancelledRemotely => "cancelled",
        Error::ConnectionIsClosed => "closed",
        Error::Finished => "finished",
    }
}
pub enum Comp {
    U(UnaryCompletion<Msg, Msg>),
    S(StreamingCompletion<Msg, Msg>),
}
type Sending = Pin<Box<dyn Future<Output = Result<Comp, Error>>>>;
pub enum Stage {
    Sending(Sending),
    Open(Comp),
    /// resolved; the completion object is kept
    Over(Option<Comp>),
    Dropped,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Term {
    End,
    Cancel,
}
/// one call, as the client and as the script see it
pub struct CallH {
    pub req: Msg,
    pub stream: bool,
    pub stage: Stage,
    flag: Arc<Flag>,
    pub polls: u64,
    /// consumer does not look at it
    pub lazy: bool,
    pub got: u32,
    pub out: Option<Out>,
    // ---- script
    pub seen: bool,
    pub items: Vec<Msg>,
    pub term: Option<Term>,
    pub accepted: bool,
    pub cancels: u32,
    pub must_cancel: Option<bool>,
}
impl CallH {
    pub fn decided(&self) -> bool {
        self.term.is_some() || (!self.stream && !self.items.is_empty())
    }
    pub fn open(&self) -> bool {
        matches!(self.stage, Stage::Sending(_) | Stage::Open(_))
    }
    fn wake(&self) {
        self.flag.0.store(true, Ordering::SeqCst)
    }
}

pub struct Sim {
    pub clients: Vec<RpcClient<Msg, Msg>>,
    pub conn: Option<tokio::task::JoinHandle<()>>,
    pub peer: Raw,
    pub calls: Vec<CallH>,
    by_uid: HashMap<u64, usize>,
    /// id -> latest call that uses it
    pub by_id: HashMap<u64, usize>,
    /// id -> latest call whose request the peer has seen
    seen_id: HashMap<u64, usize>,
    pub lost: bool,
    pub peer_reads: bool,
    pub style: usize,
    pub q: usize,
    room: i64,
    calm: u32,
    pub next_uid: u64,
    pub events: u64,
    pub seen: u64,
    pub extra_cancels: u64,
    live: Vec<usize>,
}

pub struct Setup {
    pub q: usize,
    pub max_buf: usize,
    pub sock: usize,
    pub clones: usize,
    pub style: usize,
}
pub async fn connect_pair<C: Codec>(s: &Setup) -> Res<(RpcClient<Msg, Msg>, impl Future<Output = ()> + Send + 'static, Raw)> {
    let l = listen(s.sock).await?;
    let mut cfg = Configuration::default();
    if s.q > 0 {
        cfg.max_queued_outbound_messages(s.q);
    }
    if s.max_buf > 0 {
        cfg.max_buffer_length(s.max_buf);
    }
    let addr = l.local_addr()?;
    let (conn, acc) = tokio::join!(protosocket_rpc::client::connect::<C::S, C::D>(addr, &cfg), l.accept());
    let (client, conn) = conn.map_err(|e| Bad::Stall(format!("cannot connect: {e:?}")))?;
    let peer = acc?.0;
    peer.set_nodelay(true)?;
    Ok((client, conn, Raw::on(peer, C::C)))
}

impl Sim {
    pub async fn new<C: Codec>(s: &Setup) -> Res<Sim> {
        clear_traps();
        let (client, conn, peer) = connect_pair::<C>(s).await?;
        let conn = tokio::spawn(conn);
        let clients = (0..s.clones.max(1)).map(|_| client.clone()).collect();
        Ok(Sim {
            clients,
            conn: Some(conn),
            peer,
            calls: vec![],
            by_uid: Default::default(),
            by_id: Default::default(),
            seen_id: Default::default(),
            lost: false,
            peer_reads: true,
            style: s.style,
            q: if s.q == 0 { 256 } else { s.q },
            room: 0,
            calm: 0,
            next_uid: 1,
            events: 0,
            seen: 0,
            extra_cancels: 0,
            live: vec![],
        })
    }
    /// start a call; its sending future is polled from now on whenever it is woken
    pub fn issue(&mut self, r: &mut Rng, id: u64, stream: bool) -> usize {
        let uid = self.next_uid;
        self.next_uid += 1;
        let mut req = Msg::req(id, uid, if stream { STREAM } else { UNARY });
        if r.chance(1, 12) {
            let n = r.range(0, 5000);
            req.body = fill(uid, 77, n);
        }
        let c = self.clients[r.below(self.clients.len())].clone();
        let rq = req.clone();
        let f: Sending = Box::pin(async move {
            if stream {
                c.send_streaming(rq).await.map(Comp::S)
            } else {
                c.send_unary(rq).await.map(Comp::U)
            }
        });
        let i = self.calls.len();
        self.calls.push(CallH {
            req,
            stream,
            stage: Stage::Sending(f),
            flag: Arc::new(Flag(AtomicBool::new(true))),
            polls: 0,
            lazy: false,
            got: 0,
            out: None,
            seen: false,
            items: vec![],
            term: None,
            accepted: false,
            cancels: 0,
            must_cancel: None,
        });
        self.by_uid.insert(uid, i);
        self.by_id.insert(id, i);
        self.live.push(i);
        self.events += 1;
        i
    }
    /// poll call i if it was woken
    pub fn step(&mut self, i: usize) -> Res<bool> {
        let lost = self.lost;
        let k = &mut self.calls[i];
        if !k.open() || (k.lazy && matches!(k.stage, Stage::Open(_))) || !k.flag.0.swap(false, Ordering::SeqCst) {
            return Ok(false);
        }
        let w: Waker = k.flag.clone().into();
        let mut cx = Context::from_waker(&w);
        k.polls += 1;
        let uid = k.req.uid;
        if let Stage::Sending(f) = &mut k.stage {
            match f.as_mut().poll(&mut cx) {
                Poll::Pending => return Ok(false),
                Poll::Ready(Ok(c)) => {
                    k.stage = Stage::Open(c);
                    k.accepted = true;
                    self.room -= 1;
                    self.calm = 0;
                    k.flag.0.store(true, Ordering::SeqCst);
                }
                Poll::Ready(Err(e)) => {
                    ensure!(lost, "call {uid} could not be sent ({}) although the connection lives", name(&e));
                    ensure!(!matches!(e, Error::Finished), "call {uid} could not be sent but says finished");
                    k.out = Some(Out::Err(name(&e)));
                    k.stage = Stage::Over(None);
                }
            }
            self.events += 1;
            return Ok(true);
        }
        let mut moved = false;
        loop {
            let Stage::Open(c) = &mut k.stage else { break };
            let out = match c {
                Comp::U(u) => match Pin::new(u).poll(&mut cx) {
                    Poll::Pending => break,
                    Poll::Ready(Ok(m)) => Out::Reply(m),
                    Poll::Ready(Err(e)) => Out::Err(name(&e)),
                },
                Comp::S(s) => match Pin::new(s).poll_next(&mut cx) {
                    Poll::Pending => break,
                    Poll::Ready(Some(Ok(m))) => {
                        let want = k.items.get(k.got as usize);
                        match want {
                            None => return violation(format!("stream {uid} yields an item (idx {} of call {}) nobody sent: {} were sent", m.idx, m.uid, k.items.len())),
                            Some(w) => ensure!(*w == m, "stream {uid}: item {} is idx {} of call {}, wanted idx {} (lost, duplicated, reordered, foreign or altered)", k.got, m.idx, m.uid, w.idx),
                        }
                        k.got += 1;
                        moved = true;
                        self.events += 1;
                        continue;
                    }
                    Poll::Ready(Some(Err(e))) => Out::Err(name(&e)),
                    Poll::Ready(None) => return violation(format!("stream {uid} ends without a terminal result after {} items", k.got)),
                },
            };
            moved = true;
            self.events += 1;
            let Stage::Open(mut c) = std::mem::replace(&mut k.stage, Stage::Dropped) else { unreachable!() };
            match &out {
                Out::Reply(m) => match k.items.first() {
                    None => return violation(format!("call {uid} (id {}) resolved with a response of call {} before any was sent to it", k.req.id, m.uid)),
                    Some(w) => ensure!(w == m, "call {uid} (id {}) resolved with idx {} of call {} (id {}): not its own first response, or altered", k.req.id, m.idx, m.uid, m.id),
                },
                Out::Err(e) => {
                    if k.stream {
                        match k.term {
                            Some(Term::End) if !lost => {
                                ensure!(*e == "finished", "stream {uid} was ended by the server but reports {e}");
                                ensure!(k.got as usize == k.items.len(), "stream {uid} finished after {} of {} items", k.got, k.items.len());
                            }
                            Some(Term::End) => {
                                if *e == "finished" {
                                    ensure!(k.got as usize == k.items.len(), "stream {uid} finished after {} of {} items", k.got, k.items.len());
                                }
                            }
                            Some(Term::Cancel) => {
                                ensure!(*e != "finished", "stream {uid} was cancelled by the server but reports that it finished");
                                ensure!(lost || k.got as usize == k.items.len(), "stream {uid}: {} items arrived before the remote cancel, {} were delivered", k.items.len(), k.got);
                            }
                            None => {
                                ensure!(lost, "stream {uid} ended with {e} although nobody ended it");
                                ensure!(*e != "finished", "stream {uid} was cut off by the loss of the connection but reports that it finished");
                            }
                        }
                    } else {
                        ensure!(lost || k.decided(), "call {uid} failed with {e} although the connection lives and nothing was sent for it");
                        ensure!(lost || k.items.is_empty(), "call {uid} failed with {e} although its response was sent first");
                    }
                }
            }
            if let Comp::S(s) = &mut c {
                for _ in 0..3 {
                    match Pin::new(&mut *s).poll_next(&mut cx) {
                        Poll::Ready(None) => {}
                        Poll::Ready(Some(Ok(m))) => return violation(format!("stream {uid} yields item {} after its terminal result", m.idx)),
                        Poll::Ready(Some(Err(e))) => return violation(format!("stream {uid} has a second terminal result {}", name(&e))),
                        Poll::Pending => return violation(format!("stream {uid} is pending after its terminal result")),
                    }
                }
            }
            k.out = Some(out);
            k.stage = Stage::Over(Some(c));
        }
        Ok(moved)
    }
    pub fn step_all(&mut self) -> Res {
        let mut live = std::mem::take(&mut self.live);
        let mut res = Ok(());
        for i in &live {
            if res.is_ok() {
                res = self.step(*i).map(|_| ());
            }
        }
        live.retain(|i| self.calls[*i].open());
        self.live = live;
        res
    }
    /// take what the client sent
    pub fn pump(&mut self, r: &mut Rng) -> Res {
        let backlog = self.peer.out.len() - self.peer.out_at;
        let n = match self.style {
            0 => usize::MAX,
            1 | 2 if backlog > 8_000 => r.range(1, backlog / 2),
            1 => r.range(1, 9),
            2 => r.range(1, 300),
            _ => r.range(1, 20_000),
        };
        self.peer.flush(n);
        if self.peer_reads {
            self.peer.pull(1 << 16)?;
        }
        while let Some(m) = self.peer.got.pop_front() {
            self.seen += 1;
            self.events += 1;
            match m.code {
                NORMAL => {
                    let Some(i) = self.by_uid.get(&m.uid).copied() else { return violation(format!("the client sent a request nobody made: uid {}", m.uid)) };
                    let k = &mut self.calls[i];
                    ensure!(!k.seen, "request {} was sent twice", m.uid);
                    ensure!(m == k.req, "request {} was altered on the way", m.uid);
                    k.seen = true;
                    self.seen_id.insert(m.id, i);
                }
                CANCEL => {
                    // a cancel follows the request it is for, and comes ahead of a later one with the same id
                    let earlier = self.seen_id.get(&m.id).copied().filter(|i| self.calls[*i].must_cancel.is_some() && self.calls[*i].cancels == 0);
                    let Some(i) = earlier.or(self.by_id.get(&m.id).copied()) else { return violation(format!("the client sent a cancel for id {} which it never used", m.id)) };
                    let k = &mut self.calls[i];
                    k.cancels += 1;
                    ensure!(k.cancels == 1, "call {} was cancelled twice", k.req.uid);
                    ensure!(k.seen || !k.accepted, "call {} was cancelled before its request was sent", k.req.uid);
                    match k.must_cancel {
                        None => return violation(format!("the client cancelled call {} which it did not drop{}", k.req.uid, if k.out.is_some() { " and which had completed" } else { "" })),
                        Some(_) => {}
                    }
                }
                x => return violation(format!("the client sent a control message with code {x}")),
            }
        }
        // everything accepted has been seen, and nobody waits to send, for some turns: the outbound queue is empty
        if self.calls_settled() {
            self.calm += 1;
        } else {
            self.calm = 0;
        }
        if traps() > 0 {
            // a cancel may be queued any time
            self.calm = 0;
            self.room = 0;
        }
        self.room = if self.calm > 4 { self.q as i64 } else { self.room };
        Ok(())
    }
    fn calls_settled(&self) -> bool {
        let accepted = self.calls.iter().filter(|k| k.accepted && !k.seen).count();
        let cancels = self.calls.iter().filter(|k| k.must_cancel == Some(true) && k.cancels == 0).count();
        let sending = self.live.iter().any(|i| matches!(self.calls[*i].stage, Stage::Sending(_)));
        accepted == 0 && cancels == 0 && !sending
    }
    /// drop a call in whatever state it is
    pub fn drop_call(&mut self, i: usize) {
        let sending = self.live.iter().any(|i| matches!(self.calls[*i].stage, Stage::Sending(_)));
        let room = if sending { 0 } else { self.room };
        self.calm = 0;
        let k = &mut self.calls[i];
        match std::mem::replace(&mut k.stage, Stage::Dropped) {
            Stage::Sending(f) => {
                // its request may or may not have been queued; nothing is promised
                k.must_cancel = Some(false);
                drop(f);
                self.room -= 1;
            }
            Stage::Open(c) => {
                // if its result is under way the client may not know yet whether it completed
                k.must_cancel = Some(room > 0 && !k.decided() && !self.lost);
                drop(c);
                self.room -= 1;
            }
            Stage::Over(c) => {
                drop(c);
                k.stage = Stage::Over(None);
            }
            Stage::Dropped => {}
        }
        self.events += 1;
    }
    /// drop an open call at the moment the client looks at its next item (which is sent now), from another thread
    pub fn drop_at_next_item(&mut self, i: usize, size: usize) -> bool {
        let k = &mut self.calls[i];
        if !k.seen || k.decided() || !matches!(k.stage, Stage::Open(_)) {
            return false;
        }
        let (uid, idx) = (k.req.uid, k.items.len() as u32);
        let Stage::Open(c) = std::mem::replace(&mut k.stage, Stage::Dropped) else { unreachable!() };
        k.must_cancel = Some(false);
        self.room -= 1;
        self.calm = 0;
        set_trap(uid, idx, Box::new(move || drop(c)));
        self.item(i, size);
        true
    }
    /// dropped, and the server never said a word about it and is not going to
    pub fn retire_silently(&mut self, i: usize) -> bool {
        let k = &mut self.calls[i];
        let fit = matches!(k.stage, Stage::Dropped) && k.accepted && k.items.is_empty() && k.term.is_none() && k.must_cancel.is_some();
        if fit {
            k.term = Some(Term::Cancel);
        }
        fit
    }
    // ---- script
    pub fn item(&mut self, i: usize, size: usize) {
        let k = &mut self.calls[i];
        let m = Msg::item(k.req.id, k.req.uid, k.items.len() as u32, size as u32);
        let counts = if k.stream { k.term.is_none() } else { !k.decided() };
        if counts {
            k.items.push(m.clone());
        }
        self.peer.send(&m);
        self.events += 1;
    }
    pub fn term(&mut self, i: usize, t: Term, code: u32) {
        let k = &mut self.calls[i];
        if !k.decided() {
            k.term = Some(t);
        }
        let id = k.req.id;
        self.peer.send(&Msg::ctl(id, code));
        self.events += 1;
    }
    /// calls that the peer knows and that it has not decided
    pub fn answerable(&self) -> Vec<usize> {
        (0..self.calls.len()).filter(|i| self.calls[*i].seen && !self.calls[*i].decided()).collect()
    }
    pub async fn turn(&mut self, slot: &Slot, r: &mut Rng) -> Res {
        self.step_all()?;
        self.pump(r)?;
        ensure!(self.lost || !self.peer.over(), "the client closed a connection on which nothing went wrong");
        turn(slot).await;
        Ok(())
    }
    /// wait until everything that is decided has been observed
    pub async fn quiesce(&mut self, slot: &Slot, r: &mut Rng) -> Res {
        for i in 0..self.calls.len() {
            self.calls[i].lazy = false;
            if self.calls[i].polls == 0 || self.calls[i].open() {
                // a consumer that was not looking looks once; from then on it relies on wake-ups
                self.calls[i].wake();
            }
        }
        let mut p = Patience::new();
        let mut quiet = 0u64;
        loop {
            self.step_all()?;
            self.pump(r)?;
            ensure!(self.lost || !self.peer.over(), "the client closed a connection on which nothing went wrong");
            let waiting: Vec<u64> = if self.lost {
                self.calls.iter().filter(|k| k.open()).map(|k| k.req.uid).take(5).collect()
            } else {
                self.calls
                    .iter()
                    .filter(|k| (k.open() && (k.decided() || !k.accepted || !k.seen)) || (k.must_cancel == Some(true) && k.cancels == 0) || (k.stream && k.open() && (k.got as usize) < k.items.len()))
                    .map(|k| k.req.uid)
                    .take(5)
                    .collect()
            };
            if waiting.is_empty() && (self.lost || self.peer.flushed()) {
                quiet += 1;
                if quiet > 8 {
                    return Ok(());
                }
                if quiet == 4 {
                    settle(slot).await;
                }
            }
            let pr = self.events + self.peer.progress() + quiet;
            let lost = self.lost;
            let desc: Vec<String> = waiting.iter().map(|u| self.describe(*u)).collect();
            p.wait(slot, pr, || format!("{}: {desc:?}", if lost { "the connection is gone and calls hang" } else { "calls never reach the state the server put them in" })).await?;
        }
    }
    pub fn describe(&self, uid: u64) -> String {
        let k = &self.calls[self.by_uid[&uid]];
        format!("call {uid} id {} stream={} accepted={} seen={} items={} got={} term={:?} must_cancel={:?} cancels={}", k.req.id, k.stream, k.accepted, k.seen, k.items.len(), k.got, k.term, k.must_cancel, k.cancels)
    }
}
