//! C20: configured limits govern the connections created after they are set.
use crate::conn::fill;
use crate::core::*;
use crate::ensure;
use crate::iso::*;
use crate::msg::*;
use crate::net::*;
use crate::raw::*;
use crate::svc::*;
use futures::FutureExt;
use protosocket::{MessageReactor, ReactorStatus};
use std::net::SocketAddr;
use std::sync::{Arc, Mutex};

/// a server that can be reconfigured while it runs
type Shared<S> = Arc<Mutex<S>>;
fn drive<S: std::future::Future<Output = std::io::Result<()>> + Unpin + Send + 'static>(s: S) -> (Shared<S>, tokio::task::JoinHandle<std::io::Result<()>>) {
    let s = Arc::new(Mutex::new(s));
    let s2 = s.clone();
    let t = tokio::spawn(std::future::poll_fn(move |cx| s2.lock().unwrap_or_else(|e| e.into_inner()).poll_unpin(cx)));
    (s, t)
}
/// the largest number for which f stays within the limit (f grows)
fn largest(limit: usize, f: impl Fn(usize) -> usize) -> usize {
    let (mut lo, mut hi) = (0, limit);
    // usually it is a few bytes below
    if limit > 100 && f(limit - 100) <= limit {
        lo = limit - 100;
    }
    while lo < hi {
        let mid = (lo + hi).div_ceil(2);
        if f(mid) <= limit {
            lo = mid;
        } else {
            hi = mid - 1;
        }
    }
    lo
}
fn header(cd: Cd, payload: u64) -> Vec<u8> {
    let mut b = vec![];
    match cd {
        Cd::Prost => varint(payload, &mut b),
        Cd::Mp => {
            b.push(0xce);
            b.extend_from_slice(&(payload as u32).to_be_bytes());
        }
    }
    b
}
/// the beginning of a frame whose total length is the smallest possible that is > limit
fn announce(cd: Cd, limit: usize, extra: usize) -> Vec<u8> {
    let mut p = limit.saturating_sub(12);
    while header(cd, p as u64).len() + p <= limit {
        p += 1;
    }
    let mut b = header(cd, (p + extra) as u64);
    b.extend_from_slice(&vec![0u8; 3]);
    b
}
fn gen_limit(r: &mut Rng) -> usize {
    match r.below(9) {
        0 | 5 => r.range(450, 600),
        1 | 6 => r.range(450, 5000),
        2 | 7 => r.range(5000, 100_000),
        3 => r.range(100_000, 1_000_000),
        4 => (2 << 20) + r.range(0, 2000) - 1000,
        _ => r.range(1000, 3000),
    }
}
/// large msgpack messages take long (their bytes are encoded one by one)
fn gen_limit_for(cd: Cd, r: &mut Rng) -> usize {
    let m = gen_limit(r);
    if cd == Cd::Mp && m > 150_000 && r.chance(9, 10) {
        m / 20
    } else {
        m
    }
}
fn gen_queue(r: &mut Rng) -> usize {
    match r.below(4) {
        0 => r.range(1, 4),
        1 => r.range(5, 40),
        2 => r.range(41, 300),
        _ => r.range(300, 1200),
    }
}

/// the connection is refused: it ends, and nothing is delivered
async fn refused(slot: &Slot, raw: &mut Raw, what: &str) -> Res {
    let mut p = Patience::new();
    loop {
        raw.flush(usize::MAX);
        raw.pull(1 << 16)?;
        ensure!(raw.got.is_empty(), "{what}: answered");
        if raw.over() {
            return Ok(());
        }
        p.wait(slot, raw.progress(), || format!("{what}: the connection is not closed")).await?;
    }
}
async fn answer(slot: &Slot, raw: &mut Raw, what: &str) -> Res<Msg> {
    let mut p = Patience::new();
    loop {
        raw.flush(usize::MAX);
        raw.pull(1 << 20)?;
        if let Some(m) = raw.got.pop_front() {
            return Ok(m);
        }
        ensure!(!raw.over(), "{what}: refused although it is within the limit");
        p.wait(slot, raw.progress(), || format!("{what}: no answer")).await?;
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Ep {
    Rpc,
    Echo,
}
/// exchanges with one connection of a server that decide which limit it has
async fn probe_size<C: Codec>(c: &mut Case, addr: SocketAddr, ep: Ep, limit: usize, label: &str) -> Res {
    let slot = c.slot.clone();
    let which = c.rng.below(4);
    let mut raw = Raw::connect(addr, C::C, 0).await?;
    probe_size_on::<C>(c, &slot, &mut raw, ep, limit, which, label).await
}
async fn probe_size_on<C: Codec>(c: &mut Case, slot: &Slot, raw: &mut Raw, _ep: Ep, limit: usize, which: usize, label: &str) -> Res {
    c.count("size_probes", 1);
    // requests near and up to the limit pass
    let mut m = Msg::req(1, 1, UNARY);
    m.size = 5;
    let (m, n) = exact(C::C, m, limit);
    raw.send(&m);
    let a = answer(slot, raw, &format!("{label}: request of {n} bytes, limit {limit}")).await?;
    ensure!(a.uid == 1, "{label}: wrong answer");
    // a response up to the limit passes
    let mut m = Msg::req(2, 2, UNARY);
    m.body = vec![];
    let reactor = a.n;
    let len = |s: usize| {
        let mut i = Msg::item(2, 2, 0, s as u32);
        i.n = if _ep == Ep::Echo { reactor } else { 0 };
        enc(C::C, &i).len()
    };
    let size = largest(limit, len);
    m.size = size as u32;
    raw.send(&m);
    let a = answer(slot, raw, &format!("{label}: response of {} bytes, limit {limit}", len(size))).await?;
    ensure!(a.uid == 2 && a.body.len() == size, "{label}: wrong answer");
    match which {
        0 | 1 => {
            let extra = if which == 0 { 0 } else { c.rng.below(100_000) };
            raw.out.extend_from_slice(&announce(C::C, limit, extra));
            refused(slot, raw, &format!("{label}: a message announced as {extra} bytes over the smallest possible above the limit {limit}")).await?;
            c.count("refused_inbound", 1);
        }
        _ => {
            let extra = if which == 2 { 0 } else { c.rng.below(100_000) };
            let mut m = Msg::req(2, 2, UNARY);
            m.body = vec![];
            m.size = (size + 1 + extra) as u32;
            raw.send(&m);
            refused(slot, raw, &format!("{label}: a response of {} bytes, limit {limit}", len(size + 1 + extra))).await?;
            c.count("refused_outbound", 1);
        }
    }
    Ok(())
}
/// the largest message with this head whose encoding fits the limit, and its encoded length
fn exact(cd: Cd, mut m: Msg, limit: usize) -> (Msg, usize) {
    let n = {
        let m = std::cell::RefCell::new(m.clone());
        largest(limit, |n| {
            let mut m = m.borrow_mut();
            m.body = fill(m.uid, 9, n);
            enc(cd, &*m).len()
        })
    };
    m.body = fill(m.uid, 9, n);
    let e = enc(cd, &m).len();
    (m, e)
}

/// how many responses the rpc server pulls from its service for a client that does not read, beyond what the kernel took
async fn rpc_queue_depth<C: Codec>(c: &mut Case, addr: SocketAddr, w: &W, q: usize, label: &str) -> Res {
    let slot = c.slot.clone();
    let before = w.l().conns.len();
    let size = 2000usize;
    let mut raw = Raw::connect(addr, C::C, 4096).await?;
    let uid = (before as u64 + 1) << 32;
    let mut m = Msg { n: 400_000, ..Msg::stream(1, uid, 0) };
    m.size = size as u32;
    raw.send(&m);
    let (mut quiet, mut last) = (0, u64::MAX);
    let mut p = Patience::new();
    while quiet < 60 {
        raw.flush(usize::MAX);
        let pr = w.call(uid).map(|k| k.produced as u64).unwrap_or(0);
        quiet = if pr == last && pr > 0 { quiet + 1 } else { 0 };
        last = pr;
        p.wait(&slot, pr + quiet, || format!("{label}: the stream never starts")).await?;
        if quiet > 40 {
            tokio::time::sleep(std::time::Duration::from_millis(1)).await;
        }
    }
    let produced = w.call(uid).map(|k| k.produced as usize).unwrap_or(0);
    raw.drain_kernel(&slot)?;
    // one may be in the kernel in part
    let beyond = produced.saturating_sub(raw.messages as usize);
    ensure!(beyond <= 4 * q + 8, "{label}: {beyond} responses queued for a client that does not read, with a limit of {q} queued messages");
    ensure!(beyond + 2 >= q, "{label}: only {beyond} responses queued for a client that does not read, with a limit of {q} queued messages");
    c.count("queue_probes", 1);
    Ok(())
}

// ------------------------------------------------------------------ servers
pub fn c20_rpc_server(c: &mut Case) -> Res {
    if c.rng.chance(1, 2) {
        c.d("prost");
        block_on(rpc_server::<Pc>(c))
    } else {
        c.d("msgpack");
        block_on(rpc_server::<Mc>(c))
    }
}
async fn rpc_server<C: Codec>(c: &mut Case) -> Res {
    let slot = c.slot.clone();
    let mut r = c.rng.fork();
    let addr = fresh_addr();
    let w = W::default();
    let s = protosocket_rpc::server::SocketRpcServer::new(addr, Svc::<C>::new(w.clone())).await.map_err(|e| Bad::Inconclusive(format!("bind {addr}: {e:?}")))?;
    let (s, _t) = drive(s);
    let queue = r.chance(1, 3);
    let mut old: Option<(Raw, usize)> = None;
    let mut eff = usize::MAX;
    for i in 0..r.range(1, 3) {
        let (m, q) = (gen_limit_for(C::C, &mut r), gen_queue(&mut r));
        // one, the other, or both are set
        let (set_m, set_q) = (!queue || r.chance(1, 2), queue || r.chance(1, 2));
        c.d(format!("[M={} Q={}]", if set_m { m } else { 0 }, if set_q { q } else { 0 }));
        {
            let mut s = s.lock().unwrap();
            let (a, b) = (set_m, set_q);
            if a {
                s.set_max_buffer_length(m);
            }
            if b {
                s.set_max_queued_outbound_messages(q);
            }
        }
        if queue {
            if set_m {
                eff = m;
            }
            if eff > 5000 {
                rpc_queue_depth::<C>(c, addr, &w, q, &format!("setting {i}")).await?;
            }
        } else {
            probe_size::<C>(c, addr, Ep::Rpc, m, &format!("setting {i}")).await?;
            // the connection of an earlier setting keeps what it was created with
            if let Some((mut raw, m)) = old.take() {
                let which = c.rng.below(4);
                probe_size_on::<C>(c, &slot, &mut raw, Ep::Rpc, m, which, "connection created before the setting changed").await?;
            }
            let n = w.l().conns.len() + 1;
            let raw = Raw::connect(addr, C::C, 0).await?;
            accepted(&slot, &w, n).await?;
            old = Some((raw, m));
        }
    }
    w.check()
}
pub fn c20_server(c: &mut Case) -> Res {
    if c.rng.chance(1, 2) {
        c.d("prost");
        block_on(server::<Pc>(c))
    } else {
        c.d("msgpack");
        block_on(server::<Mc>(c))
    }
}
async fn server<C: Codec>(c: &mut Case) -> Res {
    let slot = c.slot.clone();
    let mut r = c.rng.fork();
    let e = Echo::default();
    let (addr, s) = echo_server::<C>(e.clone(), None).await?;
    let (s, _t) = drive(s);
    let queue = r.chance(1, 3);
    let mut old: Option<(Raw, usize)> = None;
    for i in 0..r.range(1, 3) {
        let (m, q) = (gen_limit_for(C::C, &mut r), gen_queue(&mut r));
        let (set_m, set_q) = (!queue || r.chance(1, 2), queue || r.chance(1, 2));
        c.d(format!("[M={} Q={}]", if set_m { m } else { 0 }, if set_q { q } else { 0 }));
        {
            let mut s = s.lock().unwrap();
            if set_m {
                s.set_max_buffer_length(m);
            }
            if set_q {
                s.set_max_queued_outbound_messages(q);
            }
        }
        if queue {
            e.l().burst = Some(q + 500);
            let mut raw = Raw::connect(addr, C::C, 0).await?;
            wait_until(&slot, "a reactor", || e.l().accepted.len() > i).await?;
            let k = e.l().accepted[i];
            ensure!(k == q, "setting {i}: {k} messages queued where {q} were configured");
            // and they all go out
            let mut p = Patience::new();
            let mut got = 0;
            while got < q {
                raw.pull(1 << 17)?;
                while let Some(m) = raw.got.pop_front() {
                    ensure!(m.uid == got as u64, "queued message {got} arrived as {}", m.uid);
                    got += 1;
                }
                p.wait(&slot, got as u64, || format!("{got} of {q} queued messages arrived")).await?;
            }
            c.count("queue_probes", 1);
        } else {
            probe_size::<C>(c, addr, Ep::Echo, m, &format!("setting {i}")).await?;
            if let Some((mut raw, m)) = old.take() {
                let which = c.rng.below(4);
                probe_size_on::<C>(c, &slot, &mut raw, Ep::Echo, m, which, "connection created before the setting changed").await?;
            }
            let n = e.l().reactors + 1;
            let raw = Raw::connect(addr, C::C, 0).await?;
            wait_until(&slot, "a reactor", || e.l().reactors >= n).await?;
            old = Some((raw, m));
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ rpc client configuration
pub fn c20_client(c: &mut Case) -> Res {
    if c.rng.chance(1, 2) {
        c.d("prost");
        block_on(client::<Pc>(c))
    } else {
        c.d("msgpack");
        block_on(client::<Mc>(c))
    }
}
async fn client<C: Codec>(c: &mut Case) -> Res {
    let mut r = c.rng.fork();
    let mut cfg = protosocket_rpc::client::Configuration::default();
    let (mut m, mut q) = (4 * (2 << 20), 256);
    for i in 0..r.range(1, 3) {
        if r.chance(14, 15) || C::C == Cd::Mp {
            m = gen_limit_for(C::C, &mut r);
            cfg.max_buffer_length(m);
        }
        if r.chance(2, 3) {
            q = gen_queue(&mut r);
            cfg.max_queued_outbound_messages(q);
        }
        if r.chance(1, 4) {
            cfg = cfg.clone();
        }
        c.d(format!("[M={m} Q={q}]"));
        client_probe::<C>(c, &cfg, m, q, &format!("client {i}")).await?;
    }
    Ok(())
}
async fn client_probe<C: Codec>(c: &mut Case, cfg: &protosocket_rpc::client::Configuration, m: usize, q: usize, label: &str) -> Res {
    let slot = c.slot.clone();
    let l = listen(0).await?;
    let addr = l.local_addr()?;
    let (cl, conn) = protosocket_rpc::client::connect::<C::S, C::D>(addr, cfg).await.map_err(|e| Bad::Stall(format!("cannot connect: {e:?}")))?;
    let (s, _) = l.accept().await?;
    s.set_nodelay(true)?;
    let mut raw = Raw::on(s, C::C);
    // queue: the connection does not run yet
    let mut calls = vec![];
    let mut k = 0;
    while k < q + 500 {
        match tokio::task::unconstrained(cl.send_unary(Msg { body: vec![], ..Msg::req(k as u64 + 10, k as u64 + 10, UNARY) })).now_or_never() {
            Some(Ok(x)) => calls.push(x),
            Some(Err(e)) => return violation(format!("{label}: a call on a fresh client failed: {e:?}")),
            None => break,
        }
        k += 1;
    }
    ensure!(k == q, "{label}: {k} calls were queued where {q} were configured");
    c.count("queue_probes", 1);
    let task = tokio::spawn(conn);
    for i in 0..q {
        let a = answer(&slot, &mut raw, &format!("{label}: queued request {i} of {q}")).await?;
        ensure!(a.uid == i as u64 + 10, "{label}: queued request {i} arrived as {}", a.uid);
    }
    drop(calls);
    // outbound at the limit
    let (big, n) = exact(C::C, Msg::req(1, 1, UNARY), m);
    let call = await_or_stall(&slot, "send", cl.send_unary(big.clone())).await?.map_err(|e| Bad::Violation(format!("{label}: send at the limit: {e:?}")))?;
    let seen = loop {
        let a = answer(&slot, &mut raw, &format!("{label}: request of {n} bytes, limit {m}")).await?;
        if a.code == NORMAL {
            break a;
        }
    };
    ensure!(seen == big, "{label}: request altered");
    // inbound at the limit
    let (resp, n) = exact(C::C, Msg::item(1, 1, 0, 0), m);
    raw.send(&resp);
    let got = {
        let mut call = std::pin::pin!(call);
        let mut p = Patience::new();
        loop {
            raw.flush(usize::MAX);
            if let Some(x) = futures::poll!(&mut call).map(Some).is_ready_or() {
                break x;
            }
            p.wait(&slot, raw.progress(), || format!("{label}: response of {n} bytes, limit {m}: no completion")).await?;
        }
    };
    match got {
        Ok(g) => ensure!(g == resp, "{label}: response altered"),
        Err(e) => return violation(format!("{label}: response of {n} bytes refused although the limit is {m}: {e:?}")),
    }
    c.count("size_probes", 2);
    if c.rng.chance(1, 2) {
        raw.out.extend_from_slice(&announce(C::C, m, 0));
        refused(&slot, &mut raw, &format!("{label}: response announced larger than the limit {m}")).await?;
        c.count("refused_inbound", 1);
    } else {
        let (big, _) = exact(C::C, Msg::req(2, 2, UNARY), m);
        let big = Msg { body: fill(2, 9, big.body.len() + 1), ..big };
        let _call = await_or_stall(&slot, "send", cl.send_unary(big)).await?;
        refused(&slot, &mut raw, &format!("{label}: request larger than the limit {m}")).await?;
        c.count("refused_outbound", 1);
    }
    wait_until(&slot, "the refused connection to end", || task.is_finished()).await?;
    Ok(())
}
trait Ready<T> {
    fn is_ready_or(self) -> Option<T>;
}
impl<T> Ready<T> for std::task::Poll<Option<T>> {
    fn is_ready_or(self) -> Option<T> {
        match self {
            std::task::Poll::Ready(x) => x,
            std::task::Poll::Pending => None,
        }
    }
}

// ------------------------------------------------------------------ prost client registry
#[derive(Default)]
struct RegLog {
    got: Vec<Msg>,
    dropped: bool,
}
struct RegReactor(Arc<Mutex<RegLog>>);
impl Drop for RegReactor {
    fn drop(&mut self) {
        self.0.lock().unwrap().dropped = true;
    }
}
impl MessageReactor for RegReactor {
    type Inbound = Msg;
    fn on_inbound_messages(&mut self, messages: impl IntoIterator<Item = Msg>) -> ReactorStatus {
        self.0.lock().unwrap().got.extend(messages);
        ReactorStatus::Continue
    }
}
pub fn c20_registry(c: &mut Case) -> Res {
    block_on(registry(c))
}
async fn registry(c: &mut Case) -> Res {
    let mut r = c.rng.fork();
    let mut reg = protosocket_prost::ClientRegistry::new(tokio::runtime::Handle::current());
    let (mut m, mut q) = (4 * (2 << 20), 256);
    for i in 0..r.range(1, 3) {
        if r.chance(14, 15) {
            m = gen_limit(&mut r);
            reg.set_max_read_buffer_length(m);
        }
        if r.chance(2, 3) {
            q = gen_queue(&mut r);
            reg.set_max_queued_outbound_messages(q);
        }
        if r.chance(1, 4) {
            reg = reg.clone();
        }
        c.d(format!("[M={m} Q={q}]"));
        registry_probe(c, &reg, m, q, &format!("client {i}")).await?;
    }
    Ok(())
}
async fn registry_probe(c: &mut Case, reg: &protosocket_prost::ClientRegistry, m: usize, q: usize, label: &str) -> Res {
    let slot = c.slot.clone();
    let l = listen(0).await?;
    let addr = l.local_addr()?;
    let log = Arc::new(Mutex::new(RegLog::default()));
    let tx = reg.register_client::<Msg, Msg, _>(addr.to_string(), RegReactor(log.clone())).await.map_err(|e| Bad::Stall(format!("cannot connect: {e:?}")))?;
    // the connection has been spawned on this very thread: it has not run yet
    let mut k = 0;
    while k < q + 500 && tx.try_send(Msg { body: vec![], ..Msg::req(k as u64 + 10, k as u64 + 10, UNARY) }).is_ok() {
        k += 1;
    }
    ensure!(k == q, "{label}: {k} messages were queued where {q} were configured");
    c.count("queue_probes", 1);
    let (s, _) = l.accept().await?;
    s.set_nodelay(true)?;
    let mut raw = Raw::on(s, Cd::Prost);
    for i in 0..q {
        let a = answer(&slot, &mut raw, &format!("{label}: queued message {i} of {q}")).await?;
        ensure!(a.uid == i as u64 + 10, "{label}: queued message {i} arrived as {}", a.uid);
    }
    let (big, n) = exact(Cd::Prost, Msg::req(1, 1, UNARY), m);
    if tx.try_send(big.clone()).is_err() {
        return violation(format!("{label}: the queue is empty and refuses a message"));
    }
    let seen = answer(&slot, &mut raw, &format!("{label}: message of {n} bytes, limit {m}")).await?;
    ensure!(seen == big, "{label}: message altered");
    let (resp, n) = exact(Cd::Prost, Msg::item(1, 1, 0, 0), m);
    raw.send(&resp);
    let mut p = Patience::new();
    while log.lock().unwrap().got.is_empty() {
        raw.flush(usize::MAX);
        ensure!(!log.lock().unwrap().dropped, "{label}: message of {n} bytes refused although the limit is {m}");
        p.wait(&slot, raw.progress(), || format!("{label}: message of {n} bytes, limit {m}: not delivered")).await?;
    }
    ensure!(log.lock().unwrap().got.pop() == Some(resp), "{label}: message altered");
    c.count("size_probes", 2);
    if c.rng.chance(1, 2) {
        raw.out.extend_from_slice(&announce(Cd::Prost, m, 0));
        refused(&slot, &mut raw, &format!("{label}: message announced larger than the limit {m}")).await?;
        c.count("refused_inbound", 1);
    } else {
        let (big, _) = exact(Cd::Prost, Msg::req(2, 2, UNARY), m);
        let big = Msg { body: fill(2, 9, big.body.len() + 1), ..big };
        let _ = tx.try_send(big);
        refused(&slot, &mut raw, &format!("{label}: message larger than the limit {m}")).await?;
        c.count("refused_outbound", 1);
    }
    Ok(())
}

// ------------------------------------------------------------------ defaults
pub fn c20_defaults(c: &mut Case) -> Res {
    let i = c.index % 4;
    let server = 16 * (2 << 20);
    let client = 4 * (2 << 20);
    c.d(format!("defaults of {} #{}", ["rpc server", "server", "rpc client", "registry"][i as usize], c.index / 4));
    block_on(async {
        match i {
            0 => {
                let s = serve::<Pc>(0, 0).await?;
                let b = s.addr;
                if c.index % 8 == 0 {
                    probe_size::<Pc>(c, b, Ep::Rpc, server, "default").await
                } else {
                    let w = s.w.clone();
                    rpc_queue_depth::<Pc>(c, b, &w, 128, "default").await
                }
            }
            1 => {
                let e = Echo::default();
                let (addr, s) = echo_server::<Pc>(e.clone(), None).await?;
                tokio::spawn(s);
                if c.index % 8 == 1 {
                    probe_size::<Pc>(c, addr, Ep::Echo, server, "default").await
                } else {
                    let slot = c.slot.clone();
                    e.l().burst = Some(1000);
                    let _raw = Raw::connect(addr, Cd::Prost, 0).await?;
                    wait_until(&slot, "a reactor", || !e.l().accepted.is_empty()).await?;
                    let k = e.l().accepted[0];
                    ensure!(k == 128, "{k} messages queued by default");
                    Ok(())
                }
            }
            2 => client_probe::<Pc>(c, &Default::default(), client, 256, "default").await,
            _ => registry_probe(c, &protosocket_prost::ClientRegistry::new(tokio::runtime::Handle::current()), client, 256, "default").await,
        }
    })
}

// ------------------------------------------------------------------ the connector's declared limits
pub fn c20_connector(c: &mut Case) -> Res {
    c.d("connector declares maximum_message_length=1000 and max_queued_outbound_messages=3");
    block_on(async {
        let slot = c.slot.clone();
        let e = Echo::default();
        let (addr, s) = echo_server::<Pc>(e.clone(), Some((1000, 3))).await?;
        e.l().burst = Some(2000);
        tokio::spawn(s);
        let mut raw = Raw::connect(addr, Cd::Prost, 0).await?;
        wait_until(&slot, "a reactor", || !e.l().accepted.is_empty()).await?;
        let k = e.l().accepted[0];
        let mut m = Msg::req(1, 1 << 40, UNARY);
        m.body = fill(1, 1, 2000);
        raw.send(&m);
        let mut p = Patience::new();
        let mut passed = false;
        while !raw.over() && !passed {
            raw.flush(usize::MAX);
            raw.pull(1 << 16)?;
            while let Some(a) = raw.got.pop_front() {
                passed |= a.uid == 1 << 40;
            }
            if p.wait(&slot, raw.progress(), || "?".into()).await.is_err() {
                break;
            }
        }
        c.count("connector_queue_observed", k as u64);
        if passed || k != 3 {
            c.known.push(("connector-limits-ignored", format!("ServerConnector::maximum_message_length()=1000 and max_queued_outbound_messages()=3 are not consulted by ProtosocketServer: a 2000 byte message passed={passed}, {k} messages were queued")));
        }
        Ok(())
    })
}
