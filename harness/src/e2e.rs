//! Real client against real server, on multi-threaded runtimes, and the race between calling and losing the connection.
use crate::conn::fill;
use crate::cli::*;
use crate::core::*;
use crate::ensure;
use crate::msg::*;
use crate::raw::*;
use futures::StreamExt;
use protosocket_rpc::client::{Configuration, RpcClient};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Duration;

pub fn mt<F: std::future::Future>(workers: usize, f: F) -> F::Output {
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(workers).enable_all().build().expect("runtime");
    let out = rt.block_on(f);
    rt.shutdown_timeout(Duration::from_secs(5));
    out
}
macro_rules! both_mt {
    ($c:expr, $n:expr, $f:ident $(, $a:expr)*) => {
        if $c.rng.chance(1, 2) {
            $c.d("prost");
            mt($n, $f::<Pc>($c $(, $a)*))
        } else {
            $c.d("msgpack");
            mt($n, $f::<Mc>($c $(, $a)*))
        }
    };
}
fn patience() -> Duration {
    Duration::from_secs(if cfg!(miri) { 3000 } else { 40 })
}
#[derive(Default)]
struct Shared {
    bad: Mutex<Option<String>>,
    unary: AtomicU64,
    items: AtomicU64,
    drops: AtomicU64,
    failed: AtomicU64,
    lost: AtomicBool,
}
impl Shared {
    fn fail(&self, s: String) {
        self.bad.lock().unwrap().get_or_insert(s);
    }
}
/// one user of a client: calls after calls, each judged by its own request
async fn user(client: RpcClient<Msg, Msg>, sh: Arc<Shared>, mut r: Rng, base: u64, n: u64) {
    // several calls at a time
    let width = r.pick(&[1u64, 3, 10]);
    let mut uid = base;
    let mut batch = vec![];
    for k in 0..n {
        uid += 1;
        let stream = r.chance(1, 2);
        let size = r.pick(&[0u32, 5, 60, 700]);
        let items = r.pick(&[0u32, 1, 3, 17, 40]);
        let cut = r.chance(1, 4);
        let yields = r.below(2) as u32;
        let (client2, sh2) = (client.clone(), sh.clone());
        batch.push(async move {
            let (client, sh) = (client2, sh2);
            if stream {
                let mut m = Msg::stream(uid, uid, items);
                m.size = size;
                m.yields = yields;
                if cut {
                    m.op = NEVER_STREAM;
                }
                let mut s = match client.send_streaming(m).await {
                    Ok(s) => s,
                    Err(e) => return gone(&sh, uid, name(&e)),
                };
                let mut k = 0;
                loop {
                    if cut && k == items {
                        sh.drops.fetch_add(1, Ordering::Relaxed);
                        drop(s);
                        // the next call of this user follows only after a round trip
                        let _ = ping(&client, &sh, uid + (1 << 30)).await;
                        return;
                    }
                    match s.next().await {
                        Some(Ok(m)) => {
                            sh.items.fetch_add(1, Ordering::Relaxed);
                            if m.uid != uid || m.id != uid || m.idx != k || m.body != fill(uid, k as u64, size as usize) {
                                return sh.fail(format!("stream {uid}: item {k} is idx {} of call {} or altered", m.idx, m.uid));
                            }
                            k += 1;
                        }
                        Some(Err(e)) => {
                            let e = name(&e);
                            if e == "finished" {
                                if k != items {
                                    return sh.fail(format!("stream {uid} finished after {k} of {items} items"));
                                }
                            } else {
                                gone(&sh, uid, e);
                            }
                            if s.next().await.is_some() {
                                sh.fail(format!("stream {uid} yields something after its terminal result"));
                            }
                            return;
                        }
                        None => return sh.fail(format!("stream {uid} ended without a terminal result")),
                    }
                }
            } else {
                let mut m = Msg::req(uid, uid, if cut { NEVER_UNARY } else { UNARY });
                m.size = size;
                m.yields = yields;
                let f = match client.send_unary(m).await {
                    Ok(f) => f,
                    Err(e) => return gone(&sh, uid, name(&e)),
                };
                if cut {
                    for _ in 0..yields {
                        tokio::task::yield_now().await;
                    }
                    drop(f);
                    sh.drops.fetch_add(1, Ordering::Relaxed);
                    let _ = ping(&client, &sh, uid + (1 << 30)).await;
                    return;
                }
                match f.await {
                    Ok(m) => {
                        sh.unary.fetch_add(1, Ordering::Relaxed);
                        if m.uid != uid || m.id != uid || m.body != fill(uid, 0, size as usize) {
                            sh.fail(format!("call {uid} resolved with a response of call {} or an altered one", m.uid));
                        }
                    }
                    Err(e) => gone(&sh, uid, name(&e)),
                }
            }
        });
        if batch.len() as u64 == width || k + 1 == n {
            futures::future::join_all(batch.drain(..)).await;
            if sh.lost.load(Ordering::SeqCst) && sh.failed.load(Ordering::SeqCst) > 0 && !client.is_alive() {
                break;
            }
        }
    }
}
async fn ping(client: &RpcClient<Msg, Msg>, sh: &Shared, uid: u64) -> Option<()> {
    let m = Msg::req(uid, uid, UNARY);
    match client.send_unary(m).await {
        Ok(f) => match f.await {
            Ok(m) => {
                if m.uid != uid {
                    sh.fail(format!("call {uid} resolved with a response of call {}", m.uid));
                }
                Some(())
            }
            Err(e) => {
                gone(sh, uid, name(&e));
                None
            }
        },
        Err(e) => {
            gone(sh, uid, name(&e));
            None
        }
    }
}
fn gone(sh: &Shared, uid: u64, e: &str) {
    sh.failed.fetch_add(1, Ordering::SeqCst);
    if !sh.lost.load(Ordering::SeqCst) {
        sh.fail(format!("call {uid} failed with {e} although nothing happened to the connection"));
    }
    if e == "finished" {
        sh.fail(format!("call {uid} failed with `finished`"));
    }
}
pub fn stress(c: &mut Case) -> Res {
    let w = c.rng.range(2, 4);
    c.d(format!("threads={w}"));
    both_mt!(c, w, run_stress, false)
}
pub fn stress_loss(c: &mut Case) -> Res {
    let w = c.rng.range(2, 4);
    c.d(format!("threads={w}"));
    both_mt!(c, w, run_stress, true)
}
pub async fn run_stress<C: Codec>(c: &mut Case, lose: bool) -> Res {
    let mut r = c.rng.fork();
    let nclients = if cfg!(miri) { 1 } else { r.range(1, 3) };
    let users = if cfg!(miri) { 2 } else { r.range(1, 6) };
    let n = if cfg!(miri) { 4 } else { r.range(5, 60) as u64 };
    let sq = r.pick(&[1, 4, 128]);
    c.d(format!("clients={nclients} users={users} n={n} server_q={sq} lose={lose} {:x}", r.u64() & 0xffff));
    let s = serve::<C>(0, sq).await?;
    let mut tasks = vec![];
    let mut conns = vec![];
    let mut shares = vec![];
    for k in 0..nclients {
        let cfg = Configuration::default();
        let (client, conn) = protosocket_rpc::client::connect::<C::S, C::D>(s.addr, &cfg).await.map_err(|e| Bad::Stall(format!("cannot connect: {e:?}")))?;
        let sh = Arc::new(Shared::default());
        conns.push(tokio::spawn(conn));
        for u in 0..users {
            tasks.push(tokio::spawn(user(client.clone(), sh.clone(), r.fork(), ((k * 100 + u) as u64) << 34, n)));
        }
        shares.push((client, sh));
    }
    let mut how = 9;
    if lose {
        how = r.below(2);
        let wait = r.range(0, 8000) as u64;
        tokio::time::sleep(Duration::from_micros(wait)).await;
        if how == 1 {
            // a connection the server has not accepted yet would go down with the listener
            let t0 = std::time::Instant::now();
            while s.w.l().conns.len() < nclients {
                if t0.elapsed() > patience() {
                    return Err(Bad::Stall("the server does not accept".into()));
                }
                tokio::time::sleep(Duration::from_millis(1)).await;
            }
        }
        for (_, sh) in &shares {
            sh.lost.store(true, Ordering::SeqCst);
        }
        match how {
            0 => conns.iter().for_each(|t| t.abort()),
            _ => {
                // the server dies: every connection task of its runtime is dropped with the listener gone
                s.task.abort();
                conns[0].abort();
                for (_, sh) in &shares[1..] {
                    sh.lost.store(false, Ordering::SeqCst);
                }
            }
        }
    }
    let all = futures::future::join_all(tasks);
    let out = tokio::time::timeout(patience(), all).await;
    for (_, sh) in &shares {
        if let Some(b) = sh.bad.lock().unwrap().clone() {
            return violation(b);
        }
    }
    let Ok(out) = out else { return Err(Bad::Stall("users of the client hang".into())) };
    for o in out {
        if let Err(e) = o {
            if e.is_panic() {
                return violation(format!("a task panicked: {e:?}"));
            }
        }
    }
    s.w.check()?;
    if lose {
        for (k, (cl, _)) in shares.iter().enumerate() {
            if how == 0 || k == 0 {
                ended(&mut conns[k]).await?;
                ensure!(!cl.is_alive(), "the connection is gone but the client says it is alive");
            }
        }
    } else {
        // every dropped call was cancelled on the server: nothing keeps running
        let w = s.w.clone();
        let t0 = std::time::Instant::now();
        loop {
            let live = w.l().live_calls;
            if live == 0 {
                break;
            }
            if t0.elapsed() > patience() {
                return Err(Bad::Stall(format!("{live} calls keep running on the server although their callers dropped them or have the result")));
            }
            tokio::time::sleep(Duration::from_millis(1)).await;
        }
        let l = w.l();
        for k in &l.calls {
            ensure!(k.dropped == 1, "call {} dropped {} times", k.req.uid, k.dropped);
        }
    }
    // what belongs to closed connections goes away
    for t in &conns {
        t.abort();
    }
    let w = s.w.clone();
    let t0 = std::time::Instant::now();
    loop {
        let (live, services) = {
            let l = w.l();
            (l.live_calls, l.conns.iter().filter(|k| k.dropped == 0).count())
        };
        if live == 0 && services == 0 {
            break;
        }
        if t0.elapsed() > patience() {
            return Err(Bad::Stall(format!("all connections are closed but {live} calls and {services} services stay")));
        }
        c.slot.turns.fetch_add(1, Ordering::Relaxed);
        tokio::time::sleep(Duration::from_millis(1)).await;
    }
    for (_, sh) in &shares {
        c.count("unary_ok", sh.unary.load(Ordering::Relaxed));
        c.count("stream_items", sh.items.load(Ordering::Relaxed));
        c.count("dropped", sh.drops.load(Ordering::Relaxed));
        c.count("failed_by_loss", sh.failed.load(Ordering::Relaxed));
    }
    Ok(())
}

async fn ended(t: &mut tokio::task::JoinHandle<()>) -> Res {
    match tokio::time::timeout(patience(), t).await {
        Ok(_) => Ok(()),
        Err(_) => Err(Bad::Stall("the connection task does not end".into())),
    }
}
/// calls are issued from several threads at the very moment the connection goes away
pub fn race(c: &mut Case) -> Res {
    let w = c.rng.range(2, 4);
    c.d(format!("threads={w}"));
    both_mt!(c, w, run_race)
}
async fn run_race<C: Codec>(c: &mut Case) -> Res {
    let mut r = c.rng.fork();
    let rounds = if cfg!(miri) { 1 } else { 12 };
    let q = r.pick(&[1, 4, 256]);
    c.d(format!("q={q} {:x}", r.u64() & 0xffff));
    for _ in 0..rounds {
        c.slot.turns.fetch_add(1, Ordering::Relaxed);
        let (client, conn, peer) = connect_pair::<C>(&Setup { q, max_buf: 0, sock: 0, clones: 1, style: 0 }).await?;
        let mut conn = tokio::spawn(conn);
        let tasks: Vec<_> = (0..r.range(2, 4))
            .map(|t| {
                let client = client.clone();
                let jitter = r.below(50);
                tokio::spawn(async move {
                    let mut held = vec![];
                    let mut n = 0u64;
                    loop {
                        n += 1;
                        let id = (t as u64) << 32 | n;
                        if n > 20_000 {
                            break;
                        }
                        if n % 3 == 0 {
                            match client.send_streaming(Msg::req(id, id, STREAM)).await {
                                Ok(s) => held.push(Comp::S(s)),
                                Err(_) => break,
                            }
                        } else {
                            match client.send_unary(Msg::req(id, id, UNARY)).await {
                                Ok(s) => held.push(Comp::U(s)),
                                Err(_) => break,
                            }
                        }
                        if held.len() > 4 && n as usize % 7 == jitter % 7 {
                            drop(held.swap_remove(0));
                        }
                        if n as usize % 64 == jitter {
                            tokio::task::yield_now().await;
                        }
                    }
                    let k = held.len() as u64;
                    for h in held {
                        match h {
                            Comp::U(u) => {
                                if u.await.is_ok() {
                                    return Err(format!("a call resolved with a response nobody sent"));
                                }
                            }
                            Comp::S(mut s) => match s.next().await {
                                Some(Err(e)) if name(&e) != "finished" => {}
                                Some(Err(_)) => return Err("a stream that was cut off says it finished".to_string()),
                                Some(Ok(_)) => return Err("a stream yields an item nobody sent".to_string()),
                                None => return Err("a stream ended without a terminal result".to_string()),
                            },
                        }
                    }
                    Ok(k)
                })
            })
            .collect();
        tokio::time::sleep(Duration::from_micros(r.range(0, 1500) as u64)).await;
        match r.below(3) {
            0 => conn.abort(),
            1 => drop(peer),
            _ => {
                let mut peer = peer;
                crate::net::reset(peer.s.take().unwrap())?;
            }
        }
        let out = tokio::time::timeout(patience(), futures::future::join_all(tasks)).await;
        let Ok(out) = out else { return Err(Bad::Stall("calls that were issued while the connection went away hang".into())) };
        for o in out {
            match o {
                Ok(Ok(k)) => c.count("calls_at_loss", k),
                Ok(Err(e)) => return violation(e),
                Err(e) => return violation(format!("a task panicked: {e:?}")),
            }
        }
        ended(&mut conn).await?;
        ensure!(!client.is_alive(), "the connection is gone but the client says it is alive");
        c.count("losses", 1);
    }
    Ok(())
}
