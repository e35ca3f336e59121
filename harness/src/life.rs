//! Long lives and crowds: connections that carry more than 65536 messages, calls that outlive very many others, and
//! very many connections at once.
use crate::cli::*;
use crate::conn::*;
use crate::conn_props::{finish_clean, gen_hint};
use crate::core::*;
use crate::ensure;
use crate::iso::*;
use crate::msg::*;
use crate::net::*;
use crate::raw::*;
use futures::StreamExt;
use protosocket_rpc::client::{Configuration, RpcClient};

macro_rules! both {
    ($c:expr, $f:ident $(, $a:expr)*) => {
        if $c.rng.chance(1, 2) {
            $c.d("prost");
            block_on($f::<Pc>($c $(, $a)*))
        } else {
            $c.d("msgpack");
            block_on($f::<Mc>($c $(, $a)*))
        }
    };
}

const MANY: usize = 66_500;

// ------------------------------------------------------------------ plain connections
pub fn c01_long(c: &mut Case) -> Res {
    let r = &mut c.rng;
    let mut p = P::new(r.pick(&[100, 5_000, 70_000]), r.pick(&[8, 128, 1000]));
    p.hint = gen_hint(r);
    let skip = r.chance(1, 2);
    let spec: Vec<_> = (0..MANY + 100).map(|i| (if skip && i % 9 == 0 { Kind::Skip } else { Kind::Long }, HEADER + r.below(12))).collect();
    // so that the delivered ones alone are many
    let spec: Vec<_> = if skip { spec.iter().cloned().chain(spec[..MANY / 6].iter().cloned()).collect() } else { spec };
    let inb = Inbound::build(r.u64(), &spec);
    let mut plan = Plan::new(Seg::All, vec![]);
    plan.pace = 1;
    describe(c, &p, &plan, inb.frames.len(), inb.bytes.len());
    block_on(async {
        let mut d = Duplex::start(c, &p, inb).await?;
        exchange(c, &mut d, &plan).await?;
        finish_clean(&mut d).await
    })
}
pub fn c02_long(c: &mut Case) -> Res {
    let r = &mut c.rng;
    let p = P::new(1 << 16, r.pick(&[8, 128, 1000]));
    let out: Vec<usize> = (0..MANY).map(|_| r.range(1, 12)).collect();
    let mut plan = Plan::new(Seg::All, out);
    plan.submit_burst = 2000;
    plan.read_chunk = 1 << 16;
    plan.pace = 1;
    describe(c, &p, &plan, 0, 0);
    block_on(async {
        let mut d = Duplex::start(c, &p, Inbound::default()).await?;
        exchange(c, &mut d, &plan).await?;
        finish_clean(&mut d).await
    })
}

// ------------------------------------------------------------------ rpc client and server
async fn real<C: Codec>() -> Res<(Srv, RpcClient<Msg, Msg>, tokio::task::JoinHandle<()>)> {
    let s = serve::<C>(0, 0).await?;
    s.w.l().lean = true;
    let (client, conn) = protosocket_rpc::client::connect::<C::S, C::D>(s.addr, &Configuration::default()).await.map_err(|e| Bad::Stall(format!("cannot connect: {e:?}")))?;
    Ok((s, client, tokio::spawn(conn)))
}
fn start_id(r: &mut Rng) -> u64 {
    r.pick(&[1, 60_000, u32::MAX as u64 - 3000, u64::MAX - 80_000_000, i32::MAX as u64 - 3000])
}
/// calls that were there before very many others behave like any other in the end
struct Old {
    gated: protosocket_rpc::client::StreamingCompletion<Msg, Msg>,
    unary: protosocket_rpc::client::UnaryCompletion<Msg, Msg>,
    never: protosocket_rpc::client::StreamingCompletion<Msg, Msg>,
    ids: [u64; 3],
}
const OLD: u64 = 1 << 60;
async fn old(client: &RpcClient<Msg, Msg>) -> Res<Old> {
    let e = |e| Bad::Violation(format!("a call was refused: {e:?}"));
    let ids = [7 << 33, (7 << 33) + 1, (7 << 33) + 2];
    let mut g = Msg::stream(ids[0], OLD, 3);
    g.gate = 2;
    let mut u = Msg::req(ids[1], OLD + 1, UNARY);
    u.gate = 1;
    let mut n = Msg::req(ids[2], OLD + 2, NEVER_STREAM);
    n.n = 1;
    Ok(Old {
        gated: client.send_streaming(g).await.map_err(e)?,
        unary: client.send_unary(u).await.map_err(e)?,
        never: client.send_streaming(n).await.map_err(e)?,
        ids,
    })
}
async fn young_again(c: &mut Case, s: &Srv, o: Old) -> Res {
    let slot = c.slot.clone();
    let Old { mut gated, unary, mut never, ids } = o;
    let mut items = 0u32;
    for k in 0..4u32 {
        if k == 1 {
            s.w.open(OLD);
        }
        match await_or_stall(&slot, &format!("item {k} of a stream that is older than {MANY} calls"), gated.next()).await? {
            Some(Ok(m)) if k < 3 => {
                ensure!(m.uid == OLD && m.id == ids[0] && m.idx == k, "an old stream yields item {} of call {} where {k} was due", m.idx, m.uid);
                items += 1;
            }
            Some(Err(e)) if k == 3 => ensure!(name(&e) == "finished", "an old stream ends with {}", name(&e)),
            x => return violation(format!("an old stream yields {x:?} as item {k}")),
        }
    }
    s.w.open(OLD + 1);
    match await_or_stall(&slot, &format!("a call that is older than {MANY} others"), unary).await? {
        Ok(m) => ensure!(m.uid == OLD + 1, "an old call resolved with a response of call {}", m.uid),
        Err(e) => return violation(format!("an old call failed: {e:?}")),
    }
    match await_or_stall(&slot, "the item of an old stream", never.next()).await? {
        Some(Ok(m)) => ensure!(m.uid == OLD + 2, "an old stream yields an item of call {}", m.uid),
        x => return violation(format!("an old stream yields {x:?}")),
    }
    ensure!(s.w.l().live_calls == 1, "{} calls live on the server, where one is under way", s.w.l().live_calls);
    drop(never);
    wait_until(&slot, "an old call that was dropped to be cancelled on the server", || s.w.l().live_calls == 0).await?;
    c.count("old_calls", 3);
    c.count("old_items", items as u64);
    Ok(())
}
pub fn c11_long(c: &mut Case) -> Res {
    both!(c, unary)
}
async fn unary<C: Codec>(c: &mut Case) -> Res {
    let slot = c.slot.clone();
    let mut r = c.rng.fork();
    let (s, client, conn) = real::<C>().await?;
    let o = old(&client).await?;
    let (base, width) = (start_id(&mut r), r.pick(&[20usize, 150]));
    c.d(format!("base={base} width={width}"));
    let mut n = 0u64;
    while n < MANY as u64 {
        let mut open = vec![];
        for _ in 0..width {
            n += 1;
            let mut m = Msg::req(base.wrapping_add(n), n, UNARY);
            (m.size, m.body) = (n as u32 % 9, vec![]);
            let f = await_or_stall(&slot, "a call to be sent", client.send_unary(m)).await?;
            open.push((n, f.map_err(|e| Bad::Violation(format!("call {n} was refused: {e:?}")))?));
        }
        for (k, f) in open {
            match await_or_stall(&slot, "a response", f).await? {
                Ok(m) => ensure!(m.uid == k && m.id == base.wrapping_add(k) && m.body == fill(k, 0, k as usize % 9), "call {k} resolved with a response of call {} or an altered one", m.uid),
                Err(e) => return violation(format!("call {k} failed: {e:?}")),
            }
        }
    }
    c.count("calls", n);
    young_again(c, &s, o).await?;
    ensure!(!conn.is_finished() && client.is_alive(), "the connection ended by itself");
    Ok(())
}
pub fn c12_long(c: &mut Case) -> Res {
    both!(c, streams)
}
async fn streams<C: Codec>(c: &mut Case) -> Res {
    let slot = c.slot.clone();
    let mut r = c.rng.fork();
    let (s, client, conn) = real::<C>().await?;
    let o = old(&client).await?;
    let k = r.range(1, 3);
    let lag = r.chance(1, 2);
    c.d(format!("streams={k} lag={lag}"));
    let mut open = vec![];
    for i in 0..k as u64 {
        let n = (MANY + r.below(50)) as u32;
        let mut m = Msg::stream(100 + i, i, n);
        (m.size, m.body) = (5, vec![]);
        open.push((m.clone(), 0u32, client.send_streaming(m).await.map_err(|e| Bad::Violation(format!("{e:?}")))?));
    }
    let mut items = 0;
    while !open.is_empty() {
        let i = r.below(open.len());
        let (m, got, st) = &mut open[i];
        // a consumer that lags behind gets everything all the same
        let burst = if lag { 5000 } else { r.range(1, 300) };
        let mut over = false;
        for _ in 0..burst {
            match await_or_stall(&slot, &format!("item {got} of {}", m.n), st.next()).await? {
                Some(Ok(x)) => {
                    ensure!(x.uid == m.uid && x.id == m.id && x.idx == *got && x.body == fill(m.uid, *got as u64, 5), "item {got} of stream {} is item {} of call {} or altered", m.uid, x.idx, x.uid);
                    ensure!(*got < m.n, "more items than produced");
                    *got += 1;
                    items += 1;
                }
                Some(Err(e)) => {
                    ensure!(name(&e) == "finished" && *got == m.n, "a stream of {} items ends with {} after {got}", m.n, name(&e));
                    over = true;
                    break;
                }
                None => return violation(format!("a stream of {} items ended without a terminal result after {got}", m.n)),
            }
        }
        if over {
            let (_, _, mut st) = open.swap_remove(i);
            ensure!(st.next().await.is_none(), "a stream yields something after its terminal result");
        }
    }
    c.count("items", items);
    young_again(c, &s, o).await?;
    ensure!(!conn.is_finished() && client.is_alive(), "the connection ended by itself");
    Ok(())
}
pub fn c13_long(c: &mut Case) -> Res {
    both!(c, drops)
}
async fn drops<C: Codec>(c: &mut Case) -> Res {
    let slot = c.slot.clone();
    let mut r = c.rng.fork();
    let (s, client, conn) = real::<C>().await?;
    let o = old(&client).await?;
    let (base, width) = (start_id(&mut r), r.pick(&[20usize, 100]));
    c.d(format!("base={base} width={width}"));
    let mut n = 0u64;
    while n < MANY as u64 {
        let mut open = vec![];
        for _ in 0..width {
            n += 1;
            let mut m = Msg::req(base.wrapping_add(n), n, if n % 2 == 0 { NEVER_UNARY } else { NEVER_STREAM });
            (m.n, m.body) = (0, vec![]);
            let e = |e| Bad::Violation(format!("call was refused: {e:?}"));
            open.push(if n % 2 == 0 { Comp::U(client.send_unary(m).await.map_err(e)?) } else { Comp::S(client.send_streaming(m).await.map_err(e)?) });
        }
        let want = 3 + width as i64;
        wait_until(&slot, "the server to see the calls", || s.w.l().live_calls == want).await?;
        drop(open);
        wait_until(&slot, "dropped calls to be cancelled on the server", || s.w.l().live_calls <= 3).await?;
        ensure!(s.w.l().live_calls == 3, "a call that nobody dropped is gone");
    }
    c.count("dropped_calls", n);
    young_again(c, &s, o).await?;
    ensure!(!conn.is_finished() && client.is_alive(), "the connection ended by itself");
    Ok(())
}
pub fn c15_long(c: &mut Case) -> Res {
    both!(c, requests)
}
async fn requests<C: Codec>(c: &mut Case) -> Res {
    let slot = c.slot.clone();
    let mut r = c.rng.fork();
    let s = serve::<C>(0, 0).await?;
    let mut raw = Raw::connect(s.addr, C::C, 0).await?;
    accepted(&slot, &s.w, 1).await?;
    // one stream from the very beginning, which ends last
    let (base, width) = (start_id(&mut r), r.pick(&[64usize, 400]));
    // an id that none of the others has
    let mut old = Msg::stream(base, OLD, 2);
    old.gate = 2;
    let mut led = Ledger::default();
    led.sent(&old);
    raw.send(&old);
    let declined = r.chance(1, 2);
    c.d(format!("base={base} width={width} declined={declined}"));
    let mut n = 0u64;
    let mut order = vec![old.clone()];
    while n < MANY as u64 {
        for _ in 0..width {
            n += 1;
            let mut m = Msg::req(base.wrapping_add(n), n, if declined && n % 5 == 0 { DECLINE } else { UNARY });
            (m.size, m.body) = (n as u32 % 9, vec![]);
            led.sent(&m);
            raw.send(&m);
            order.push(m);
        }
        let mut p = Patience::new();
        loop {
            raw.flush(usize::MAX);
            raw.pull(1 << 16)?;
            led.take(&mut raw)?;
            ensure!(!raw.over(), "the server closed a connection that did nothing wrong");
            s.w.check()?;
            if led.open == 1 && raw.flushed() && s.w.l().conns[0].requests.len() == order.len() {
                break;
            }
            p.wait(&slot, raw.progress(), || format!("{} calls never complete, after {n}", led.open)).await?;
        }
        {
            let mut l = s.w.l();
            let seen = std::mem::take(&mut l.conns[0].requests);
            if let Some(i) = (0..order.len()).find(|i| seen.get(*i) != order.get(*i)) {
                return violation(format!("the service saw {:?} as request {i} of a batch, the client sent {:?}", seen.get(i), order[i]));
            }
        }
        order.clear();
        led.by_uid.retain(|_, e| e.req.uid == OLD);
        led.active.retain(|i, _| *i == base);
    }
    s.w.open(OLD);
    let mut p = Patience::new();
    while !led.by_uid[&OLD].done() {
        raw.pull(1 << 16)?;
        led.take(&mut raw)?;
        ensure!(!raw.over(), "the server closed a connection that did nothing wrong");
        p.wait(&slot, raw.progress(), || "a stream that is older than very many calls does not end".into()).await?;
    }
    c.count("requests", n);
    Ok(())
}

// ------------------------------------------------------------------ crowds
/// very many connections at once, each of which is served
pub fn c19_crowd(c: &mut Case) -> Res {
    both!(c, crowd)
}
async fn crowd<C: Codec>(c: &mut Case) -> Res {
    let slot = c.slot.clone();
    let mut r = c.rng.fork();
    let n = r.pick(&[70usize, 140, 300, 520]);
    let rpc = r.chance(1, 2);
    let at_once = r.chance(1, 2);
    c.d(format!("rpc={rpc} n={n} at_once={at_once}"));
    let w = crate::svc::W::default();
    let e = Echo::default();
    let addr = if rpc {
        serve_on::<C>(w.clone(), 1 << 16, 8).await?.addr
    } else {
        let (a, s) = echo_server::<C>(e.clone(), None).await?;
        tokio::spawn(s);
        a
    };
    let conns = || if rpc { w.l().conns.len() } else { e.l().reactors as usize };
    let mut raws = vec![];
    for i in 0..n {
        raws.push(Raw::connect(addr, C::C, 0).await?);
        if !at_once || i % 40 == 39 {
            wait_until(&slot, "the server to accept one more connection", || conns() > i).await?;
        }
    }
    wait_until(&slot, "the server to accept all connections", || conns() == n).await?;
    for round in 0..2u64 {
        for (i, raw) in raws.iter_mut().enumerate() {
            let uid = (i as u64) << 8 | round;
            let mut m = Msg::req(5, uid, UNARY);
            m.size = 6;
            raw.send(&m);
            raw.flush(usize::MAX);
        }
        let mut p = Patience::new();
        let mut left: Vec<usize> = (0..n).collect();
        while !left.is_empty() {
            let mut moved = 0;
            let mut k = 0;
            while k < left.len() {
                let raw = &mut raws[left[k]];
                raw.flush(usize::MAX);
                raw.pull(1 << 12)?;
                moved += raw.progress();
                ensure!(!raw.over(), "connection {} of {n} was closed", left[k]);
                if let Some(m) = raw.got.pop_front() {
                    let uid = (left[k] as u64) << 8 | round;
                    ensure!(m.uid == uid && m.id == 5 && m.body == fill(uid, 0, 6), "connection {} got a response to {} instead of {uid}", left[k], m.uid);
                    left.swap_remove(k);
                } else {
                    k += 1;
                }
            }
            p.wait(&slot, moved + left.len() as u64, || format!("{} of {n} connections are not served, e.g. the {}th", left.len(), left[0])).await?;
        }
        c.count("served", n as u64);
    }
    c.count("connections_at_once", n as u64);
    Ok(())
}

// ------------------------------------------------------------------ cancels need only room
/// the queue has room for just so many cancels: all of them are sent
pub fn c13_room(c: &mut Case) -> Res {
    both!(c, room)
}
async fn room<C: Codec>(c: &mut Case) -> Res {
    let slot = c.slot.clone();
    let mut r = c.rng.fork();
    let q = r.pick(&[2usize, 3, 8, 16, 100, 256]);
    let sent = r.range(1, q - 1);
    let dropped = sent.min(q - sent);
    let set = Setup { q, max_buf: 0, sock: 0, clones: 1, style: 0 };
    let (client, conn, mut peer) = connect_pair::<C>(&set).await?;
    let mut ids = Ids::new(&mut r);
    let mut want = vec![];
    let mut open = vec![];
    for uid in 0..sent as u64 {
        let m = Msg::req(ids.next(&mut r), uid, if r.chance(1, 2) { UNARY } else { STREAM });
        want.push((m.id, NORMAL));
        let e = |e| Bad::Violation(format!("call was refused: {e:?}"));
        open.push((m.id, if m.op == UNARY { Comp::U(client.send_unary(m).await.map_err(e)?) } else { Comp::S(client.send_streaming(m).await.map_err(e)?) }));
    }
    // nothing has looked at the queue so far, so it is known how much room there is
    for _ in 0..dropped {
        let (id, k) = open.swap_remove(r.below(open.len()));
        drop(k);
        want.push((id, CANCEL));
    }
    c.d(format!("q={q} sent={sent} dropped={dropped} {:x}", r.u64() & 0xffff));
    let conn = tokio::spawn(conn);
    let mut got = vec![];
    let mut p = Patience::new();
    while got.len() < want.len() {
        peer.pull(1 << 16)?;
        while let Some(m) = peer.got.pop_front() {
            got.push((m.id, m.code));
        }
        ensure!(!peer.over(), "the client's connection ended by itself");
        p.wait(&slot, peer.progress(), || format!("the server got {} of {sent} requests and {dropped} cancels, for which there was room", got.len())).await?;
    }
    ensure!(got == want, "requests and cancels differ from what the caller did: {got:?} instead of {want:?}");
    c.count("cancels_into_a_nearly_full_queue", dropped as u64);
    drop(open);
    drop(conn);
    Ok(())
}
