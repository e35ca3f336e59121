//! Scenarios with the real rpc client and a scripted server: C11, C12, C13 (client side), C14, C18 (client side), C22.
use crate::cli::*;
use crate::core::*;
use crate::ensure;
use crate::msg::*;
use crate::net::*;
use crate::raw::*;
use crate::srv_props::flat;
use std::collections::HashSet;

macro_rules! both {
    ($c:expr, $f:ident $(, $a:expr)*) => {
        if $c.rng.chance(1, 2) {
            $c.d("prost");
            block_on($f::<Pc>($c $(, $a)*))
        } else {
            $c.d("msgpack");
            block_on($f::<Mc>($c $(, $a)*))
        }
    };
}

/// what happens, per hundred actions
#[derive(Clone, Copy, Debug, Default)]
pub struct Mix {
    pub unary: usize,
    pub stream: usize,
    pub answer: usize,
    pub item: usize,
    pub end: usize,
    pub remote_cancel: usize,
    pub drop_open: usize,
    pub drop_over: usize,
    pub junk: usize,
    pub lazy: usize,
    pub reuse: bool,
    /// of the calls dropped, drop one in n while the client is looking at a message for it
    pub mid: usize,
}
fn setup(r: &mut Rng) -> Setup {
    Setup { q: r.pick(&[1, 2, 3, 7, 64, 256, 256, 1000]), max_buf: 0, sock: r.pick(&[0, 0, 16_384]), clones: r.range(1, 4), style: r.below(4) }
}
fn size(r: &mut Rng) -> usize {
    match r.below(20) {
        0 => r.range(1000, 40_000),
        1..=5 => 0,
        _ => r.range(1, 300),
    }
}
fn code_of(r: &mut Rng, t: Term) -> u32 {
    match t {
        Term::End => END,
        Term::Cancel => {
            if r.chance(3, 4) {
                CANCEL
            } else {
                r.range(3, 255) as u32
            }
        }
    }
}

/// run `actions` random actions over at most `max` calls
async fn chaos(c: &mut Case, sim: &mut Sim, r: &mut Rng, m: Mix, actions: usize, max: usize) -> Res {
    let slot = c.slot.clone();
    let mut ids = Ids::new(r);
    let total = m.unary + m.stream + m.answer + m.item + m.end + m.remote_cancel + m.drop_open + m.drop_over + m.junk + m.lazy;
    let hold = r.chance(1, 3); // answers only start once everything was asked
    let order = r.below(3); // answer newest, oldest, or any
    let burst = r.pick(&[1usize, 4, 40, 400]);
    // actions per turn of the runtime: how much piles up between two looks of the connection
    let pace = r.pick(&[1usize, 3, 3, 12, 100, 400]);
    let mut free: Vec<u64> = vec![];
    let mut collected = 0;
    for step in 0..actions {
        let mut x = r.below(total);
        let mut pick = |n: usize| {
            if x < n {
                x = usize::MAX;
                true
            } else {
                if x != usize::MAX {
                    x -= n;
                }
                false
            }
        };
        let (unary, stream) = (pick(m.unary), pick(m.stream));
        if unary || stream {
            if sim.calls.len() < max {
                let id = if m.reuse && r.chance(3, 4) { free.pop() } else { None };
                if id.is_some() {
                    c.count("ids_reused", 1);
                }
                let id = id.unwrap_or_else(|| ids.next(r));
                let i = sim.issue(r, id, stream);
                sim.calls[i].lazy = r.chance(1, 6);
                c.count(if stream { "streams" } else { "unaries" }, 1);
            }
        } else if pick(m.answer) {
            if !hold || sim.calls.len() >= max {
                let a: Vec<usize> = sim.answerable().into_iter().filter(|i| !sim.calls[*i].stream).collect();
                let n = a.len().min(r.range(1, burst));
                for k in 0..n {
                    let i = match order {
                        0 => a[a.len() - 1 - k],
                        1 => a[k],
                        _ => r.pick(&a),
                    };
                    if !sim.calls[i].decided() {
                        let s = size(r);
                        sim.item(i, s);
                        c.count("answers", 1);
                    }
                }
            }
        } else if pick(m.item) {
            let a: Vec<usize> = sim.answerable().into_iter().filter(|i| sim.calls[*i].stream).collect();
            if !a.is_empty() {
                let i = r.pick(&a);
                let n = r.pick(&[1, 1, 3, 15, 16, 17, 40, 130]);
                let s = if n > 20 { r.range(0, 60) } else { size(r) };
                for _ in 0..n {
                    sim.item(i, s);
                }
                c.count("items", n as u64);
            }
        } else if pick(m.end) {
            let a: Vec<usize> = sim.answerable().into_iter().filter(|i| sim.calls[*i].stream).collect();
            if !a.is_empty() {
                sim.term(r.pick(&a), Term::End, END);
                c.count("ends", 1);
            }
        } else if pick(m.remote_cancel) {
            let a = sim.answerable();
            if !a.is_empty() {
                let i = r.pick(&a);
                let t = if sim.calls[i].stream { Term::Cancel } else { r.pick(&[Term::Cancel, Term::End]) };
                let code = code_of(r, t);
                sim.term(i, t, code);
                c.count("remote_cancels", 1);
            }
        } else if pick(m.drop_open) {
            let a: Vec<usize> = (0..sim.calls.len()).filter(|i| sim.calls[*i].open()).collect();
            if !a.is_empty() {
                let i = r.pick(&a);
                if m.mid > 0 && r.chance(1, m.mid) {
                    // messages for others, one for the call that goes away meanwhile, and more for others: in one go
                    let others: Vec<usize> = sim.answerable().into_iter().filter(|k| *k != i).collect();
                    let ahead = r.below(3);
                    for half in 0..2 {
                        for _ in 0..if half == 0 { ahead } else { 1 + r.below(4) } {
                            if others.is_empty() {
                                break;
                            }
                            let o = r.pick(&others);
                            if !sim.calls[o].decided() {
                                sim.item(o, 3);
                            }
                        }
                        if half == 0 && sim.drop_at_next_item(i, 5) {
                            c.count("dropped_while_answered", 1);
                            for _ in 0..r.below(3) {
                                if sim.calls[i].stream {
                                    sim.item(i, 5);
                                }
                            }
                        }
                    }
                    continue;
                }
                if r.chance(1, 3) {
                    // let the queue run empty first, then the cancel has to get through
                    for _ in 0..8 {
                        sim.turn(&slot, r).await?;
                    }
                }
                sim.drop_call(i);
                if sim.calls[i].must_cancel == Some(true) {
                    c.count("cancels_due", 1);
                }
                c.count("dropped_open", 1);
                if m.reuse && r.chance(2, 3) && sim.retire_silently(i) {
                    free.push(sim.calls[i].req.id);
                    c.count("ids_of_dropped_calls", 1);
                }
            }
        } else if pick(m.drop_over) {
            let a: Vec<usize> = (0..sim.calls.len()).filter(|i| matches!(sim.calls[*i].stage, Stage::Over(Some(_)))).collect();
            if !a.is_empty() {
                sim.drop_call(r.pick(&a));
                c.count("dropped_after_completion", 1);
            }
        } else if pick(m.junk) {
            junk(c, sim, r);
        } else if m.lazy > 0 && !sim.calls.is_empty() {
            let i = r.below(sim.calls.len());
            sim.calls[i].lazy = !sim.calls[i].lazy;
        }
        if m.reuse {
            while collected < sim.calls.len() && sim.calls[collected].out.is_some() {
                free.push(sim.calls[collected].req.id);
                collected += 1;
            }
        }
        if r.chance(1, pace) || step % (20 * pace) == 0 {
            sim.turn(&slot, r).await?;
        }
    }
    Ok(())
}
/// messages that belong to nothing that is outstanding
fn junk(c: &mut Case, sim: &mut Sim, r: &mut Rng) {
    let code = r.pick(&[NORMAL, NORMAL, END, CANCEL, 77]);
    // calls whose fate is sealed: whatever else the server says about them is noise
    let sealed: Vec<usize> = (0..sim.calls.len()).filter(|i| sim.calls[*i].decided() || (matches!(sim.calls[*i].stage, Stage::Dropped) && sim.calls[*i].seen)).collect();
    if r.chance(1, 2) || sealed.is_empty() {
        // ids never used
        let id = r.u64() | (1 << 63) | (1 << 19);
        if sim.by_id.contains_key(&id) {
            return;
        }
        sim.peer.send(&Msg { id, code, uid: r.u64(), ..Default::default() });
        c.count("junk_unknown", 1);
    } else {
        let i = r.pick(&sealed);
        let n = r.range(1, 3);
        for _ in 0..n {
            if code == NORMAL {
                let m = Msg { idx: 0xbad, ..Msg::item(sim.calls[i].req.id, sim.calls[i].req.uid, 0, 4) };
                sim.peer.send(&m);
            } else {
                sim.peer.send(&Msg::ctl(sim.calls[i].req.id, code));
            }
        }
        c.count("junk_sealed", n as u64);
    }
}
/// at the end nothing may be cancelled that had completed, and everything dropped must be
fn final_checks(sim: &Sim) -> Res {
    for k in &sim.calls {
        if let Some(true) = k.must_cancel {
            ensure!(k.cancels == 1, "call {} was dropped unfinished, with room in the queue, and cancelled {} times", k.req.uid, k.cancels);
        }
        if k.must_cancel.is_none() {
            ensure!(k.cancels == 0, "call {} was not dropped but cancelled", k.req.uid);
        }
        if k.accepted && !sim.lost {
            ensure!(k.seen, "the request of call {} was accepted but never sent", k.req.uid);
        }
        if k.open() && !sim.lost {
            ensure!(!k.decided(), "call {} is still pending", k.req.uid);
        }
    }
    Ok(())
}
async fn wrap_up(c: &mut Case, sim: &mut Sim, r: &mut Rng) -> Res {
    let slot = c.slot.clone();
    sim.quiesce(&slot, r).await?;
    c.count("traps_sprung", clear_traps());
    sim.quiesce(&slot, r).await?;
    // whatever is left gets its answer now
    let mut left = sim.answerable();
    r.shuffle(&mut left);
    for i in left {
        if sim.calls[i].stream {
            if r.chance(1, 2) {
                sim.item(i, 5);
            }
            sim.term(i, Term::End, END);
        } else {
            sim.item(i, 9);
        }
    }
    sim.quiesce(&slot, r).await?;
    for k in &sim.calls {
        ensure!(!k.open(), "call {} did not resolve", k.req.uid);
    }
    // completed objects go now: nothing may be sent for them
    for i in 0..sim.calls.len() {
        sim.drop_call(i);
    }
    for _ in 0..3 {
        sim.turn(&slot, r).await?;
    }
    sim.quiesce(&slot, r).await?;
    final_checks(sim)?;
    ensure!(sim.clients.iter().all(|c| c.is_alive()), "the client says it is dead although the connection lives");
    c.count("calls", sim.calls.len() as u64);
    c.count("messages_from_client", sim.seen);
    c.count("messages_to_client", sim.events);
    Ok(())
}

async fn mixed<C: Codec>(c: &mut Case, m: Mix, max: usize, actions: usize) -> Res {
    let mut r = c.rng.fork();
    let s = setup(&mut r);
    c.d(format!("q={} sock={} clones={} seg={} max={max} actions={actions} {:x}", s.q, s.sock, s.clones, s.style, r.u64() & 0xffff));
    let mut sim = Sim::new::<C>(&s).await?;
    chaos(c, &mut sim, &mut r, m, actions, max).await?;
    wrap_up(c, &mut sim, &mut r).await
}
fn count(c: &mut Case) -> (usize, usize) {
    let max = c.rng.pick(&[1, 3, 12, 60, 130, 300, 600]);
    (max, (max * 4).max(40))
}
pub fn c11_unary(c: &mut Case) -> Res {
    let (max, actions) = count(c);
    let m = Mix { unary: 40, stream: 2, answer: 40, end: 2, drop_open: 4, mid: 2, drop_over: 5, lazy: 4, ..Default::default() };
    both!(c, mixed, m, max, actions)
}
pub fn c12_streams(c: &mut Case) -> Res {
    let (max, actions) = count(c);
    let max = max.min(100);
    let m = Mix { unary: 5, stream: 20, answer: 5, item: 40, end: 10, remote_cancel: 5, drop_open: 4, mid: 2, drop_over: 4, lazy: 8, ..Default::default() };
    both!(c, mixed, m, max, actions.min(600))
}
pub fn c13_client(c: &mut Case) -> Res {
    let (max, actions) = count(c);
    let max = max.min(150);
    let m = Mix { unary: 16, stream: 16, answer: 12, item: 12, end: 8, remote_cancel: 2, drop_open: 18, mid: 4, drop_over: 8, lazy: 8, ..Default::default() };
    both!(c, mixed, m, max, actions.min(800))
}
pub fn tiny(c: &mut Case) -> Res {
    let m = Mix { unary: 16, stream: 16, answer: 10, item: 12, end: 6, remote_cancel: 10, drop_open: 8, drop_over: 4, junk: 10, lazy: 6, ..Default::default() };
    both!(c, mixed, m, 6, 14)
}
pub fn c22_junk(c: &mut Case) -> Res {
    let (max, actions) = count(c);
    let max = max.min(150);
    let m = Mix { unary: 16, stream: 16, answer: 10, item: 12, end: 6, remote_cancel: 10, drop_open: 8, mid: 4, drop_over: 4, junk: 25, lazy: 6, ..Default::default() };
    both!(c, mixed, m, max, actions.min(800))
}
pub fn c18_client(c: &mut Case) -> Res {
    let (max, actions) = count(c);
    let m = Mix { unary: 20, stream: 16, answer: 24, item: 10, end: 16, drop_open: 8, drop_over: 8, lazy: 2, reuse: true, ..Default::default() };
    both!(c, mixed, m, max.max(12), actions.min(1200))
}

// ------------------------------------------------------------------ C14
#[derive(Clone, Copy, Debug, PartialEq)]
enum Loss {
    HalfClose,
    Close,
    Reset,
    Garbage,
    Oversize,
    Abort,
    NeverSpawned,
}
pub fn c14_loss(c: &mut Case) -> Res {
    both!(c, loss)
}
async fn loss<C: Codec>(c: &mut Case) -> Res {
    use std::os::fd::AsRawFd;
    let slot = c.slot.clone();
    let kinds = [Loss::HalfClose, Loss::Close, Loss::Reset, Loss::Garbage, Loss::Oversize, Loss::Abort, Loss::NeverSpawned];
    let kind = kinds[(c.index % 7) as usize];
    let mut r = c.rng.fork();
    let mut s = setup(&mut r);
    s.max_buf = 1 << 20;
    let blocked = r.chance(1, 3);
    if blocked {
        s.sock = 4096;
    }
    let max = r.pick(&[0, 1, 4, 20, 80]);
    let hush = r.chance(1, 4); // the server never says anything before the loss
    c.d(format!("{kind:?} q={} blocked={blocked} max={max} hush={hush} seg={} {:x}", s.q, s.style, r.u64() & 0xffff));
    let (mut sim, held) = if kind == Loss::NeverSpawned {
        let (client, conn, peer) = connect_pair::<C>(&s).await?;
        let mut sim = Sim::new::<C>(&s).await?;
        sim.conn.take().unwrap().abort();
        sim.peer = peer;
        sim.clients = vec![client.clone(), client];
        (sim, Some(conn))
    } else {
        (Sim::new::<C>(&s).await?, None)
    };
    let m = if hush {
        Mix { unary: 16, stream: 16, drop_open: 2, lazy: 6, ..Default::default() }
    } else {
        Mix { unary: 16, stream: 16, answer: 10, item: 16, end: 6, remote_cancel: 2, drop_open: 4, lazy: 10, ..Default::default() }
    };
    if max > 0 {
        chaos(c, &mut sim, &mut r, m, max * 3 + 8, max).await?;
    }
    if blocked {
        // the server stops reading; the client's queue fills up
        sim.peer_reads = false;
        let mut ids = Ids::new(&mut r);
        let n = r.range(5, 60);
        for _ in 0..n {
            let id = ids.next(&mut r) ^ (1 << 62);
            let stream = r.chance(1, 2);
            let i = sim.issue(&mut r, id, stream);
            // big requests, so that the way is blocked
            if r.chance(1, 2) {
                sim.turn(&slot, &mut r).await?;
            }
            let _ = i;
        }
        turns(&slot, 5).await;
        sim.step_all()?;
    }
    // some calls are issued at the very moment
    let late = r.range(0, 6);
    for k in 0..late {
        let stream = r.chance(1, 2);
        sim.issue(&mut r, (1 << 61) + k as u64, stream);
    }
    if r.chance(1, 2) {
        sim.step_all()?;
    }
    let outstanding = sim.calls.iter().filter(|k| k.open()).count();
    let sending = sim.calls.iter().filter(|k| matches!(k.stage, Stage::Sending(_))).count();
    // everything the server said so far is on the wire, for the orderly cases
    if kind == Loss::HalfClose {
        let mut p = Patience::new();
        while !sim.peer.flushed() {
            sim.turn(&slot, &mut r).await?;
            p.wait(&slot, sim.peer.progress(), || "client does not read".into()).await?;
        }
    }
    sim.lost = true;
    match kind {
        Loss::HalfClose => {
            unsafe { libc::shutdown(sim.peer.s.as_ref().unwrap().as_raw_fd(), libc::SHUT_WR) };
        }
        Loss::Close => sim.peer.s = None,
        Loss::Reset => reset(sim.peer.s.take().unwrap())?,
        Loss::Garbage => {
            let b = match C::C {
                Cd::Prost => vec![0xff; 40],
                Cd::Mp => vec![0xc1; 40],
            };
            sim.peer.out.extend_from_slice(&b);
        }
        Loss::Oversize => {
            let mut b = vec![];
            match C::C {
                Cd::Prost => varint(u64::MAX >> r.range(1, 40), &mut b),
                Cd::Mp => b.extend_from_slice(&[0xce, 0xff, 0xff, 0xff, 0xff]),
            }
            b.extend_from_slice(&[0; 16]);
            sim.peer.out.extend_from_slice(&b);
        }
        Loss::Abort => sim.conn.take().unwrap().abort(),
        Loss::NeverSpawned => {}
    }
    drop(held);
    if r.chance(1, 2) {
        // and a few right after, before anyone noticed
        for k in 0..3u64 {
            let stream = r.chance(1, 2);
            sim.issue(&mut r, (1 << 60) + k, stream);
        }
    }
    sim.quiesce(&slot, &mut r).await?;
    let mut p = Patience::new();
    while sim.clients.iter().any(|c| c.is_alive()) {
        sim.step_all()?;
        sim.pump(&mut r)?;
        p.wait(&slot, sim.peer.progress(), || "the connection is gone but the client says it is alive".into()).await?;
    }
    sim.quiesce(&slot, &mut r).await?;
    for k in &sim.calls {
        ensure!(!k.open(), "call {} hangs", k.req.uid);
        if kind == Loss::HalfClose && !matches!(k.stage, Stage::Dropped) {
            // all that was said before an orderly end has arrived
            if k.stream {
                ensure!(k.got as usize == k.items.len(), "stream {}: {} items arrived before the end of the connection, {} were delivered", k.req.uid, k.items.len(), k.got);
                if k.term == Some(Term::End) {
                    ensure!(k.out == Some(Out::Err("finished")), "stream {} ended before the connection did but reports {:?}", k.req.uid, k.out);
                }
            } else if !k.items.is_empty() {
                ensure!(matches!(k.out, Some(Out::Reply(_))), "call {}: its response arrived before the end of the connection but it reports {:?}", k.req.uid, k.out);
            }
        }
    }
    for cl in &sim.clients {
        ensure!(!cl.is_alive(), "the connection is gone but the client says it is alive");
    }
    // new calls fail promptly
    let old = sim.calls.len();
    for k in 0..4u64 {
        sim.issue(&mut r, (1 << 59) + k, k % 2 == 0);
    }
    sim.quiesce(&slot, &mut r).await?;
    for k in &sim.calls[old..] {
        ensure!(matches!(k.out, Some(Out::Err(e)) if e != "finished"), "a new call on a dead client resolved with {:?}", k.out);
    }
    let kinds: HashSet<String> = sim.calls.iter().map(|k| format!("{:?}", k.out.as_ref().map(|o| matches!(o, Out::Reply(_))))).collect();
    c.d(format!("out={outstanding} sending={sending} {}", kinds.len()));
    c.nontrivial = outstanding > 0;
    c.count("outstanding_at_loss", outstanding as u64);
    c.count("blocked_sends_at_loss", sending as u64);
    c.count("losses", 1);
    Ok(())
}

// ------------------------------------------------------------------ C18 memory
pub fn c18_client_memory(c: &mut Case) -> Res {
    both!(c, memory)
}
async fn memory<C: Codec>(c: &mut Case) -> Res {
    let slot = c.slot.clone();
    let kinds = ["unary", "stream", "dropped", "dropped-silent", "remote-cancel", "mixed", "dropped-early", "dropped-full"];
    let kind = (c.index % 8) as usize;
    let mut r = c.rng.fork();
    let s = Setup { q: if kind == 7 { 8 } else { r.pick(&[16, 64, 256]) }, max_buf: 0, sock: 0, clones: 1, style: 0 };
    let (per, rounds) = (400usize, 20);
    c.d(format!("{} q={} {:x}", kinds[kind], s.q, r.u64() & 0xff));
    let (client, conn, mut peer) = connect_pair::<C>(&s).await?;
    let _conn = tokio::spawn(conn);
    let mut levels = vec![];
    let mut next = 1u64;
    for _ in 0..rounds {
        for _ in 0..per / 8 {
            let mut open = vec![];
            let (mut want, mut early) = (0, vec![]);
            // more than the queue holds, and then all of them are dropped while it is full
            for _ in 0..if kind == 7 { 10 } else { 8 } {
                let k = if kind == 5 { r.pick(&[0, 1, 2, 4]) } else { kind };
                let stream = k == 1 || (k != 0 && r.chance(1, 2));
                let mut m = Msg::req(next, next, if stream { STREAM } else { UNARY });
                m.body = vec![];
                next += 1;
                let id = m.id;
                if kind >= 6 {
                    // given up before the connection's task has had a turn
                    use futures::FutureExt;
                    let comp = if stream { client.send_streaming(m).now_or_never().map(|c| c.map(Comp::S)) } else { client.send_unary(m).now_or_never().map(|c| c.map(Comp::U)) };
                    match comp {
                        Some(Ok(comp)) if kind == 7 => early.push(comp),
                        Some(Ok(comp)) => drop(comp),
                        Some(Err(_)) => return violation("send fails on a live connection"),
                        None => continue,
                    }
                    want += 1;
                    continue;
                }
                want += 1;
                let comp = if stream {
                    await_or_stall(&slot, "send", client.send_streaming(m)).await?.map(Comp::S)
                } else {
                    await_or_stall(&slot, "send", client.send_unary(m)).await?.map(Comp::U)
                };
                let Ok(comp) = comp else { return violation("send fails on a live connection") };
                open.push((id, k, comp));
            }
            drop(early);
            // the peer sees them all
            let mut p = Patience::new();
            while want > 0 {
                peer.pull(1 << 16)?;
                want -= peer.got.drain(..).filter(|m| m.code == NORMAL).count().min(want);
                p.wait(&slot, peer.read, || "requests are not sent".into()).await?;
            }
            for (id, k, comp) in open {
                match k {
                    0 => peer.send(&Msg::item(id, id, 0, 10)),
                    1 => {
                        peer.send(&Msg::item(id, id, 0, 10));
                        peer.send(&Msg::ctl(id, END));
                    }
                    4 => peer.send(&Msg::ctl(id, CANCEL)),
                    _ => {
                        drop(comp);
                        continue;
                    }
                }
                peer.flush(usize::MAX);
                match comp {
                    Comp::U(u) => {
                        let _ = await_or_stall(&slot, "response", u).await?;
                    }
                    Comp::S(mut s) => loop {
                        use futures::StreamExt;
                        match await_or_stall(&slot, "item", s.next()).await? {
                            Some(Ok(_)) => {}
                            _ => break,
                        }
                    },
                }
            }
            if kind == 2 {
                // something else goes on now and then
                peer.send(&Msg::ctl(u64::MAX, CANCEL));
                peer.flush(usize::MAX);
            }
            turns(&slot, 3).await;
        }
        settle(&slot).await;
        peer.pull(1 << 16)?;
        peer.got.clear();
        levels.push(live());
    }
    if std::env::var("PSMON_TRACE").is_ok() { eprintln!("levels {levels:?}"); }
    flat(&levels, per, 5)?;
    c.count("calls", next);
    Ok(())
}
