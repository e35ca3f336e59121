//! Scenarios with a raw client and the real rpc server: C13 (server side), C15, C16, C17, C18.
use crate::conn::fill;
use crate::core::*;
use crate::ensure;
use crate::msg::*;
use crate::net::*;
use crate::raw::*;
use crate::svc::*;
use std::collections::HashSet;

macro_rules! both {
    ($c:expr, $f:ident) => {
        if $c.rng.chance(1, 2) {
            $c.d("prost");
            block_on($f::<Pc>($c))
        } else {
            $c.d("msgpack");
            block_on($f::<Mc>($c))
        }
    };
}

fn gen_q(r: &mut Rng) -> usize {
    r.pick(&[1, 2, 3, 5, 16, 127, 128, 129, 300])
}
fn seg(r: &mut Rng, style: usize) -> usize {
    match style {
        0 => usize::MAX,
        1 => r.range(1, 7),
        2 => r.range(1, 400),
        _ => r.range(1, 20_000),
    }
}

// ------------------------------------------------------------------ C15
pub fn c15_dispatch(c: &mut Case) -> Res {
    both!(c, dispatch)
}
async fn dispatch<C: Codec>(c: &mut Case) -> Res {
    let slot = c.slot.clone();
    let mut r = c.rng.fork();
    let (q, n) = (gen_q(&mut r), r.pick(&[1, 10, 60, 129, 200, 300]));
    let clients = r.range(1, 3);
    let style = r.below(4);
    let all_at_once = r.chance(1, 2);
    let slow = r.chance(1, 3);
    // no call ever waits: nothing but its input wakes the server
    let plain = r.chance(1, 3);
    let (q, n) = if plain && r.chance(1, 2) { (300, r.pick(&[129, 200, 300])) } else { (q, n) };
    // nor does a stream, by using up its budget
    let unary = plain && r.chance(1, 2);
    c.d(format!("q={q} n={n} clients={clients} seg={style} at_once={all_at_once} slow={slow} plain={plain} unary={unary}"));
    let s = serve::<C>(0, q).await?;
    let mut cl: Vec<(Raw, Ledger, Vec<Msg>)> = vec![];
    let mut conn_of = vec![];
    for k in 0..clients {
        let raw = Raw::connect(s.addr, C::C, if slow { 8192 } else { 0 }).await?;
        accepted(&slot, &s.w, k + 1).await?;
        conn_of.push(k);
        cl.push((raw, Ledger::default(), vec![]));
    }
    let mut uid = 1u64;
    let mut ids: Vec<Ids> = (0..clients).map(|_| Ids::new(&mut r)).collect();
    let mut left = vec![n; clients];
    let mut pat = Patience::new();
    let mut free: Vec<Vec<u64>> = vec![vec![]; clients];
    // ids that two unary calls have used at the same time: not given to a stream later
    let mut shared: Vec<HashSet<u64>> = vec![HashSet::new(); clients];
    let mut quiet = 0;
    loop {
        s.w.check()?;
        let mut busy = false;
        for k in 0..clients {
            let (raw, led, sent) = &mut cl[k];
            // generate
            let burst = if all_at_once { left[k] } else { r.below(5).min(left[k]) };
            for _ in 0..burst {
                left[k] -= 1;
                match r.below(12) {
                    0 => {
                        // declined
                        // now and then with the id of a call that is under way, which must not notice
                        let used = if r.chance(1, 2) { led.active.keys().copied().min() } else { None };
                        let mut m = Msg::req(used.unwrap_or_else(|| ids[k].next(&mut r)), uid, DECLINE);
                        m.size = 3;
                        raw.send(&m);
                        sent.push(m);
                        c.count("declined", 1);
                    }
                    1 => {
                        // control messages about ids that are not in use
                        let id = ids[k].next(&mut r);
                        let code = r.pick(&[CANCEL, END, 3, 7, 200, 255]);
                        raw.send(&Msg::ctl(id, code));
                        c.count("stray_controls", 1);
                    }
                    2 if sent.last().is_some_and(|m| m.op == UNARY && !led.by_uid[&m.uid].done()) => {
                        // a client that uses an id twice still has every request served
                        let id = sent.last().unwrap().id;
                        shared[k].insert(id);
                        let mut m = gen_req(&mut r, id, uid);
                        m.op = UNARY;
                        m.n = 0;
                        m.yields = if plain { 0 } else { m.yields };
                        led.sent(&m);
                        raw.send(&m);
                        sent.push(m);
                        c.count("ids_used_twice_at_once", 1);
                    }
                    _ => {
                        let id = if r.chance(1, 3) { free[k].pop() } else { None };
                        let id = id.unwrap_or_else(|| ids[k].next(&mut r));
                        let mut m = gen_req(&mut r, id, uid);
                        if plain {
                            m.yields = 0;
                        }
                        if unary {
                            (m.op, m.n) = (UNARY, 0);
                        }
                        led.sent(&m);
                        raw.send(&m);
                        sent.push(m);
                    }
                }
                uid += 1;
            }
            raw.flush(seg(&mut r, style));
            if !slow || r.chance(1, 4) {
                let b = led.ends;
                raw.pull(r.range(1, 1 << 16))?;
                while let Some(m) = raw.got.pop_front() {
                    led.receive(&m)?;
                    // ids of finished calls go round again
                    if !shared[k].contains(&m.id) && (m.code == END || (m.code == NORMAL && led.by_uid[&m.uid].req.op == UNARY)) {
                        free[k].push(m.id);
                    }
                }
                let _ = b;
            }
            ensure!(!raw.over(), "the server closed a connection that did nothing wrong");
            if left[k] > 0 || !raw.flushed() || !led.all_done() {
                busy = true;
            }
        }
        if !busy {
            quiet += 1;
            if quiet > 12 {
                break;
            }
            if quiet == 6 {
                settle(&slot).await;
            }
        }
        let pr = s.w.progress() + cl.iter().map(|x| x.0.progress()).sum::<u64>() + quiet;
        pat.wait(&slot, pr, || format!("calls never complete: {:?}; left to send {left:?}", cl.iter().map(|x| x.1.missing().into_iter().take(5).collect::<Vec<_>>()).collect::<Vec<_>>())).await?;
    }
    for k in 0..clients {
        let conn = conn_of[k];
        let l = s.w.l();
        let seen = &l.conns[conn].requests;
        let sent = &cl[k].2;
        ensure!(seen.len() == sent.len(), "service saw {} requests, {} were sent", seen.len(), sent.len());
        for (i, (a, b)) in seen.iter().zip(sent).enumerate() {
            ensure!(a == b, "request {i} reached the service as id {} uid {}, sent was id {} uid {} (order or content changed)", a.id, a.uid, b.id, b.uid);
        }
        c.ev.entry("requests").and_modify(|x| *x += sent.len() as u64).or_insert(sent.len() as u64);
        c.ev.entry("responses").and_modify(|x| *x += cl[k].1.received).or_insert(cl[k].1.received);
        c.ev.entry("end_markers").and_modify(|x| *x += cl[k].1.ends).or_insert(cl[k].1.ends);
    }
    Ok(())
}
/// any control code that is not known acts as a cancel, on a call that is under way
pub fn c15_codes(c: &mut Case) -> Res {
    both!(c, codes)
}
async fn codes<C: Codec>(c: &mut Case) -> Res {
    let slot = c.slot.clone();
    let mut r = c.rng.fork();
    let n = r.range(2, 12) as u64;
    c.d(format!("n={n}"));
    let s = serve::<C>(0, gen_q(&mut r)).await?;
    let mut raw = Raw::connect(s.addr, C::C, 0).await?;
    let mut led = Ledger::default();
    for uid in 1..=n {
        let mut m = if uid % 2 == 0 { Msg::req(uid, uid, UNARY) } else { Msg::stream(uid, uid, 3) };
        m.gate = 1;
        led.sent(&m);
        raw.send(&m);
    }
    let mut victims = HashSet::new();
    for uid in 1..=n {
        if r.chance(1, 2) {
            let code = match r.below(4) {
                0 => CANCEL,
                1 => 3,
                2 => 255,
                _ => r.range(4, 254) as u32,
            };
            c.d(format!("{uid}:{code}"));
            led.cancel_sent(uid);
            raw.send(&Msg::ctl(uid, code));
            victims.insert(uid);
        }
    }
    let w = s.w.clone();
    raw.flush(usize::MAX);
    wait_until(&slot, "a control code to cancel the call", || {
        raw.flush(usize::MAX);
        victims.iter().all(|v| w.call(*v).is_none_or(|k| k.dropped == 1)) && w.l().conns.first().map(|k| k.requests.len()) == Some(n as usize)
    })
    .await?;
    for v in 1..=n {
        s.w.open(v);
    }
    finish(&slot, &s, &mut raw, &mut led).await?;
    for v in &victims {
        let k = s.w.call(*v);
        ensure!(k.is_none_or(|k| k.produced == 0), "call {v} produced something after it was cancelled");
    }
    c.count("cancelled_by_code", victims.len() as u64);
    s.w.check()
}
/// read until everything due has arrived, then a while longer for what must not arrive
async fn finish(slot: &Slot, s: &Srv, raw: &mut Raw, led: &mut Ledger) -> Res {
    let mut pat = Patience::new();
    let mut quiet = 0u64;
    loop {
        raw.flush(usize::MAX);
        raw.pull(1 << 16)?;
        led.take(raw)?;
        s.w.check()?;
        ensure!(!raw.over(), "the server closed a connection that did nothing wrong");
        if led.all_done() && raw.flushed() {
            quiet += 1;
            if quiet > 12 {
                return Ok(());
            }
            if quiet == 6 {
                settle(slot).await;
            }
        }
        pat.wait(slot, s.w.progress() + raw.progress() + quiet, || format!("calls never complete: {:?}", led.missing().into_iter().take(8).collect::<Vec<_>>())).await?;
    }
}

// ------------------------------------------------------------------ C13 server side
pub fn c13_server(c: &mut Case) -> Res {
    both!(c, cancels)
}
async fn cancels<C: Codec>(c: &mut Case) -> Res {
    let slot = c.slot.clone();
    let mut r = c.rng.fork();
    let n = r.pick(&[2, 5, 20, 140, 280]) as u64;
    let q = gen_q(&mut r);
    c.d(format!("n={n} q={q} {:x}", r.u64() & 0xffff));
    let s = serve::<C>(0, q).await?;
    let mut raw = Raw::connect(s.addr, C::C, 0).await?;
    let mut other = Raw::connect(s.addr, C::C, 0).await?;
    let mut led = Ledger::default();
    let mut oled = Ledger::default();
    let mut ids = Ids::new(&mut r);
    let mut reqs = vec![];
    for uid in 1..=n {
        let id = ids.next(&mut r);
        let mut m = gen_req(&mut r, id, uid);
        m.size = 16;
        m.n = m.n.min(40);
        match r.below(8) {
            0 => m.op = NEVER_UNARY,
            1 => {
                m.op = NEVER_STREAM;
                m.n = r.below(5) as u32;
            }
            2 => m.gate = 0,
            _ => m.gate = 1 + if m.op == STREAM { r.below(m.n as usize + 1) as u32 } else { 0 },
        }
        led.sent(&m);
        raw.send(&m);
        // the other connection uses the same ids
        let mut o = m.clone();
        o.uid += 1 << 40;
        oled.sent(&o);
        other.send(&o);
        reqs.push(m);
    }
    let early = r.chance(1, 3);
    // everything is under way, or the cancels are right behind the requests
    if !early {
        let w = s.w.clone();
        let mut p = Patience::new();
        while w.l().calls.len() < 2 * n as usize {
            raw.flush(usize::MAX);
            other.flush(usize::MAX);
            raw.pull(1 << 16)?;
            other.pull(1 << 16)?;
            led.take(&mut raw)?;
            oled.take(&mut other)?;
            p.wait(&slot, w.progress(), || "requests do not reach the service".into()).await?;
        }
        turns(&slot, r.below(5)).await;
    }
    let mut victims = vec![];
    for m in &reqs {
        if r.chance(1, 2) {
            // may be finished already: then it changes nothing
            led.cancel_sent(m.id);
            raw.send(&Msg::ctl(m.id, CANCEL));
            victims.push(m.uid);
            if r.chance(1, 6) {
                raw.send(&Msg::ctl(m.id, CANCEL));
            }
        }
    }
    let vs = victims.clone();
    let w = s.w.clone();
    let mut p = Patience::new();
    loop {
        raw.flush(usize::MAX);
        other.flush(usize::MAX);
        raw.pull(1 << 16)?;
        other.pull(1 << 16)?;
        led.take(&mut raw)?;
        oled.take(&mut other)?;
        let seen = w.l().conns.iter().map(|c| c.requests.len()).sum::<usize>();
        if raw.flushed() && seen == 2 * n as usize && vs.iter().all(|v| w.call(*v).is_some_and(|k| k.dropped == 1)) {
            break;
        }
        p.wait(&slot, w.progress() + raw.progress(), || format!("cancelled calls are not dropped: {:?}", vs.iter().filter(|v| w.call(**v).is_none_or(|k| k.dropped == 0)).take(5).collect::<Vec<_>>())).await?;
    }
    let before: Vec<_> = vs.iter().map(|v| w.call(*v).unwrap()).collect();
    // survivors are let go
    for m in &reqs {
        s.w.open(m.uid);
        s.w.open(m.uid + (1 << 40));
        s.w.poke(m.uid);
    }
    finish(&slot, &s, &mut raw, &mut led).await?;
    finish(&slot, &s, &mut other, &mut oled).await?;
    for (v, b) in vs.iter().zip(before) {
        let a = s.w.call(*v).unwrap();
        ensure!(a.polls == b.polls && a.produced == b.produced, "call {v} was polled after it was cancelled and dropped");
        ensure!(a.dropped == 1, "call {v} dropped {} times", a.dropped);
        let got = led.by_uid[v].got;
        ensure!(got <= b.produced, "call {v}: {got} items received, {} were produced before the cancel", b.produced);
    }
    for m in &reqs {
        let never = matches!(m.op, NEVER_STREAM | NEVER_UNARY);
        if !vs.contains(&m.uid) && never {
            let k = s.w.call(m.uid).unwrap();
            ensure!(k.dropped == 0, "call {} was not cancelled but dropped", m.uid);
        }
        let k = s.w.call(m.uid + (1 << 40)).unwrap();
        ensure!(!never || k.dropped == 0, "a cancel on one connection dropped call {} of another", m.uid);
    }
    c.count("cancels", vs.len() as u64);
    c.count("survivors", 2 * n - vs.len() as u64);
    s.w.check()
}

// ------------------------------------------------------------------ C16
#[derive(Clone, Copy, Debug, PartialEq)]
enum Bye {
    Close,
    HalfClose,
    Reset,
    Garbage,
    Oversize,
    PanicNew,
    PanicPoll,
    PanicStream,
}
pub fn c16_close(c: &mut Case) -> Res {
    both!(c, close)
}
async fn close<C: Codec>(c: &mut Case) -> Res {
    let slot = c.slot.clone();
    let byes = [Bye::Close, Bye::HalfClose, Bye::Reset, Bye::Garbage, Bye::Oversize, Bye::PanicNew, Bye::PanicPoll, Bye::PanicStream];
    let bye = byes[(c.index % 8) as usize];
    let mut r = c.rng.fork();
    let q = gen_q(&mut r);
    let blocked = r.chance(1, 4);
    let n = r.pick(&[1, 3, 10, 140]) as u64;
    let spinning = r.chance(1, 4);
    c.d(format!("{bye:?} q={q} n={n} blocked={blocked} spinning={spinning} {:x}", r.u64() & 0xfff));
    let max = 1 << 20;
    let s = serve::<C>(max, q).await?;
    let mut keep = Raw::connect(s.addr, C::C, 0).await?;
    accepted(&slot, &s.w, 1).await?;
    let mut raw = Raw::connect(s.addr, C::C, if blocked { 4096 } else { 0 }).await?;
    accepted(&slot, &s.w, 2).await?;
    let (mut led, mut kled) = (Ledger::default(), Ledger::default());
    for uid in 1..=n {
        for (base, raw, led) in [(0u64, &mut keep, &mut kled), (1 << 40, &mut raw, &mut led)] {
            let mut m = match r.below(4) {
                0 => Msg::req(uid, uid + base, NEVER_UNARY),
                1 => Msg { n: 2, ..Msg::req(uid, uid + base, NEVER_STREAM) },
                2 => Msg::stream(uid, uid + base, 3),
                _ => Msg::req(uid, uid + base, UNARY),
            };
            if m.op == STREAM || m.op == UNARY {
                m.gate = 1;
            }
            if spinning && base > 0 && r.chance(1, 5) {
                m.yields = u32::MAX;
                m.gate = 0;
            }
            led.sent(&m);
            raw.send(&m);
        }
    }
    if blocked {
        // a stream that fills the way to a client that does not read
        let mut m = Msg::stream(n + 1, (1 << 40) + n + 1, 1_000_000);
        m.size = 4000;
        led.sent(&m);
        raw.send(&m);
    }
    let want = 2 * n as usize + blocked as usize;
    let mut p = Patience::new();
    let w = s.w.clone();
    while w.l().calls.len() < want {
        raw.flush(usize::MAX);
        keep.flush(usize::MAX);
        p.wait(&slot, w.progress(), || "requests do not reach the service".into()).await?;
    }
    if blocked {
        let mut last = 0;
        let mut quiet = 0;
        while quiet < 40 {
            turn(&slot).await;
            let t = w.l().total_produced;
            quiet = if t == last { quiet + 1 } else { 0 };
            last = t;
        }
    } else {
        turns(&slot, r.below(6)).await;
    }
    // the end
    let mut expect_client_sees_end = false;
    match bye {
        Bye::Close => raw.s = None,
        Bye::HalfClose => {
            use std::os::fd::AsRawFd;
            unsafe { libc::shutdown(raw.s.as_ref().unwrap().as_raw_fd(), libc::SHUT_WR) };
            expect_client_sees_end = true;
        }
        Bye::Reset => reset(raw.s.take().unwrap())?,
        Bye::Garbage => {
            let b = match C::C {
                Cd::Prost => vec![0xff; 30],
                Cd::Mp => vec![0xc1, 1, 2, 3, 4, 5, 6, 7],
            };
            raw.out.extend_from_slice(&b);
            expect_client_sees_end = true;
        }
        Bye::Oversize => {
            let mut b = vec![];
            match C::C {
                Cd::Prost => varint(max as u64 + 1 + r.u64() % (1 << 33), &mut b),
                Cd::Mp => {
                    b.push(0xce);
                    b.extend_from_slice(&(max as u32 + 1 + (r.u64() % (1 << 31)) as u32).to_be_bytes());
                }
            }
            b.extend_from_slice(&[0; 20]);
            raw.out.extend_from_slice(&b);
            expect_client_sees_end = true;
        }
        Bye::PanicNew | Bye::PanicPoll | Bye::PanicStream => {
            let op = match bye {
                Bye::PanicNew => PANIC_NEW,
                Bye::PanicPoll => PANIC_POLL,
                _ => PANIC_STREAM,
            };
            let mut m = Msg::req(n + 2, (1 << 41) + n + 2, op);
            m.n = r.below(4) as u32;
            led.sent(&m);
            raw.send(&m);
            expect_client_sees_end = true;
        }
    }
    let mut p = Patience::new();
    loop {
        raw.flush(usize::MAX);
        // a panicking call behind a full queue is only polled when the client reads
        if expect_client_sees_end {
            raw.pull(1 << 16)?;
            led.take(&mut raw)?;
        }
        w.check()?;
        if w.conn_dropped(1) > 0 && w.calls_gone(1) && (!expect_client_sees_end || raw.over()) {
            break;
        }
        p.wait(&slot, w.progress() + raw.progress(), || {
            format!("{bye:?}: the connection is over but service dropped: {}, calls dropped: {}, client sees the end: {}", w.conn_dropped(1), w.calls_gone(1), raw.over())
        })
        .await?;
    }
    let polls: Vec<u64> = w.l().calls.iter().map(|k| k.polls).collect();
    // poke everything of the dead connection; nothing may happen
    for uid in 1..=n + 2 {
        w.open(uid + (1 << 40));
    }
    turns(&slot, 20).await;
    {
        let l = w.l();
        ensure!(l.conns[1].dropped == 1, "service of the closed connection dropped {} times", l.conns[1].dropped);
        ensure!(l.conns[0].dropped == 0, "the service of another connection was dropped");
        for (i, k) in l.calls.iter().enumerate() {
            if k.conn == 1 {
                ensure!(k.dropped == 1, "call {} dropped {} times", k.req.uid, k.dropped);
                ensure!(k.polls == polls[i], "call {} polled after its connection ended", k.req.uid);
            } else {
                ensure!(k.dropped == 0, "call {} of another connection was dropped", k.req.uid);
            }
        }
    }
    // the other connection goes on
    for uid in 1..=n {
        w.open(uid);
    }
    finish(&slot, &s, &mut keep, &mut kled).await?;
    // and so does a new one
    let mut fresh = Raw::connect(s.addr, C::C, 0).await?;
    let mut fl = Ledger::default();
    let m = Msg::stream(1, 5 << 40, 3);
    fl.sent(&m);
    fresh.send(&m);
    finish(&slot, &s, &mut fresh, &mut fl).await?;
    // last: orderly close of the survivor drops its service too
    keep.s = None;
    wait_until(&slot, "the surviving connection's service to be dropped when it closes", || w.conn_dropped(0) == 1 && w.calls_gone(0)).await?;
    c.count("connections_ended", 2);
    c.count("calls_dropped", w.l().total_drops);
    Ok(())
}

// ------------------------------------------------------------------ C17
pub fn c17_slow(c: &mut Case) -> Res {
    both!(c, slow)
}
async fn slow<C: Codec>(c: &mut Case) -> Res {
    let slot = c.slot.clone();
    let mut r = c.rng.fork();
    let q = r.pick(&[1, 2, 4, 16, 64, 128, 200]);
    let size = r.pick(&[500u32, 2000, 5000]);
    let unaries = r.pick(&[0usize, 50, 2000]);
    let streams = r.range(if unaries > 0 { 0 } else { 1 }, 4);
    let budget = 12_000_000usize;
    let per = if streams > 0 { (budget / size as usize / streams).min(3000) } else { 0 };
    let buf = r.pick(&[4096, 8192, 16_384]);
    let yields = r.pick(&[0u32, 0, 1]);
    c.d(format!("q={q} size={size} unaries={unaries} streams={streams}x{per} buf={buf} yields={yields}"));
    let s = serve::<C>(0, q).await?;
    let mut raw = Raw::connect(s.addr, C::C, buf).await?;
    accepted(&slot, &s.w, 1).await?;
    let mut led = Ledger::default();
    let mut uid = 1;
    for _ in 0..streams {
        let mut m = Msg::stream(uid, uid, per as u32);
        m.size = size;
        m.yields = yields;
        led.sent(&m);
        raw.send(&m);
        uid += 1;
    }
    for _ in 0..unaries {
        let mut m = Msg::req(uid, uid, UNARY);
        m.size = size;
        m.body = vec![];
        m.yields = yields;
        led.sent(&m);
        raw.send(&m);
        uid += 1;
    }
    let w = s.w.clone();
    // the client does not read: until nothing moves
    let (mut quiet, mut last) = (0, u64::MAX);
    let mut p = Patience::new();
    while quiet < 60 {
        raw.flush(usize::MAX);
        let pr = w.l().total_produced + raw.written;
        quiet = if pr == last { quiet + 1 } else { 0 };
        last = pr;
        p.wait(&slot, pr, || "?".into()).await?;
        if quiet > 40 {
            tokio::time::sleep(std::time::Duration::from_millis(1)).await;
        }
    }
    let produced = w.l().total_produced as usize;
    let total = streams * per + unaries;
    let item = size as usize;
    // a second connection is served meanwhile
    let mut other = Raw::connect(s.addr, C::C, 0).await?;
    let mut oled = Ledger::default();
    for k in 0..5u64 {
        let m = if k % 2 == 0 { Msg::stream(k, (9 << 40) + k, 20) } else { Msg::req(k, (9 << 40) + k, UNARY) };
        oled.sent(&m);
        other.send(&m);
    }
    finish(&slot, &s, &mut other, &mut oled).await?;
    let produced2 = w.l().calls.iter().filter(|k| k.conn == 0).map(|k| k.produced as usize).sum::<usize>();
    let kernel = raw.drain_kernel(&slot)?;
    let beyond = produced2.saturating_sub(kernel / item);
    c.count("produced_while_stalled", produced as u64);
    c.count("produced_beyond_kernel", beyond as u64);
    c.nontrivial = produced2 < total;
    ensure!(beyond <= 4 * q + 8, "{produced2} of {total} responses pulled from the service for a client that does not read; the kernel held {} of them, the queue limit is {q}", kernel / item);
    led.take(&mut raw)?;
    finish(&slot, &s, &mut raw, &mut led).await?;
    c.count("responses", led.received);
    c.count("stalled_clients", 1);
    let _ = fill;
    s.w.check()
}

// ------------------------------------------------------------------ C18 server side
pub fn c18_reuse(c: &mut Case) -> Res {
    both!(c, reuse)
}
async fn reuse<C: Codec>(c: &mut Case) -> Res {
    let slot = c.slot.clone();
    let mut r = c.rng.fork();
    let q = r.pick(&[1, 1, 2, 3, 8, 128]);
    let lanes = r.range(1, 6);
    let gens = r.range(3, 12);
    let slow = r.chance(1, 2);
    let noise = r.chance(1, 2);
    c.d(format!("q={q} lanes={lanes} generations={gens} slow={slow} noise={noise}"));
    let s = serve::<C>(0, q).await?;
    let mut raw = Raw::connect(s.addr, C::C, if slow { 16384 } else { 0 }).await?;
    let mut led = Ledger::default();
    let mut uid = 1u64;
    let mut ids = Ids::new(&mut r);
    let lane_ids: Vec<u64> = (0..lanes).map(|_| ids.next(&mut r)).collect();
    // per lane: generation, current uid
    let mut st: Vec<(usize, u64)> = vec![(0, 0); lanes];
    let noise_id = ids.next(&mut r);
    if noise {
        // keeps the outbound queue busy
        let mut m = Msg::stream(noise_id, 1 << 50, 400);
        m.size = 1000;
        led.sent(&m);
        raw.send(&m);
    }
    let mut p = Patience::new();
    let mut cancelled = vec![];
    let mut trail = String::new();
    loop {
        for k in 0..lanes {
            let cur = st[k].1;
            let free = cur == 0 || led.by_uid.get(&cur).is_none_or(|e| e.done() || e.cancelled);
            if free && st[k].0 < gens {
                st[k].0 += 1;
                let id = lane_ids[k];
                // usually real work; sometimes a declined call, or one that is cancelled and immediately followed by the next
                match r.below(8) {
                    0 => {
                        let m = Msg::req(id, uid, DECLINE);
                        raw.send(&m);
                        trail.push('d');
                    }
                    1 | 2 => {
                        let mut m = match r.below(4) {
                            0 => Msg::req(id, uid, NEVER_UNARY),
                            1 => Msg { n: 3, ..Msg::req(id, uid, NEVER_STREAM) },
                            2 => Msg::stream(id, uid, 30),
                            _ => Msg::req(id, uid, UNARY),
                        };
                        m.yields = r.below(3) as u32;
                        led.sent(&m);
                        raw.send(&m);
                        if r.chance(1, 2) {
                            raw.flush(usize::MAX);
                            turns(&slot, r.below(4)).await;
                        }
                        led.cancel_sent(id);
                        raw.send(&Msg::ctl(id, CANCEL));
                        cancelled.push(uid);
                        trail.push('c');
                    }
                    k => {
                        let mut m = if k % 2 == 0 { Msg::stream(id, uid, r.below(20) as u32) } else { Msg::req(id, uid, UNARY) };
                        m.size = r.pick(&[0, 10, 400]);
                        m.yields = r.below(2) as u32;
                        led.sent(&m);
                        raw.send(&m);
                        trail.push(if k % 2 == 0 { 's' } else { 'u' });
                    }
                }
                st[k].1 = uid;
                uid += 1;
            }
        }
        raw.flush(usize::MAX);
        let pulls = if slow { r.range(1, 3000) } else { 1 << 16 };
        raw.pull(pulls)?;
        led.take(&mut raw)?;
        s.w.check()?;
        ensure!(!raw.over(), "the server closed a connection that did nothing wrong");
        if st.iter().all(|x| x.0 == gens) && led.all_done() && raw.flushed() {
            break;
        }
        p.wait(&slot, s.w.progress() + raw.progress(), || format!("a call on a reused id is not served: {:?} (history {trail})", led.missing().into_iter().take(5).collect::<Vec<_>>())).await?;
    }
    finish(&slot, &s, &mut raw, &mut led).await?;
    let w = s.w.clone();
    wait_until(&slot, "cancelled and completed calls to be dropped", || w.l().live_calls == 0).await?;
    c.d(trail);
    c.count("calls", uid);
    c.count("cancelled", cancelled.len() as u64);
    Ok(())
}
pub fn c18_server_memory(c: &mut Case) -> Res {
    both!(c, server_memory)
}
async fn server_memory<C: Codec>(c: &mut Case) -> Res {
    let slot = c.slot.clone();
    let mut r = c.rng.fork();
    let kind = (c.index % 6) as usize;
    let per = 400usize;
    let rounds = 20;
    let q = r.pick(&[4, 64, 128]);
    let same_ids = r.chance(1, 3);
    c.d(format!("kind={} q={q} same_ids={same_ids}", ["unary", "stream", "cancelled", "declined", "stray-controls", "mixed"][kind]));
    let w = W::default();
    w.l().lean = true;
    let s = serve_on::<C>(w, 0, q).await?;
    let mut raw = Raw::connect(s.addr, C::C, 0).await?;
    let mut levels = vec![];
    let mut next = 1u64;
    for _ in 0..rounds {
        let mut sent = 0;
        let mut open = 0i64;
        let mut p = Patience::new();
        loop {
            while sent < per && open < 32 {
                let id = if same_ids { (next % 1009) + 1 } else { next };
                next += 1;
                sent += 1;
                let k = if kind == 5 { r.below(5) } else { kind };
                let uid = next;
                match k {
                    0 => {
                        raw.send(&Msg { body: vec![], ..Msg::req(id, uid, UNARY) });
                        open += 1;
                    }
                    1 => {
                        raw.send(&Msg { body: vec![], ..Msg::stream(id, uid, 2) });
                        open += 1;
                    }
                    2 => {
                        let op = r.pick(&[NEVER_UNARY, NEVER_STREAM]);
                        raw.send(&Msg { body: vec![], n: 0, ..Msg::req(id, uid, op) });
                        raw.send(&Msg::ctl(id, CANCEL));
                    }
                    3 => raw.send(&Msg { body: vec![], ..Msg::req(id, uid, DECLINE) }),
                    _ => raw.send(&Msg::ctl(id, r.pick(&[CANCEL, END, 9]))),
                }
            }
            raw.flush(usize::MAX);
            raw.pull(1 << 16)?;
            while let Some(m) = raw.got.pop_front() {
                // a unary response, or the end of a stream
                if m.code == END || (m.idx == 0 && r_is_unary(&m, kind)) {
                    open -= 1;
                }
            }
            if kind == 5 {
                // mixed: completion is judged by the service
                open = s.w.l().live_calls;
            }
            ensure!(!raw.over(), "connection closed");
            let live_calls = s.w.l().live_calls;
            if sent == per && raw.flushed() && live_calls == 0 && open <= 0 {
                break;
            }
            let pr = s.w.l().total_drops + raw.progress();
            p.wait(&slot, pr, || format!("{open} calls stay open")).await?;
        }
        settle(&slot).await;
        raw.pull(1 << 16)?;
        raw.got.clear();
        levels.push(live());
    }
    flat(&levels, per, 5)?;
    c.count("calls", (per * rounds) as u64);
    Ok(())
}
fn r_is_unary(_m: &Msg, kind: usize) -> bool {
    kind == 0
}
/// memory must not go up round after round
pub fn flat(levels: &[i64], per: usize, warm: usize) -> Res {
    let l = &levels[warm..];
    let mut steps: Vec<i64> = l.windows(2).map(|w| w[1] - w[0]).collect();
    steps.sort();
    let median = steps[steps.len() / 2];
    let mid = l.len() / 2;
    let (early, late) = (*l[..mid].iter().max().unwrap(), *l[mid..].iter().min().unwrap());
    ensure!(median < 2 * per as i64 || late < early + 4 * per as i64, "memory grows by {median} bytes in a typical round of {per} calls (levels {levels:?})");
    // containers that double show up rarely but show up
    let n = l.len() as i64 * per as i64;
    let grew = *l[l.len() - 3..].iter().min().unwrap() - l[..3].iter().max().unwrap();
    ensure!(grew < 12 * n + (1 << 16), "memory grew by {grew} bytes over {n} calls (levels {levels:?})");
    Ok(())
}
