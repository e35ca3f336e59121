//! C01 - C07: scenarios on one connection.
use crate::conn::*;
use crate::core::*;
use crate::ensure;
use crate::net::*;

fn gen_max(r: &mut Rng) -> usize {
    match r.below(12) {
        0 => r.range(1, 16),
        1 | 2 => r.range(16, 200),
        3..=6 => r.range(200, 6_000),
        7..=9 => r.range(6_000, 120_000),
        10 => r.range(120_000, 1 << 20),
        _ => 1 << r.range(3, 16),
    }
}
pub fn gen_hint(r: &mut Rng) -> Hint {
    match r.below(10) {
        0..=4 => Hint::Total,
        5 => Hint::Remaining,
        6 => Hint::Payload,
        7 => Hint::One,
        8 => Hint::Zero,
        _ => Hint::Max,
    }
}
fn gen_p(r: &mut Rng) -> P {
    let mut p = P::new(gen_max(r), gen_max_q(r));
    p.hint = gen_hint(r);
    p.bufs = gen_bufs(r);
    p.inject = gen_inject(r);
    p.chan = if r.chance(1, 4) { r.range(1, 300) } else { p.max_q };
    if p.inject.short_write > 0 {
        // tiny segments in tiny socket buffers crawl along on the kernel's timers
        p.bufs = Bufs::default();
    }
    p
}
fn some_out(r: &mut Rng, p: &P, n: usize) -> Vec<usize> {
    if r.chance(1, 3) {
        vec![]
    } else {
        gen_out(r, p.max_buf, n, 60_000, true)
    }
}
fn holds(r: &mut Rng, total: usize, n: usize) -> Vec<usize> {
    (0..n).map(|_| r.below(total + 1)).collect()
}
pub fn finish_clean(d: &mut Duplex) -> impl std::future::Future<Output = Res> + '_ {
    async move {
        // the connection is still healthy: it has not ended by itself and is not about to
        turns(&d.slot.clone(), 3).await;
        d.check()?;
        ensure!(!d.ended(), "the connection ended although nothing asked it to");
        Ok(())
    }
}

// ------------------------------------------------------------------ C01
pub fn c01_segments(c: &mut Case) -> Res {
    let r = &mut c.rng;
    let mut p = gen_p(r);
    let budget = if p.max_buf > 200_000 { p.max_buf * 4 } else { r.range(500, 120_000) };
    let n = r.range(1, 500);
    let spec = gen_frames(r, p.max_buf, budget, n, true);
    let inb = Inbound::build(r.u64(), &spec);
    let mut plan = Plan::new(gen_seg(r, &p), some_out(r, &p, 40));
    plan.lockstep = r.chance(1, 3);
    plan.pace = r.pick(&[1, 1, 2, 5]);
    if r.chance(1, 4) {
        let n = r.range(1, 3);
        plan.w_holds = holds(r, inb.bytes.len(), n);
    }
    let (n_in, nb) = (inb.frames.len(), inb.bytes.len());
    tame(&mut p, nb, plan.out.iter().sum());
    describe(c, &p, &plan, n_in, nb);
    block_on(async {
        let mut d = Duplex::start(c, &p, inb).await?;
        exchange(c, &mut d, &plan).await?;
        finish_clean(&mut d).await
    })
}
/// far more messages in one burst than a batch holds
pub fn c01_burst(c: &mut Case) -> Res {
    let r = &mut c.rng;
    let mut p = gen_p(r);
    p.max_buf = r.range(300, 300_000);
    p.inject = Inject::default();
    let n = p.max_q * r.range(2, 5) + r.range(0, 3);
    let mut spec: Vec<(Kind, usize)> = (0..n)
        .map(|_| match r.below(6) {
            0 => (Kind::Skip, r.range(5, 30)),
            1 => (Kind::Short, 1),
            _ => (Kind::Long, r.range(5, 40)),
        })
        .collect();
    if r.chance(1, 2) {
        spec.push((Kind::Long, r.range(5, p.max_buf)));
    }
    let inb = Inbound::build(r.u64(), &spec);
    let plan = Plan::new(Seg::All, vec![]);
    let (n_in, nb) = (inb.frames.len(), inb.bytes.len());
    tame(&mut p, nb, plan.out.iter().sum());
    describe(c, &p, &plan, n_in, nb);
    block_on(async {
        let mut d = Duplex::start(c, &p, inb).await?;
        exchange(c, &mut d, &plan).await?;
        let b = d.l().max_batch;
        c.count("largest_batch_sum", b);
        finish_clean(&mut d).await
    })
}
/// messages and buffers of several MiB
pub fn c01_large(c: &mut Case) -> Res {
    let r = &mut c.rng;
    let mut p = P::new(r.pick(&[(2 << 20) - 1, 2 << 20, (2 << 20) + 1, 3 << 20, 4 << 20, 5 << 20, 8 << 20]), gen_max_q(r));
    p.hint = gen_hint(r);
    let mut spec = Vec::new();
    let k = r.range(2, 4);
    for _ in 0..k {
        for _ in 0..r.below(6) {
            spec.push((r.pick(&[Kind::Long, Kind::Skip, Kind::Short]), r.range(5, 5000)));
        }
        let big = match r.below(4) {
            0 => p.max_buf,
            1 => p.max_buf - r.below(20),
            2 => p.max_buf / 2 + r.below(2000),
            _ => r.range(1 << 20, p.max_buf),
        };
        spec.push((if r.chance(1, 5) { Kind::Skip } else { Kind::Long }, big));
    }
    spec.push((Kind::Short, 1));
    let inb = Inbound::build(r.u64(), &spec);
    let plan = Plan::new(r.pick(&[Seg::All, Seg::Fixed(70_000), Seg::AroundFrames, Seg::Mixed]), vec![]);
    let (n_in, nb) = (inb.frames.len(), inb.bytes.len());
    tame(&mut p, nb, plan.out.iter().sum());
    describe(c, &p, &plan, n_in, nb);
    block_on(async {
        let mut d = Duplex::start(c, &p, inb).await?;
        exchange(c, &mut d, &plan).await?;
        finish_clean(&mut d).await
    })
}
/// every split point of a short stream, for a small buffer limit
pub fn c01_splits(c: &mut Case) -> Res {
    let r = &mut c.rng;
    let max = r.range(8, 40);
    let mut p = P::new(max, r.pick(&[1, 2, 3, 5, 128]));
    p.hint = gen_hint(r);
    let spec = gen_frames(r, max, 70, 8, true);
    let seed = r.u64();
    let one = Inbound::build(seed, &spec);
    let nb = one.bytes.len();
    c.d(format!("{p:?} spec={spec:?}"));
    block_on(async {
        for split in 1..nb {
            let mut d = Duplex::start(c, &p, Inbound::build(seed, &spec)).await?;
            let mut plan = Plan::new(Seg::All, vec![]);
            plan.w_holds = vec![split];
            exchange(c, &mut d, &plan).await.map_err(|e| match e {
                Bad::Violation(m) => Bad::Violation(format!("split at {split}: {m}")),
                Bad::Stall(m) => Bad::Stall(format!("split at {split}: {m}")),
                e => e,
            })?;
            finish_clean(&mut d).await?;
            c.count("splits", 1);
        }
        Ok(())
    })
}

// ------------------------------------------------------------------ C02
pub fn c02_out(c: &mut Case) -> Res {
    let r = &mut c.rng;
    let mut p = gen_p(r);
    p.max_buf = p.max_buf.max(8);
    let budget = r.pick(&[5_000, 100_000, 600_000]);
    let n = r.pick(&[5, 100, 600, 1500]);
    let out = gen_out(r, p.max_buf, n, budget, true);
    let total: usize = out.iter().sum();
    let spec = if r.chance(1, 2) { gen_frames(r, p.max_buf, 3000, 60, true) } else { vec![] };
    let inb = Inbound::build(r.u64(), &spec);
    let mut plan = Plan::new(gen_seg(r, &p), out);
    plan.read_chunk = r.pick(&[7, 500, 5_000, 1 << 16]);
    if total > 50_000 {
        plan.read_chunk = plan.read_chunk.max(5_000);
    }
    plan.submit_burst = r.pick(&[1, 3, 64, 400]);
    let k = r.below(3);
    plan.r_holds = holds(r, total, k);
    let k = r.below(2);
    plan.a_holds = holds(r, plan.out.len(), k);
    plan.pace = r.pick(&[1, 1, 3]);
    let (n_in, nb) = (inb.frames.len(), inb.bytes.len());
    tame(&mut p, nb, plan.out.iter().sum());
    describe(c, &p, &plan, n_in, nb);
    block_on(async {
        let mut d = Duplex::start(c, &p, inb).await?;
        exchange(c, &mut d, &plan).await?;
        finish_clean(&mut d).await
    })
}
/// many queued messages (more than an iovec holds), peer does not read until all of them are stuck
pub fn c02_queue(c: &mut Case) -> Res {
    let r = &mut c.rng;
    let mut p = P::new(1 << 20, r.pick(&[1, 2, 127, 128, 129, 256, 300, 513, 1024]));
    p.bufs = Bufs { ours: r.pick(&[4096, 20_000]), theirs: 4096 };
    p.inject = if r.chance(1, 2) { gen_inject(r) } else { Inject::default() };
    if p.inject.short_write > 0 {
        p.bufs = Bufs::default();
    }
    let n = p.max_q * 3 + r.below(10);
    let len = r.pick(&[1, 9, 300, 2500]).min(1 + 3_000_000 / n);
    let out: Vec<usize> = (0..n).map(|_| r.range(1, len)).collect();
    let mut plan = Plan::new(Seg::All, out);
    plan.r_holds = vec![0, r.range(1, 30_000)];
    plan.submit_burst = r.pick(&[1, 1000]);
    tame(&mut p, 0, plan.out.iter().sum());
    describe(c, &p, &plan, 0, 0);
    block_on(async {
        let mut d = Duplex::start(c, &p, Inbound::default()).await?;
        exchange(c, &mut d, &plan).await?;
        finish_clean(&mut d).await
    })
}
/// several senders on several threads: per-sender order, nothing lost, repeated or torn
pub fn c02_senders(c: &mut Case) -> Res {
    use protosocket::Connection;
    use std::sync::{Arc, Mutex};
    let r = &mut c.rng;
    let threads = r.range(2, 4);
    let senders = r.range(2, 6);
    let per = r.range(20, 400);
    let max_q = gen_max_q(r);
    let size = r.pick(&[24usize, 100, 4000]);
    let seed = r.u64();
    c.d(format!("threads={threads} senders={senders} per={per} max_q={max_q} size={size}"));
    let slot = c.slot.clone();
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(threads).enable_all().build().map_err(|e| Bad::Inconclusive(e.to_string()))?;
    let res: Res<u64> = rt.block_on(async move {
        let (ours, peer) = pair(Bufs::default()).await?;
        let addr = ours.peer_addr()?;
        let log: L = Arc::new(Mutex::new(Log { seed, max_buf: 1 << 20, ..Default::default() }));
        let (tx, rx) = tokio::sync::mpsc::channel(max_q);
        let conn: Connection<BTag> = Connection::new(ours, addr, Dec { log: log.clone(), hint: Hint::Total }, TagSer { log: log.clone() }, 1 << 20, max_q, rx, Rx { log: log.clone(), disconnect_at: None, echo: None });
        let task = tokio::spawn(conn);
        let mut hs = vec![];
        for s in 0..senders {
            let tx = tx.clone();
            hs.push(tokio::spawn(async move {
                for i in 0..per {
                    if tx.send(Tag { s: s as u32, i: i as u32, len: 16 + (i * 7 + s) % size }).await.is_err() {
                        return false;
                    }
                }
                true
            }));
        }
        drop(tx);
        // all senders end: the connection must flush and close
        let mut buf = vec![];
        let mut next = vec![0u32; senders];
        let mut got = 0u64;
        let mut tmp = vec![0u8; 1 << 16];
        let mut p = Patience::new();
        let mut total = 0u64;
        loop {
            match try_read(&peer, &mut tmp) {
                Got::Bytes(n) => {
                    total += n as u64;
                    buf.extend_from_slice(&tmp[..n])
                }
                Got::Eof => break,
                Got::Reset => return violation("reset while senders were still sending"),
                Got::Nothing => p.wait(&slot, total, || format!("wire went quiet after {got} messages of {}", senders * per)).await?,
            }
            let mut at = 0;
            while buf.len() - at >= 12 {
                let w = |o: usize| u32::from_le_bytes(buf[at + o..at + o + 4].try_into().unwrap());
                let (s, i, len) = (w(0) as usize, w(4), w(8) as usize);
                ensure!(s < senders && len < 12 + 16 + size, "torn message on the wire: s={s} i={i} len={len}");
                if buf.len() - at < 12 + len {
                    break;
                }
                ensure!(i == next[s], "sender {s}: message {i} arrived when {} was due", next[s]);
                ensure!(buf[at + 12..at + 12 + len] == fill(s as u64, i as u64, len)[..], "payload of message {s}/{i} altered");
                next[s] += 1;
                got += 1;
                at += 12 + len;
            }
            buf.drain(..at);
        }
        ensure!(buf.is_empty(), "{} stray bytes at the end of the stream", buf.len());
        ensure!(got == (senders * per) as u64, "{got} of {} messages arrived before the connection closed", senders * per);
        for h in hs {
            ensure!(h.await.unwrap_or(false), "a sender saw a closed channel");
        }
        let _ = task.await;
        Ok(got)
    });
    rt.shutdown_timeout(std::time::Duration::from_secs(5));
    let n = res?;
    c.count("outbound_messages", n);
    Ok(())
}
#[derive(Debug)]
pub struct Tag {
    s: u32,
    i: u32,
    len: usize,
}
pub struct TagSer {
    log: L,
}
impl protosocket::Serializer for TagSer {
    type Message = Tag;
    fn encode(&mut self, m: Tag, b: &mut Vec<u8>) {
        lk(&self.log).encoded += 1;
        b.extend_from_slice(&m.s.to_le_bytes());
        b.extend_from_slice(&m.i.to_le_bytes());
        b.extend_from_slice(&(m.len as u32).to_le_bytes());
        b.extend_from_slice(&fill(m.s as u64, m.i as u64, m.len));
    }
}
pub struct BTag;
impl protosocket::ConnectionBindings for BTag {
    type Deserializer = Dec;
    type Serializer = TagSer;
    type Reactor = Rx;
}

// ------------------------------------------------------------------ C03
pub fn c03_stalls(c: &mut Case) -> Res {
    let r = &mut c.rng;
    let mut p = gen_p(r);
    p.max_buf = p.max_buf.max(16);
    p.bufs = if r.chance(2, 3) { Bufs { ours: 4096, theirs: 4096 } } else { gen_bufs(r) };
    if r.chance(2, 3) {
        p.inject = Inject::default();
    }
    let n = r.pick(&[10, 100, 400]);
    let budget = r.pick(&[20_000, 150_000, 400_000]);
    let out = gen_out(r, p.max_buf.min(20_000), n, budget, true);
    let total: usize = out.iter().sum();
    let n = r.pick(&[3, 50, 400]);
    let ib = r.range(200, 60_000).max(p.max_buf.min(200_000) * 2);
    let spec = gen_frames(r, p.max_buf, ib, n, true);
    let inb = Inbound::build(r.u64(), &spec);
    let mut plan = Plan::new(gen_seg(r, &p), out);
    plan.read_chunk = r.pick(&[3000, 1 << 16]);
    plan.submit_burst = r.pick(&[1, 64, 500]);
    plan.lockstep = r.chance(1, 3);
    let (a, b, d) = (r.below(4), r.below(4), r.below(3));
    plan.w_holds = holds(r, inb.bytes.len(), a);
    plan.r_holds = holds(r, total, b);
    plan.a_holds = holds(r, plan.out.len(), d);
    let (n_in, nb) = (inb.frames.len(), inb.bytes.len());
    tame(&mut p, nb, plan.out.iter().sum());
    describe(c, &p, &plan, n_in, nb);
    block_on(async {
        let mut d = Duplex::start(c, &p, inb).await?;
        exchange(c, &mut d, &plan).await?;
        finish_clean(&mut d).await
    })
}
/// the outbound direction is wedged solid; inbound must flow, then outbound must recover on its own
pub fn c03_wedged(c: &mut Case) -> Res {
    let r = &mut c.rng;
    let mut p = P::new(r.range(100, 70_000), gen_max_q(r));
    p.hint = gen_hint(r);
    p.bufs = Bufs { ours: 4096, theirs: 4096 };
    let len = r.range(1, p.max_buf.min(5000));
    let n = p.max_q * 3 + 2 + 40_000 / len;
    let out: Vec<usize> = vec![len; n.min(4000)];
    let spec = {
        let n = r.range(2, 300);
        gen_frames(r, p.max_buf, 100_000.max(p.max_buf * 2), n, true)
    };
    let inb = Inbound::build(r.u64(), &spec);
    let mut plan = Plan::new(gen_seg(r, &p), out);
    plan.r_holds = vec![0];
    plan.submit_burst = 5000;
    // the peer starts writing only when outbound is already stuck
    if r.chance(1, 2) {
        plan.w_holds = vec![0];
    }
    let (n_in, nb) = (inb.frames.len(), inb.bytes.len());
    tame(&mut p, nb, plan.out.iter().sum());
    describe(c, &p, &plan, n_in, nb);
    block_on(async {
        let mut d = Duplex::start(c, &p, inb).await?;
        exchange(c, &mut d, &plan).await?;
        finish_clean(&mut d).await
    })
}
/// request/response style ping-pong where the reactor answers from inside its callback
pub fn c03_echo(c: &mut Case) -> Res {
    let r = &mut c.rng;
    let mut p = P::new(r.range(40, 5000), r.pick(&[1, 2, 4, 64, 128, 300]));
    p.hint = gen_hint(r);
    p.echo = Some(r.range(1, p.max_buf.min(300)));
    p.bufs = gen_bufs(r);
    let n = r.range(10, 600);
    let spec = gen_frames(r, p.max_buf, 60_000, n, true);
    let inb = Inbound::build(r.u64(), &spec);
    let mut plan = Plan::new(gen_seg(r, &p), vec![]);
    plan.lockstep = r.chance(1, 2);
    plan.read_chunk = r.pick(&[200, 1 << 16]);
    if r.chance(1, 2) {
        plan.r_holds = vec![0, r.range(1, 2000)];
    }
    let (n_in, nb) = (inb.frames.len(), inb.bytes.len());
    tame(&mut p, nb, plan.out.iter().sum());
    describe(c, &p, &plan, n_in, nb);
    block_on(async {
        let mut d = Duplex::start(c, &p, inb).await?;
        exchange(c, &mut d, &plan).await?;
        finish_clean(&mut d).await
    })
}

// ------------------------------------------------------------------ C04
/// peer: write everything, close in an orderly way at once
pub fn c04_eof(c: &mut Case) -> Res {
    let r = &mut c.rng;
    let mut p = gen_p(r);
    p.inject = if r.chance(1, 4) { Inject { short_read: r.pick(&[1, 5, 500]), ..Default::default() } } else { Inject::default() };
    if c.no_inject {
        p.inject = Inject::default();
    }
    let n = r.pick(&[1, 3, p.max_q, p.max_q + 1, p.max_q * 3 + 1, 700]);
    let b = r.pick(&[2_000, 50_000]);
    let mut spec = gen_frames(r, p.max_buf, b, n, true);
    // a trailing partial frame must not hurt the complete ones before it
    let partial = p.max_buf >= HEADER + 2 && r.chance(1, 3);
    if partial {
        spec.push((if r.chance(1, 3) { Kind::Skip } else { Kind::Long }, r.range(HEADER + 1, p.max_buf)));
    }
    let mut inb = Inbound::build(r.u64(), &spec);
    if partial {
        let f = *inb.frames.last().unwrap();
        let keep = r.range(1, f.len - 1);
        inb.bytes.truncate(f.off + keep);
        if f.kind == Kind::Long {
            inb.deliver.pop();
        }
    }
    let seg = gen_seg(r, &p);
    let half = r.chance(2, 3);
    let parked = r.chance(1, 2);
    let out = r.below(3) * 5;
    c.d(format!("{p:?} frames={} partial={partial} seg={seg:?} half_close={half} parked={parked} out={out}", inb.frames.len()));
    block_on(async {
        let mut d = Duplex::start(c, &p, inb).await?;
        let slot = d.slot.clone();
        if parked {
            turns(&slot, 3).await;
        }
        for _ in 0..out {
            d.submit(10.min(p.max_buf));
        }
        let mut pat = Patience::new();
        let lumps = c.rng.chance(1, 2);
        let mut rr = c.rng.fork();
        loop {
            let (w, t) = {
                let l = d.l();
                (l.written, l.inb.bytes.len())
            };
            if w == t {
                break;
            }
            let n = seg.next(&mut rr, w, &d.l().inb);
            let k = d.write_some(n);
            // let it run now and then; often the close comes in the same breath as the data
            if k == 0 || !lumps {
                d.check()?;
                ensure!(!d.ended(), "the connection ended before the peer closed");
                let pr = d.progress();
                pat.wait(&slot, pr, || "peer can not write".into()).await?;
            }
        }
        if half {
            let sp = d.peer.clone().unwrap();
            use std::os::fd::AsRawFd;
            unsafe { libc::shutdown(sp.as_raw_fd(), libc::SHUT_WR) };
        } else {
            // a full close: the peer reads nothing more. Read what is there, or the close would be a reset.
            if out > 0 {
                wait_until(&slot, "outbound bytes at the peer", || {
                    let _ = d.read_some(1 << 16);
                    d.wire_done()
                })
                .await?;
            }
            d.peer = None;
        }
        d.wait_end("the peer closed its side", half).await?;
        d.check_ended().await?;
        let (del, want) = {
            let l = d.l();
            (l.delivered, l.inb.deliver.len())
        };
        ensure!(del == want, "{del} of {want} messages that arrived before the orderly end of stream were delivered");
        c.count("inbound_messages", del as u64);
        c.count("eof_closes", 1);
        c.nontrivial = want > 0;
        Ok(())
    })
}
/// application: send, drop the last sender; everything accepted must reach the peer, then end of stream
pub fn c04_sender_drop(c: &mut Case) -> Res {
    let r = &mut c.rng;
    let mut p = gen_p(r);
    p.max_buf = p.max_buf.max(8);
    p.chan = r.pick(&[p.max_q, p.max_q * 4 + 3, 1000]);
    let n = r.pick(&[1, 2, p.max_q, p.max_q + 1, p.max_q * 3 + 1, 600]);
    let budget = r.pick(&[3000, 60_000, 600_000]);
    let out = gen_out(r, p.max_buf, n, budget, true);
    let run_first = r.below(4);
    let hold = r.chance(1, 2);
    let mut spec = if r.chance(1, 3) { gen_frames(r, p.max_buf, 2000, 20, true) } else { vec![] };
    // when a delivered message comes last, every byte has been read once all are delivered (a trailing skipped one shows nowhere)
    spec.push((Kind::Short, HEADER));
    let inb = Inbound::build(r.u64(), &spec);
    let clones = r.range(1, 4);
    let async_last = r.chance(1, 3);
    tame(&mut p, inb.bytes.len(), out.iter().sum());
    c.d(format!("{p:?} out={} bytes={} run_first={run_first} hold={hold} inbound={} clones={clones} async_last={async_last}", out.len(), out.iter().sum::<usize>(), spec.len()));
    block_on(async {
        let mut d = Duplex::start(c, &p, inb).await?;
        let slot = d.slot.clone();
        // inbound first and completely, so that the close can not turn into a reset
        exchange(c, &mut d, &Plan::new(Seg::All, vec![])).await?;
        let extra: Vec<_> = (0..clones).map(|_| d.tx.clone()).collect();
        let mut pat = Patience::new();
        for len in &out {
            loop {
                match d.submit(*len) {
                    Some(true) => break,
                    Some(false) => {
                        if !hold {
                            d.read_some(1 << 16)?;
                        } else {
                            // the peer does not read: whatever was accepted by now is what has to arrive
                        }
                        let pr = d.progress();
                        if hold && pat_quiet(&mut d).await {
                            break;
                        }
                        pat.wait(&slot, pr, || "queue stays full".into()).await?;
                    }
                    None => return violation("senders see a closed channel on a live connection"),
                }
            }
            if run_first == 3 && c.rng.chance(1, 5) {
                d.turn().await;
            }
        }
        if run_first == 1 {
            d.turn().await;
        }
        if run_first == 2 {
            settle(&slot).await;
        }
        drop(extra);
        let tx = d.tx.take();
        if async_last {
            tokio::spawn(async move {
                tokio::task::yield_now().await;
                drop(tx);
            });
        } else {
            drop(tx);
        }
        if hold {
            turns(&slot, 20).await;
        }
        d.wait_end("every sender is gone and the peer reads", true).await?;
        d.check_ended().await?;
        d.peer_sees_end().await?;
        let (got, want) = d.wire();
        ensure!(got == want, "{got} of {want} bytes accepted before the last sender was dropped reached the peer");
        ensure!(!d.peer_reset, "the peer saw a reset instead of an end of stream");
        c.count("outbound_messages", d.l().submitted);
        c.count("outbound_bytes", d.l().out_read as u64);
        c.count("injected_faults", injected_hits());
        Ok(())
    })
}
/// nothing has moved for a while
async fn pat_quiet(d: &mut Duplex) -> bool {
    let a = d.progress();
    turns(&d.slot.clone(), 30).await;
    d.progress() == a
}

// ------------------------------------------------------------------ C05
pub fn c05_limit_ok(c: &mut Case) -> Res {
    // at and just below the limit, both directions, with anything before and after it
    let r = &mut c.rng;
    let mut p = gen_p(r);
    p.max_buf = match r.below(8) {
        0 => r.pick(&[(2 << 20) - 1, 2 << 20, (2 << 20) + 1, 4 << 20]),
        1 => r.range(1, 30),
        _ => p.max_buf.max(8),
    };
    if p.max_buf > 300_000 {
        p.inject = Inject::default();
        p.bufs = Bufs::default();
    }
    let max = p.max_buf;
    let mut spec = vec![];
    for _ in 0..r.range(1, if max > 300_000 { 2 } else { 5 }) {
        for _ in 0..r.below(4) {
            spec.push((Kind::Long, r.range(HEADER, max.min(50).max(HEADER))));
        }
        spec.push((Kind::Long, max - r.below(3).min(max - 1)));
    }
    if max < HEADER + 3 {
        spec = vec![(Kind::Short, 1); r.range(1, 20)];
    }
    let mut out = vec![];
    for _ in 0..r.range(1, 3) {
        for _ in 0..r.below(4) {
            out.push(r.range(1, max.min(50)));
        }
        out.push(max - r.below(3).min(max - 1));
    }
    let inb = Inbound::build(r.u64(), &spec);
    let mut plan = Plan::new(gen_seg(r, &p), out);
    plan.lockstep = r.chance(1, 3);
    let k = r.below(2);
    plan.w_holds = holds(r, inb.bytes.len(), k);
    let (n_in, nb) = (inb.frames.len(), inb.bytes.len());
    tame(&mut p, nb, plan.out.iter().sum());
    describe(c, &p, &plan, n_in, nb);
    block_on(async {
        let mut d = Duplex::start(c, &p, inb).await?;
        exchange(c, &mut d, &plan).await?;
        finish_clean(&mut d).await
    })
}
/// an inbound message above the limit: intact or closed, never stuck, never anything else
pub fn c05_in_oversize(c: &mut Case) -> Res {
    let r = &mut c.rng;
    let mut p = gen_p(r);
    p.max_buf = p.max_buf.clamp(8, 400_000);
    let max = p.max_buf;
    let mut spec = {
        let n = r.below(20);
        let b = r.range(1, 20_000);
        gen_frames(r, max, b, n, true)
    };
    let over = match r.below(5) {
        0 => max + 1,
        1 => max + r.range(1, 20),
        2 => max * 2 + r.below(100),
        3 => max + (2 << 20) + r.below(50),
        _ => max + r.range(1, 3_000_000),
    };
    let big = spec.len();
    // an oversized message that the decoder skips counts as oversized as well
    let skip = r.chance(1, 6);
    spec.push((if skip { Kind::Skip } else { Kind::Long }, over));
    let n = r.below(10);
    spec.extend(gen_frames(r, max, 4000, n, true));
    let inb = Inbound::build(r.u64(), &spec);
    let before = inb.deliver.iter().filter(|i| **i < big).count();
    let seg = r.pick(&[Seg::All, Seg::Frames, Seg::AroundFrames, Seg::Fixed(max), Seg::Mixed]);
    c.d(format!("{p:?} frames={} oversize={over}@{big} skip={skip} seg={seg:?}", inb.frames.len()));
    block_on(async {
        let mut d = Duplex::start(c, &p, inb).await?;
        let slot = d.slot.clone();
        let mut pat = Patience::new();
        let mut rr = c.rng.fork();
        loop {
            d.check()?;
            if d.ended() || d.inbound_done() {
                break;
            }
            let (w, t) = {
                let l = d.l();
                (l.written, l.inb.bytes.len())
            };
            if w < t {
                let n = seg.next(&mut rr, w, &d.l().inb);
                d.write_some(n);
            }
            let pr = d.progress();
            pat.wait(&slot, pr, || format!("a message of {over} bytes (limit {max}) leaves the connection open and stuck; delivered {}", d.delivered())).await?;
        }
        if d.ended() {
            c.count("oversize_closed", 1);
            d.check_ended().await?;
            let del = d.l().delivered;
            c.count("oversize_lead_delivered", (del >= before) as u64);
        } else {
            c.count("oversize_delivered_intact", 1);
        }
        Ok(())
    })
}
/// a stream the decoder rejects closes the connection, what came before is what was delivered
pub fn c05_invalid(c: &mut Case) -> Res {
    let r = &mut c.rng;
    let p = gen_p(r);
    let n = r.pick(&[0, 1, 5, p.max_q, p.max_q * 2 + 3]);
    let b = r.range(1, 20_000);
    let mut spec = gen_frames(r, p.max_buf, b, n, true);
    let bad = spec.len();
    spec.push((Kind::Invalid, 1));
    let n = r.below(5);
    spec.extend(gen_frames(r, p.max_buf, 500, n, true));
    let mut inb = Inbound::build(r.u64(), &spec);
    inb.deliver.retain(|i| *i < bad);
    let seg = gen_seg(r, &p);
    let out = if r.chance(1, 2) { 0 } else { r.below(p.max_q * 2) };
    c.d(format!("{p:?} frames={} invalid@{bad} seg={seg:?} out={out}", inb.frames.len()));
    block_on(async {
        let mut d = Duplex::start(c, &p, inb).await?;
        let slot = d.slot.clone();
        for _ in 0..out {
            d.submit(1);
        }
        let mut pat = Patience::new();
        let mut rr = c.rng.fork();
        while !d.ended() {
            d.check()?;
            let (w, t) = {
                let l = d.l();
                (l.written, l.inb.bytes.len())
            };
            if w < t {
                let n = seg.next(&mut rr, w, &d.l().inb);
                d.write_some(n);
            }
            let pr = d.progress();
            pat.wait(&slot, pr, || "the decoder rejected the stream but the connection stays open".into()).await?;
        }
        d.check_ended().await?;
        d.peer_sees_end().await?;
        c.count("invalid_closes", 1);
        Ok(())
    })
}
/// an outbound message above the limit: none of it on the wire, and the connection closes
pub fn c05_out_oversize(c: &mut Case) -> Res {
    let r = &mut c.rng;
    let mut p = gen_p(r);
    p.max_buf = p.max_buf.clamp(2, 300_000);
    let max = p.max_buf;
    let n = r.pick(&[0, 1, 5, 200]);
    let mut out = if n == 0 { vec![] } else { gen_out(r, max, n, 30_000, true) };
    let over = max + r.pick(&[1, 1, 2, max, 3_000_000]);
    out.push(over);
    for _ in 0..r.below(4) {
        out.push(r.range(1, max));
    }
    let first_run = r.chance(1, 2);
    c.d(format!("{p:?} out={} oversize={over}", out.len()));
    block_on(async {
        let mut d = Duplex::start(c, &p, Inbound::default()).await?;
        let slot = d.slot.clone();
        if first_run {
            turns(&slot, 3).await;
        }
        let mut i = 0;
        let mut pat = Patience::new();
        while !d.ended() {
            if i < out.len() {
                match d.submit(out[i]) {
                    Some(true) => i += 1,
                    _ => {}
                }
            }
            d.read_some(1 << 16)?;
            d.check()?;
            let pr = d.progress();
            pat.wait(&slot, pr, || format!("a message of {over} bytes was submitted with a limit of {max}, and the connection neither closed nor moved")).await?;
        }
        d.check_ended().await?;
        d.peer_sees_end().await?;
        c.count("oversize_out_closed", 1);
        Ok(())
    })
}

// ------------------------------------------------------------------ C06
/// peer does not read: how much does the connection take from the application?
pub fn c06_backpressure(c: &mut Case) -> Res {
    let r = &mut c.rng;
    let mut p = P::new(1 << 20, gen_max_q(r));
    p.bufs = Bufs { ours: r.pick(&[4096, 16_384]), theirs: r.pick(&[4096, 16_384]) };
    let len = r.pick(&[64, 700, 4096, 10_000]);
    // the application's channel may hold far more than the connection may take
    if r.chance(1, 3) {
        p.chan = p.max_q * r.range(2, 20);
    }
    // inbound traffic meanwhile gives the connection every occasion to take more
    let inbound = r.chance(1, 2);
    let spec: Vec<_> = if inbound { (0..3000).map(|_| (Kind::Long, r.range(5, 60))).collect() } else { vec![] };
    let inb = Inbound::build(r.u64(), &spec);
    c.d(format!("{p:?} len={len} inbound={inbound}"));
    block_on(async {
        let mut d = Duplex::start(c, &p, inb).await?;
        let slot = d.slot.clone();
        let mut quiet = 0;
        let mut accepted = 0usize;
        let bound_extra = 3 * p.max_q + p.chan + 8;
        let mut rr = c.rng.fork();
        // push until nothing is accepted any more
        while quiet < 150 {
            let mut any = false;
            while d.submit(len) == Some(true) {
                accepted += 1;
                any = true;
                if accepted > bound_extra + 8_000_000 / len {
                    return violation(format!("{accepted} messages of {len} bytes accepted while the peer reads nothing"));
                }
            }
            let k = d.write_some(rr.range(1, 200));
            d.check()?;
            ensure!(!d.ended(), "connection ended under back-pressure");
            quiet = if any || k > 0 { 0 } else { quiet + 1 };
            d.turn().await;
            if quiet > 100 {
                tokio::time::sleep(std::time::Duration::from_millis(1)).await;
            }
        }
        let kernel = unread(d.peer.as_ref().unwrap()) + unsent(d.fd);
        let beyond = accepted.saturating_sub(kernel / len);
        c.count("accepted_messages", accepted as u64);
        c.count("accepted_beyond_kernel", beyond as u64);
        ensure!(beyond <= bound_extra, "{accepted} messages accepted while the peer reads nothing; {} of them beyond what the kernel holds ({kernel} bytes), with a queue limit of {} and a channel of {}", beyond, p.max_q, p.chan);
        let (room, most) = d.tx.as_ref().map(|t| (t.capacity(), t.max_capacity())).unwrap_or_default();
        let taken = accepted - (most - room);
        let beyond = taken.saturating_sub(kernel / len);
        ensure!(beyond <= 3 * p.max_q + 8, "the connection took {taken} messages from the application while the peer reads nothing; {beyond} of them beyond what the kernel holds ({kernel} bytes), with a queue limit of {}", p.max_q);
        // and it is only back-pressure: everything arrives when the peer reads
        let mut pat = Patience::new();
        while !d.wire_done() {
            d.read_some(1 << 16)?;
            let pr = d.progress();
            pat.wait(&slot, pr, || "wire stalled after back-pressure".into()).await?;
        }
        Ok(())
    })
}
/// peer floods: receive memory stays bounded
pub fn c06_flood(c: &mut Case) -> Res {
    let r = &mut c.rng;
    let max = r.pick(&[64usize, 4096, 65_536, 1 << 20, 3 << 20]);
    let mut p = P::new(max, gen_max_q(r));
    p.hint = gen_hint(r);
    let flood = 40 << 20;
    let style = r.below(4);
    let spec: Vec<(Kind, usize)> = {
        let mut v = vec![];
        let mut t = 0;
        while t < flood {
            let k = if style == 2 || (style == 3 && r.chance(1, 3)) { Kind::Skip } else { Kind::Long };
            let n = match style {
                0 => max,
                1 => r.range(max / 2, max),
                _ => r.range(HEADER.max(max / 8), max),
            };
            v.push((k, n.max(2000.min(max)).max(HEADER)));
            t += n.max(2000.min(max));
        }
        v
    };
    if max == 64 {
        // many small ones; keep it quick
        return flood_small(c, p, style);
    }
    let inb = Inbound::build(r.u64(), &spec);
    c.d(format!("{p:?} flood={} frames={} style={style}", inb.bytes.len(), inb.frames.len()));
    flood_run(c, p, inb)
}
fn flood_small(c: &mut Case, p: P, style: usize) -> Res {
    let spec: Vec<_> = (0..150_000).map(|i| (if style == 2 { Kind::Skip } else { Kind::Long }, 20 + i % 45)).collect();
    let inb = Inbound::build(c.rng.u64(), &spec);
    c.d(format!("{p:?} flood={} frames={} style={style}", inb.bytes.len(), inb.frames.len()));
    flood_run(c, p, inb)
}
fn flood_run(c: &mut Case, p: P, inb: Inbound) -> Res {
    let total = inb.bytes.len();
    block_on(async {
        let mut d = Duplex::start(c, &p, inb).await?;
        let slot = d.slot.clone();
        let base = live();
        reset_peak();
        let mut pat = Patience::new();
        while !d.inbound_done() {
            let all_skipped = d.all_written() && d.l().inb.deliver.is_empty();
            if all_skipped {
                break;
            }
            d.write_some(1 << 20);
            d.check()?;
            ensure!(!d.ended(), "connection ended in a flood of valid messages");
            let pr = d.progress();
            pat.wait(&slot, pr, || "flood stalled".into()).await?;
        }
        turns(&slot, 30).await;
        let grew = peak() - base;
        // decoded messages of one batch live beside the buffers
        let bound = (6 * p.max_buf + (24 << 20)) as i64;
        c.count("peak_bytes_sum", grew.max(0) as u64);
        c.count("inbound_bytes", total as u64);
        ensure!(grew <= bound, "receive memory grew to {grew} bytes with a buffer limit of {} while {total} bytes were received", p.max_buf);
        Ok(())
    })
}
/// memory does not grow with the number of messages carried
pub fn c06_growth(c: &mut Case) -> Res {
    let r = &mut c.rng;
    let mut p = P::new(r.pick(&[500usize, 5_000, 70_000]), gen_max_q(r));
    p.hint = gen_hint(r);
    p.inject = if r.chance(1, 2) { Inject { short_write: r.pick(&[3, 50, 900]), short_read: r.pick(&[0, 50, 900]), eintr: 0 } } else { Inject::default() };
    let rounds = 24;
    let per = r.range(100, 400);
    let max = p.max_buf.min(600);
    let skips = r.chance(1, 2);
    let empties = r.chance(1, 2);
    let held = r.chance(1, 2);
    let mut spec = vec![];
    for _ in 0..rounds {
        for _ in 0..per {
            spec.push((if skips && r.chance(1, 4) { Kind::Skip } else { Kind::Long }, r.range(HEADER, max)));
        }
    }
    let inb = Inbound::build(r.u64(), &spec);
    tame(&mut p, inb.bytes.len(), rounds * per * max);
    let ends: Vec<usize> = (1..=rounds).map(|i| inb.frames[i * per - 1].off + inb.frames[i * per - 1].len).collect();
    c.d(format!("{p:?} rounds={rounds} per={per} skips={skips} empties={empties} held={held}"));
    block_on(async {
        let mut d = Duplex::start(c, &p, inb).await?;
        let slot = d.slot.clone();
        // the harness's own logs must not move during the measurement
        lk(&d.log).out_expected.reserve(rounds * per * (max + 1));
        let mut levels = vec![];
        let mut rr = c.rng.fork();
        for end in ends {
            let mut sent = 0;
            let mut pat = Patience::new();
            loop {
                let w = d.l().written;
                if w < end {
                    let n = (end - w).min(rr.range(1, 20_000));
                    d.write_some(n);
                }
                while sent < per && rr.chance(15, 16) {
                    let n = if empties && rr.chance(1, 2) { 0 } else { max };
                    if d.submit(n) != Some(true) {
                        break;
                    }
                    sent += 1;
                }
                if !held || rr.chance(1, 6) {
                    d.read_some(1 << 16)?;
                }
                d.check()?;
                ensure!(!d.ended(), "connection ended");
                let skipping = {
                    let l = d.l();
                    l.written == end && l.inb.frames.iter().zip(0..).take_while(|(f, _)| f.off + f.len <= end).filter(|(f, _)| f.kind == Kind::Long).count() == l.delivered
                };
                if skipping && sent == per && d.wire_done() {
                    break;
                }
                let pr = d.progress();
                pat.wait(&slot, pr, || "stalled".into()).await?;
            }
            turns(&slot, 5).await;
            levels.push(live());
        }
        c.count("messages", (rounds * per * 2) as u64);
        // Buffers may still appear or grow late (a jump), and recycled ones differ in capacity (noise), but memory
        // must not go up from block to block of rounds throughout.
        let mins: Vec<i64> = levels[4..].chunks(5).map(|b| *b.iter().min().unwrap()).collect();
        let grew = levels[rounds - 1] - levels[4];
        let least = mins.windows(2).map(|w| w[1] - w[0]).min().unwrap();
        let mut steps: Vec<i64> = levels[4..].windows(2).map(|w| w[1] - w[0]).collect();
        steps.sort();
        let median = steps[steps.len() / 2];
        ensure!(least < 5 * 8 * per as i64 || median < 2 * per as i64, "memory grows by {least} bytes or more in every 5 rounds of {per} messages each way (levels {levels:?})");
        ensure!(grew < (12 << 20) + 8 * p.max_buf as i64, "memory grew by {grew} bytes over {} messages each way", rounds * per);
        Ok(())
    })
}

// ------------------------------------------------------------------ C07
#[derive(Clone, Copy, PartialEq, Debug)]
enum End {
    PeerClose,
    PeerHalfClose,
    PeerReset,
    Invalid,
    OversizeIn,
    OversizeOut,
    Disconnect,
    Senders,
    Dropped,
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum State {
    Fresh,
    Idle,
    MidFrame,
    OutBlocked,
    OutBlockedFull,
    MidAndBlocked,
    Busy,
    MidSkip,
}
pub fn c07_fate(c: &mut Case) -> Res {
    let ends = [End::PeerClose, End::PeerHalfClose, End::PeerReset, End::Invalid, End::OversizeIn, End::OversizeOut, End::Disconnect, End::Senders, End::Dropped];
    let states = [State::Fresh, State::Idle, State::MidFrame, State::OutBlocked, State::OutBlockedFull, State::MidAndBlocked, State::Busy, State::MidSkip];
    let end = ends[(c.index % 9) as usize];
    let state = states[((c.index / 9) % 8) as usize];
    let r = &mut c.rng;
    let mut p = P::new(r.range(60, 60_000), gen_max_q(r));
    p.hint = if end == End::OversizeIn { Hint::Total } else { gen_hint(r) };
    p.bufs = if r.chance(3, 4) { Bufs { ours: 4096, theirs: 4096 } } else { Bufs::default() };
    p.chan = r.pick(&[p.max_q, 1, 2 * p.max_q + 5]);
    let blocked = matches!(state, State::OutBlocked | State::OutBlockedFull | State::MidAndBlocked);
    let mid = matches!(state, State::MidFrame | State::MidAndBlocked);
    // stream: some traffic, [end trigger], or a frame left unfinished
    let mut spec = if state == State::Fresh { vec![] } else { { let n = r.range(1, 30); gen_frames(r, p.max_buf.min(500), 3000, n, true) } };
    let lead = spec.len();
    match end {
        End::Invalid if state != State::MidSkip => spec.push((Kind::Invalid, 1)),
        End::OversizeIn if state != State::MidSkip => spec.push((Kind::Long, p.max_buf + 1 + r.below(1000))),
        End::Disconnect => spec.push((Kind::Short, 1)),
        _ => {}
    }
    // A frame that is under way when the end comes. Where the trigger itself travels inbound, it comes first.
    let inbound_trigger = matches!(end, End::Invalid | End::OversizeIn | End::Disconnect);
    if inbound_trigger && (mid || state == State::MidSkip) {
        // the trigger arrives as the tail of a frame in progress
        if end == End::Disconnect {
            spec.pop();
        } else if state != State::MidSkip {
            // complete a frame and follow with the trigger
            let t = spec.pop().unwrap();
            spec.push((Kind::Long, r.range(HEADER + 2, p.max_buf.min(400))));
            spec.push(t);
        }
        if end == End::Disconnect || state == State::MidSkip {
            let k = if state == State::MidSkip { Kind::Skip } else { Kind::Long };
            spec.push((k, r.range(HEADER + 2, p.max_buf.min(400))));
            match end {
                End::Invalid => spec.push((Kind::Invalid, 1)),
                End::OversizeIn => spec.push((Kind::Long, p.max_buf + 1 + r.below(1000))),
                _ => spec.push((Kind::Short, 1)),
            }
        }
    } else if mid {
        spec.push((Kind::Long, r.range(HEADER + 2, p.max_buf)));
    } else if state == State::MidSkip {
        spec.push((Kind::Skip, r.range(HEADER + 2, p.max_buf)));
    }
    let mut inb = Inbound::build(r.u64(), &spec);
    if end == End::OversizeIn {
        // a length that no limit allows; only the beginning of it is ever sent
        let f = *inb.frames.iter().filter(|f| f.len > p.max_buf).last().unwrap();
        inb.bytes[f.off + 1..f.off + 5].copy_from_slice(&r.pick(&[u32::MAX, u32::MAX - 5, 1 << 31, 1 << 30]).to_le_bytes());
        inb.bytes.truncate(f.off + r.range(HEADER, f.len.min(60)));
    }
    let mut lead_end = inb.frames.get(lead.wrapping_sub(1)).map(|f| f.off + f.len).unwrap_or(0);
    if (mid || state == State::MidSkip) && lead < inb.frames.len() {
        let f = inb.frames[lead];
        if f.len > 1 {
            lead_end = f.off + r.range(1, f.len - 1);
        }
    }
    if end == End::Disconnect {
        p.disconnect_at = Some(inb.deliver.len());
    }
    let lead_deliver = inb.frames.iter().enumerate().filter(|(_, f)| matches!(f.kind, Kind::Long | Kind::Short) && f.off + f.len <= lead_end).count();
    let len = r.range(1, 900.min(p.max_buf));
    c.d(format!("{end:?} {state:?} {p:?} frames={} cut={lead_end} len={len}", inb.frames.len()));
    c.count("fates", 1);
    block_on(async {
        let mut d = Duplex::start(c, &p, inb).await?;
        let slot = d.slot.clone();
        let mut pat = Patience::new();
        if state != State::Fresh {
            while d.wrote() < lead_end || d.delivered() < lead_deliver {
                let w = d.l().written;
                d.write_some(lead_end - w);
                d.check()?;
                ensure!(!d.ended(), "connection ended before anything asked it to");
                let pr = d.progress();
                pat.wait(&slot, pr, || "lead-in stalled".into()).await?;
            }
            turns(&slot, 5).await;
        }
        if blocked {
            // fill outbound until nothing moves; leave a little room in the channel unless Full
            let mut quiet = 0;
            while quiet < 60 {
                let mut any = false;
                for _ in 0..64 {
                    if d.submit(len) != Some(true) {
                        break;
                    }
                    any = true;
                }
                d.turn().await;
                d.check()?;
                quiet = if any { 0 } else { quiet + 1 };
            }
            if state != State::OutBlockedFull {
                // free some room again: the peer reads part of it
                d.read_some(300)?;
                turns(&slot, 3).await;
            }
        }
        if state == State::Busy {
            for _ in 0..p.max_q.min(40) {
                d.submit(len);
            }
        }
        ensure!(!d.ended(), "connection ended before anything asked it to");
        let mut reads = false;
        match end {
            End::PeerClose => {
                d.peer = None;
            }
            End::PeerHalfClose => {
                use std::os::fd::AsRawFd;
                unsafe { libc::shutdown(d.peer.as_ref().unwrap().as_raw_fd(), libc::SHUT_WR) };
            }
            End::PeerReset => {
                reset(d.peer.take().unwrap())?;
            }
            End::Invalid | End::OversizeIn | End::Disconnect => {
                let mut pat = Patience::new();
                while !d.ended() && !d.all_written() {
                    d.write_some(1 << 16);
                    d.check()?;
                    let pr = d.progress();
                    pat.wait(&slot, pr, || format!("{end:?} in state {state:?}: peer can not write the trigger, connection does not end")).await?;
                }
            }
            End::OversizeOut => {
                // may have to wait for room
                let mut pat = Patience::new();
                loop {
                    match d.submit(p.max_buf + 1) {
                        Some(true) => break,
                        None => return violation("channel closed on a live connection"),
                        Some(false) => {
                            d.read_some(1 << 16)?;
                            let pr = d.progress();
                            pat.wait(&slot, pr, || "no room for a message although the peer reads".into()).await?;
                        }
                    }
                }
                reads = true;
            }
            End::Senders => {
                d.tx = None;
                // what was accepted is flushed first, for which the peer has to read
                reads = true;
            }
            End::Dropped => {
                d.task.as_ref().unwrap().abort();
            }
        }
        d.wait_end(&format!("{end:?} in state {state:?}"), reads).await?;
        d.check_ended().await?;
        d.peer_sees_end().await?;
        // a little later: still dropped once, still silent
        turns(&slot, 10).await;
        d.check()?;
        ensure!(d.l().reactor_drops == 1, "reactor dropped {} times", d.l().reactor_drops);
        Ok(())
    })
}
