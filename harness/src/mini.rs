//! Small workloads for the interpreter (Miri): every unsafe block, buffer transition and shared table of the
//! crates is passed through with few and small messages.
use crate::cli::*;
use crate::codec_props as cp;
use crate::conn::*;
use crate::core::*;
use crate::ensure;
use crate::e2e;
use crate::msg::*;
use crate::net::*;
use protosocket::{DeserializeError, Deserializer, Serializer};

/// a connection with tiny limits: rotations, skips, full batches, recycled send buffers
pub fn conn(c: &mut Case) -> Res {
    let r = &mut c.rng;
    let mut p = P::new(r.pick(&[9usize, 16, 40, 64, 200]), r.pick(&[1usize, 2, 3, 8]));
    p.hint = r.pick(&HINTS);
    let spec = gen_frames(r, p.max_buf, 700, 14, true);
    let inb = Inbound::build(r.u64(), &spec);
    let out = gen_out(r, p.max_buf, 10, 600, true);
    let seg = match r.below(4) {
        0 => Seg::All,
        1 => Seg::AroundFrames,
        2 => Seg::Fixed(p.max_buf + 1),
        _ => Seg::Small(20),
    };
    let plan = Plan { read_chunk: r.pick(&[7, 64, 4096]), ..Plan::new(seg, out) };
    let bytes = inb.bytes.len();
    let n = inb.frames.len();
    describe(c, &p, &plan, n, bytes);
    block_on(async {
        let mut d = Duplex::start(c, &p, inb).await?;
        exchange(c, &mut d, &plan).await?;
        match c.rng.below(3) {
            0 => d.tx = None,
            1 => d.peer = None,
            _ => d.task.as_ref().unwrap().abort(),
        }
        d.wait_end("closed", false).await?;
        d.check_ended().await
    })
}
/// more than the kernel takes at once: partial writes shift buffers
pub fn partial(c: &mut Case) -> Res {
    let r = &mut c.rng;
    let p = P::new(600_000, r.pick(&[2usize, 5, 16]));
    let out: Vec<usize> = (0..14).map(|_| r.pick(&[400_000usize, 590_001, 7, 0, 300_000])).collect();
    let plan = Plan { r_holds: vec![0, 1_000_003], read_chunk: 1 << 18, ..Plan::new(Seg::All, out) };
    describe(c, &p, &plan, 0, 0);
    block_on(async {
        let mut d = Duplex::start(c, &p, Inbound::default()).await?;
        exchange(c, &mut d, &plan).await?;
        d.peer = None;
        d.wait_end("peer gone", false).await?;
        d.check_ended().await
    })
}
/// one inbound message larger than the first buffer
pub fn large(c: &mut Case) -> Res {
    let r = &mut c.rng;
    let p = P::new(2_300_000, 4);
    let spec = vec![(Kind::Long, r.range(HEADER, 900)), (Kind::Long, 2_100_000 + r.range(0, 199_000)), (Kind::Long, r.range(HEADER, 300_000))];
    let inb = Inbound::build(r.u64(), &spec);
    let plan = Plan::new(Seg::All, vec![3]);
    let bytes = inb.bytes.len();
    describe(c, &p, &plan, 3, bytes);
    block_on(async {
        let mut d = Duplex::start(c, &p, inb).await?;
        exchange(c, &mut d, &plan).await?;
        d.tx = None;
        d.wait_end("closed", true).await?;
        d.check_ended().await
    })
}
fn one_codec<C: Codec>(c: &mut Case) -> Res {
    let mut r = c.rng.fork();
    let (mut s, mut d) = (C::S::default(), C::D::default());
    // a fresh buffer each, one that is reused, and one with exactly or hardly any room
    let mut reused = Vec::new();
    let mut all = vec![];
    let mut sent = vec![];
    for i in 0..6u64 {
        let mut m = cp::small(&mut r);
        m.uid = i;
        let mut b = match r.below(4) {
            0 => Vec::new(),
            1 => Vec::with_capacity(r.below(12)),
            2 => Vec::with_capacity(300),
            _ => {
                let mut b = std::mem::take(&mut reused);
                b.clear();
                b
            }
        };
        s.encode(m.clone(), &mut b);
        ensure!(b == enc(C::C, &m), "encoding of {m:?}");
        all.extend_from_slice(&b);
        sent.push(m);
        reused = b;
    }
    let mut at = 0;
    for m in &sent {
        // every prefix asks for more
        for k in [0, 1, 2, 4, 5, 6] {
            let e = (at + k).min(all.len());
            if e - at < enc(C::C, m).len() {
                match d.decode(&all[at..e]) {
                    Err(DeserializeError::IncompleteBuffer { .. }) => {}
                    Ok((n, _)) => return violation(format!("decoded {n} bytes from a prefix of {}", e - at)),
                    Err(e) => return violation(format!("prefix of a valid message rejected: {e:?}")),
                }
            }
        }
        match d.decode(&all[at..]) {
            Ok((n, g)) => {
                ensure!(g == *m, "decoded another message");
                at += n;
            }
            Err(e) => return violation(format!("valid message rejected: {e:?}")),
        }
    }
    ensure!(at == all.len(), "decoded {at} of {} bytes", all.len());
    // damaged
    for _ in 0..8 {
        let mut b = all.clone();
        let i = r.below(b.len());
        b[i] = r.u64() as u8;
        b.truncate(r.range(1, b.len()));
        let _ = d.decode(&b[..]);
        c.count("damaged", 1);
    }
    c.d(format!("{} {} bytes", if C::C == Cd::Prost { "prost" } else { "msgpack" }, all.len()));
    c.count("messages", sent.len() as u64);
    Ok(())
}
pub fn codec(c: &mut Case) -> Res {
    if c.index % 2 == 0 {
        one_codec::<Mc>(c)
    } else {
        one_codec::<Pc>(c)
    }
}
/// real client, real server
pub fn rpc(c: &mut Case) -> Res {
    let lose = c.rng.chance(1, 3);
    if c.index % 2 == 0 {
        c.d("msgpack");
        block_on(e2e::run_stress::<Mc>(c, lose))
    } else {
        c.d("prost");
        block_on(e2e::run_stress::<Pc>(c, lose))
    }
}
pub fn client(c: &mut Case) -> Res {
    let _ = name;
    crate::cli_props::tiny(c)
}
