//! C08, C09, C10: the two shipped codecs, alone and in front of servers and clients.
use crate::cli::{connect_pair, Comp, Setup};
use crate::conn::fill;
use crate::core::*;
use crate::ensure;
use crate::msg::*;
use crate::net::*;
use crate::raw::*;
use futures::StreamExt;
use protosocket::{DeserializeError, Deserializer, Serializer};
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use std::collections::BTreeMap;

// ------------------------------------------------------------------ message zoo
#[derive(Clone, PartialEq, prost::Message)]
pub struct Leaf {
    #[prost(string, tag = "1")]
    pub s: String,
    #[prost(sint64, repeated, tag = "2")]
    pub n: Vec<i64>,
}
#[derive(Clone, PartialEq, prost::Message)]
pub struct Zoo {
    #[prost(message, optional, tag = "1")]
    pub leaf: Option<Leaf>,
    #[prost(message, repeated, tag = "2")]
    pub leaves: Vec<Leaf>,
    #[prost(map = "string, uint64", tag = "3")]
    pub map: std::collections::HashMap<String, u64>,
    #[prost(double, tag = "4")]
    pub d: f64,
    #[prost(bool, tag = "500")]
    pub b: bool,
    #[prost(bytes = "vec", tag = "6")]
    pub bytes: Vec<u8>,
}
#[derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
pub enum Kind {
    Nothing,
    One(i64),
    Two { a: String, b: Option<Box<Kind>> },
}
#[derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
pub struct Rich {
    k: Kind,
    v: Vec<Option<i64>>,
    m: BTreeMap<String, Vec<u8>>,
    f: f64,
    t: (u8, u16, u32, u64, i8, bool),
    s: String,
}
fn text(r: &mut Rng, n: usize) -> String {
    (0..n).map(|_| r.pick(&['a', 'é', '漢', '\0', '😀', 'z'])).collect()
}
fn number(r: &mut Rng) -> i64 {
    let b = r.below(64) as u32;
    (r.u64() >> b) as i64 * if r.chance(1, 2) { -1 } else { 1 }
}
fn zoo(r: &mut Rng) -> Zoo {
    let leaf = |r: &mut Rng| {
        let (a, b) = (r.below(9), r.below(5));
        Leaf { s: text(r, a), n: (0..b).map(|_| number(r).wrapping_mul(1)).collect() }
    };
    Zoo {
        leaf: if r.chance(1, 2) { Some(leaf(r)) } else { None },
        leaves: (0..r.below(5)).map(|_| leaf(r)).collect(),
        map: (0..r.below(4)).map(|i| (format!("{i}"), r.u64())).collect(),
        d: r.below(1000) as f64 / 8.0,
        b: r.chance(1, 2),
        bytes: fill(r.u64(), 0, 0),
    }
}
fn rich(r: &mut Rng) -> Rich {
    let k = match r.below(3) {
        0 => Kind::Nothing,
        1 => Kind::One(number(r)),
        _ => Kind::Two { a: text(r, 3), b: if r.chance(1, 2) { Some(Box::new(Kind::One(number(r)))) } else { None } },
    };
    let n = r.below(20);
    let m = r.below(4);
    let t = r.below(40);
    Rich {
        k,
        v: (0..n).map(|_| if r.chance(1, 3) { None } else { Some(number(r)) }).collect(),
        m: (0..m)
            .map(|i| {
                let len = r.below(40);
                (format!("key{i}"), fill(r.u64(), 1, len))
            })
            .collect(),
        f: r.below(1000) as f64 / 8.0,
        t: (r.u64() as u8, r.u64() as u16, r.u64() as u32, r.u64(), r.u64() as i8, r.chance(1, 2)),
        s: text(r, t),
    }
}
fn msg(r: &mut Rng) -> Msg {
    let mut m = Msg { id: r.u64() >> r.below(64), code: r.below(3) as u32, op: r.below(5) as u32, uid: r.u64() >> r.below(64), idx: r.u64() as u32 >> r.below(32), ..Default::default() };
    let n = r.below(300);
    m.body = fill(m.uid, 5, n);
    m
}
pub fn small(r: &mut Rng) -> Msg {
    let mut m = msg(r);
    m.body.truncate(40);
    m
}
/// MessagePack spends one or two bytes per element, so there it is small numbers only
fn body_of(cd: Cd, key: u64, n: usize) -> Vec<u8> {
    let mut v = fill(key, 9, n);
    if cd == Cd::Mp {
        v.iter_mut().for_each(|b| *b &= 0x7f);
    }
    v
}
/// a Msg whose payload is exactly `want` bytes long, if there is one
fn sized(cd: Cd, want: usize) -> Option<Msg> {
    let guess = want.saturating_sub(40);
    for n in guess..=want {
        let m = Msg { body: body_of(cd, want as u64, n), ..Default::default() };
        let l = payload(cd, &m).len();
        if l == want {
            return Some(m);
        }
        if l > want {
            // vary another field by one byte
            let m = Msg { body: body_of(cd, want as u64, n.saturating_sub(3)), id: 1, ..Default::default() };
            if payload(cd, &m).len() == want {
                return Some(m);
            }
            return None;
        }
    }
    None
}
fn sizes(cd: Cd, r: &mut Rng) -> Option<Msg> {
    let b = r.pick(&[0usize, 1, 2, 100, 126, 127, 128, 129, 130, 255, 256, 4095, 4096, 16_382, 16_383, 16_384, 16_385, 65_535, 65_536, 70_000]);
    let b = if r.chance(1, 60) { r.pick(&[(1usize << 21) - 2, (1 << 21) - 1, 1 << 21, (1 << 21) + 1]) } else { b };
    sized(cd, b)
}
fn buffer(r: &mut Rng) -> Vec<u8> {
    // a recycled buffer: empty, with capacity and old content behind it
    let n = r.pick(&[0, 3, 64, 5000]);
    let mut v = vec![0xab; n];
    v.clear();
    v
}
fn suffix(r: &mut Rng, again: &[u8]) -> Vec<u8> {
    match r.below(5) {
        0 => vec![],
        1 => (0..r.range(1, 40)).map(|_| r.u64() as u8).collect(),
        2 => again.iter().copied().take(70_000).collect(),
        3 => vec![0xff; r.range(1, 30)],
        _ => again.iter().copied().take(r.below(again.len().min(40) + 1)).collect(),
    }
}

/// encode, then decode with a suffix, then every prefix
fn round_trip<M: Clone + PartialEq + std::fmt::Debug, S: Serializer<Message = M>, D: Deserializer<Message = M>>(c: &mut Case, r: &mut Rng, s: &mut S, d: &mut D, m: &M, expect: &[u8], exact: bool) -> Res {
    let mut buf = buffer(r);
    s.encode(m.clone(), &mut buf);
    if exact {
        ensure!(buf == expect, "encoded {} bytes, the format demands {} (or different content)", buf.len(), expect.len());
    }
    let l = buf.len();
    let dbg = || format!("{m:?}").chars().take(200).collect::<String>();
    // prefixes first: the decoder may keep state
    let mut cuts: Vec<usize> = if l <= 260 { (0..l).collect() } else { (0..12).chain((0..20).map(|_| r.below(l))).chain([l - 1, l - 2, l / 2]).collect() };
    if r.chance(1, 2) {
        cuts.sort();
    } else if r.chance(1, 2) {
        let n = r.below(6);
        r.shuffle(&mut cuts);
        cuts.truncate(n);
        cuts.sort();
    } else {
        cuts.sort();
        cuts.dedup();
    }
    for k in cuts {
        match d.decode(&buf[..k]) {
            Err(DeserializeError::IncompleteBuffer { .. }) => {}
            Err(e) => return violation(format!("{k} of {l} bytes of a valid message are an error: {e:?} ({})", dbg())),
            Ok((n, _)) => return violation(format!("{k} of {l} bytes decode as a message of {n} bytes ({})", dbg())),
        }
        c.count("prefixes", 1);
    }
    let sfx = suffix(r, &buf);
    buf.extend_from_slice(&sfx);
    match d.decode(&buf[..]) {
        Ok((n, got)) => {
            ensure!(n == l, "decoding consumed {n} bytes of a message of {l} followed by {} others ({})", sfx.len(), dbg());
            ensure!(got == *m, "decoded message differs: {got:?} instead of {}", dbg());
        }
        Err(e) => return violation(format!("a complete message of {l} bytes followed by {} others is not decoded: {e:?} ({})", sfx.len(), dbg())),
    }
    c.count("round_trips", 1);
    c.count("bytes", l as u64);
    Ok(())
}
pub fn c08_round(c: &mut Case) -> Res {
    let mut r = c.rng.fork();
    let mut p = protosocket_prost::ProstSerializer::<Msg, Msg>::default();
    let mut q = protosocket_prost::ProstSerializer::<Msg, Msg>::default();
    for _ in 0..6 {
        let m = if r.chance(1, 2) { sizes(Cd::Prost, &mut r) } else { None };
        let m = m.unwrap_or_else(|| msg(&mut r));
        c.d(format!("{}", payload(Cd::Prost, &m).len()));
        let want = enc(Cd::Prost, &m);
        round_trip(c, &mut r, &mut p, &mut q, &m, &want, true)?;
    }
    let (mut zs, mut zd) = (protosocket_prost::ProstSerializer::<Msg, Zoo>::default(), protosocket_prost::ProstSerializer::<Zoo, Msg>::default());
    let z = zoo(&mut r);
    let want = frame(Cd::Prost, &prost::Message::encode_to_vec(&z));
    // map order is not defined: compare by decoding only
    round_trip(c, &mut r, &mut zs, &mut zd, &z, &want, z.map.len() < 2)?;
    let mut u = protosocket_prost::ProstSerializer::<(), ()>::default();
    let mut v = protosocket_prost::ProstSerializer::<(), ()>::default();
    round_trip(c, &mut r, &mut u, &mut v, &(), &[0], true)
}
/// legal but non-minimal length delimiters
pub fn c08_nonminimal(c: &mut Case) -> Res {
    let mut r = c.rng.fork();
    let mut d = protosocket_prost::ProstSerializer::<Msg, Msg>::default();
    for _ in 0..4 {
        let m = sizes(Cd::Prost, &mut r).unwrap_or_else(|| msg(&mut r));
        let body = payload(Cd::Prost, &m);
        let mut head = vec![];
        varint(body.len() as u64, &mut head);
        let total = r.range(head.len(), 10);
        c.d(format!("{}/{}", body.len(), total));
        while head.len() < total {
            *head.last_mut().unwrap() |= 0x80;
            head.push(0);
        }
        let mut f = head.clone();
        f.extend_from_slice(&body);
        let l = f.len();
        for k in (0..head.len() + 2).chain([l - 1]) {
            if k >= l {
                continue;
            }
            match d.decode(&f[..k]) {
                Err(DeserializeError::IncompleteBuffer { .. }) => c.count("prefixes", 1),
                x => return violation(format!("{k} of {l} bytes (delimiter of {} bytes): {}", head.len(), show(&x))),
            }
        }
        let s = suffix(&mut r, &f);
        f.extend_from_slice(&s);
        match d.decode(&f[..]) {
            Ok((n, got)) => {
                ensure!(n == l, "a frame of {l} bytes with a delimiter of {} bytes consumed {n}", head.len());
                ensure!(got == m, "a frame with a delimiter of {} bytes decodes to a different message", head.len());
            }
            x => return violation(format!("a frame with a legal delimiter of {} bytes: {}", head.len(), show(&x))),
        }
        c.count("nonminimal_frames", 1);
    }
    Ok(())
}
fn show<M>(x: &Result<(usize, M), DeserializeError>) -> String {
    match x {
        Ok((n, _)) => format!("decodes as a message of {n} bytes"),
        Err(e) => format!("{e:?}"),
    }
}
pub fn c09_round(c: &mut Case) -> Res {
    let mut r = c.rng.fork();
    type S<T> = protosocket_messagepack::ProtosocketMessagePackSerializer<T>;
    type D<T> = protosocket_messagepack::ProtosocketMessagePackDeserializer<T>;
    // one decoder for all of them: state must not leak from one message to the next
    let (mut p, mut q) = (S::<Msg>::default(), D::<Msg>::default());
    for _ in 0..6 {
        let m = if r.chance(1, 2) { sizes(Cd::Mp, &mut r) } else { None };
        let m = m.unwrap_or_else(|| msg(&mut r));
        c.d(format!("{}", payload(Cd::Mp, &m).len()));
        let want = enc(Cd::Mp, &m);
        round_trip(c, &mut r, &mut p, &mut q, &m, &want, true)?;
    }
    fn other<T: Clone + PartialEq + std::fmt::Debug + Serialize + DeserializeOwned + Send + Unpin>(c: &mut Case, r: &mut Rng, v: Vec<T>) -> Res {
        let (mut s, mut d) = (S::<T>::default(), D::<T>::default());
        for m in v {
            let want = frame(Cd::Mp, &rmp_serde::to_vec(&m).expect("encode"));
            round_trip(c, r, &mut s, &mut d, &m, &want, true)?;
        }
        Ok(())
    }
    let v = (0..3).map(|_| rich(&mut r)).collect();
    other(c, &mut r, v)?;
    other(c, &mut r, vec![(), ()])?;
    let v = (0..3).map(|_| r.u64() >> r.below(64)).collect::<Vec<u64>>();
    other(c, &mut r, v)?;
    let v = (0..3).map(|i| text(&mut r, i * 20)).collect();
    other(c, &mut r, v)
}
/// a stream of frames through one decoder, with bytes arriving in pieces, as a connection does it
pub fn c09_stream(c: &mut Case) -> Res {
    stream::<Mc>(c)
}
pub fn c08_stream(c: &mut Case) -> Res {
    stream::<Pc>(c)
}
fn stream<C: Codec>(c: &mut Case) -> Res {
    let mut r = c.rng.fork();
    let mut d = C::D::default();
    let mut s = C::S::default();
    let n = r.range(1, 30);
    let mut sent = vec![];
    let mut bytes = vec![];
    for _ in 0..n {
        let m = if r.chance(1, 6) { sizes(C::C, &mut r) } else { None };
        let m = m.unwrap_or_else(|| msg(&mut r));
        let mut b = vec![];
        s.encode(m.clone(), &mut b);
        bytes.extend_from_slice(&b);
        sent.push(m);
    }
    c.d(format!("{n} messages {} bytes", bytes.len()));
    let (mut at, mut have, mut k) = (0, 0, 0);
    let style = r.below(3);
    while have < bytes.len() {
        have += match style {
            0 => r.range(1, 6),
            1 => r.range(1, 200),
            _ => r.range(1, 30_000),
        };
        have = have.min(bytes.len());
        loop {
            match d.decode(&bytes[at..have]) {
                Ok((n, m)) => {
                    ensure!(k < sent.len() && m == sent[k], "message {k} of the stream decodes to something else");
                    at += n;
                    ensure!(at <= have, "decoder consumed more than it was given");
                    k += 1;
                    if at == have {
                        break;
                    }
                }
                Err(DeserializeError::IncompleteBuffer { .. }) => {
                    c.count("incompletes", 1);
                    break;
                }
                Err(e) => return violation(format!("message {k} of a valid stream: {e:?}")),
            }
        }
    }
    ensure!(k == sent.len() && at == bytes.len(), "{k} of {} messages decoded from the whole stream", sent.len());
    c.count("messages", k as u64);
    Ok(())
}
/// frames whose length prefix is longer or shorter than the value inside
pub fn c09_frames(c: &mut Case) -> Res {
    let mut r = c.rng.fork();
    let mut d = protosocket_messagepack::ProtosocketMessagePackDeserializer::<Msg>::default();
    for _ in 0..4 {
        let m = msg(&mut r);
        let next = msg(&mut r);
        let body = payload(Cd::Mp, &m);
        let short = r.chance(1, 2);
        let l = if short { r.below(body.len()) } else { body.len() + r.range(0, 40) };
        c.d(format!("{}:{l}", body.len()));
        let mut f = vec![0xce];
        f.extend_from_slice(&(l as u32).to_be_bytes());
        f.extend_from_slice(&body);
        // padding, which looks like the beginning of a frame
        while f.len() < l + 5 {
            f.push(0xce);
        }
        f.extend_from_slice(&enc(Cd::Mp, &next));
        if r.chance(1, 2) {
            let k = r.below((l + 5).min(f.len()));
            if let Ok((n, _)) = d.decode(&f[..k]) {
                return violation(format!("{k} bytes of a frame of {} decode as a message of {n} bytes", l + 5));
            }
        }
        match d.decode(&f[..]) {
            Ok((n, got)) => {
                ensure!(!short, "a frame of {l} bytes was decoded from the {} bytes that follow its prefix", body.len());
                ensure!(n == l + 5, "a frame of {} bytes consumed {n}", l + 5);
                ensure!(got == m, "a padded frame decodes to a different message");
                match d.decode(&f[n..]) {
                    Ok((_, got)) => ensure!(got == next, "the message after a padded frame is not what was sent"),
                    x => return violation(format!("the message after a padded frame: {}", show(&x))),
                }
                c.count("padded_frames", 1);
            }
            Err(DeserializeError::InvalidBuffer) => {
                // refusing is fine, unless there is nothing wrong with it
                ensure!(l != body.len(), "an exact frame is refused");
                c.count("refused_frames", 1);
                d = Default::default();
            }
            Err(e) => return violation(format!("a complete frame of {} bytes: {e:?}", l + 5)),
        }
    }
    Ok(())
}
/// messages at the exact limit of a connection, over a socket
pub fn c08_socket(c: &mut Case) -> Res {
    block_on(at_limit::<Pc>(c))
}
pub fn c09_socket(c: &mut Case) -> Res {
    block_on(at_limit::<Mc>(c))
}
async fn at_limit<C: Codec>(c: &mut Case) -> Res {
    let slot = c.slot.clone();
    let mut r = c.rng.fork();
    let frame_len = r.pick(&[32usize, 100, 127, 128, 129, 130, 131, 132, 300, 4096, 16_383, 16_384, 16_386, 16_387, 16_388, 65_536, 70_000]);
    let max = frame_len + r.pick(&[0, 0, 0, 1, 7]);
    c.d(format!("frame={frame_len} max={max} {:x}", r.u64() & 0xff));
    let mut reqs = vec![];
    for k in 1..=4u64 {
        // as large as possible a request of at most frame_len bytes
        let mut m = Msg { id: k, uid: k, op: UNARY, size: 3, ..Default::default() };
        let mut n = frame_len - 10;
        loop {
            m.body = body_of(C::C, k, n);
            if enc(C::C, &m).len() <= frame_len || n == 0 {
                break;
            }
            n -= 1;
        }
        if enc(C::C, &m).len() > frame_len {
            c.nontrivial = false;
            return Ok(());
        }
        reqs.push(m);
    }
    let s = serve::<C>(max, 8).await?;
    let mut raw = Raw::connect(s.addr, C::C, 0).await?;
    let mut led = Ledger::default();
    for m in &reqs {
        raw.send(m);
        led.sent(m);
    }
    let style = r.below(3);
    let mut p = Patience::new();
    while !led.all_done() {
        let n = match style {
            0 => usize::MAX,
            1 => r.range(1, 1 + frame_len / 3),
            _ => frame_len - 1,
        };
        raw.flush(n);
        raw.pull(1 << 16)?;
        led.take(&mut raw)?;
        ensure!(!raw.over(), "a request of at most {frame_len} bytes closed a connection whose limit is {max}");
        p.wait(&slot, raw.progress(), || format!("a request of {frame_len} bytes is not served with a limit of {max}: {:?}", led.missing())).await?;
    }
    {
        let l = s.w.l();
        ensure!(l.conns[0].requests == reqs, "requests at the limit were altered");
    }
    c.count("messages_at_limit", reqs.len() as u64);
    Ok(())
}

// ------------------------------------------------------------------ C10
const CAP: usize = 1 << 16;
#[derive(Debug, Clone, Copy, PartialEq)]
enum Hostile {
    Random,
    Mutated,
    Overlong,
    Huge,
    BadPayload,
    Truncated,
    Text,
    ZeroLen,
    Nested,
}
const HOSTILE: [Hostile; 9] = [Hostile::Random, Hostile::Mutated, Hostile::Overlong, Hostile::Huge, Hostile::BadPayload, Hostile::Truncated, Hostile::Text, Hostile::ZeroLen, Hostile::Nested];
/// bytes, and whether they can never become valid
fn hostile(cd: Cd, k: Hostile, r: &mut Rng, max: usize) -> Vec<u8> {
    match k {
        Hostile::Random => (0..r.range(1, 400)).map(|_| r.u64() as u8).collect(),
        Hostile::Mutated => {
            let mut b = vec![];
            for _ in 0..r.range(1, 4) {
                b.extend(enc(cd, &msg(r)));
            }
            for _ in 0..r.range(1, 6) {
                let i = r.below(b.len());
                match r.below(4) {
                    0 => b[i] ^= 1 << r.below(8),
                    1 => b[i] = r.u64() as u8,
                    2 => {
                        b.remove(i);
                    }
                    _ => b.insert(i, r.u64() as u8),
                }
                if b.is_empty() {
                    b.push(0);
                }
            }
            b
        }
        Hostile::Overlong => match cd {
            Cd::Prost => {
                // not a byte more than it takes to know, or more
                let long = r.range(10, 40);
                let n = r.pick(&[9, 10, long]);
                let mut v = vec![0x80 | (r.u64() as u8); n];
                if n == 9 {
                    v.push(2 + (r.u64() as u8 & 0x7d)); // the tenth byte has room for one bit
                } else if n > 10 || r.chance(1, 2) {
                    v.push(1);
                }
                v
            }
            Cd::Mp => {
                let mut v = vec![r.pick(&[0xc1u8, 0xcf, 0xcd, 0xcc, 0x01, 0x92, 0xdd, 0xd2, 0xff])];
                v.extend((0..r.range(4, 40)).map(|_| r.u64() as u8));
                v
            }
        },
        Hostile::Huge => {
            let n = match r.below(4) {
                0 => 2 * max as u64 + r.u64() % 1000,
                1 => u32::MAX as u64 - r.u64() % 20,
                2 => i32::MAX as u64 + r.u64() % 20,
                _ => (u32::MAX as u64) >> r.below(8),
            };
            let mut v = vec![];
            match cd {
                Cd::Prost => {
                    let n = if r.chance(1, 3) { u64::MAX >> r.below(30) } else { n };
                    varint(n, &mut v)
                }
                Cd::Mp => {
                    v.push(0xce);
                    v.extend_from_slice(&(n as u32).to_be_bytes());
                }
            }
            let k = r.pick(&[0usize, 1, 30, 3000]);
            v.extend(fill(1, 2, k));
            v
        }
        Hostile::BadPayload => {
            let p: Vec<u8> = match cd {
                // a field key with wire type 7, or a length-delimited field that runs out
                Cd::Prost => r.pick(&[vec![0x0f, 1, 2, 3], vec![0x52, 0xff, 0xff, 0xff, 0x0f], vec![0x00, 0x00], vec![0x08]]),
                Cd::Mp => r.pick(&[vec![0xc1], vec![0x9f, 1], vec![0xdd, 0xff, 0xff, 0xff, 0xff], vec![0xc6, 0xff, 0xff, 0xff, 0xff, 1], vec![0xa3, 1, 2]]),
            };
            frame(cd, &p)
        }
        Hostile::Truncated => {
            let b = enc(cd, &msg(r));
            let n = r.range(1, b.len() - 1);
            b[..n].to_vec()
        }
        Hostile::Text => b"GET / HTTP/1.1\r\nHost: localhost\r\nUser-Agent: nmap\r\n\r\n".to_vec(),
        Hostile::ZeroLen => match cd {
            Cd::Prost => vec![0; r.range(1, 300)],
            Cd::Mp => [0xce, 0, 0, 0, 0].repeat(r.range(1, 5)),
        },
        Hostile::Nested => {
            let p: Vec<u8> = match cd {
                Cd::Prost => [0x0b].repeat(r.range(1, 3000)),
                Cd::Mp => [r.pick(&[0x91u8, 0x81, 0xdc])].repeat(r.range(1, 3000)),
            };
            frame(cd, &p)
        }
    }
}
#[derive(Debug, PartialEq, Clone, Copy)]
enum Fate {
    /// can never become valid
    Doomed,
    /// valid so far
    Open,
}
/// what an independent reader thinks of the bytes
fn fate(cd: Cd, b: &[u8], max: usize) -> Fate {
    let mut at = 0;
    loop {
        if at == b.len() {
            return Fate::Open;
        }
        let rest = &b[at..];
        // the length the prefix announces
        let len = match cd {
            Cd::Prost => {
                let (mut v, mut i) = (0u128, 0);
                loop {
                    let Some(x) = rest.get(i) else { break None };
                    v |= ((x & 0x7f) as u128) << (7 * i);
                    i += 1;
                    if x & 0x80 == 0 {
                        if v > u64::MAX as u128 {
                            return Fate::Doomed;
                        }
                        break Some((i, v as u64 as usize));
                    }
                    if i == 10 {
                        return Fate::Doomed;
                    }
                }
            }
            Cd::Mp => {
                if rest.len() < 5 {
                    None
                } else if rest[0] != 0xce {
                    return Fate::Doomed;
                } else {
                    Some((5, u32::from_be_bytes([rest[1], rest[2], rest[3], rest[4]]) as usize))
                }
            }
        };
        let Some((h, l)) = len else { return Fate::Open };
        if l > 2 * max {
            return Fate::Doomed;
        }
        if rest.len() < h + l {
            return Fate::Open;
        }
        match parse(cd, rest) {
            Parsed::Msg(n, _) => at += n,
            Parsed::Bad(_) => return Fate::Doomed,
            Parsed::Need => return Fate::Open,
        }
    }
}
pub fn c10_codec(c: &mut Case) -> Res {
    if c.rng.chance(1, 2) {
        codec::<Pc>(c)
    } else {
        codec::<Mc>(c)
    }
}
fn codec<C: Codec>(c: &mut Case) -> Res {
    let mut r = c.rng.fork();
    for _ in 0..20 {
        let k = r.pick(&HOSTILE);
        let mut data = hostile(C::C, k, &mut r, CAP);
        let mut d = C::D::default();
        let mut at = 0;
        let mut have = if r.chance(1, 2) { data.len() } else { r.range(1, data.len()) };
        let mut stuck = 0;
        let mut rounds = 0;
        loop {
            rounds += 1;
            if rounds > 3000 {
                break;
            }
            let given = &data[at..have];
            if given.is_empty() {
                break;
            }
            c.count("decodes", 1);
            match d.decode(given) {
                Ok((n, _)) => {
                    ensure!(n <= given.len(), "{k:?}: decoder consumed {n} bytes, it was given {}", given.len());
                    ensure!(n > 0, "{k:?}: decoder produced a message from nothing");
                    at += n;
                    stuck = 0;
                    c.count("accepted", 1);
                }
                Err(DeserializeError::InvalidBuffer) => {
                    c.count("rejected", 1);
                    break;
                }
                Err(DeserializeError::IncompleteBuffer { next_message_size }) => {
                    c.count("incomplete", 1);
                    if next_message_size > CAP {
                        c.count("refused_by_size", 1);
                        break; // a connection gives up here
                    }
                    // give it what it wants
                    stuck += 1;
                    let want = (at + next_message_size).max(have + 1 + if stuck > 20 { 4000 } else { 0 });
                    while data.len() < want {
                        data.push(r.u64() as u8);
                    }
                    have = want;
                    ensure!(stuck < 60, "{k:?}: the decoder got everything it asked for, {} bytes, and still can not decide (starts {:02x?})", have - at, &data[at..(at + 12).min(data.len())]);
                }
                Err(DeserializeError::SkipMessage { distance }) => {
                    ensure!(distance <= given.len(), "skips beyond the buffer");
                    at += distance;
                }
            }
        }
    }
    c.d(format!("{:x}", r.u64()));
    Ok(())
}
pub fn c10_server(c: &mut Case) -> Res {
    if c.rng.chance(1, 2) {
        block_on(server::<Pc>(c, &HOSTILE))
    } else {
        block_on(server::<Mc>(c, &HOSTILE))
    }
}
/// nothing is set aside for a length that a peer only announces
pub fn c06_announced(c: &mut Case) -> Res {
    if c.rng.chance(1, 2) {
        block_on(server::<Pc>(c, &[Hostile::Huge]))
    } else {
        block_on(server::<Mc>(c, &[Hostile::Huge]))
    }
}
async fn server<C: Codec>(c: &mut Case, kinds: &[Hostile]) -> Res {
    let slot = c.slot.clone();
    let mut r = c.rng.fork();
    let max = r.pick(&[1000, 20_000, 65_536]);
    let s = serve::<C>(max, 16).await?;
    s.w.l().size_cap = Some(1 << 16);
    let mut good = Raw::connect(s.addr, C::C, 0).await?;
    accepted(&slot, &s.w, 1).await?;
    let mut led = Ledger::default();
    let mut uid = 1;
    let mut ask = |good: &mut Raw, led: &mut Ledger| {
        let mut m = if uid % 2 == 0 { Msg::req(uid, uid, UNARY) } else { Msg::stream(uid, uid, 5) };
        m.body = vec![];
        good.send(&m);
        led.sent(&m);
        uid += 1;
    };
    ask(&mut good, &mut led);
    let base = live();
    reset_peak();
    for _ in 0..3 {
        let k = r.pick(kinds);
        let ok = if r.chance(1, 2) { enc(C::C, &Msg::req(3, 1 << 50, DECLINE)) } else { vec![] };
        let mut bytes = ok;
        bytes.extend(hostile(C::C, k, &mut r, max));
        let doomed = fate(C::C, &bytes, max) == Fate::Doomed;
        c.d(format!("{k:?}/{}{}", bytes.len(), if doomed { "!" } else { "" }));
        let mut bad = Raw::connect(s.addr, C::C, r.pick(&[0, 8192])).await?;
        bad.out = bytes.clone();
        let dribble = r.chance(1, 3) && bytes.len() < 600;
        let mut p = Patience::new();
        let mut over = false;
        let mut filler = 0usize;
        // a peer that falls silent afterwards must not keep a connection open either
        let silent = r.chance(1, 2);
        loop {
            bad.flush(if dribble { r.range(1, 5) } else { usize::MAX });
            // do not judge what the server says to such a peer, only whether it hangs up
            let mut b = [0u8; 4096];
            if let Some(st) = &bad.s {
                match try_read(st, &mut b) {
                    Got::Eof | Got::Reset => over = true,
                    _ => {}
                }
            }
            over |= bad.reset;
            good.flush(usize::MAX);
            good.pull(1 << 16)?;
            led.take(&mut good)?;
            ensure!(!good.over(), "{k:?} on one connection closed another one");
            s.w.check()?;
            if over {
                c.count("closed", 1);
                break;
            }
            if bad.flushed() {
                if !doomed {
                    // nothing is promised: it may be waiting for the rest
                    turns(&slot, 10).await;
                    break;
                }
                // it can not become valid; keep talking for a bounded while
                if !silent && filler < 4 * max + (1 << 19) {
                    let n = 4096;
                    bad.out.extend(std::iter::repeat_n(0u8, n));
                    filler += n;
                }
            }
            p.wait(&slot, good.progress() + bad.written, || format!("{k:?}: bytes that can never become valid leave the connection open (limit {max}, {} bytes sent, starts {:02x?})", bad.written, &bytes[..bytes.len().min(24)])).await?;
        }
        if doomed {
            c.count("doomed", 1);
        }
        c.count("hostile_connections", 1);
        ask(&mut good, &mut led);
    }
    let mut p = Patience::new();
    while !led.all_done() {
        good.flush(usize::MAX);
        good.pull(1 << 16)?;
        led.take(&mut good)?;
        ensure!(!good.over(), "hostile bytes on one connection closed another one");
        p.wait(&slot, good.progress(), || "a well-behaved connection is not served any more".into()).await?;
    }
    c.count("good_responses", led.received);
    let grew = peak() - base;
    c.count("peak_bytes_sum", grew.max(0) as u64);
    let bound = (16 * max + (32 << 20)) as i64;
    ensure!(grew <= bound, "hostile bytes made the server allocate {grew} bytes (limit {max}, bound {bound})");
    Ok(())
}
pub fn c10_client(c: &mut Case) -> Res {
    if c.rng.chance(1, 2) {
        block_on(client::<Pc>(c))
    } else {
        block_on(client::<Mc>(c))
    }
}
async fn client<C: Codec>(c: &mut Case) -> Res {
    let slot = c.slot.clone();
    let mut r = c.rng.fork();
    let max = r.pick(&[1000, 20_000]);
    let set = Setup { q: 16, max_buf: max, sock: 0, clones: 1, style: 0 };
    let (good, gconn, mut gpeer) = connect_pair::<C>(&set).await?;
    let gconn = tokio::spawn(gconn);
    let k = r.pick(&HOSTILE);
    let (bad, bconn, mut bpeer) = connect_pair::<C>(&set).await?;
    let bconn = tokio::spawn(bconn);
    let mut open = vec![];
    for i in 0..r.range(1, 5) as u64 {
        if i % 2 == 0 {
            open.push(Comp::U(bad.send_unary(Msg::req(i, i, UNARY)).await.map_err(|e| Bad::Violation(format!("{e:?}")))?));
        } else {
            open.push(Comp::S(bad.send_streaming(Msg::req(i, i, STREAM)).await.map_err(|e| Bad::Violation(format!("{e:?}")))?));
        }
    }
    let g = good.send_unary(Msg::req(7, 7, UNARY)).await.map_err(|e| Bad::Violation(format!("{e:?}")))?;
    // ids that are outstanding get nothing: the hostile part must not decide them
    let bytes = hostile(C::C, k, &mut r, max);
    let doomed = fate(C::C, &bytes, max) == Fate::Doomed;
    c.d(format!("{k:?}/{}{} {:x}", bytes.len(), if doomed { "!" } else { "" }, r.u64() & 0xff));
    bpeer.out = bytes.clone();
    let silent = r.chance(1, 2);
    let base = live();
    reset_peak();
    let mut filler = 0;
    let mut p = Patience::new();
    let mut idle = 0;
    while !bconn.is_finished() {
        bpeer.flush(usize::MAX);
        if bpeer.flushed() {
            idle += 1;
            if !doomed {
                if idle > 10 {
                    break;
                }
            } else if !silent && filler < 4 * max + (1 << 19) {
                bpeer.out.extend(std::iter::repeat_n(0u8, 4096));
                filler += 4096;
            }
        }
        p.wait(&slot, bpeer.written, || format!("{k:?}: bytes that can never become valid leave the client's connection open (starts {:02x?})", &bytes[..bytes.len().min(24)])).await?;
    }
    let grew = peak() - base;
    let bound = (16 * max + (32 << 20)) as i64;
    ensure!(grew <= bound, "hostile bytes made the client allocate {grew} bytes (limit {max}, bound {bound})");
    if doomed {
        c.count("doomed", 1);
        ensure!(!bad.is_alive(), "client alive after {k:?}");
        for o in open {
            match o {
                Comp::U(u) => {
                    let _ = await_or_stall(&slot, "a call of a client whose connection was closed because of hostile bytes", u).await?;
                }
                Comp::S(mut s) => {
                    let mut n = 0;
                    while let Some(x) = await_or_stall(&slot, "a stream of a client whose connection was closed because of hostile bytes", s.next()).await? {
                        n += 1;
                        ensure!(n < 10_000, "endless stream");
                        let _ = x;
                    }
                }
            }
        }
    }
    // the other client does not notice
    gpeer.send(&Msg::item(7, 7, 0, 9));
    gpeer.flush(usize::MAX);
    let x = await_or_stall(&slot, "a call of another client", g).await?;
    ensure!(matches!(&x, Ok(m) if *m == Msg::item(7, 7, 0, 9)), "hostile bytes disturbed another client: {x:?}");
    ensure!(good.is_alive() && !gconn.is_finished(), "hostile bytes closed another client");
    c.count("hostile_servers", 1);
    Ok(())
}
