//! The rpc message used by all rpc scenarios, its two codecs, and an independent reader and writer of both wire formats.
use crate::conn::fill;
use protosocket::{Deserializer, Serializer};
use protosocket_rpc::ProtosocketControlCode;

#[derive(Clone, PartialEq, prost::Message, serde::Serialize, serde::Deserialize)]
pub struct Msg {
    #[prost(uint64, tag = "1")]
    pub id: u64,
    #[prost(uint32, tag = "2")]
    pub code: u32,
    #[prost(uint32, tag = "3")]
    pub op: u32,
    #[prost(uint64, tag = "4")]
    pub uid: u64,
    #[prost(uint32, tag = "5")]
    pub idx: u32,
    #[prost(uint32, tag = "6")]
    pub n: u32,
    #[prost(uint32, tag = "7")]
    pub size: u32,
    #[prost(uint32, tag = "8")]
    pub yields: u32,
    /// 1 + item index before which the call waits for a permit; 0 = never waits
    #[prost(uint32, tag = "9")]
    pub gate: u32,
    #[prost(bytes = "vec", tag = "10")]
    pub body: Vec<u8>,
}
pub const UNARY: u32 = 0;
pub const STREAM: u32 = 1;
pub const DECLINE: u32 = 2;
pub const PANIC_NEW: u32 = 3;
pub const PANIC_POLL: u32 = 4;
/// stream whose n-th poll panics
pub const PANIC_STREAM: u32 = 5;
/// declines by itself: the unary response is a cancel message
pub const NEVER_UNARY: u32 = 6;
pub const NEVER_STREAM: u32 = 7;

pub const NORMAL: u32 = 0;
pub const CANCEL: u32 = 1;
pub const END: u32 = 2;

thread_local! {
    /// what to do when the code under test looks at the id of the message (uid, idx)
    static TRAPS: std::cell::RefCell<Vec<(u64, u32, Box<dyn FnOnce() + Send>)>> = const { std::cell::RefCell::new(Vec::new()) };
    static SPRUNG: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
}
pub fn set_trap(uid: u64, idx: u32, f: Box<dyn FnOnce() + Send>) {
    TRAPS.with(|t| t.borrow_mut().push((uid, idx, f)));
}
/// how many have sprung, and forget the others
pub fn clear_traps() -> u64 {
    let left = TRAPS.with(|t| std::mem::take(&mut *t.borrow_mut()));
    drop(left);
    SPRUNG.with(|s| s.replace(0))
}
pub fn traps() -> usize {
    TRAPS.with(|t| t.borrow().len())
}
fn looked_at(m: &Msg) {
    let hit = TRAPS.with(|t| {
        let Ok(mut t) = t.try_borrow_mut() else { return None };
        if t.is_empty() {
            return None;
        }
        t.iter().position(|(u, i, _)| *u == m.uid && *i == m.idx && m.code == NORMAL).map(|i| t.swap_remove(i).2)
    });
    if let Some(f) = hit {
        SPRUNG.with(|s| s.set(s.get() + 1));
        // another thread does it, right now, as far as it gets without what this thread may hold
        let (done, wait) = std::sync::mpsc::channel::<()>();
        let _ = std::thread::Builder::new().stack_size(1 << 18).spawn(move || {
            f();
            drop(done);
        });
        crate::net::real_time(|| {
            let _ = wait.recv_timeout(std::time::Duration::from_millis(200));
        });
    }
}

impl protosocket_rpc::Message for Msg {
    fn message_id(&self) -> u64 {
        looked_at(self);
        self.id
    }
    fn control_code(&self) -> ProtosocketControlCode {
        ProtosocketControlCode::from_u8(self.code as u8)
    }
    fn set_message_id(&mut self, message_id: u64) {
        self.id = message_id;
    }
    fn cancelled(message_id: u64) -> Self {
        Msg { id: message_id, code: ProtosocketControlCode::Cancel.as_u8() as u32, ..Default::default() }
    }
    fn ended(message_id: u64) -> Self {
        Msg { id: message_id, code: ProtosocketControlCode::End.as_u8() as u32, ..Default::default() }
    }
}
impl Msg {
    pub fn req(id: u64, uid: u64, op: u32) -> Msg {
        Msg { id, uid, op, n: 1, size: 8, body: fill(uid, 77, (uid % 40) as usize), ..Default::default() }
    }
    pub fn stream(id: u64, uid: u64, n: u32) -> Msg {
        Msg { n, ..Msg::req(id, uid, STREAM) }
    }
    pub fn ctl(id: u64, code: u32) -> Msg {
        Msg { id, code, ..Default::default() }
    }
    /// the k-th response of a call
    pub fn item(id: u64, uid: u64, k: u32, size: u32) -> Msg {
        Msg { id, uid, idx: k, body: fill(uid, k as u64, size as usize), ..Default::default() }
    }
}

pub trait Codec: 'static + Send + Sync + Unpin {
    type S: Serializer<Message = Msg> + Default + Send + 'static;
    type D: Deserializer<Message = Msg> + Default + Send + 'static;
    const C: Cd;
}
pub struct Pc;
pub struct Mc;
impl Codec for Pc {
    type S = protosocket_prost::ProstSerializer<Msg, Msg>;
    type D = protosocket_prost::ProstSerializer<Msg, Msg>;
    const C: Cd = Cd::Prost;
}
impl Codec for Mc {
    type S = protosocket_messagepack::ProtosocketMessagePackSerializer<Msg>;
    type D = protosocket_messagepack::ProtosocketMessagePackDeserializer<Msg>;
    const C: Cd = Cd::Mp;
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cd {
    Prost,
    Mp,
}
pub fn varint(mut v: u64, out: &mut Vec<u8>) {
    while v >= 0x80 {
        out.push(v as u8 | 0x80);
        v >>= 7;
    }
    out.push(v as u8);
}
pub fn frame(cd: Cd, payload: &[u8]) -> Vec<u8> {
    let mut v = Vec::with_capacity(payload.len() + 6);
    match cd {
        Cd::Prost => varint(payload.len() as u64, &mut v),
        Cd::Mp => {
            v.push(0xce);
            v.extend_from_slice(&(payload.len() as u32).to_be_bytes());
        }
    }
    v.extend_from_slice(payload);
    v
}
pub fn payload(cd: Cd, m: &Msg) -> Vec<u8> {
    match cd {
        Cd::Prost => prost::Message::encode_to_vec(m),
        Cd::Mp => rmp_serde::to_vec(m).expect("encode"),
    }
}
pub fn enc(cd: Cd, m: &Msg) -> Vec<u8> {
    frame(cd, &payload(cd, m))
}
pub enum Parsed {
    Need,
    Bad(String),
    Msg(usize, Msg),
}
pub fn parse(cd: Cd, b: &[u8]) -> Parsed {
    let (head, len) = match cd {
        Cd::Prost => {
            let mut v = 0u64;
            let mut i = 0;
            loop {
                let Some(x) = b.get(i) else { return Parsed::Need };
                v |= ((x & 0x7f) as u64) << (7 * i);
                i += 1;
                if x & 0x80 == 0 {
                    break;
                }
                if i > 9 {
                    return Parsed::Bad("delimiter".into());
                }
            }
            (i, v as usize)
        }
        Cd::Mp => {
            if b.len() < 5 {
                return Parsed::Need;
            }
            if b[0] != 0xce {
                return Parsed::Bad(format!("marker {:x}", b[0]));
            }
            (5, u32::from_be_bytes([b[1], b[2], b[3], b[4]]) as usize)
        }
    };
    if len > 1 << 30 {
        return Parsed::Bad(format!("length {len}"));
    }
    if b.len() < head + len {
        return Parsed::Need;
    }
    let p = &b[head..head + len];
    let m = match cd {
        Cd::Prost => <Msg as prost::Message>::decode(p).map_err(|e| e.to_string()),
        Cd::Mp => rmp_serde::from_slice(p).map_err(|e| e.to_string()),
    };
    match m {
        Ok(m) => Parsed::Msg(head + len, m),
        Err(e) => Parsed::Bad(e),
    }
}
