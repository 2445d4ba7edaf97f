//! C07: the generated dispatcher, at each of its four key lengths.
use crate::mock::*;
use crate::util::*;
use postcard_rpc::header::*;
use postcard_rpc::server::{Dispatch, Sender, SpawnContext, WireSpawn};
use postcard_rpc::standard_icd::{PingEndpoint, GetAllSchemasEndpoint, ERROR_KEY};
use postcard_rpc::*;

macro_rules! k {
    ($($b:literal)*) => { unsafe { Key::from_bytes([$($b),*]) } };
}
macro_rules! ep {
    ($n:ident $req:ty, $resp:ty, $a:expr, $b:expr) => {
        pub struct $n;
        impl Endpoint for $n {
            type Request = $req;
            type Response = $resp;
            const PATH: &'static str = "p";
            const REQ_KEY: Key = $a;
            const RESP_KEY: Key = $b;
        }
    };
}
macro_rules! tp {
    ($n:ident $m:ty, $a:expr) => {
        pub struct $n;
        impl Topic for $n {
            type Message = $m;
            const PATH: &'static str = "t";
            const TOPIC_KEY: Key = $a;
        }
    };
}
ep!(EpA bool, u8, k!(1 0 0 0 0 0 0 0), k!(0 0 0 7 0 0 0 0x11));
ep!(EpB u16, u8, k!(0 0 2 0 0 0 0 0x70), k!(0 9 0 0 0 0 0x20 0));
ep!(EpC [u8; 2], u8, k!(0 0 0 0 0 4 0x40 0), k!(3 0 0 0 0x30 0 0 0));
tp!(TpA u8, k!(0x80 0 0 0 0 0 0 0x10));
tp!(TpB bool, k!(0 0x08 0 0 0x20 0 0 0));
tp!(TpC [u8; 2], k!(0 0 0x10 0 0 0x21 0 0));

#[derive(Clone)]
pub struct Sp {
    fail: bool,
}
impl WireSpawn for Sp {
    type Error = ();
    type Info = ();
    fn info(&self) -> &() {
        &()
    }
}
/// spawns by running to completion at once, or refuses
pub fn spawner<F: core::future::Future<Output = ()>>(s: &Sp, f: F) -> Result<(), ()> {
    if s.fail {
        Err(())
    } else {
        now(f);
        Ok(())
    }
}

pub struct Ctx {
    calls: u8,
    who: u8,
    val: u32,
    key: (u8, [u8; 8]),
    seq: (u8, u32),
    reply: u8,
}
/// what a spawned task saw
static mut SPAWNED: (u8, u8, u32) = (0, 0, 0);
static mut SPAWN_HDR: ((u8, [u8; 8]), (u8, u32)) = ((0, [0; 8]), (0, 0));
impl Ctx {
    fn rec(&mut self, who: u8, val: u32, h: &VarHeader) {
        self.calls += 1;
        self.who = who;
        self.val = val;
        self.key = key_view(&h.key);
        self.seq = seq_view(&h.seq_no);
    }
}
pub struct SCtx(u8);
impl SpawnContext for Ctx {
    type SpawnCtxt = SCtx;
    fn spawn_ctxt(&mut self) -> SCtx {
        SCtx(self.reply)
    }
}
fn ep_a(c: &mut Ctx, h: VarHeader, r: bool) -> u8 {
    c.rec(1, r as u32, &h);
    c.reply
}
async fn ep_b(c: &mut Ctx, h: VarHeader, r: u16) -> u8 {
    c.rec(2, r as u32, &h);
    c.reply
}
fn srec(who: u8, val: u32, h: &VarHeader) {
    unsafe {
        SPAWNED.0 += 1;
        SPAWNED.1 = who;
        SPAWNED.2 = val;
        SPAWN_HDR = (key_view(&h.key), seq_view(&h.seq_no));
    }
}
async fn ep_c(c: SCtx, h: VarHeader, r: [u8; 2], tx: Sender<Tx>) {
    srec(3, r[0] as u32 | (r[1] as u32) << 8, &h);
    let _ = tx.reply::<EpC>(h.seq_no, &c.0).await;
}
fn tp_a(c: &mut Ctx, h: VarHeader, m: u8, _tx: &Sender<Tx>) {
    c.rec(4, m as u32, &h);
}
async fn tp_b(c: &mut Ctx, h: VarHeader, m: bool, _tx: &Sender<Tx>) {
    c.rec(5, m as u32, &h);
}
async fn tp_c(_c: SCtx, h: VarHeader, m: [u8; 2], _tx: Sender<Tx>) {
    srec(6, m[0] as u32 | (m[1] as u32) << 8, &h);
}

/// one dispatcher: one endpoint and one topic of a flavour (small async state machine)
macro_rules! dispatcher {
    ($m:ident $kind:tt $ep:ident $eph:ident $tp:ident $tph:ident) => {
        pub mod $m {
            use super::*;
            const EPS: EndpointMap = EndpointMap {
                types: &[],
                endpoints: &[
                    ("p", $ep::REQ_KEY, $ep::RESP_KEY),
                    (PingEndpoint::PATH, PingEndpoint::REQ_KEY, PingEndpoint::RESP_KEY),
                    (GetAllSchemasEndpoint::PATH, GetAllSchemasEndpoint::REQ_KEY, GetAllSchemasEndpoint::RESP_KEY),
                ],
            };
            const TIN: TopicMap = TopicMap { direction: TopicDirection::ToServer, types: &[], topics: &[("t", $tp::TOPIC_KEY)] };
            const TOUT: TopicMap = TopicMap { direction: TopicDirection::ToClient, types: &[], topics: &[] };
            define_dispatch! {
                app: App;
                spawn_fn: spawner;
                tx_impl: Tx;
                spawn_impl: Sp;
                context: Ctx;

                endpoints: {
                    list: EPS;
                    | EndpointTy | kind  | handler |
                    | ---------- | ----  | ------- |
                    | $ep        | $kind | $eph    |
                };
                topics_in: {
                    list: TIN;
                    | TopicTy | kind  | handler |
                    | ------- | ----  | ------- |
                    | $tp     | $kind | $tph    |
                };
                topics_out: {
                    list: TOUT;
                };
            }
            pub fn run<const W: usize>(fail: bool, reply: u8, hdr: &VarHeader, data: &[u8]) -> (Ctx, u8)
            where
                impls::App<W>: Dispatch<Tx = Tx>,
            {
                let mut app = impls::App::<W>::new(
                    Ctx { calls: 0, who: 0, val: 0, key: (0, [0; 8]), seq: (0, 0), reply },
                    Sp { fail },
                );
                let tx = Sender::new(Tx, app.min_key_len());
                assert!(kind_w(app.min_key_len()) == W as u8);
                let res = code(&now(app.handle(&tx, hdr, data)));
                (app.context, res)
            }
        }
    };
}
dispatcher!(blocking blocking EpA ep_a TpA tp_a);
dispatcher!(asynch async EpB ep_b TpB tp_b);
dispatcher!(spawned spawn EpC ep_c TpC tp_c);

/// WireError discriminants on the wire
const DESER: u8 = 2;
const SER: u8 = 3;
const UNKNOWN: u8 = 4;
const SPAWN: u8 = 5;
const SMALL: u8 = 6;

fn is_error(s: &Sent, w: u8, seq: (u8, u32), e: u8) -> bool {
    s.key == (w, fold_to(ERROR_KEY.to_bytes(), w)) && s.seq == seq && s.msg.tag == 2 && s.msg.var == e as u32
}
fn is_reply(s: &Sent, w: u8, seq: (u8, u32), key: Key, v: u32) -> bool {
    s.key == (w, fold_to(key.to_bytes(), w)) && s.seq == seq && s.msg.tag == 1 && s.msg.n == 1 && s.msg.last == v
}

/// `seen`: the key bytes of the incoming frame folded to the dispatcher's width
fn hits(seen: &[u8; 8], key: Key, w: u8) -> bool {
    *seen == fold_to(key.to_bytes(), w)
}

/// postcard varint (u16): value if the body holds one
fn varint16(b: &[u8; 4], len: usize) -> Option<u32> {
    if len < 1 {
        return None;
    }
    if b[0] < 0x80 {
        return Some(b[0] as u32);
    }
    if len < 2 {
        return None;
    }
    if b[1] < 0x80 {
        return Some((b[0] & 0x7F) as u32 | (b[1] as u32) << 7);
    }
    if len < 3 || b[2] > 3 {
        return None;
    }
    Some((b[0] & 0x7F) as u32 | ((b[1] & 0x7F) as u32) << 7 | (b[2] as u32) << 14)
}

/// postcard varint (u32) in at most 4 bytes
fn varint32(b: &[u8; 4], len: usize) -> Option<u32> {
    let mut v = 0u32;
    let mut i = 0;
    while i < 4 {
        if i >= len {
            return None;
        }
        v |= ((b[i] & 0x7F) as u32) << (7 * i);
        if b[i] < 0x80 {
            return Some(v);
        }
        i += 1;
    }
    None
}

/// D: which dispatcher (1 blocking, 2 async, 3 spawn); W: its key length
fn body(d: u8, w: u8) {
    reset();
    unsafe {
        SPAWNED = (0, 0, 0);
    }
    any_outcomes();
    let full: [u8; 8] = kani::any();
    let kw = any_kw();
    let hdr = VarHeader { key: varkey(full, kw), seq_no: any_seq() };
    let seq = seq_view(&hdr.seq_no);
    let data: [u8; 4] = kani::any();
    let len: usize = kani::any();
    kani::assume(len <= 4);
    let seen = fold_to(full, w);
    // schema streaming has its own harnesses (C09)
    kani::assume(kw < w || !hits(&seen, GetAllSchemasEndpoint::REQ_KEY, w));
    let reply: u8 = kani::any();
    let fail: bool = kani::any();
    let b = &data[..len];
    let (ctx, res) = match (d, w) {
        (1, 1) => blocking::run::<1>(fail, reply, &hdr, b),
        (1, 2) => blocking::run::<2>(fail, reply, &hdr, b),
        (1, 4) => blocking::run::<4>(fail, reply, &hdr, b),
        (1, _) => blocking::run::<8>(fail, reply, &hdr, b),
        (2, 1) => asynch::run::<1>(fail, reply, &hdr, b),
        (2, 2) => asynch::run::<2>(fail, reply, &hdr, b),
        (2, 4) => asynch::run::<4>(fail, reply, &hdr, b),
        (2, _) => asynch::run::<8>(fail, reply, &hdr, b),
        (_, 1) => spawned::run::<1>(fail, reply, &hdr, b),
        (_, 2) => spawned::run::<2>(fail, reply, &hdr, b),
        (_, 4) => spawned::run::<4>(fail, reply, &hdr, b),
        (_, _) => spawned::run::<8>(fail, reply, &hdr, b),
    };
    let (sp, sphdr, sent, n, out) = unsafe { (SPAWNED, SPAWN_HDR, [S0, S1], NSENT, OUTCOME) };
    let two = if len >= 2 { Some(data[0] as u32 | (data[1] as u32) << 8) } else { None };
    let boolean = if len >= 1 && data[0] < 2 { Some(data[0] as u32) } else { None };
    let byte = if len >= 1 { Some(data[0] as u32) } else { None };
    // which handler, with which value
    let (epk, respk, tpk, epv, tpv) = match d {
        1 => (EpA::REQ_KEY, EpA::RESP_KEY, TpA::TOPIC_KEY, boolean, byte),
        2 => (EpB::REQ_KEY, EpB::RESP_KEY, TpB::TOPIC_KEY, varint16(&data, len), boolean),
        _ => (EpC::REQ_KEY, EpC::RESP_KEY, TpC::TOPIC_KEY, two, two),
    };
    const TOOSMALL: u8 = 0;
    const PING: u8 = 8;
    const NOBODY: u8 = 9;
    let (target, val) = if kw < w {
        (TOOSMALL, None)
    } else if hits(&seen, PingEndpoint::REQ_KEY, w) {
        (PING, varint32(&data, len))
    } else if hits(&seen, epk, w) {
        (d, epv)
    } else if hits(&seen, tpk, w) {
        (d + 3, tpv)
    } else {
        (NOBODY, None)
    };
    let direct = matches!(target, 1 | 2 | 4 | 5);
    let spawned = matches!(target, 3 | 6);
    match (direct, val) {
        (true, Some(v)) => {
            assert!(ctx.calls == 1, "handler runs exactly once");
            assert!(ctx.who == target && ctx.val == v, "right handler, right payload");
            assert!(ctx.key == (kw, fold_to(full, kw)) && ctx.seq == seq, "handler sees the frame's header");
        }
        _ => assert!(ctx.calls == 0, "no handler"),
    }
    match (spawned, val) {
        (true, Some(v)) if !fail => {
            assert!(sp.0 == 1, "task spawned exactly once");
            assert!(sp.1 == target && sp.2 == v, "right task, right payload");
            assert!(sphdr.0 == (kw, fold_to(full, kw)) && sphdr.1 == seq, "task sees the frame's header");
        }
        _ => assert!(sp.0 == 0, "no task"),
    }
    // answers
    match target {
        TOOSMALL => assert!(n == 1 && is_error(&sent[0], w, seq, SMALL) && res == out[0], "key too small"),
        NOBODY => assert!(n == 1 && is_error(&sent[0], w, seq, UNKNOWN) && res == out[0], "unknown key"),
        4 | 5 | 6 => assert!(n == 0 && res == 0, "topics are never answered"),
        _ if val.is_none() => assert!(n == 1 && is_error(&sent[0], w, seq, DESER) && res == out[0], "bad payload"),
        PING => assert!(n == 1 && is_reply(&sent[0], w, seq, PingEndpoint::RESP_KEY, val.unwrap()) && res == out[0], "ping echo"),
        3 if fail => assert!(n == 1 && is_error(&sent[0], w, seq, SPAWN) && res == out[0], "spawn refused"),
        3 => assert!(n == 1 && is_reply(&sent[0], w, seq, respk, reply as u32) && res == 0, "task's own reply"),
        _ => {
            assert!(n >= 1 && is_reply(&sent[0], w, seq, respk, reply as u32), "reply");
            if out[0] == 0 {
                assert!(n == 1 && res == 0, "one answer");
            } else {
                assert!(n == 2 && is_error(&sent[1], w, seq, SER) && res == out[1], "reply not sent");
            }
        }
    }
    kani::cover!(target == d && val.is_some() && n == 1 && !fail, "endpoint answered");
    kani::cover!(target == d && val.is_some() && out[0] != 0, "endpoint, failing send");
    kani::cover!(target == d && val.is_some() && fail, "endpoint, spawn would fail");
    kani::cover!(target == d + 3 && val.is_some(), "topic");
    kani::cover!(target == d + 3 && val.is_none(), "topic, bad payload");
    kani::cover!(target == NOBODY, "unknown");
    kani::cover!(target == PING && val.is_some(), "ping");
    kani::cover!(kw < w, "?short key");
}

macro_rules! h {
    ($($n:ident $d:literal $w:literal;)*) => {$(
        #[kani::proof]
        #[kani::unwind(9)]
        fn $n() {
            body($d, $w);
        }
    )*};
}
/// three endpoints and three topics in one dispatcher: a frame for one of them runs that one only
pub mod multi {
    use super::*;
    const EPS: EndpointMap = EndpointMap {
        types: &[],
        endpoints: &[
            ("p", EpA::REQ_KEY, EpA::RESP_KEY),
            ("p", EpB::REQ_KEY, EpB::RESP_KEY),
            ("p", EpC::REQ_KEY, EpC::RESP_KEY),
        ],
    };
    const TIN: TopicMap = TopicMap {
        direction: TopicDirection::ToServer,
        types: &[],
        topics: &[("t", TpA::TOPIC_KEY), ("t", TpB::TOPIC_KEY), ("t", TpC::TOPIC_KEY)],
    };
    const TOUT: TopicMap = TopicMap { direction: TopicDirection::ToClient, types: &[], topics: &[] };
    define_dispatch! {
        app: App;
        spawn_fn: spawner;
        tx_impl: Tx;
        spawn_impl: Sp;
        context: Ctx;

        endpoints: {
            list: EPS;
            | EndpointTy | kind     | handler |
            | ---------- | ----     | ------- |
            | EpA        | blocking | ep_a    |
            | EpB        | async    | ep_b    |
            | EpC        | spawn    | ep_c    |
        };
        topics_in: {
            list: TIN;
            | TopicTy | kind     | handler |
            | ------- | ----     | ------- |
            | TpA     | blocking | tp_a    |
            | TpB     | async    | tp_b    |
            | TpC     | spawn    | tp_c    |
        };
        topics_out: {
            list: TOUT;
        };
    }
    pub fn run<const W: usize>(key: Key, target: u8)
    where
        impls::App<W>: Dispatch<Tx = Tx>,
    {
        reset();
        unsafe {
            SPAWNED = (0, 0, 0);
        }
        let w = W as u8;
        let seq_no = any_seq();
        let seq = seq_view(&seq_no);
        let hdr = VarHeader { key: VarKey::Key8(key), seq_no };
        let reply: u8 = kani::any();
        let bit: bool = kani::any();
        let data = [bit as u8, 0u8];
        let mut app = impls::App::<W>::new(
            Ctx { calls: 0, who: 0, val: 0, key: (0, [0; 8]), seq: (0, 0), reply },
            Sp { fail: false },
        );
        let tx = Sender::new(Tx, app.min_key_len());
        let res = code(&now(app.handle(&tx, &hdr, &data)));
        let (sp, s0, n) = unsafe { (SPAWNED, S0, NSENT) };
        let c = &app.context;
        if target == 3 || target == 6 {
            assert!(c.calls == 0 && sp == (1, target, bit as u32), "its own task");
        } else {
            assert!(sp.0 == 0 && c.calls == 1 && c.who == target && c.val == bit as u32, "its own handler");
        }
        if target <= 3 {
            let k = match target {
                1 => EpA::RESP_KEY,
                2 => EpB::RESP_KEY,
                _ => EpC::RESP_KEY,
            };
            assert!(n == 1 && is_reply(&s0, w, seq, k, reply as u32), "its own reply");
        } else {
            assert!(n == 0, "topics are never answered");
        }
        assert!(res == 0);
        kani::cover!(true, "end");
    }
}
#[kani::proof]
#[kani::unwind(9)]
fn c07_multi_ep_b() {
    multi::run::<8>(EpB::REQ_KEY, 2);
}
#[kani::proof]
#[kani::unwind(9)]
fn t07_multi_ep_c() {
    multi::run::<2>(EpC::REQ_KEY, 3);
}
#[kani::proof]
#[kani::unwind(9)]
fn t07_multi_tp_a() {
    multi::run::<4>(TpA::TOPIC_KEY, 4);
}
#[kani::proof]
#[kani::unwind(9)]
fn c07_multi_tp_b() {
    multi::run::<1>(TpB::TOPIC_KEY, 5);
}
h! {
    c07_blocking_key1 1 1;
    t07_blocking_key2 1 2;
    t07_blocking_key4 1 4;
    c07_blocking_key8 1 8;
    t07_async_key1 2 1;
    c07_async_key2 2 2;
    t07_async_key4 2 4;
    c07_async_key8 2 8;
    t07_spawn_key1 3 1;
    t07_spawn_key2 3 2;
    c07_spawn_key4 3 4;
    t07_spawn_key8 3 8;
}
