//! C20: what a server sends carries the right key, sequence number and value.
use crate::mock::*;
use crate::util::*;
use postcard_rpc::header::*;
use postcard_rpc::server::Sender;
use postcard_rpc::standard_icd::{FrameTooLong, FrameTooShort, WireError, ERROR_KEY};
use postcard_rpc::*;

pub struct Ep;
const K1: [u8; 8] = [0x12, 0x34, 0x56, 0x78, 0x9A, 0xBC, 0xDE, 0xF1];
const K2: [u8; 8] = [0x21, 0x43, 0x65, 0x87, 0xA9, 0xCB, 0xED, 0x1F];
impl Endpoint for Ep {
    type Request = u8;
    type Response = u32;
    const PATH: &'static str = "p";
    const REQ_KEY: Key = unsafe { Key::from_bytes([9; 8]) };
    const RESP_KEY: Key = unsafe { Key::from_bytes(K1) };
}
pub struct Tp;
impl Topic for Tp {
    type Message = u32;
    const PATH: &'static str = "t";
    const TOPIC_KEY: Key = unsafe { Key::from_bytes(K2) };
}

fn setup() -> (Sender<Tx>, u8, VarSeq, (u8, u32), u32) {
    reset();
    any_outcomes();
    let kind = any_kind();
    let seq = any_seq();
    (Sender::new(Tx, kind), kind_w(kind), seq, seq_view(&seq), kani::any())
}
fn check(r: Result<(), postcard_rpc::server::WireTxErrorKind>, key: [u8; 8], w: u8, sv: (u8, u32)) -> Sent {
    let (s0, n, out) = unsafe { (S0, NSENT, OUTCOME) };
    assert!(n == 1, "sent exactly once");
    assert!(s0.key == (w, fold_to(key, w)), "key folded to the sender's length");
    assert!(s0.seq == sv, "caller's sequence number");
    assert!(code(&r) == out[0], "transport result handed back");
    kani::cover!(w == 8 && out[0] == 0, "full key sent");
    kani::cover!(w == 1 && out[0] == 3, "short key, timeout");
    s0
}

#[kani::proof]
#[kani::unwind(10)]
fn c20_reply() {
    let (s, w, seq, sv, v) = setup();
    let r = now(s.reply::<Ep>(seq, &v));
    let m = check(r, K1, w, sv).msg;
    assert!(m.tag == 1 && m.n == 1 && m.last == v, "caller's value");
}

#[kani::proof]
#[kani::unwind(10)]
fn c20_publish() {
    let (s, w, seq, sv, v) = setup();
    let r = now(s.publish::<Tp>(seq, &v));
    let m = check(r, K2, w, sv).msg;
    assert!(m.tag == 1 && m.n == 1 && m.last == v, "caller's value");
}

#[kani::proof]
#[kani::unwind(10)]
fn c20_reply_keyed() {
    let (s, w, seq, sv, v) = setup();
    let k: [u8; 8] = kani::any();
    let r = now(s.reply_keyed(seq, key8(k), &v));
    let m = check(r, k, w, sv).msg;
    assert!(m.tag == 1 && m.n == 1 && m.last == v, "caller's value");
}

#[kani::proof]
#[kani::unwind(10)]
fn c20_error() {
    let (s, w, seq, sv, v) = setup();
    let which: u8 = kani::any();
    kani::assume(which < 7);
    let e = match which {
        0 => WireError::FrameTooLong(FrameTooLong { len: 1, max: v }),
        1 => WireError::FrameTooShort(FrameTooShort { len: v }),
        2 => WireError::DeserFailed,
        3 => WireError::SerFailed,
        4 => WireError::UnknownKey,
        5 => WireError::FailedToSpawn,
        _ => WireError::KeyTooSmall,
    };
    let r = now(s.error(seq, e));
    let m = check(r, ERROR_KEY.to_bytes(), w, sv).msg;
    assert!(m.var == which as u32, "caller's error");
    if which < 2 {
        assert!(m.tag == 3 && m.last == v, "error payload");
    } else {
        assert!(m.tag == 2);
    }
    kani::cover!(which == 0, "payload error");
}

/// log calls reach the transport once, with the sender's key length
#[kani::proof]
#[kani::unwind(10)]
fn c20_log() {
    let (s, w, _, _, _) = setup();
    let r = if kani::any() { now(s.log_str("x")) } else { now(s.log_fmt(format_args!("x"))) };
    let (k, n, sent, out) = unsafe { (LOGKIND, NLOG, NSENT, OUTCOME) };
    assert!(n == 1 && sent == 0, "exactly one log message");
    assert!(kind_w(k.unwrap()) == w, "sender's key length");
    assert!(code(&r) == out[0], "transport result handed back");
    kani::cover!(out[0] == 0, "sent");
}
