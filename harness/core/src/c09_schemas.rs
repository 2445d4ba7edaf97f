//! C09: schema streaming.
use crate::mock::*;
use crate::probe::Val;
use crate::util::*;
use postcard_rpc::header::*;
use postcard_rpc::server::Sender;
use postcard_rpc::standard_icd::{GetAllSchemaDataTopic, GetAllSchemasEndpoint};
use postcard_rpc::*;
use postcard_schema::schema::{DataModelType, NamedType};

static TA: NamedType = NamedType { name: "A", ty: &DataModelType::UnitStruct };
static TB: NamedType = NamedType { name: "Bb", ty: &DataModelType::UnitStruct };
static TYPES: [&NamedType; 2] = [&TA, &TB];

fn be(k: [u8; 8]) -> u128 {
    u64::from_be_bytes(k) as u128
}
fn strcode(len: u128, first: u8) -> u128 {
    len | (first as u128) << 8
}

/// nt types, ne endpoints, no outgoing topics, ni incoming topics (each 0..=2); every key, every
/// header, every outcome of every send
fn body(nt: usize, ne: usize, no: usize, ni: usize) {
    reset();
    any_outcomes();
    let total = nt + ne + no + ni;
    let k: [[u8; 8]; 8] = kani::any();
    let eps: &'static [(&'static str, Key, Key); 2] = Box::leak(Box::new([("e", key8(k[0]), key8(k[1])), ("ff", key8(k[2]), key8(k[3]))]));
    let tos: &'static [(&'static str, Key); 2] = Box::leak(Box::new([("o", key8(k[4])), ("pp", key8(k[5]))]));
    let tis: &'static [(&'static str, Key); 2] = Box::leak(Box::new([("i", key8(k[6])), ("jj", key8(k[7]))]));
    let map = DeviceMap {
        types: &TYPES[..nt],
        endpoints: &eps[..ne],
        topics_out: &tos[..no],
        topics_in: &tis[..ni],
        min_key_len: any_kind(),
    };
    let kind = any_kind();
    let w = kind_w(kind);
    let hdr = VarHeader { key: VarKey::Key8(GetAllSchemasEndpoint::REQ_KEY), seq_no: any_seq() };
    let seq = seq_view(&hdr.seq_no);
    let tx = Sender::new(Tx, kind);
    let r = now(tx.send_all_schemas(&hdr, &map));
    let (n, out) = unsafe { (NSENT, OUTCOME) };
    assert!(n == total + 1, "every item once, then the reply");
    let dk = (w, fold_to(GetAllSchemaDataTopic::TOPIC_KEY.to_bytes(), w));
    let mut errs = 0u128;
    let mut i = 0;
    while i < total {
        let s = sent(i);
        assert!(s.key == dk, "schema data topic");
        assert!(s.seq == (2, i as u32), "numbered consecutively from zero");
        let m: Val = s.msg;
        if i < nt {
            assert!(m.tag == 3 && m.var == 0 && m.n == 1, "a type");
            assert!(m.acc == if i == 0 { strcode(1, b'A') } else { strcode(2, b'B') }, "its own type");
        } else if i < nt + ne {
            let j = i - nt;
            assert!(m.tag == 4 && m.var == 1 && m.n == 17, "an endpoint");
            assert!(m.first == if j == 0 { strcode(1, b'e') as u32 } else { strcode(2, b'f') as u32 }, "its own path");
            assert!(m.acc == be(k[2 * j]) << 64 | be(k[2 * j + 1]), "request key, response key");
        } else {
            let (base, dir, a, b, j) = if i < nt + ne + no { (4, 1, b'o', b'p', i - nt - ne) } else { (6, 0, b'i', b'j', i - nt - ne - no) };
            assert!(m.tag == 4 && m.var == 2 && m.n == 10, "a topic");
            assert!(m.first == if j == 0 { strcode(1, a) as u32 } else { strcode(2, b) as u32 }, "its own path");
            assert!(m.acc & ((1 << 72) - 1) == be(k[base + j]) << 8 | dir, "key and direction");
        }
        if out[i] != 0 {
            errs += 1;
        }
        i += 1;
    }
    let s = sent(total);
    assert!(s.key == (w, fold_to(GetAllSchemasEndpoint::RESP_KEY.to_bytes(), w)) && s.seq == seq, "reply to the requester");
    assert!(s.msg.tag == 5 && s.msg.n == 5);
    assert!(
        s.msg.acc == (nt as u128) << 64 | (ne as u128) << 48 | (ni as u128) << 32 | (no as u128) << 16 | errs,
        "truthful totals"
    );
    assert!(code(&r) == out[total], "outcome of the final reply");
    kani::cover!(errs == total as u128, "all failed");
    kani::cover!(errs == 0, "none failed");
}

macro_rules! h {
    ($($n:ident $a:literal $b:literal $c:literal $d:literal;)*) => {$(
        #[kani::proof]
        #[kani::unwind(10)]
        fn $n() {
            body($a, $b, $c, $d);
        }
    )*};
}
h! {
    c09_empty 0 0 0 0;
    c09_types 2 0 0 0;
    c09_endpoints 0 2 0 0;
    c09_topics_out 0 0 2 0;
    c09_topics_in 0 0 0 2;
    c09_one_of_each 1 1 1 1;
}
