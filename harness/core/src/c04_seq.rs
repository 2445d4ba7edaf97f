//! C04: sequence numbers
use crate::util::*;
use postcard_rpc::header::*;

fn any_seq_kind() -> VarSeqKind {
    match kani::any::<u8>() % 3 {
        0 => VarSeqKind::Seq1,
        1 => VarSeqKind::Seq2,
        _ => VarSeqKind::Seq4,
    }
}
fn skw(k: VarSeqKind) -> u8 {
    match k {
        VarSeqKind::Seq1 => 1,
        VarSeqKind::Seq2 => 2,
        VarSeqKind::Seq4 => 4,
    }
}
fn trunc(v: u32, w: u8) -> u32 {
    match w {
        1 => v & 0xFF,
        2 => v & 0xFFFF,
        _ => v,
    }
}

#[kani::proof]
fn c04_resize_and_convert() {
    let s = any_seq();
    let (w, v) = seq_view(&s);
    let t = any_seq_kind();
    let mut r = s;
    r.resize(t);
    assert!(seq_view(&r) == (skw(t), trunc(v, skw(t))));
    let t2 = any_seq_kind();
    r.resize(t2);
    assert!(seq_view(&r) == (skw(t2), trunc(trunc(v, skw(t)), skw(t2))));
    let a: u8 = s.into();
    let b: u16 = s.into();
    let c: u32 = s.into();
    assert!(a as u32 == v & 0xFF && b as u32 == v & 0xFFFF && c == v);
    let x: u32 = kani::any();
    assert!(seq_view(&VarSeq::from(x as u8)) == (1, x & 0xFF));
    assert!(seq_view(&VarSeq::from(x as u16)) == (2, x & 0xFFFF));
    assert!(seq_view(&VarSeq::from(x)) == (4, x));
    kani::cover!(w == 4 && skw(t) == 1 && v > 0xFFFF, "narrowing drops bits");
    kani::cover!(w == 1 && skw(t) == 4 && v > 0x7F, "widening keeps the value");
}

#[kani::proof]
#[kani::unwind(10)]
fn c04_equality() {
    let (a, b) = (any_seq(), any_seq());
    let (wa, va) = seq_view(&a);
    let (wb, vb) = seq_view(&b);
    assert!((a == b) == (va == vb));
    assert!((b == a) == (va == vb));
    assert!((a != b) == (va != vb));
    kani::cover!(va == vb && wa != wb, "equal across widths");
    kani::cover!(va != vb && va & 0xFF == vb & 0xFF, "equal low byte only");
    let (ka, kb) = (any_varkey(), any_varkey());
    let ha = VarHeader { key: ka, seq_no: a };
    let hb = VarHeader { key: kb, seq_no: b };
    assert!((ha == hb) == (va == vb && ka == kb));
    kani::cover!(ha == hb, "headers equal");
}
