//! C03: key shortening
use crate::util::*;
use postcard_rpc::header::*;
use postcard_rpc::*;

#[kani::proof]
#[kani::unwind(10)]
fn c03_fold_routes_agree() {
    let b: [u8; 8] = kani::any();
    let k = key8(b);
    let k4 = Key4::from_key8(k);
    let k2 = Key2::from_key8(k);
    let k1 = Key1::from_key8(k);
    assert!(k4.to_bytes() == fold4(b));
    assert!(k2.to_bytes() == fold2(b));
    assert!(k1.to_bytes() == fold1(b));
    assert!(Key2::from_key4(k4).to_bytes() == fold2(b));
    assert!(Key1::from_key4(k4).to_bytes() == fold1(b));
    assert!(Key1::from_key2(k2).to_bytes() == fold1(b));
    assert!(Key1::from_key2(Key2::from_key4(k4)).to_bytes() == fold1(b));
    assert!(Key4::from(k).to_bytes() == fold4(b));
    assert!(Key2::from(k).to_bytes() == fold2(b));
    assert!(Key1::from(k).to_bytes() == fold1(b));
    assert!(Key2::from(k4).to_bytes() == fold2(b));
    assert!(Key1::from(k4).to_bytes() == fold1(b));
    assert!(Key1::from(k2).to_bytes() == fold1(b));
    kani::cover!(fold1(b) == 0 && b[0] != 0, "non-trivial key");
}

#[kani::proof]
#[kani::unwind(10)]
fn c03_shrink_any_route() {
    let b: [u8; 8] = kani::any();
    let w0 = any_kw();
    let mut k = varkey(b, w0);
    assert!(key_view(&k) == (w0, fold_to(b, w0)));
    assert!(kind_w(k.kind()) == w0);
    // two shrink steps with arbitrary targets: result is the fold at the smallest width seen
    let t1 = any_kind();
    let t2 = any_kind();
    k.shrink_to(t1);
    let w1 = w0.min(kind_w(t1));
    assert!(key_view(&k) == (w1, fold_to(b, w1)));
    assert!(kind_w(k.kind()) == w1);
    k.shrink_to(t2);
    let w2 = w1.min(kind_w(t2));
    assert!(key_view(&k) == (w2, fold_to(b, w2)));
    assert!(kind_w(k.kind()) == w2);
    kani::cover!(w0 == 8 && w1 == 4 && w2 == 1, "8 -> 4 -> 1");
    kani::cover!(w0 == 2 && kind_w(t1) == 8, "never lengthened");
}

/// For two arbitrary keys at arbitrary widths equality is: agree after shortening to the smaller.
#[kani::proof]
#[kani::unwind(10)]
fn c03_equality_is_fold_to_smaller() {
    let a: [u8; 8] = kani::any();
    let b: [u8; 8] = kani::any();
    let (wa, wb) = (any_kw(), any_kw());
    let (ka, kb) = (varkey(a, wa), varkey(b, wb));
    let w = wa.min(wb);
    let expect = fold_to(a, w) == fold_to(b, w);
    assert!((ka == kb) == expect);
    assert!((kb == ka) == expect, "symmetric");
    assert!((ka != kb) == !expect);
    assert!(ka == ka && kb == kb, "reflexive");
    // comparing against explicitly shortened copies gives the same answer
    let mut sa = ka;
    let mut sb = kb;
    let kind = match w {
        1 => VarKeyKind::Key1,
        2 => VarKeyKind::Key2,
        4 => VarKeyKind::Key4,
        _ => VarKeyKind::Key8,
    };
    sa.shrink_to(kind);
    sb.shrink_to(kind);
    assert!((sa == sb) == expect);
    kani::cover!(expect && wa == 8 && wb == 1 && a != b, "equal at 1 byte only");
    kani::cover!(!expect && wa == 4 && wb == 2, "unequal across widths");
}

#[kani::proof]
#[kani::unwind(10)]
fn c03_conversion_from_received_key() {
    let b: [u8; 8] = kani::any();
    let w = any_kw();
    let k = varkey(b, w);
    // Key1: always
    assert!(Key1::try_from_varkey(&k).map(|x| x.to_bytes()) == Some(fold1(b)));
    assert!(Key1::try_from(&k).map(|x| x.to_bytes()) == Ok(fold1(b)));
    let e2 = if w >= 2 { Some(fold2(b)) } else { None };
    assert!(Key2::try_from_varkey(&k).map(|x| x.to_bytes()) == e2);
    assert!(Key2::try_from(&k).map(|x| x.to_bytes()).ok() == e2);
    let e4 = if w >= 4 { Some(fold4(b)) } else { None };
    assert!(Key4::try_from_varkey(&k).map(|x| x.to_bytes()) == e4);
    assert!(Key4::try_from(&k).map(|x| x.to_bytes()).ok() == e4);
    let e8 = if w == 8 { Some(b) } else { None };
    assert!(Key::try_from(&k).map(|x| x.to_bytes()).ok() == e8);
    kani::cover!(w == 4, "w4");
}

struct Ep;
impl Endpoint for Ep {
    type Request = u8;
    type Response = u16;
    const PATH: &'static str = "x";
    const REQ_KEY: Key = unsafe { Key::from_bytes([0x01, 0x12, 0x34, 0x58, 0x9A, 0xBC, 0xDE, 0xF7]) };
    const RESP_KEY: Key = unsafe { Key::from_bytes([0xF0, 0x21, 0x43, 0x65, 0x87, 0xA9, 0xCB, 0xEE]) };
}
struct Tp;
impl Topic for Tp {
    type Message = u8;
    const PATH: &'static str = "y";
    const TOPIC_KEY: Key = unsafe { Key::from_bytes([0x0F, 0x1E, 0x2D, 0x3C, 0x4B, 0x5A, 0x69, 0x79]) };
}

#[kani::proof]
#[kani::unwind(10)]
fn c03_trait_constants() {
    fn chk(k8: Key, k4: Key4, k2: Key2, k1: Key1) {
        let b = k8.to_bytes();
        assert!(k4.to_bytes() == fold4(b));
        assert!(k2.to_bytes() == fold2(b));
        assert!(k1.to_bytes() == fold1(b));
    }
    chk(Ep::REQ_KEY, Ep::REQ_KEY4, Ep::REQ_KEY2, Ep::REQ_KEY1);
    chk(Ep::RESP_KEY, Ep::RESP_KEY4, Ep::RESP_KEY2, Ep::RESP_KEY1);
    chk(Tp::TOPIC_KEY, Tp::TOPIC_KEY4, Tp::TOPIC_KEY2, Tp::TOPIC_KEY1);
    kani::cover!(true, "reached");
}
