//! Shared helpers: symbolic value constructors (public API only) and reference models.
use postcard_rpc::header::{VarHeader, VarKey, VarKeyKind, VarSeq};
use postcard_rpc::{Key, Key1, Key2, Key4};

/// Reference folding, straight from the protocol documentation.
pub fn fold4(k: [u8; 8]) -> [u8; 4] {
    [k[0] ^ k[1], k[2] ^ k[3], k[4] ^ k[5], k[6] ^ k[7]]
}
pub fn fold2(k: [u8; 8]) -> [u8; 2] {
    [k[0] ^ k[1] ^ k[2] ^ k[3], k[4] ^ k[5] ^ k[6] ^ k[7]]
}
pub fn fold1(k: [u8; 8]) -> u8 {
    k[0] ^ k[1] ^ k[2] ^ k[3] ^ k[4] ^ k[5] ^ k[6] ^ k[7]
}

pub fn key8(b: [u8; 8]) -> Key {
    unsafe { Key::from_bytes(b) }
}

/// (width, bytes) view of a key; bytes beyond the width are zero
pub fn key_view(k: &VarKey) -> (u8, [u8; 8]) {
    let mut o = [0u8; 8];
    match k {
        VarKey::Key1(k) => {
            o[0] = k.to_bytes();
            (1, o)
        }
        VarKey::Key2(k) => {
            let b = k.to_bytes();
            o[0] = b[0];
            o[1] = b[1];
            (2, o)
        }
        VarKey::Key4(k) => {
            let b = k.to_bytes();
            o[0] = b[0];
            o[1] = b[1];
            o[2] = b[2];
            o[3] = b[3];
            (4, o)
        }
        VarKey::Key8(k) => (8, k.to_bytes()),
    }
}

/// (width, value) view of a sequence number
pub fn seq_view(s: &VarSeq) -> (u8, u32) {
    match s {
        VarSeq::Seq1(v) => (1, *v as u32),
        VarSeq::Seq2(v) => (2, *v as u32),
        VarSeq::Seq4(v) => (4, *v),
    }
}

/// reference fold of a full key to `w` bytes
pub fn fold_to(k: [u8; 8], w: u8) -> [u8; 8] {
    let mut o = [0u8; 8];
    match w {
        1 => o[0] = fold1(k),
        2 => {
            let b = fold2(k);
            o[0] = b[0];
            o[1] = b[1];
        }
        4 => {
            let b = fold4(k);
            o[0] = b[0];
            o[1] = b[1];
            o[2] = b[2];
            o[3] = b[3];
        }
        _ => o = k,
    }
    o
}

pub fn kind_w(k: VarKeyKind) -> u8 {
    match k {
        VarKeyKind::Key1 => 1,
        VarKeyKind::Key2 => 2,
        VarKeyKind::Key4 => 4,
        VarKeyKind::Key8 => 8,
    }
}

/// A key of width `w` folded (by the crate) from a full key.
pub fn varkey(k: [u8; 8], w: u8) -> VarKey {
    match w {
        1 => VarKey::Key1(Key1::from_key8(key8(k))),
        2 => VarKey::Key2(Key2::from_key8(key8(k))),
        4 => VarKey::Key4(Key4::from_key8(key8(k))),
        _ => VarKey::Key8(key8(k)),
    }
}

#[cfg(kani)]
pub fn any_kw() -> u8 {
    let w: u8 = kani::any();
    kani::assume(w == 1 || w == 2 || w == 4 || w == 8);
    w
}
#[cfg(kani)]
pub fn any_kind() -> VarKeyKind {
    match kani::any::<u8>() & 3 {
        0 => VarKeyKind::Key1,
        1 => VarKeyKind::Key2,
        2 => VarKeyKind::Key4,
        _ => VarKeyKind::Key8,
    }
}
/// Any key of any width (folding is onto, so this reaches every short key)
#[cfg(kani)]
pub fn any_varkey() -> VarKey {
    varkey(kani::any(), any_kw())
}
#[cfg(kani)]
pub fn any_seq() -> VarSeq {
    match kani::any::<u8>() % 3 {
        0 => VarSeq::Seq1(kani::any()),
        1 => VarSeq::Seq2(kani::any()),
        _ => VarSeq::Seq4(kani::any()),
    }
}
#[cfg(kani)]
pub fn any_header() -> VarHeader {
    VarHeader { key: any_varkey(), seq_no: any_seq() }
}

/// Reference header encoder; returns (bytes, length)
pub fn ref_encode(h: &VarHeader) -> ([u8; 13], usize) {
    let (kw, kb) = key_view(&h.key);
    let (sw, sv) = seq_view(&h.seq_no);
    let mut o = [0u8; 13];
    o[0] = match kw {
        1 => 0x00,
        2 => 0x40,
        4 => 0x80,
        _ => 0xC0,
    } | match sw {
        1 => 0x00,
        2 => 0x10,
        _ => 0x20,
    };
    let mut n = 1;
    let mut i = 0;
    while i < kw as usize {
        o[n] = kb[i];
        n += 1;
        i += 1;
    }
    let sb = sv.to_le_bytes();
    let mut i = 0;
    while i < sw as usize {
        o[n] = sb[i];
        n += 1;
        i += 1;
    }
    (o, n)
}

extern crate alloc;
/// a `'static` copy of `v`
pub fn leak<T>(v: T) -> &'static T {
    alloc::boxed::Box::leak(alloc::boxed::Box::new(v))
}
