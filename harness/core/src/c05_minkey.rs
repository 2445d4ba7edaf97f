//! C05 (function part): minimum key width
use crate::util::*;
use postcard_rpc::server::min_key_needed;
use postcard_rpc::Key;

fn collide<const N: usize>(ks: &[[u8; 8]; N], w: u8) -> bool {
    let mut hit = false;
    let mut i = 0;
    while i < N {
        let mut j = i + 1;
        while j < N {
            let (a, b) = (u64::from_le_bytes(fold_to(ks[i], w)), u64::from_le_bytes(fold_to(ks[j], w)));
            hit |= a == b;
            j += 1;
        }
        i += 1;
    }
    hit
}

/// 0 = no width avoids a collision
fn reference<const N: usize>(ks: &[[u8; 8]; N]) -> usize {
    if !collide(ks, 1) {
        1
    } else if !collide(ks, 2) {
        2
    } else if !collide(ks, 4) {
        4
    } else if !collide(ks, 8) {
        8
    } else {
        0
    }
}

/// N arbitrary keys split over three lists of lengths C1, C2-C1, N-C2
fn body<const N: usize, const C1: usize, const C2: usize>() {
    let raw: [[u8; 8]; N] = kani::any();
    let keys: [Key; N] = raw.map(key8);
    let expect = reference(&raw);
    kani::assume(expect != 0); // distinct keys
    let got = min_key_needed(&[&keys[..C1], &keys[C1..C2], &keys[C2..]]);
    assert!(got == expect, "smallest collision-free width");
    kani::cover!(got == 1, "1");
    kani::cover!(got == 2, "2");
    kani::cover!(got == 4, "4");
    kani::cover!(got == 8, "8");
}

macro_rules! split {
    ($($name:ident: $n:literal $a:literal $b:literal;)*) => {$(
        #[kani::proof]
        #[kani::unwind(7)]
        fn $name() {
            body::<$n, $a, $b>();
        }
    )*};
}
split! {
    c05_split_3_0_0: 3 3 3;
    c05_split_1_1_1: 3 1 2;
    c05_split_2_0_1: 3 2 2;
    c05_split_0_1_2: 3 0 1;
    c05_split_2_2_0: 4 2 4;
    t05_split_2_1_2: 5 2 3;
    t05_split_0_4_0: 4 0 4;
}

/// identical full keys: the computation never returns a width
#[kani::proof]
#[kani::unwind(7)]
#[kani::should_panic]
fn c05_duplicates_rejected() {
    let raw: [[u8; 8]; 2] = kani::any();
    let (a, b) = (key8(raw[0]), key8(raw[1]));
    match kani::any::<u8>() {
        0 => min_key_needed(&[&[a, b, a]]),
        1 => min_key_needed(&[&[a, b], &[a]]),
        _ => min_key_needed(&[&[b], &[], &[b, a]]),
    };
    kani::cover!(true, "NEVER: duplicate keys accepted");
}
