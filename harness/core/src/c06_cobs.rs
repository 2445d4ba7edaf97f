//! C06: frame accumulator.
//!
//! Induction over the feed history: a reachable accumulator state is "P bytes of the current frame,
//! none of them zero". Each harness builds an arbitrary such state, performs ONE feed of an
//! arbitrary chunk and checks its result (`res`), or checks that the state afterwards is again of
//! that form with the right content, by finishing the frame and sending one more frame (`aft`).
use postcard_rpc::accumulator::raw::{CobsAccumulator, FeedResult};

/// Reference COBS decoder for one frame body without delimiter. None if malformed.
fn ref_decode<const L: usize>(src: &[u8; L], end: usize) -> Option<([u8; L], usize)> {
    let mut out = [0u8; L];
    let mut n = 0;
    let mut left = 0u8; // literal bytes left in the current block
    let mut code = 0xFFu8;
    let mut i = 0;
    while i < L {
        if i < end {
            let b = src[i];
            if left == 0 {
                // a new block starts: the previous one implied a zero unless it was a full one
                if code != 0xFF {
                    out[n] = 0;
                    n += 1;
                }
                code = b;
                left = b - 1;
            } else {
                out[n] = b;
                n += 1;
                left -= 1;
            }
        }
        i += 1;
    }
    if left != 0 {
        None
    } else {
        Some((out, n))
    }
}

/// compare a finished frame with the reference
fn check_frame<const L: usize>(got: Option<&[u8]>, src: &[u8; L], end: usize) {
    match (got, ref_decode(src, end)) {
        (None, None) => {}
        (Some(data), Some((exp, n))) => {
            assert!(data.len() == n, "frame length");
            let mut i = 0;
            while i < L {
                if i < n {
                    assert!(data[i] == exp[i], "frame content");
                }
                i += 1;
            }
        }
        (Some(_), None) => assert!(false, "malformed frame delivered"),
        (None, Some(_)) => assert!(false, "well-formed frame rejected"),
    }
}

/// after a delimiter the accumulator is empty: a known frame must come out exactly
fn check_next<const N: usize>(acc: &mut CobsAccumulator<N>) {
    let y: u8 = kani::any();
    kani::assume(y != 0);
    let z = [2, y, 0, 7u8];
    match acc.feed(&z) {
        FeedResult::Success { data, remaining } => {
            assert!(data.len() == 1 && data[0] == y, "next frame intact");
            assert!(remaining.len() == 1 && remaining[0] == 7, "remainder after next frame");
        }
        _ => assert!(false, "next frame lost"),
    }
}

/// One arbitrary feed from an arbitrary "P zero-free bytes pending" state.
/// capacity N, chunk length M, T = P + M
fn step<const N: usize, const P: usize, const M: usize, const T: usize>(after: bool) {
    let mut acc: CobsAccumulator<N> = CobsAccumulator::new();
    // current frame so far, then the chunk
    let all: [u8; T] = kani::any();
    let mut i = 0;
    while i < P {
        kani::assume(all[i] != 0);
        i += 1;
    }
    if P > 0 {
        assert!(matches!(acc.feed(&all[..P]), FeedResult::Consumed), "partial frame that fits is kept");
    }
    // position of the delimiter
    let mut d = T;
    let mut i = T;
    while i > P {
        i -= 1;
        if all[i] == 0 {
            d = i;
        }
    }
    let has = d < T;
    let mut pending = false;
    match acc.feed(&all[P..]) {
        FeedResult::Consumed => {
            assert!(!has, "delimiter swallowed");
            assert!(T <= N, "accepted more than fits");
            pending = true;
            kani::cover!(true, "?consumed");
        }
        FeedResult::Success { data, remaining } => {
            assert!(has && d + 1 <= N);
            assert!(remaining.len() == T - (d + 1), "unread remainder");
            if !after {
                check_frame(Some(data), &all, d);
                let mut i = 0;
                while i < M {
                    if i < remaining.len() {
                        assert!(remaining[i] == all[d + 1 + i], "remainder content");
                    }
                    i += 1;
                }
            }
            kani::cover!(true, "?frame delivered");
        }
        FeedResult::DeserError(remaining) => {
            assert!(has && d + 1 <= N);
            assert!(remaining.len() == T - (d + 1), "unread remainder");
            if !after {
                check_frame(None, &all, d);
            }
            kani::cover!(true, "?malformed frame rejected");
        }
        FeedResult::OverFull(remaining) => {
            if has {
                assert!(d + 1 > N, "refused a frame that fits");
                assert!(remaining.len() == T - (d + 1), "unread remainder");
                kani::cover!(true, "?overlong frame with delimiter");
            } else {
                assert!(T > N, "refused a frame that fits");
                // the overlong frame goes on; its delimiter ends it whatever happens in between
                assert!(remaining.len() <= M);
                let rl = remaining.len();
                let mut i = 0;
                while i < M {
                    if i < rl {
                        assert!(remaining[i] == all[T - rl + i], "remainder content");
                    }
                    i += 1;
                }
                kani::cover!(true, "?overlong frame without delimiter");
                pending = true;
            }
        }
    }
    if after {
        if pending {
            // finish the frame
            match acc.feed(&[0]) {
                FeedResult::Success { data, remaining } => {
                    assert!(remaining.is_empty());
                    if T <= N {
                        assert!(T + 1 <= N);
                        check_frame(Some(data), &all, T);
                    }
                }
                FeedResult::DeserError(remaining) => {
                    assert!(remaining.is_empty());
                    if T <= N {
                        assert!(T + 1 <= N);
                        check_frame(None, &all, T);
                    }
                }
                FeedResult::OverFull(remaining) => assert!(T + 1 > N && remaining.is_empty(), "refused a frame that fits"),
                FeedResult::Consumed => assert!(false, "delimiter swallowed"),
            }
        }
        check_next(&mut acc);
    }
    kani::cover!(true, "end reached");
}

macro_rules! steps {
    ($($name:ident: $n:literal $p:literal $m:literal $t:literal $after:literal;)*) => {$(
        #[kani::proof]
        #[kani::unwind(16)]
        fn $name() {
            step::<$n, $p, $m, $t>($after);
        }
    )*};
}
steps! {
    c06_res_n6_p0_m4: 6 0 4 4 false;
    c06_res_n6_p0_m6: 6 0 6 6 false;
    c06_res_n6_p0_m8: 6 0 8 8 false;
    c06_res_n6_p3_m4: 6 3 4 7 false;
    c06_res_n6_p5_m3: 6 5 3 8 false;
    c06_res_n6_p6_m3: 6 6 3 9 false;
    c06_aft_n6_p0_m4: 6 0 4 4 true;
    c06_aft_n6_p0_m8: 6 0 8 8 true;
    c06_aft_n6_p3_m4: 6 3 4 7 true;
    c06_aft_n6_p5_m1: 6 5 1 6 true;
    c06_aft_n6_p6_m3: 6 6 3 9 true;
    t06_res_n8_p0_m12: 8 0 12 12 false;
    t06_res_n8_p1_m8: 8 1 8 9 false;
    t06_res_n8_p4_m6: 8 4 6 10 false;
    t06_res_n12_p6_m8: 12 6 8 14 false;
    t06_res_n12_p11_m4: 12 11 4 15 false;
    t06_aft_n8_p2_m8: 8 2 8 10 true;
    t06_aft_n12_p6_m8: 12 6 8 14 true;
    t06_res_n1_p0_m2: 1 0 2 2 false;
    t06_res_n2_p1_m3: 2 1 3 4 false;
    t06_aft_n3_p2_m3: 3 2 3 5 true;
}

/// stale bytes of an earlier frame (arbitrary, well-formed or not) never show up in a later one
#[kani::proof]
#[kani::unwind(10)]
fn c06_stale_bytes_do_not_leak() {
    let mut acc: CobsAccumulator<5> = CobsAccumulator::new();
    let mut junk: [u8; 5] = kani::any();
    let mut i = 0;
    while i < 4 {
        kani::assume(junk[i] != 0);
        i += 1;
    }
    junk[4] = 0;
    match acc.feed(&junk) {
        FeedResult::Success { remaining, .. } | FeedResult::DeserError(remaining) => assert!(remaining.is_empty()),
        _ => assert!(false, "delimiter ignored"),
    }
    let all: [u8; 3] = [kani::any(), kani::any(), 0];
    kani::assume(all[0] != 0 && all[1] != 0);
    match acc.feed(&all) {
        FeedResult::Success { data, .. } => check_frame(Some(data), &all, 2),
        FeedResult::DeserError(_) => check_frame(None, &all, 2),
        _ => assert!(false, "delimiter ignored"),
    }
    kani::cover!(true, "end reached");
}

/// the single-loop COBS model gives the same results as the cobs crate's own algorithm
#[kani::proof]
#[kani::unwind(7)]
fn c06_cobs_model_matches() {
    let src: [u8; 4] = kani::any();
    let mut a = src;
    let mut b = src;
    match (cobs::decode_in_place(&mut a), cobs::decode_in_place_orig(&mut b)) {
        (Ok(x), Ok(y)) => {
            assert!(x == y, "decoded length");
            let mut i = 0;
            while i < 4 {
                if i < x {
                    assert!(a[i] == b[i], "decoded content");
                }
                i += 1;
            }
            kani::cover!(true, "accepted");
        }
        (Err(()), Err(())) => kani::cover!(true, "rejected"),
        _ => assert!(false, "model and crate disagree"),
    }
}

/// empty input changes nothing
#[kani::proof]
#[kani::unwind(8)]
fn c06_empty_chunk_is_neutral() {
    let mut acc: CobsAccumulator<5> = CobsAccumulator::new();
    let a: u8 = kani::any();
    kani::assume(a != 0);
    assert!(matches!(acc.feed(&[]), FeedResult::Consumed));
    assert!(matches!(acc.feed(&[2]), FeedResult::Consumed));
    assert!(matches!(acc.feed(&[]), FeedResult::Consumed));
    assert!(matches!(acc.feed(&[a]), FeedResult::Consumed));
    match acc.feed_ref(&[0]) {
        FeedResult::Success { data, remaining } => assert!(data.len() == 1 && data[0] == a && remaining.is_empty()),
        _ => assert!(false),
    }
    kani::cover!(true, "end reached");
}
