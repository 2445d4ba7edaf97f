//! C01 (encoding/round trip) and C02 (decoding arbitrary bytes)
use crate::util::*;
use postcard_rpc::header::*;

/// Any header followed by any payload (<= 6 bytes), written into a buffer of any size 0..=20:
/// layout, round trip, failure exactly when too small, nothing written past the header.
#[kani::proof]
#[kani::unwind(22)]
fn c01_slice_encode_roundtrip() {
    const B: usize = 20;
    let h = any_header();
    let (exp, n) = ref_encode(&h);
    let orig: [u8; B] = kani::any();
    let mut buf = orig;
    let cap: usize = kani::any();
    kani::assume(cap <= B);
    let ok = match h.write_to_slice(&mut buf[..cap]) {
        Some((used, rest)) => {
            assert!(used.len() == n, "encoded length");
            assert!(rest.len() == cap - n, "unused remainder");
            true
        }
        None => false,
    };
    assert!(ok == (n <= cap), "fails exactly when the buffer is too small");
    kani::cover!(ok && n == cap, "exact fit");
    kani::cover!(!ok && n == cap + 1, "one byte short");
    if ok {
        let mut i = 0;
        while i < B {
            if i < n {
                assert!(buf[i] == exp[i], "documented layout");
            } else {
                assert!(buf[i] == orig[i], "bytes after the header untouched");
            }
            i += 1;
        }
        // decode header + whatever follows (the payload)
        let (h2, rest) = VarHeader::take_from_slice(&buf[..cap]).expect("own encoding decodes");
        assert!(key_view(&h2.key) == key_view(&h.key));
        assert!(seq_view(&h2.seq_no) == seq_view(&h.seq_no));
        assert!(rest.len() == cap - n);
        let mut i = 0;
        while i < B {
            if i >= n && i < cap {
                assert!(rest[i - n] == orig[i], "payload intact");
            }
            i += 1;
        }
        kani::cover!(n == 13 && cap == B, "longest header with payload");
        kani::cover!(n == 3, "shortest header");
    } else {
        let mut i = 0;
        while i < B {
            if i >= cap {
                assert!(buf[i] == orig[i], "nothing past the buffer");
            }
            i += 1;
        }
    }
}

/// Arbitrary bytes (any length 0..=16): accepted exactly when documented; canonical; exact suffix.
#[kani::proof]
#[kani::unwind(22)]
fn c02_decode_any_bytes() {
    const B: usize = 18;
    let data: [u8; B] = kani::any();
    let len: usize = kani::any();
    kani::assume(len <= B);
    let input = &data[..len];
    let disc = data[0];
    let kw = 1usize << (disc >> 6);
    let sc = (disc >> 4) & 3;
    let sw = 1usize << sc;
    let expect_ok = len >= 1 && (disc & 0x0F) == 0 && sc != 3 && len >= 1 + kw + sw;
    match VarHeader::take_from_slice(input) {
        None => {
            assert!(!expect_ok, "well-formed header rejected");
            kani::cover!(len >= 16 && disc & 0xF == 0, "reserved sequence code rejected");
            kani::cover!(len == kw + sw && len > 1 && disc & 0xF == 0 && sc != 3, "one byte short rejected");
        }
        Some((h, rest)) => {
            assert!(expect_ok, "malformed header accepted");
            let n = 1 + kw + sw;
            assert!(rest.len() == len - n);
            let mut i = 0;
            while i < B {
                if i >= n && i < len {
                    assert!(rest[i - n] == data[i]);
                }
                i += 1;
            }
            assert!(key_view(&h.key).0 as usize == kw);
            assert!(seq_view(&h.seq_no).0 as usize == sw);
            let (re, m) = ref_encode(&h);
            assert!(m == n);
            let mut out = [0u8; 13];
            let m2 = h.write_to_slice(&mut out).expect("13 bytes always suffice").0.len();
            assert!(m2 == n);
            let mut i = 0;
            while i < 13 {
                if i < n {
                    assert!(out[i] == data[i], "canonical: re-encoding gives the consumed bytes");
                    assert!(re[i] == data[i], "decoded values are those on the wire");
                }
                i += 1;
            }
            kani::cover!(n == 13 && len == 13, "longest header, no payload");
            kani::cover!(n == 3 && len == B, "shortest header, long payload");
        }
    }
}
