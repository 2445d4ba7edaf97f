//! C17: USB device log messages.
use crate::common::*;
use crate::drv::*;
use core::fmt::Write as _;
use embassy_sync::blocking_mutex::raw::NoopRawMutex;
use postcard_rpc::header::{VarHeader, VarKey, VarKeyKind, VarSeq};
use postcard_rpc::server::{WireTx, WireTxErrorKind};
use postcard_rpc::standard_icd::LoggingTopic;
use postcard_rpc::{Key, Topic};

/// formats as these strings, one after the other
pub struct Two<'a>(pub &'a str, pub &'a str);
impl<'a> core::fmt::Display for Two<'a> {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        f.write_str(self.0)?;
        if !self.1.is_empty() {
            f.write_str(self.1)?;
        }
        Ok(())
    }
}
fn any_kind() -> VarKeyKind {
    match kani::any::<u8>() % 4 {
        0 => VarKeyKind::Key1,
        1 => VarKeyKind::Key2,
        2 => VarKeyKind::Key4,
        _ => VarKeyKind::Key8,
    }
}
/// the header a log frame must carry, and its length
fn header(k: VarKeyKind, seq: u16) -> ([u8; 11], usize) {
    let mut key = VarKey::Key8(LoggingTopic::TOPIC_KEY);
    key.shrink_to(k);
    let h = VarHeader { key, seq_no: VarSeq::Seq2(seq) };
    let mut out = [0u8; 11];
    let n = h.write_to_slice(&mut out).unwrap().0.len();
    (out, n)
}
fn klen(k: VarKeyKind) -> usize {
    match k {
        VarKeyKind::Key1 => 1,
        VarKeyKind::Key2 => 2,
        VarKeyKind::Key4 => 4,
        VarKeyKind::Key8 => 8,
    }
}
fn head_is(want: &[u8; 11], n: usize) -> bool {
    let h = unsafe { &HOST.head };
    let mut ok = true;
    macro_rules! cmp {
        ($($i:literal)*) => { $( if $i < n && h[$i] != want[$i] { ok = false; } )* };
    }
    cmp!(0 1 2 3 4 5 6 7 8 9 10);
    ok
}
/// decodes the length prefix found after `n` header bytes: (value, bytes used)
fn length(n: usize) -> (usize, usize) {
    let h = unsafe { &HOST.head };
    let (a, b, c) = (h[n] as usize, h[n + 1] as usize, h[n + 2] as usize);
    if a < 128 {
        (a, 1)
    } else if b < 128 {
        (a & 127 | b << 7, 2)
    } else {
        assert!(c < 4, "C17: length prefix does not decode");
        (a & 127 | (b & 127) << 7 | c << 14, 3)
    }
}
fn fill<const N: usize>(t: usize, c: u8) -> [u8; N] {
    let mut m = [b'a'; N];
    m[t] = c;
    m
}

fn put4(m: &mut [u8; 12], n: usize, e: &[u8; 4], l: usize) {
    let mut j = 0;
    while j < 4 {
        if j < l {
            m[n + j] = e[j];
        }
        j += 1;
    }
}

macro_rules! all {
    ($m:ident, $usb:ident) => {
version!($m, $usb, {
    /// formatted ASCII messages around the length-field boundaries
    fn fmt<const N: usize, const LO: usize, const TWO: bool, const FIX: bool>() {
        let st = St::new();
        let mut buf = [0u8; N];
        let cap: usize = kani::any();
        kani::assume(cap <= N && cap >= LO);
        let (tx, _rx) = mk(&st, &mut buf[..cap]);
        let k = if FIX { VarKeyKind::Key1 } else { any_kind() };
        let n: usize = kani::any();
        kani::assume(n <= N && n >= LO);
        let mut m = [b'a'; N];
        if !FIX {
            let t: usize = kani::any();
            let c: u8 = kani::any();
            kani::assume(t < n && c < 128 && c != b'.');
            m[t] = c;
        }
        let s = unsafe { core::str::from_utf8_unchecked(&m[..n]) };
        let (want, hl) = header(k, 0);
        unsafe {
            HOST.want_head = true;
            HOST.track = kani::any();
        }
        let r = if TWO {
            let cut: usize = kani::any();
            kani::assume(cut <= n);
            let (a, b) = unsafe { (core::str::from_utf8_unchecked(&m[..cut]), core::str::from_utf8_unchecked(&m[cut..n])) };
            drive(tx.send_log_fmt(k, format_args!("{}", Two(a, b))), 1)
        } else {
            drive(tx.send_log_fmt(k, format_args!("{}", Two(s, ""))), 1)
        };
        let field = if cap - (if cap < hl { cap } else { hl }) < 128 { 1 } else { 2 };
        match r {
            Some(Ok(())) => unsafe {
                assert!(!HOST.too_long && HOST.done == 1 && HOST.cur == 0, "C17: a log message is not one transfer");
                assert!(hl < HOST.len[0] && head_is(&want, hl), "C17: a log frame has the wrong header");
                let (l, u) = length(hl);
                assert!(HOST.len[0] == hl + u + l && HOST.len[0] <= cap, "C17: a log payload does not decode");
                assert!(l <= n);
                if hl + field + n <= cap {
                    assert!(l == n, "C17: a log message that fits was cut");
                }
                let dots = if l < n { if l < 3 { l } else { 3 } } else { 0 };
                if l < n {
                    assert!(l + 8 + hl + u >= cap, "C17: a log message was cut far too short");
                }
                // the observed byte
                let p = HOST.track;
                if p >= hl + u && p < HOST.len[0] {
                    let p = p - hl - u;
                    if p + dots < l {
                        assert!(HOST.byte[0] == m[p], "C17: a log message was altered");
                    } else if l >= 3 {
                        assert!(HOST.byte[0] == b'.', "C17: a cut log message does not end in dots");
                    }
                }
                kani::cover!(l < n && l > 3);
                kani::cover!(l == n && l == N - 14);
            },
            Some(Err(e)) => {
                assert!(matches!(e, WireTxErrorKind::Other));
                assert!(cap <= hl, "C17: a log message with room for its header and length was refused");
                assert!(unsafe { HOST.n } == 0, "C17: bytes of a refused log message were written");
            }
            None => assert!(false),
        }
        kani::cover!(r.is_some());
    }
    #[kani::proof]
    #[kani::unwind(6)]
    pub fn c17_fmt_small() { fmt::<24, 0, false, false>() }
    #[kani::proof]
    #[kani::unwind(6)]
    pub fn c17_fmt_small2() { fmt::<24, 0, true, false>() }
    #[kani::proof]
    #[kani::unwind(6)]
    pub fn c17_fmt_128() { fmt::<144, 116, false, true>() }
    #[kani::proof]
    #[kani::unwind(7)]
    pub fn t17_fmt_256() { fmt::<280, 0, false, true>() }

    /// any text, cut anywhere: what arrives is text, and a prefix
    #[kani::proof]
    #[kani::unwind(6)]
    pub fn c17_text() {
        let st = St::new();
        let mut buf = [0u8; 20];
        let cap: usize = kani::any();
        kani::assume(cap <= 13);
        let (tx, _rx) = mk(&st, &mut buf[..cap]);
        let mut m = [0u8; 12];
        let mut n = 0;
        let mut i = 0;
        while i < 3 {
            let c: char = kani::any();
            let l = c.len_utf8();
            let mut e = [0u8; 4];
            c.encode_utf8(&mut e);
            put4(&mut m, n, &e, l);
            n += l;
            i += 1;
        }
        let s = unsafe { core::str::from_utf8_unchecked(&m[..n]) };
        unsafe { HOST.want_head = true };
        let r = drive(tx.send_log_fmt(VarKeyKind::Key1, format_args!("{}", Two(s, ""))), 1);
        if let Some(Ok(())) = r {
            unsafe {
                let (want, hl) = header(VarKeyKind::Key1, 0);
                assert!(head_is(&want, hl) && hl == 4);
                let (l, u) = length(4);
                assert!(HOST.done == 1 && u == 1 && HOST.len[0] == 5 + l && l <= 8);
                let p = |i: usize| HOST.head[5 + i];
                if l < n && l >= 3 {
                    assert!(p(l - 1) == b'.' && p(l - 2) == b'.' && p(l - 3) == b'.', "C17: a cut log message does not end in dots");
                }
                let body = if l == n { l } else if l >= 3 { l - 3 } else { 0 };
                // a prefix of text that ends at a character boundary is text
                assert!(body == n || m[body] & 0xc0 != 0x80, "C17: a log payload is not text");
                if l < 3 && l < n {
                    let j: usize = kani::any();
                    if j < l { assert!(p(j) == b'.' || (p(j) < 128 && p(j) == m[j]), "C17: a log payload is not text") }
                }
                let j: usize = kani::any();
                if j < body { assert!(p(j) == m[j], "C17: a log message was altered") }
                kani::cover!(l < n && body >= 3);
            }
        } else {
            assert!(r.is_some());
            assert!(cap <= 4, "C17: a log message with room for its header and length was refused");
        }
    }

    /// plain strings: verbatim, or refused when they do not fit
    fn plain<const N: usize, const LO: usize, const FIX: bool>() {
        let st = St::new();
        let mut buf = [0u8; N];
        let cap: usize = kani::any();
        kani::assume(cap <= N && cap >= LO);
        let (tx, _rx) = mk(&st, &mut buf[..cap]);
        let k = if FIX { VarKeyKind::Key1 } else { any_kind() };
        let n: usize = kani::any();
        kani::assume(n <= N && n >= LO);
        let t: usize = kani::any();
        let c: u8 = kani::any();
        kani::assume(t < n && c < 128);
        let m = fill::<N>(t, c);
        let s = unsafe { core::str::from_utf8_unchecked(&m[..n]) };
        let (want, hl) = header(k, 0);
        let field = if n < 128 { 1 } else { 2 };
        unsafe {
            HOST.want_head = true;
            HOST.track = hl + field + t;
        }
        match drive(tx.send_log_str(k, s), 1) {
            Some(Ok(())) => unsafe {
                assert!(!HOST.too_long && HOST.done == 1 && HOST.cur == 0, "C17: a log message is not one transfer");
                assert!(hl < HOST.len[0] && head_is(&want, hl), "C17: a log frame has the wrong header");
                let (l, u) = length(hl);
                assert!(HOST.len[0] == hl + u + l && HOST.len[0] <= cap, "C17: a log payload does not decode");
                assert!(l == n && u == field, "C17: a plain log message was cut");
                assert!(HOST.byte[0] == c, "C17: a log message was altered");
                kani::cover!(l == N - 12);
            },
            Some(Err(_)) => {
                assert!(hl + field + n > cap, "C17: a plain log message that fits was refused");
                assert!(unsafe { HOST.n } == 0, "C17: bytes of a refused log message were written");
            }
            None => assert!(false),
        }
    }
    #[kani::proof]
    #[kani::unwind(6)]
    pub fn c17_str_small() { plain::<24, 0, false>() }
    #[kani::proof]
    #[kani::unwind(6)]
    pub fn c17_str_128() { plain::<144, 116, true>() }
    #[kani::proof]
    #[kani::unwind(6)]
    pub fn t17_str() { plain::<144, 0, false>() }

    /// consecutive messages, plain or formatted, have consecutive sequence numbers
    fn seq<const A: bool, const B: bool>() {
        let st = St::new();
        let mut buf = [0u8; 16];
        let (tx, _rx) = mk(&st, &mut buf);
        unsafe { HOST.want_head = true };
        let k = any_kind();
        let mut i: u16 = 0;
        while i < 2 {
            let plain = if i == 0 { A } else { B };
            let r = if plain { drive(tx.send_log_str(k, "x"), 1) } else { drive(tx.send_log_fmt(k, format_args!("{}", Two("y", ""))), 1) };
            assert!(matches!(r, Some(Ok(()))));
            let (want, hl) = header(k, i);
            assert!(head_is(&want, hl), "C17: log sequence numbers are not consecutive");
            i += 1;
        }
        kani::cover!(i == 2);
    }
    #[kani::proof]
    #[kani::unwind(6)]
    pub fn c17_seq_sf() { seq::<true, false>() }
    #[kani::proof]
    #[kani::unwind(6)]
    pub fn c17_seq_fs() { seq::<false, true>() }
});
    };
}
all!(embassy_usb_v0_3, embassy_usb_0_3);
all!(embassy_usb_v0_4, embassy_usb_0_4);
