//! C15: USB device sends.
use crate::common::*;
use crate::drv::*;
use core::future::Future;
use core::pin::{pin, Pin};
use core::task::{Context, Poll};
use embassy_sync::blocking_mutex::raw::NoopRawMutex;
use postcard_rpc::header::{VarHeader, VarKey, VarSeq};
use postcard_rpc::server::{WireTx, WireTxErrorKind};
use postcard_rpc::{Key, Key1, Key2, Key4};

fn frames(n: usize) -> u64 {
    ((n + 63) / 64) as u64
}

/// a payload of `n` bytes, serialised byte by byte as a tuple
pub struct Bytes<'a>(pub &'a [u8]);
impl<'a> serde::Serialize for Bytes<'a> {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_bytes(self.0)
    }
}

macro_rules! all {
    ($m:ident, $usb:ident, { $($extra:tt)* }) => {
version!($m, $usb, {
    $($extra)*

    /// every frame of 1..=N bytes: one transfer with exactly these bytes
    fn raw<const N: usize>() {
        let st = St::new();
        let mut buf = [0u8; 1];
        let (tx, _rx) = mk(&st, &mut buf);
        let data: [u8; N] = kani::any();
        let n: usize = kani::any();
        kani::assume(n <= N && n > 0);
        let t: usize = kani::any();
        kani::assume(t < n);
        unsafe { HOST.track = t };
        let late: bool = kani::any();
        unsafe {
            HOST.bad = kani::any();
            HOST.bad_kind = if late { 2 } else { 0 };
        }
        let r = drive(tx.send_raw(&data[..n]), 2);
        assert!(matches!(r, Some(Ok(()))), "C15: a send over a working endpoint failed");
        unsafe {
            assert!(!HOST.too_long, "C15: packet longer than the endpoint's packet size");
            assert!(HOST.done == 1 && HOST.len[0] == n && HOST.cur == 0, "C15: the host does not see exactly one transfer of the frame's length");
            assert!(HOST.byte[0] == data[t], "C15: frame bytes changed");
            assert!(embassy_time::TIMERS == 1 && embassy_time::LAST_MS == 2 * frames(n), "C15: wrong time allowance");
        }
        kani::cover!(n == 128);
        kani::cover!(n == 127 && late && unsafe { HOST.bad == 1 });
    }
    #[kani::proof]
    #[kani::unwind(5)]
    pub fn c15_raw() { raw::<130>() }
    #[kani::proof]
    #[kani::unwind(8)]
    pub fn t15_raw() { raw::<322>() }

    #[kani::proof]
    #[kani::unwind(5)]
    pub fn c15_empty() {
        let st = St::new();
        let mut buf = [0u8; 1];
        let (tx, _rx) = mk(&st, &mut buf);
        assert!(matches!(drive(tx.send_raw(&[]), 1), Some(Ok(()))));
        unsafe { assert!(HOST.done == 0 && HOST.cur == 0) };
        kani::cover!(true);
    }

    /// `P` sends that are cut off (mode 0: writes are refused; 1: a write stalls until the timer fires; 2: a write
    /// stalls and the caller gives up), then one that is not: the last one arrives intact
    fn cut<const P: usize, const MODE: u8, const N: usize>() {
        let st = St::new();
        let mut buf = [0u8; 1];
        let (tx, _rx) = mk(&st, &mut buf);
        let junk = [0x5au8; N];
        let data: [u8; N] = kani::any();
        let n3: usize = kani::any();
        kani::assume(n3 > 0 && n3 <= N);
        let t: usize = kani::any();
        kani::assume(t < n3);
        unsafe { HOST.track = t };
        let mut k = 0;
        let mut cut_all = true;
        while k < P {
            let n: usize = kani::any();
            kani::assume(n > 0 && n <= N);
            let (w0, done) = unsafe { (HOST.n, HOST.done) };
            // write number `bad` of this send goes wrong; the earlier ones succeed
            let bad: usize = kani::any();
            kani::assume(bad < 5);
            unsafe {
                HOST.bad = w0 + bad;
                HOST.bad_kind = if MODE == 0 { 1 } else { 3 };
                embassy_time::POLLS_UNTIL_FIRED = if MODE == 1 { 0 } else { u32::MAX };
            }
            let r = drive(tx.send_raw(&junk[..n]), 1);
            let hit = unsafe { HOST.n > w0 + bad };
            match r {
                Some(Ok(())) => unsafe {
                    assert!(!hit, "C15: success reported though a write failed");
                    assert!(HOST.done > done && HOST.cur == 0 && HOST.len[HOST.done - 1] == n, "C15: success reported but the frame was not written whole");
                },
                Some(Err(WireTxErrorKind::ConnectionClosed)) => assert!(hit && MODE == 0, "C15: connection reported closed though no write was refused"),
                Some(Err(WireTxErrorKind::Timeout)) => assert!(MODE == 1, "C15: spurious timeout"),
                Some(Err(_)) => assert!(false, "C15: a closed endpoint or timeout was not reported as such"),
                None => assert!(hit && MODE == 2, "C15: send hangs"),
            }
            cut_all = cut_all && hit;
            k += 1;
        }
        // now everything works again
        unsafe {
            HOST.bad = usize::MAX;
            embassy_time::POLLS_UNTIL_FIRED = u32::MAX;
        }
        let mid = unsafe { HOST.cur > 0 };
        let r = drive(tx.send_raw(&data[..n3]), 1);
        assert!(matches!(r, Some(Ok(()))), "C15: a send over a working endpoint failed");
        unsafe {
            assert!(!HOST.too_long);
            assert!(HOST.cur == 0 && HOST.done >= 1, "C15: transfer left open");
            assert!(HOST.len[HOST.done - 1] == n3, "C15: after a cut-off send the next frame does not arrive on its own");
            assert!(HOST.byte[HOST.done - 1] == data[t], "C15: frame bytes changed after a cut-off send");
        }
        kani::cover!(cut_all && mid && n3 == 64);
        kani::cover!(cut_all && !mid);
    }
    #[kani::proof]
    #[kani::unwind(4)]
    pub fn c15_cut_refused() { cut::<1, 0, 66>() }
    #[kani::proof]
    #[kani::unwind(4)]
    pub fn c15_cut_timeout() { cut::<1, 1, 66>() }
    #[kani::proof]
    #[kani::unwind(4)]
    pub fn c15_cut_dropped() { cut::<1, 2, 66>() }
    #[kani::proof]
    #[kani::unwind(5)]
    pub fn t15_cut_refused() { cut::<1, 0, 130>() }
    #[kani::proof]
    #[kani::unwind(5)]
    pub fn t15_cut_timeout() { cut::<1, 1, 130>() }
    #[kani::proof]
    #[kani::unwind(4)]
    pub fn c15_cut2_refused() { cut::<2, 0, 66>() }
    #[kani::proof]
    #[kani::unwind(4)]
    pub fn c15_cut2_timeout() { cut::<2, 1, 66>() }
    #[kani::proof]
    #[kani::unwind(4)]
    pub fn c15_cut2_dropped() { cut::<2, 2, 66>() }

    /// two tasks sending at once, the first stalling at any write for one poll, in any order of polls: each frame
    /// arrives whole
    #[kani::proof]
    #[kani::unwind(4)]
    pub fn c15_two() {
        let st = St::new();
        let mut buf = [0u8; 1];
        let (tx, _rx) = mk(&st, &mut buf);
        let tx2 = tx.clone();
        let a: [u8; 65] = kani::any();
        let b = [0x5au8; 3];
        let na: usize = kani::any();
        kani::assume(na >= 3 && na <= 65);
        let t: usize = kani::any();
        kani::assume(t < 3);
        unsafe {
            HOST.track = t;
            HOST.bad = kani::any();
            HOST.bad_kind = 2;
        }
        let w = waker();
        let mut cx = Context::from_waker(&w);
        let mut fa = pin!(tx.send_raw(&a[..na]));
        let mut fb = pin!(tx2.send_raw(&b));
        let da = match fa.as_mut().poll(&mut cx) {
            Poll::Ready(r) => { assert!(r.is_ok()); true }
            Poll::Pending => false,
        };
        let db = match fb.as_mut().poll(&mut cx) {
            Poll::Ready(r) => { assert!(r.is_ok()); true }
            Poll::Pending => false,
        };
        if !da {
            assert!(matches!(fa.as_mut().poll(&mut cx), Poll::Ready(Ok(()))), "C15: a send over a working endpoint failed");
        }
        if !db {
            assert!(matches!(fb.as_mut().poll(&mut cx), Poll::Ready(Ok(()))), "C15: a send over a working endpoint failed");
        }
        unsafe {
            assert!(HOST.done == 2 && HOST.cur == 0, "C15: concurrent sends do not give one transfer each");
            let (x, y) = if !da && db { (1, 0) } else { (0, 1) };
            assert!(HOST.len[x] == na && HOST.len[y] == 3, "C15: concurrent sends mixed up");
            assert!(HOST.byte[x] == a[t] && HOST.byte[y] == 0x5a, "C15: concurrent sends mixed up");
        }
        kani::cover!(na == 64 && !da);
        kani::cover!(na == 65 && da && !db);
    }

    /// header and message of a send: exactly these bytes, or refused without writing when they do not fit
    #[kani::proof]
    #[kani::unwind(15)]
    pub fn c15_send() {
        let st = St::new();
        let mut buf = [0u8; 80];
        let cap: usize = kani::any();
        kani::assume(cap <= 80);
        let (tx, _rx) = mk(&st, &mut buf[..cap]);
        let data: [u8; 80] = kani::any();
        let n: usize = kani::any();
        kani::assume(n <= 80);
        let k: [u8; 8] = kani::any();
        let q: u16 = kani::any();
        let hdr = VarHeader { key: VarKey::Key2(Key2::from_key8(unsafe { Key::from_bytes(k) })), seq_no: VarSeq::Seq2(q) };
        let total = 5 + 1 + n;
        let t: usize = kani::any();
        kani::assume(t < total);
        unsafe { HOST.track = t };
        let r = drive(tx.send(hdr, &Bytes(&data[..n])), 1);
        unsafe {
            if total <= cap {
                assert!(matches!(r, Some(Ok(()))), "C15: a frame that fits was refused");
                assert!(!HOST.too_long && HOST.done == 1 && HOST.cur == 0 && HOST.len[0] == total, "C15: wrong transfer for a sent message");
                let mut want = [0u8; 16];
                let (h, _) = hdr.write_to_slice(&mut want).unwrap();
                assert!(h.len() == 5);
                let exp = if t < 5 { want[t] } else if t == 5 { n as u8 } else { data[t - 6] };
                assert!(HOST.byte[0] == exp, "C15: wrong bytes for a sent message");
            } else {
                assert!(matches!(r, Some(Err(WireTxErrorKind::Other))), "C15: a frame that does not fit was not refused");
                assert!(HOST.n == 0, "C15: bytes of a refused frame were written");
            }
        }
        kani::cover!(total == 64 && total <= cap);
        kani::cover!(total == cap + 1);
    }
});
    };
}
all!(embassy_usb_v0_3, embassy_usb_0_3, {});
all!(embassy_usb_v0_4, embassy_usb_0_4, {
    /// the configured allowance applies to the next send, clamped to 1..=60000 ms per packet
    #[kani::proof]
    #[kani::unwind(5)]
    pub fn c15_allowance() {
        let st = St::new();
        let mut buf = [0u8; 1];
        let (tx, _rx) = mk(&st, &mut buf);
        let ms: usize = kani::any();
        let data = [0u8; 130];
        let n: usize = kani::any();
        kani::assume(n <= 130 && n > 0);
        assert!(drive(tx.set_timeout_ms_per_frame(ms), 1).is_some());
        assert!(matches!(drive(tx.send_raw(&data[..n]), 1), Some(Ok(()))));
        let c = if ms < 1 { 1 } else if ms > 60000 { 60000 } else { ms };
        unsafe { assert!(embassy_time::LAST_MS == c as u64 * frames(n), "C15: wrong time allowance") };
        kani::cover!(ms > 60000 && n == 65);
    }
});
