//! C16: USB device receives.
use crate::common::*;
use crate::drv::*;
use embassy_sync::blocking_mutex::raw::NoopRawMutex;
use postcard_rpc::server::{WireRx, WireRxErrorKind};

/// what the receiver must return for the transfer starting at read `at`, given `cap` bytes of room
enum Want {
    Frame(usize),
    TooLarge,
    Closed,
}
/// returns the expectation and the index of the read after the transfer
fn oracle(at: usize, cap: usize, end: usize) -> (Want, usize) {
    let mut len = 0;
    let mut i = at;
    while i < end {
        let l = unsafe { RX.plen[i] };
        i += 1;
        if l == 255 {
            return (Want::Closed, i);
        }
        len += l as usize;
        if l != 64 {
            return (if len <= cap { Want::Frame(len) } else { Want::TooLarge }, i);
        }
    }
    // the script ran out in the middle of a transfer
    kani::assume(false);
    (Want::Closed, i)
}

fn script(end: usize) {
    let mut i = 0;
    while i < end {
        let l: u8 = kani::any();
        kani::assume(l <= 64 || l == 255);
        unsafe {
            RX.plen[i] = l;
            OBS[i] = kani::any();
        }
        i += 1;
    }
    unsafe {
        OBS_POS = kani::any();
        kani::assume(OBS_POS < 64);
    }
}

macro_rules! all {
    ($m:ident, $usb:ident) => {
version!($m, $usb, {
    fn rx<const CAP: usize, const K: usize, const R: usize, const LATE: bool>() {
        let st = St::new();
        let mut tb = [0u8; 1];
        let (_tx, mut rx) = mk(&st, &mut tb);
        script(R);
        let mut buf = [0u8; CAP];
        let mut at = 0;
        let mut k = 0;
        while k < K {
            let (want, next) = oracle(at, CAP, R);
            if LATE {
                unsafe { RX.late = kani::any() };
            }
            let r = drive(rx.receive(&mut buf), if LATE { 2 } else { 1 });
            match (r, want) {
                (Some(Ok(f)), Want::Frame(n)) => unsafe {
                    assert!(f.len() == n, "C16: received frame has the wrong length");
                    let p: usize = kani::any();
                    kani::assume(p < n && p % 64 == OBS_POS);
                    assert!(f[p] == OBS[at + p / 64], "C16: received frame has the wrong content");
                },
                (Some(Err(WireRxErrorKind::ReceivedMessageTooLarge)), Want::TooLarge) => {}
                (Some(Err(WireRxErrorKind::ConnectionClosed)), Want::Closed) => {}
                (Some(Ok(_)), Want::TooLarge) => assert!(false, "C16: part of an oversized transfer was delivered as a frame"),
                (Some(Ok(_)), Want::Closed) => assert!(false, "C16: a frame was delivered over a closed endpoint"),
                (Some(Err(_)), Want::Frame(_)) => assert!(false, "C16: a transfer that fits was rejected"),
                (Some(Err(_)), Want::TooLarge) => assert!(false, "C16: an oversized transfer was not reported as too large"),
                (Some(Err(_)), Want::Closed) => assert!(false, "C16: a closed endpoint was not reported as such"),
                (None, _) => assert!(false, "C16: receive hangs"),
            }
            assert!(unsafe { RX.n } == next, "C16: the transfer was not consumed to exactly its end");
            at = next;
            k += 1;
        }
        kani::cover!(at == R);
    }
    #[kani::proof]
    #[kani::unwind(5)]
    pub fn c16_rx64() { rx::<64, 2, 4, false>() }
    #[kani::proof]
    #[kani::unwind(5)]
    pub fn c16_rx128() { rx::<128, 2, 4, false>() }
    #[kani::proof]
    #[kani::unwind(4)]
    pub fn c16_late() { rx::<128, 1, 3, true>() }
    #[kani::proof]
    #[kani::unwind(6)]
    pub fn t16_rx192() { rx::<192, 2, 5, false>() }
    #[kani::proof]
    #[kani::unwind(7)]
    pub fn t16_rx128() { rx::<128, 2, 6, false>() }
    #[kani::proof]
    #[kani::unwind(5)]
    pub fn t16_rx64x3() { rx::<64, 3, 4, false>() }
});
    };
}
all!(embassy_usb_v0_3, embassy_usb_0_3);
all!(embassy_usb_v0_4, embassy_usb_0_4);
