//! Recording transport, executor and helpers shared by the server harnesses.
use crate::probe::{capture, Val, NOVAL};
use crate::util::*;
use core::fmt::Arguments;
use core::future::Future;
use core::pin::pin;
use core::task::{Context, Poll, RawWaker, RawWakerVTable, Waker};
use postcard_rpc::header::{VarHeader, VarKeyKind};
use postcard_rpc::server::{WireTx, WireTxErrorKind};
use serde::Serialize;

const VT: RawWakerVTable = RawWakerVTable::new(|_| RawWaker::new(core::ptr::null(), &VT), |_| {}, |_| {}, |_| {});

/// poll once; None if pending
pub fn poll1<F: Future>(f: F) -> Option<F::Output> {
    let w = unsafe { Waker::from_raw(RawWaker::new(core::ptr::null(), &VT)) };
    let mut cx = Context::from_waker(&w);
    let mut f = pin!(f);
    match f.as_mut().poll(&mut cx) {
        Poll::Ready(v) => Some(v),
        Poll::Pending => None,
    }
}
/// nothing in these harnesses ever suspends, so one poll must complete
pub fn now<F: Future>(f: F) -> F::Output {
    poll1(f).expect("future suspended")
}

pub const MAXF: usize = 6;
#[derive(Clone, Copy)]
pub struct Sent {
    pub key: (u8, [u8; 8]),
    pub seq: (u8, u32),
    /// what was sent
    pub msg: Val,
}
pub const NOSENT: Sent = Sent { key: (0, [0; 8]), seq: (0, 0), msg: NOVAL };

/// everything handed to the transport, and the scripted outcome of each send
pub static mut S0: Sent = NOSENT;
pub static mut S1: Sent = NOSENT;
pub static mut S2: Sent = NOSENT;
pub static mut S3: Sent = NOSENT;
pub static mut S4: Sent = NOSENT;
pub static mut S5: Sent = NOSENT;
pub fn sent(i: usize) -> Sent {
    unsafe {
        match i {
            0 => S0,
            1 => S1,
            2 => S2,
            3 => S3,
            4 => S4,
            _ => S5,
        }
    }
}
pub static mut NSENT: usize = 0;
/// outcome of the i-th send: 0 ok, 1 closed, 2 other, 3 timeout
pub static mut OUTCOME: [u8; MAXF] = [0; MAXF];
/// kind passed with the last log call, and how many log calls there were
pub static mut LOGKIND: Option<VarKeyKind> = None;
pub static mut NLOG: usize = 0;

pub fn outcome(code: u8) -> Result<(), WireTxErrorKind> {
    match code {
        0 => Ok(()),
        1 => Err(WireTxErrorKind::ConnectionClosed),
        2 => Err(WireTxErrorKind::Other),
        _ => Err(WireTxErrorKind::Timeout),
    }
}
pub fn code(r: &Result<(), WireTxErrorKind>) -> u8 {
    match r {
        Ok(()) => 0,
        Err(WireTxErrorKind::ConnectionClosed) => 1,
        Err(WireTxErrorKind::Other) => 2,
        Err(WireTxErrorKind::Timeout) => 3,
        _ => 9,
    }
}

/// a send is recorded when its future is first polled (a plain struct keeps the encoding small)
pub struct Send1<'a, T: ?Sized> {
    hdr: VarHeader,
    msg: &'a T,
}
impl<T: Serialize + ?Sized> Future for Send1<'_, T> {
    type Output = Result<(), WireTxErrorKind>;
    fn poll(self: core::pin::Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Self::Output> {
        unsafe {
            let n = NSENT;
            assert!(n < MAXF, "more sends than the harness allows");
            NSENT = n + 1;
            let s = Sent { key: key_view(&self.hdr.key), seq: seq_view(&self.hdr.seq_no), msg: capture(self.msg) };
            match n {
                0 => S0 = s,
                1 => S1 = s,
                2 => S2 = s,
                3 => S3 = s,
                4 => S4 = s,
                _ => S5 = s,
            }
            Poll::Ready(outcome(OUTCOME[n]))
        }
    }
}
#[derive(Clone)]
pub struct Tx;
impl WireTx for Tx {
    type Error = WireTxErrorKind;
    fn send<T: Serialize + ?Sized>(&self, hdr: VarHeader, msg: &T) -> impl Future<Output = Result<(), Self::Error>> {
        Send1 { hdr, msg }
    }
    async fn send_raw(&self, _buf: &[u8]) -> Result<(), Self::Error> {
        assert!(false, "raw send");
        Ok(())
    }
    async fn send_log_str(&self, kkind: VarKeyKind, _s: &str) -> Result<(), Self::Error> {
        unsafe {
            LOGKIND = Some(kkind);
            NLOG += 1;
            outcome(OUTCOME[0])
        }
    }
    async fn send_log_fmt<'a>(&self, kkind: VarKeyKind, _a: Arguments<'a>) -> Result<(), Self::Error> {
        unsafe {
            LOGKIND = Some(kkind);
            NLOG += 1;
            outcome(OUTCOME[0])
        }
    }
}

/// reset the recorder (statics are shared when several replays run in one process)
pub fn reset() {
    unsafe {
        S0 = NOSENT;
        S1 = NOSENT;
        S2 = NOSENT;
        S3 = NOSENT;
        S4 = NOSENT;
        S5 = NOSENT;
        NSENT = 0;
        OUTCOME = [0; MAXF];
        LOGKIND = None;
        NLOG = 0;
    }
}
#[cfg(kani)]
pub fn any_outcomes() {
    unsafe {
        let mut i = 0;
        while i < MAXF {
            let o: u8 = kani::any();
            kani::assume(o < 4);
            OUTCOME[i] = o;
            i += 1;
        }
    }
}
