//! C08: the server loop, driven by a scripted receiver and dispatcher.
use crate::mock::*;
use crate::util::*;
use core::future::Future;
use core::pin::Pin;
use core::task::{Context, Poll};
use postcard_rpc::header::*;
use postcard_rpc::server::{Dispatch, Sender, Server, ServerError, WireRx, WireRxErrorKind, WireTxErrorKind};

/// events: 0 frame, 1 closed, 2 too large, 3 other error
const STEPS: usize = 3;
const FB: usize = 7;
static mut EV: [u8; STEPS] = [0; STEPS];
static mut FLEN: [usize; STEPS] = [0; STEPS];
static mut FRAME: [[u8; FB]; STEPS] = [[0; FB]; STEPS];
static mut AT: usize = 0;
/// frames dispatched: which script step delivered them, header and payload as seen
static mut NH: usize = 0;
static mut HSTEP: [usize; STEPS] = [9; STEPS];
static mut HOK: bool = true;

pub struct Rx;
pub struct Recv<'a>(Option<&'a mut [u8]>);
impl<'a> Future for Recv<'a> {
    type Output = Result<&'a mut [u8], WireRxErrorKind>;
    fn poll(mut self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Self::Output> {
        unsafe {
            let i = AT;
            AT = i + 1;
            if i >= STEPS {
                return Poll::Ready(Err(WireRxErrorKind::ConnectionClosed));
            }
            Poll::Ready(match EV[i] {
                0 => {
                    let b = self.0.take().unwrap();
                    let n = FLEN[i];
                    let mut j = 0;
                    while j < FB {
                        b[j] = FRAME[i][j];
                        j += 1;
                    }
                    Ok(&mut b[..n])
                }
                1 => Err(WireRxErrorKind::ConnectionClosed),
                2 => Err(WireRxErrorKind::ReceivedMessageTooLarge),
                _ => Err(WireRxErrorKind::Other),
            })
        }
    }
}
impl WireRx for Rx {
    type Error = WireRxErrorKind;
    fn receive<'a>(&mut self, buf: &'a mut [u8]) -> impl Future<Output = Result<&'a mut [u8], Self::Error>> {
        Recv(Some(buf))
    }
}

/// reference header split: (key width, seq width, header length) if the frame has a whole header
fn split(f: &[u8; FB], n: usize) -> Option<(u8, u8, usize)> {
    if n == 0 {
        return None;
    }
    let kw = 1u8 << (f[0] >> 6);
    let sw = match f[0] & 0x30 {
        0 => 1,
        0x10 => 2,
        0x20 => 4,
        _ => return None,
    };
    if f[0] & 0x0F != 0 {
        return None;
    }
    let hl = 1 + kw as usize + sw as usize;
    if n < hl {
        None
    } else {
        Some((kw, sw, hl))
    }
}

pub struct D;
pub struct Handle {
    code: u8,
}
impl Future for Handle {
    type Output = Result<(), WireTxErrorKind>;
    fn poll(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Self::Output> {
        unsafe {
            // completed exactly once per dispatch
            NDONE += 1;
        }
        Poll::Ready(outcome(self.code))
    }
}
static mut NDONE: usize = 0;
impl Dispatch for D {
    type Tx = Tx;
    fn min_key_len(&self) -> VarKeyKind {
        VarKeyKind::Key1
    }
    fn handle(&mut self, _tx: &Sender<Tx>, hdr: &VarHeader, body: &[u8]) -> impl Future<Output = Result<(), WireTxErrorKind>> {
        unsafe {
            let step = AT - 1;
            let n = NH;
            assert!(n < STEPS);
            HSTEP[n] = step;
            NH = n + 1;
            let (f, len) = (&FRAME[step], FLEN[step]);
            match split(f, len) {
                None => HOK = false,
                Some((kw, sw, hl)) => {
                    let (gkw, gk) = key_view(&hdr.key);
                    let (gsw, gs) = seq_view(&hdr.seq_no);
                    let mut ok = gkw == kw && gsw == sw && body.len() == len - hl;
                    let mut i = 0;
                    while i < FB - 1 {
                        if i < kw as usize {
                            ok &= gk[i] == f[1 + i];
                        }
                        i += 1;
                    }
                    let sb = gs.to_le_bytes();
                    let mut i = 0;
                    while i < 4 {
                        if i < sw as usize && 1 + kw as usize + i < FB {
                            ok &= sb[i] == f[1 + kw as usize + i];
                        }
                        i += 1;
                    }
                    let mut i = 0;
                    while i < FB {
                        if i < body.len() && hl + i < FB {
                            ok &= body[i] == f[hl + i];
                        }
                        i += 1;
                    }
                    HOK &= ok;
                }
            }
            Handle { code: OUTCOME[step] }
        }
    }
}

fn body<const S: usize>() {
    reset();
    any_outcomes();
    unsafe {
        AT = 0;
        NH = 0;
        NDONE = 0;
        HOK = true;
        HSTEP = [9; STEPS];
        let mut i = 0;
        while i < STEPS {
            let e: u8 = kani::any();
            kani::assume(e < 4);
            EV[i] = if i < S { e } else { 1 };
            let l: usize = kani::any();
            kani::assume(l <= FB);
            FLEN[i] = l;
            FRAME[i] = kani::any();
            i += 1;
        }
    }
    let mut buf = [0u8; FB];
    let mut srv = Server::new(Tx, Rx, &mut buf[..], D, any_kind());
    let r = now(srv.run());
    let (ev, fl, fr, out) = unsafe { (EV, FLEN, FRAME, OUTCOME) };
    // expected run
    let mut n = 0usize;
    let mut stop = STEPS; // step at which it must stop
    let mut how = 0u8; // 0: rx closed, 1/3: tx
    let mut steps = [9usize; STEPS];
    let mut i = 0;
    while i < STEPS {
        if stop == STEPS {
            if ev[i] == 1 {
                stop = i;
            } else if ev[i] == 0 && split(&fr[i], fl[i]).is_some() {
                steps[n] = i;
                n += 1;
                if out[i] == 1 || out[i] == 3 {
                    stop = i;
                    how = out[i];
                }
            }
        }
        i += 1;
    }
    let (at, nh, hs, ok, done) = unsafe { (AT, NH, HSTEP, HOK, NDONE) };
    assert!(at == stop + 1, "stops exactly at the first fatal error");
    assert!(nh == n && done == n, "one dispatch per well-formed frame");
    assert!(hs[0] == steps[0] && hs[1] == steps[1] && hs[2] == steps[2], "frames handled in order");
    assert!(ok, "handler gets the frame's header and payload");
    match r {
        ServerError::RxFatal(e) => assert!(how == 0 && matches!(e, WireRxErrorKind::ConnectionClosed), "receive side closed"),
        ServerError::TxFatal(WireTxErrorKind::ConnectionClosed) => assert!(how == 1, "send side closed"),
        ServerError::TxFatal(WireTxErrorKind::Timeout) => assert!(how == 3, "send timed out"),
        ServerError::TxFatal(_) => assert!(false, "non-fatal error ended the server"),
    }
    kani::cover!(n == S, "all frames handled");
    kani::cover!(n == 0 && stop == S && ev[0] == 0, "malformed frame skipped");
    kani::cover!(how == 3, "timeout");
    kani::cover!(ev[0] == 2 && stop > 0, "oversized skipped");
}

#[kani::proof]
#[kani::unwind(10)]
fn c08_two_events() {
    body::<2>();
}
#[kani::proof]
#[kani::unwind(10)]
fn t08_three_events() {
    body::<3>();
}
