use crate::drv::*;
use core::future::Future;
use core::pin::{pin, Pin};
use core::task::{Context, Poll};
use embassy_sync::blocking_mutex::raw::NoopRawMutex;

/// drive `f` for at most `n` polls; None if it is still pending then (and `f` is dropped)
pub fn drive<F: Future>(f: F, n: usize) -> Option<F::Output> {
    let w = waker();
    let mut cx = Context::from_waker(&w);
    let mut f = pin!(f);
    let mut i = 0;
    while i < n {
        if let Poll::Ready(v) = f.as_mut().poll(&mut cx) {
            return Some(v);
        }
        i += 1;
    }
    None
}

macro_rules! version {
    ($m:ident, $usb:ident, { $($body:tt)* }) => {
        mod $m {
            use super::*;
            use postcard_rpc::server::impls::$m::dispatch_impl::{WireRxImpl, WireStorage, WireTxImpl};
            pub type St = WireStorage<NoopRawMutex, Drv, 1, 1, 1, 1>;
            pub type Tx = WireTxImpl<NoopRawMutex, Drv>;
            /// the transport as a firmware obtains it
            pub fn mk(st: &St, buf: &mut [u8]) -> (Tx, WireRxImpl<Drv>) {
                let st: &'static St = unsafe { core::mem::transmute(st) };
                let buf: &'static mut [u8] = unsafe { core::mem::transmute(buf) };
                let (_b, tx, rx) = st.init_without_build(Drv, $usb::Config::new(1, 2), buf);
                (tx, rx)
            }
            $($body)*
        }
    };
}
