//! A USB driver whose bulk endpoints are scripted by the harness, and a one-shot executor.
use core::future::Future;
use core::pin::Pin;
use core::task::{Context, Poll, RawWaker, RawWakerVTable, Waker};
use embassy_usb_driver::*;

const VT: RawWakerVTable = RawWakerVTable::new(|_| RawWaker::new(core::ptr::null(), &VT), |_| {}, |_| {}, |_| {});

pub fn waker() -> Waker {
    unsafe { Waker::from_raw(RawWaker::new(core::ptr::null(), &VT)) }
}

pub struct Drv;
pub struct EpIn;
pub struct EpOut;
pub struct Ctl;
pub struct B;

// ---- IN endpoint: what the host sees ------------------------------------------------------------

/// the host's view: packets are glued until a packet shorter than 64 bytes ends the transfer
pub struct Host {
    /// writes started
    pub n: usize,
    /// write number `bad` goes wrong: 1 refused, 2 pending for one poll then ok, 3 pending for ever
    pub bad: usize,
    pub bad_kind: u8,
    /// the byte position, within each transfer, that is observed
    pub track: usize,
    /// current, unfinished transfer
    pub cur: usize,
    pub cap: u8,
    /// finished transfers: length and observed byte
    pub done: usize,
    pub len: [usize; MAXW],
    pub byte: [u8; MAXW],
    pub too_long: bool,
    /// the first 20 bytes of the newest transfer
    pub head: [u8; 20],
    pub want_head: bool,
}
pub const MAXW: usize = 8;
pub static mut HOST: Host = Host {
    n: 0,
    bad: usize::MAX,
    bad_kind: 0,
    track: 0,
    cur: 0,
    cap: 0,
    done: 0,
    len: [0; MAXW],
    byte: [0; MAXW],
    too_long: false,
    head: [0; 20],
    want_head: false,
};

fn deliver(buf: &[u8]) {
    unsafe {
        let h = &mut HOST;
        if buf.len() > 64 {
            h.too_long = true;
        }
        if h.track >= h.cur && h.track - h.cur < buf.len() {
            h.cap = buf[h.track - h.cur];
        }
        if h.want_head && h.cur == 0 {
            macro_rules! cap {
                ($($i:literal)*) => { $( if $i < buf.len() { h.head[$i] = buf[$i]; } )* };
            }
            cap!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19);
        }
        h.cur += buf.len();
        if buf.len() < 64 {
            h.len[h.done] = h.cur;
            h.byte[h.done] = h.cap;
            h.done += 1;
            h.cur = 0;
        }
    }
}

pub struct Write<'a> {
    buf: &'a [u8],
    slot: usize,
}
impl<'a> Future for Write<'a> {
    type Output = Result<(), EndpointError>;
    fn poll(mut self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<Self::Output> {
        unsafe {
            let k = HOST.bad_kind;
            if self.slot == usize::MAX {
                self.slot = HOST.n;
                HOST.n += 1;
                if self.slot == HOST.bad {
                    if k == 1 {
                        return Poll::Ready(Err(EndpointError::Disabled));
                    }
                    if k >= 2 {
                        return Poll::Pending;
                    }
                }
            } else if k == 3 {
                return Poll::Pending;
            }
            deliver(self.buf);
            Poll::Ready(Ok(()))
        }
    }
}
impl EndpointIn for EpIn {
    fn write(&mut self, buf: &[u8]) -> impl Future<Output = Result<(), EndpointError>> {
        Write { buf, slot: usize::MAX }
    }
}

// ---- OUT endpoint: what the device is given -------------------------------------------------------

pub struct Rx {
    pub n: usize,
    /// per read: packet length 0..=64, or 255 = endpoint disabled
    pub plen: [u8; MAXR],
    /// read number `late - 1` stays pending for one poll
    pub late: usize,
}
pub const MAXR: usize = 6;
pub static mut RX: Rx = Rx { n: 0, plen: [0; MAXR], late: usize::MAX };

/// content of the observed byte of each packet
pub static mut OBS_POS: usize = 0;
pub static mut OBS: [u8; MAXR] = [0; MAXR];

pub struct Read<'a> {
    buf: &'a mut [u8],
}
impl<'a> Future for Read<'a> {
    type Output = Result<usize, EndpointError>;
    fn poll(mut self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<Self::Output> {
        unsafe {
            let k = RX.n;
            if RX.late == k + 1 {
                RX.late = usize::MAX;
                return Poll::Pending;
            }
            assert!(k < MAXR, "harness: more reads than scripted");
            RX.n += 1;
            let l = RX.plen[k];
            if l == 255 {
                return Poll::Ready(Err(EndpointError::Disabled));
            }
            let l = l as usize;
            if l > self.buf.len() {
                return Poll::Ready(Err(EndpointError::BufferOverflow));
            }
            // only the observed position is written: the others keep whatever was there
            if OBS_POS < l {
                self.buf[OBS_POS] = OBS[k];
            }
            Poll::Ready(Ok(l))
        }
    }
}
impl EndpointOut for EpOut {
    fn read(&mut self, buf: &mut [u8]) -> impl Future<Output = Result<usize, EndpointError>> {
        Read { buf }
    }
}

// ---- the rest of the driver is never used ----------------------------------------------------------
impl Endpoint for EpIn {
    fn info(&self) -> &EndpointInfo {
        unreachable!()
    }
    async fn wait_enabled(&mut self) {}
}
impl Endpoint for EpOut {
    fn info(&self) -> &EndpointInfo {
        unreachable!()
    }
    async fn wait_enabled(&mut self) {}
}
impl ControlPipe for Ctl {
    fn max_packet_size(&self) -> usize {
        unreachable!()
    }
    async fn setup(&mut self) -> [u8; 8] {
        unreachable!()
    }
    async fn data_out(&mut self, _b: &mut [u8], _f: bool, _l: bool) -> Result<usize, EndpointError> {
        unreachable!()
    }
    async fn data_in(&mut self, _d: &[u8], _f: bool, _l: bool) -> Result<(), EndpointError> {
        unreachable!()
    }
    async fn accept(&mut self) {}
    async fn reject(&mut self) {}
    async fn accept_set_address(&mut self, _a: u8) {}
}
impl Bus for B {
    async fn enable(&mut self) {}
    async fn disable(&mut self) {}
    async fn poll(&mut self) -> Event {
        unreachable!()
    }
    fn endpoint_set_enabled(&mut self, _e: EndpointAddress, _n: bool) {}
    fn endpoint_set_stalled(&mut self, _e: EndpointAddress, _s: bool) {}
    fn endpoint_is_stalled(&mut self, _e: EndpointAddress) -> bool {
        false
    }
    async fn remote_wakeup(&mut self) -> Result<(), Unsupported> {
        Err(Unsupported)
    }
}
impl Driver<'static> for Drv {
    type EndpointOut = EpOut;
    type EndpointIn = EpIn;
    type ControlPipe = Ctl;
    type Bus = B;
    fn alloc_endpoint_out(&mut self, _t: EndpointType, max: u16, _i: u8) -> Result<EpOut, EndpointAllocError> {
        assert!(max == 64);
        Ok(EpOut)
    }
    fn alloc_endpoint_in(&mut self, _t: EndpointType, max: u16, _i: u8) -> Result<EpIn, EndpointAllocError> {
        assert!(max == 64);
        Ok(EpIn)
    }
    fn start(self, _c: u16) -> (B, Ctl) {
        (B, Ctl)
    }
}
