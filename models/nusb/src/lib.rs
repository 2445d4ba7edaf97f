//! Model of nusb: one device whose descriptors and transfer completions are scripted by the harness.
#![allow(clippy::all)]
use std::future::Future;
use std::io;
use std::pin::Pin;
use std::task::{Context, Poll};
pub use std::io::Error;

pub mod script {
    /// endpoints of the interface: (address, bulk, in, max packet size)
    pub static mut EPS: [Option<(u8, bool, bool, usize)>; 3] = [None; 3];
    pub const MAX: usize = 16;
    pub const TRACK: usize = 4;
    /// completion of the k-th IN transfer: 0 ok, 1 stall, 2 unknown, 3 cancelled, 4 disconnected, 5 fault, 6 not yet
    pub static mut IN: [u8; MAX] = [6; MAX];
    pub static mut IN_LEN: [usize; MAX] = [0; MAX];
    pub static mut IN_DATA: [u8; MAX] = [0; MAX];
    pub static mut IN_SUBMITTED: usize = 0;
    pub static mut IN_DONE: usize = 0;
    /// transfers submitted up to here were cancelled
    pub static mut IN_CANCELLED: usize = 0;
    pub static mut MAX_IN_FLIGHT: usize = 0;
    pub static mut HALTS_CLEARED: usize = 0;
    pub static mut CLEARED_WITH_PENDING: bool = false;
    pub static mut CLEAR_FAILS: bool = false;
    pub static mut MIN_REQUEST: usize = usize::MAX;
    /// OUT transfers in order of submission: length, and the byte at OUT_TRACK
    pub static mut OUT: [u8; MAX] = [0; MAX];
    pub static mut OUT_N: usize = 0;
    pub static mut OUT_DONE: usize = 0;
    pub static mut OUT_LEN: [usize; MAX] = [0; MAX];
    pub static mut OUT_BYTE: [u8; MAX] = [0; MAX];
    pub static mut OUT_TRACK: usize = 0;
    pub static mut QUEUE_ADDR: [u8; 2] = [0; 2];
}

pub fn list_devices() -> io::Result<std::vec::IntoIter<DeviceInfo>> {
    Ok(vec![DeviceInfo { ifs: [InterfaceInfo] }].into_iter())
}
pub struct DeviceInfo {
    ifs: [InterfaceInfo; 1],
}
pub struct InterfaceInfo;
impl InterfaceInfo {
    pub fn class(&self) -> u8 {
        0xff
    }
    pub fn interface_number(&self) -> u8 {
        0
    }
    pub fn interface_string(&self) -> Option<&str> {
        None
    }
}
impl DeviceInfo {
    pub fn interfaces(&self) -> std::slice::Iter<'_, InterfaceInfo> {
        self.ifs.iter()
    }
    pub fn serial_number(&self) -> Option<&str> {
        None
    }
    pub fn open(&self) -> Result<Device, Error> {
        Ok(Device)
    }
}
#[derive(Clone)]
pub struct Device;
impl Device {
    pub fn claim_interface(&self, _i: u8) -> Result<Interface, Error> {
        Ok(Interface)
    }
}
#[derive(Clone)]
pub struct Interface;
impl Interface {
    pub fn descriptors(&self) -> std::array::IntoIter<descriptors::InterfaceAltSetting, 1> {
        [descriptors::InterfaceAltSetting].into_iter()
    }
    pub fn bulk_out_queue(&self, ep: u8) -> transfer::Queue<Vec<u8>> {
        unsafe { script::QUEUE_ADDR[0] = ep };
        transfer::Queue(std::marker::PhantomData)
    }
    pub fn bulk_in_queue(&self, ep: u8) -> transfer::Queue<transfer::RequestBuffer> {
        unsafe { script::QUEUE_ADDR[1] = ep };
        transfer::Queue(std::marker::PhantomData)
    }
}
pub mod descriptors {
    use super::*;
    pub struct InterfaceAltSetting;
    impl InterfaceAltSetting {
        pub fn endpoints(&self) -> Eps {
            Eps(0)
        }
    }
    pub struct Eps(usize);
    impl Iterator for Eps {
        type Item = Endpoint;
        fn next(&mut self) -> Option<Endpoint> {
            if self.0 >= 3 {
                return None;
            }
            let e = unsafe { script::EPS[self.0] };
            self.0 += 1;
            match e {
                Some((addr, bulk, dir_in, mps)) => Some(Endpoint { addr, bulk, dir_in, mps }),
                None => {
                    self.0 = 3;
                    None
                }
            }
        }
    }
    pub struct Endpoint {
        addr: u8,
        bulk: bool,
        dir_in: bool,
        mps: usize,
    }
    impl Endpoint {
        pub fn address(&self) -> u8 {
            self.addr
        }
        pub fn direction(&self) -> transfer::Direction {
            if self.dir_in {
                transfer::Direction::In
            } else {
                transfer::Direction::Out
            }
        }
        pub fn transfer_type(&self) -> transfer::EndpointType {
            if self.bulk {
                transfer::EndpointType::Bulk
            } else {
                transfer::EndpointType::Interrupt
            }
        }
        pub fn max_packet_size(&self) -> usize {
            self.mps
        }
    }
}
pub mod transfer {
    use super::*;
    use super::script::*;
    use std::marker::PhantomData;
    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub enum Direction {
        Out = 0,
        In = 1,
    }
    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub enum EndpointType {
        Control,
        Isochronous,
        Bulk,
        Interrupt,
    }
    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub enum TransferError {
        Cancelled,
        Stall,
        Disconnected,
        Fault,
        Unknown,
    }
    impl std::fmt::Display for TransferError {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str("transfer error")
        }
    }
    impl std::error::Error for TransferError {}
    fn status(k: u8) -> Result<(), TransferError> {
        match k {
            0 => Ok(()),
            1 => Err(TransferError::Stall),
            2 => Err(TransferError::Unknown),
            3 => Err(TransferError::Cancelled),
            4 => Err(TransferError::Disconnected),
            _ => Err(TransferError::Fault),
        }
    }
    pub struct RequestBuffer(pub(crate) usize);
    impl RequestBuffer {
        pub fn new(n: usize) -> Self {
            RequestBuffer(n)
        }
        pub fn reuse(_v: Vec<u8>, n: usize) -> Self {
            RequestBuffer(n)
        }
    }
    pub struct ResponseBuffer(());
    #[must_use]
    pub struct Completion<T> {
        pub data: T,
        pub status: Result<(), TransferError>,
    }
    pub trait TransferRequest {
        type Response;
        fn submit(self);
        fn pending() -> usize;
        fn cancel();
        fn clear() -> Result<(), Error>;
        fn next() -> Poll<Completion<Self::Response>>;
    }
    impl TransferRequest for Vec<u8> {
        type Response = ResponseBuffer;
        fn submit(self) {
            unsafe {
                let n = OUT_N;
                assert!(n < MAX, "model: too many transfers");
                OUT_LEN[n] = self.len();
                if OUT_TRACK < self.len() {
                    OUT_BYTE[n] = self[OUT_TRACK];
                }
                OUT_N += 1;
            }
        }
        fn pending() -> usize {
            unsafe { OUT_N - OUT_DONE }
        }
        fn cancel() {}
        fn clear() -> Result<(), Error> {
            Ok(())
        }
        fn next() -> Poll<Completion<ResponseBuffer>> {
            unsafe {
                assert!(OUT_DONE < OUT_N, "no transfer pending");
                let k = OUT[OUT_DONE];
                if k == 6 {
                    return Poll::Pending;
                }
                OUT_DONE += 1;
                Poll::Ready(Completion { data: ResponseBuffer(()), status: status(k) })
            }
        }
    }
    impl TransferRequest for RequestBuffer {
        type Response = Vec<u8>;
        fn submit(self) {
            unsafe {
                if self.0 < MIN_REQUEST {
                    MIN_REQUEST = self.0;
                }
                IN_SUBMITTED += 1;
                let p = IN_SUBMITTED - IN_DONE;
                if p > MAX_IN_FLIGHT {
                    MAX_IN_FLIGHT = p;
                }
            }
        }
        fn pending() -> usize {
            unsafe { IN_SUBMITTED - IN_DONE }
        }
        fn cancel() {
            unsafe { IN_CANCELLED = IN_SUBMITTED }
        }
        fn clear() -> Result<(), Error> {
            unsafe {
                if IN_SUBMITTED != IN_DONE {
                    CLEARED_WITH_PENDING = true;
                }
                HALTS_CLEARED += 1;
                if CLEAR_FAILS {
                    Err(io::ErrorKind::Other.into())
                } else {
                    Ok(())
                }
            }
        }
        fn next() -> Poll<Completion<Vec<u8>>> {
            unsafe {
                assert!(IN_DONE < IN_SUBMITTED, "no transfer pending");
                let k = IN_DONE;
                assert!(k < MAX, "model: too many transfers");
                let mut s = IN[k];
                if s == 6 {
                    if k < IN_CANCELLED {
                        s = 3;
                    } else {
                        return Poll::Pending;
                    }
                }
                IN_DONE += 1;
                let data = if s == 0 {
                    let mut v = Vec::with_capacity(TRACK);
                    let mut i = 0;
                    while i < IN_LEN[k] && i < TRACK {
                        v.push(IN_DATA[k]);
                        i += 1;
                    }
                    v
                } else {
                    Vec::new()
                };
                Poll::Ready(Completion { data, status: status(s) })
            }
        }
    }
    pub struct Queue<R>(pub(crate) PhantomData<R>);
    impl<R: TransferRequest> Queue<R> {
        pub fn submit(&mut self, r: R) {
            r.submit()
        }
        pub fn pending(&self) -> usize {
            R::pending()
        }
        pub fn cancel_all(&mut self) {
            R::cancel()
        }
        pub fn clear_halt(&mut self) -> Result<(), Error> {
            R::clear()
        }
        pub fn next_complete<'a>(&'a mut self) -> Next<'a, R> {
            Next(PhantomData)
        }
    }
    pub struct Next<'a, R>(PhantomData<&'a R>);
    unsafe impl<R> Send for Next<'_, R> {}
    unsafe impl<R> Send for Queue<R> {}
    impl<R: TransferRequest> Future for Next<'_, R> {
        type Output = Completion<R::Response>;
        fn poll(self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<Self::Output> {
            R::next()
        }
    }
}
