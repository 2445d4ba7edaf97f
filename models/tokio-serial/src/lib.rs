//! Model of tokio-serial: a port whose reads and writes are scripted by the harness.
use std::io;
use std::task::Poll;
use tokio::io::{AsyncRead, AsyncWrite};

pub mod script {
    pub const MAX: usize = 24;
    /// bytes that will arrive
    pub static mut RX: [u8; MAX] = [0; MAX];
    pub static mut RX_LEN: usize = 0;
    pub static mut RX_POS: usize = 0;
    /// how many bytes the k-th read may return (0: no limit)
    pub static mut CHUNK: [usize; 8] = [0; 8];
    pub static mut READS: usize = 0;
    /// once RX is exhausted: 0 pending, 1 end of stream, 2 error
    pub static mut AT_END: u8 = 0;
    pub static mut ENDS_SEEN: usize = 0;
    pub static mut TX: [u8; MAX] = [0; MAX];
    pub static mut TX_LEN: usize = 0;
    /// how many bytes the k-th write may take (0: no limit)
    pub static mut WCHUNK: [usize; 8] = [0; 8];
    pub static mut WRITES: usize = 0;
    /// writes from this one on fail
    pub static mut WFAIL: usize = usize::MAX;
}
#[derive(Debug)]
pub struct Error;
pub type Result<T> = std::result::Result<T, Error>;
pub struct SerialPortBuilder;
pub fn new<'a>(_path: impl Into<std::borrow::Cow<'a, str>>, _baud: u32) -> SerialPortBuilder {
    SerialPortBuilder
}
pub trait SerialPortBuilderExt {
    fn open_native_async(self) -> Result<SerialStream>;
}
impl SerialPortBuilderExt for SerialPortBuilder {
    fn open_native_async(self) -> Result<SerialStream> {
        Ok(SerialStream(()))
    }
}
#[derive(Debug)]
pub struct SerialStream(());
impl AsyncRead for SerialStream {
    fn poll_read(&mut self, buf: &mut [u8]) -> Poll<io::Result<usize>> {
        use script::*;
        unsafe {
            if RX_POS >= RX_LEN {
                return match AT_END {
                    0 => Poll::Pending,
                    1 => {
                        ENDS_SEEN += 1;
                        assert!(ENDS_SEEN < 4, "reading on and on after the end of the stream");
                        Poll::Ready(Ok(0))
                    }
                    _ => Poll::Ready(Err(io::ErrorKind::BrokenPipe.into())),
                };
            }
            let c = CHUNK[READS % 8];
            READS += 1;
            let mut n = RX_LEN - RX_POS;
            if c != 0 && c < n {
                n = c;
            }
            if n > buf.len() {
                n = buf.len();
            }
            let mut i = 0;
            while i < n {
                buf[i] = RX[RX_POS + i];
                i += 1;
            }
            RX_POS += n;
            Poll::Ready(Ok(n))
        }
    }
}
impl AsyncWrite for SerialStream {
    fn poll_write(&mut self, buf: &[u8]) -> Poll<io::Result<usize>> {
        use script::*;
        unsafe {
            if WRITES >= WFAIL {
                return Poll::Ready(Err(io::ErrorKind::BrokenPipe.into()));
            }
            let c = WCHUNK[WRITES % 8];
            WRITES += 1;
            let n = if c != 0 && c < buf.len() { c } else { buf.len() };
            let mut i = 0;
            while i < n {
                assert!(TX_LEN < MAX, "model: too many bytes written");
                TX[TX_LEN] = buf[i];
                TX_LEN += 1;
                i += 1;
            }
            Poll::Ready(Ok(n))
        }
    }
}
