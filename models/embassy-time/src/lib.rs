//! Model of embassy-time: a timer that fires whenever the harness says so.
#![no_std]
use core::future::Future;
use core::pin::Pin;
use core::task::{Context, Poll};

/// how many more polls of the running timer stay pending; u32::MAX: it never fires
pub static mut POLLS_UNTIL_FIRED: u32 = u32::MAX;
/// the last requested duration
pub static mut LAST_MS: u64 = 0;
/// timers created
pub static mut TIMERS: u32 = 0;

#[must_use]
pub struct Timer(());
impl Timer {
    pub fn after_millis(ms: u64) -> Self {
        unsafe {
            LAST_MS = ms;
            TIMERS += 1;
        }
        Timer(())
    }
    pub fn after(d: Duration) -> Self {
        Self::after_millis(d.0)
    }
}
impl Future for Timer {
    type Output = ();
    fn poll(self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<()> {
        unsafe {
            if POLLS_UNTIL_FIRED == 0 {
                return Poll::Ready(());
            }
            if POLLS_UNTIL_FIRED != u32::MAX {
                POLLS_UNTIL_FIRED -= 1;
            }
        }
        Poll::Pending
    }
}
#[derive(Clone, Copy, PartialEq, Eq)]
pub struct Duration(u64);
impl Duration {
    pub const fn from_millis(ms: u64) -> Self {
        Duration(ms)
    }
}
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct TimeoutError;

/// as in embassy-time: the inner future is polled first
pub fn with_timeout<F: Future>(d: Duration, fut: F) -> WithTimeout<F> {
    WithTimeout { t: Timer::after(d), fut }
}
pub struct WithTimeout<F> {
    t: Timer,
    fut: F,
}
impl<F: Future> Future for WithTimeout<F> {
    type Output = Result<F::Output, TimeoutError>;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        let me = unsafe { self.get_unchecked_mut() };
        if let Poll::Ready(v) = unsafe { Pin::new_unchecked(&mut me.fut) }.poll(cx) {
            return Poll::Ready(Ok(v));
        }
        if Pin::new(&mut me.t).poll(cx).is_ready() {
            return Poll::Ready(Err(TimeoutError));
        }
        Poll::Pending
    }
}
