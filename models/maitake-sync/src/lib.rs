//! Model of maitake-sync's `WaitMap` and `WaitQueue` for single-threaded, poll-driven execution.
//! Same observable behaviour as the crate, without intrusive lists and wakers: the harness polls.
use std::cell::UnsafeCell;
use std::future::Future;
use std::pin::Pin;
use std::task::{Context, Poll};

pub use wait_map::WaitMap;
pub use wait_queue::WaitQueue;

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct Closed(());
pub type WaitResult<T> = Result<T, Closed>;

pub mod wait_map {
    use super::*;

    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub enum WaitError {
        Closed,
        AlreadyConsumed,
        NeverAdded,
        Duplicate,
    }
    pub type WaitResult<T> = Result<T, WaitError>;

    #[derive(Debug)]
    pub enum WakeOutcome<V> {
        Woke,
        NoMatch(V),
        Closed(V),
    }

    /// waiters registered at the same time
    pub const MAX: usize = 6;

    struct Entry<K, V> {
        key: Option<K>,
        val: Option<V>,
    }
    pub struct WaitMap<K: PartialEq, V> {
        inner: UnsafeCell<Inner<K, V>>,
    }
    struct Inner<K, V> {
        closed: bool,
        e: [Entry<K, V>; MAX],
    }
    unsafe impl<K: PartialEq + Send, V: Send> Send for WaitMap<K, V> {}
    unsafe impl<K: PartialEq + Send, V: Send> Sync for WaitMap<K, V> {}

    impl<K: PartialEq, V> WaitMap<K, V> {
        pub const fn new() -> Self {
            WaitMap {
                inner: UnsafeCell::new(Inner {
                    closed: false,
                    e: [const { Entry { key: None, val: None } }; MAX],
                }),
            }
        }
        #[allow(clippy::mut_from_ref)]
        fn inner(&self) -> &mut Inner<K, V> {
            unsafe { &mut *self.inner.get() }
        }
        pub fn wake(&self, key: &K, val: V) -> WakeOutcome<V> {
            let m = self.inner();
            if m.closed {
                return WakeOutcome::Closed(val);
            }
            // keys are unique, so the order of the search does not matter
            macro_rules! at { ($($i:literal)*) => { $(
                if let Some(k) = &m.e[$i].key {
                    if k == key {
                        m.e[$i].key = None;
                        m.e[$i].val = Some(val);
                        return WakeOutcome::Woke;
                    }
                }
            )* } }
            at!(0 1 2 3 4 5);
            WakeOutcome::NoMatch(val)
        }
        pub fn is_closed(&self) -> bool {
            self.inner().closed
        }
        pub fn close(&self) {
            self.inner().closed = true;
        }
        pub fn wait(&self, key: K) -> Wait<'_, K, V> {
            Wait { map: self, key: Some(key), st: St::Start, _p: std::marker::PhantomPinned }
        }
        fn register(&self, key: &mut Option<K>) -> WaitResult<usize> {
            let m = self.inner();
            if m.closed {
                return Err(WaitError::Closed);
            }
            macro_rules! dup { ($($i:literal)*) => { $(
                if let (Some(k), Some(n)) = (&m.e[$i].key, key.as_ref()) {
                    if k == n {
                        return Err(WaitError::Duplicate);
                    }
                }
            )* } }
            dup!(0 1 2 3 4 5);
            macro_rules! put { ($($i:literal)*) => { $(
                if m.e[$i].key.is_none() && m.e[$i].val.is_none() {
                    m.e[$i].key = key.take();
                    return Ok($i);
                }
            )* } }
            put!(0 1 2 3 4 5);
            panic!("model: too many waiters");
        }
    }

    enum St {
        Start,
        Waiting(usize),
        Done,
    }
    #[must_use]
    pub struct Wait<'a, K: PartialEq, V> {
        map: &'a WaitMap<K, V>,
        key: Option<K>,
        st: St,
        _p: std::marker::PhantomPinned,
    }
    unsafe impl<K: PartialEq + Send, V: Send> Send for Wait<'_, K, V> {}
    impl<'m, 'w, K: PartialEq, V> Wait<'m, K, V> {
        pub fn enqueue(self: Pin<&'w mut Self>) -> EnqueueWait<'w, 'm, K, V> {
            EnqueueWait { wait: self }
        }
        pub fn subscribe(self: Pin<&'w mut Self>) -> EnqueueWait<'w, 'm, K, V> {
            self.enqueue()
        }
    }
    #[must_use]
    pub struct EnqueueWait<'a, 'b, K: PartialEq, V> {
        wait: Pin<&'a mut Wait<'b, K, V>>,
    }
    impl<K: PartialEq, V> Future for EnqueueWait<'_, '_, K, V> {
        type Output = WaitResult<()>;
        fn poll(mut self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<Self::Output> {
            let w = unsafe { self.wait.as_mut().get_unchecked_mut() };
            Poll::Ready(match w.st {
                St::Start => match w.map.register(&mut w.key) {
                    Ok(i) => {
                        w.st = St::Waiting(i);
                        Ok(())
                    }
                    Err(e) => {
                        w.st = St::Done;
                        Err(e)
                    }
                },
                _ => Ok(()),
            })
        }
    }
    impl<K: PartialEq, V> Future for Wait<'_, K, V> {
        type Output = WaitResult<V>;
        fn poll(self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<Self::Output> {
            let w = unsafe { self.get_unchecked_mut() };
            match w.st {
                St::Start => match w.map.register(&mut w.key) {
                    Ok(i) => {
                        w.st = St::Waiting(i);
                        Poll::Pending
                    }
                    Err(e) => {
                        w.st = St::Done;
                        Poll::Ready(Err(e))
                    }
                },
                St::Waiting(i) => {
                    let m = w.map.inner();
                    if let Some(v) = m.e[i].val.take() {
                        w.st = St::Done;
                        return Poll::Ready(Ok(v));
                    }
                    if m.closed {
                        m.e[i].key = None;
                        w.st = St::Done;
                        return Poll::Ready(Err(WaitError::Closed));
                    }
                    Poll::Pending
                }
                St::Done => Poll::Ready(Err(WaitError::AlreadyConsumed)),
            }
        }
    }
    impl<K: PartialEq, V> Drop for Wait<'_, K, V> {
        fn drop(&mut self) {
            if let St::Waiting(i) = self.st {
                let m = self.map.inner();
                m.e[i].key = None;
                m.e[i].val = None;
            }
        }
    }
}

pub mod wait_queue {
    use super::*;

    /// only `wait`, `close` and `wake_all` (which wakes the waiters already polled)
    #[derive(Debug, Default)]
    pub struct WaitQueue {
        closed: UnsafeCell<bool>,
        wakes: UnsafeCell<u32>,
    }
    unsafe impl Send for WaitQueue {}
    unsafe impl Sync for WaitQueue {}
    impl WaitQueue {
        pub const fn new() -> Self {
            WaitQueue { closed: UnsafeCell::new(false), wakes: UnsafeCell::new(0) }
        }
        pub fn wait(&self) -> Wait<'_> {
            Wait { q: self, seen: None }
        }
        pub fn is_closed(&self) -> bool {
            unsafe { *self.closed.get() }
        }
        pub fn close(&self) {
            unsafe { *self.closed.get() = true }
        }
        pub fn wake_all(&self) {
            unsafe { *self.wakes.get() += 1 }
        }
    }
    #[must_use]
    pub struct Wait<'a> {
        q: &'a WaitQueue,
        seen: Option<u32>,
    }
    impl Future for Wait<'_> {
        type Output = Result<(), Closed>;
        fn poll(mut self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<Self::Output> {
            if self.q.is_closed() {
                return Poll::Ready(Err(Closed(())));
            }
            let now = unsafe { *self.q.wakes.get() };
            match self.seen {
                Some(s) if s != now => Poll::Ready(Ok(())),
                Some(_) => Poll::Pending,
                None => {
                    self.seen = Some(now);
                    Poll::Pending
                }
            }
        }
    }
}
