//! Model of the parts of tokio that postcard-rpc uses, for single-threaded, poll-driven execution:
//! tasks are polled by the harness in whatever order it likes, wakers are ignored, queues are fixed arrays.
#![allow(clippy::all)]
use std::cell::UnsafeCell;
use std::future::Future;
use std::pin::Pin;
use std::task::{Context, Poll};

/// which branch of a (not biased) `select!` is polled first; set by the harness
pub static mut SELECT_START: usize = 0;

pub enum Out2<A, B> {
    A(A),
    B(B),
}
pub enum Out3<A, B, C> {
    A(A),
    B(B),
    C(C),
}
pub struct Sel2<A, B> {
    pub a: A,
    pub b: B,
    pub start: usize,
}
impl<A: Future, B: Future> Future for Sel2<A, B> {
    type Output = Out2<A::Output, B::Output>;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        let me = unsafe { self.get_unchecked_mut() };
        let mut i = me.start;
        let mut n = 0;
        while n < 2 {
            if i == 0 {
                if let Poll::Ready(v) = unsafe { Pin::new_unchecked(&mut me.a) }.poll(cx) {
                    return Poll::Ready(Out2::A(v));
                }
                i = 1;
            } else {
                if let Poll::Ready(v) = unsafe { Pin::new_unchecked(&mut me.b) }.poll(cx) {
                    return Poll::Ready(Out2::B(v));
                }
                i = 0;
            }
            n += 1;
        }
        Poll::Pending
    }
}
pub struct Sel3<A, B, C> {
    pub a: A,
    pub b: B,
    pub c: C,
    pub start: usize,
}
impl<A: Future, B: Future, C: Future> Future for Sel3<A, B, C> {
    type Output = Out3<A::Output, B::Output, C::Output>;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        let me = unsafe { self.get_unchecked_mut() };
        let mut i = me.start;
        let mut n = 0;
        while n < 3 {
            if i == 0 {
                if let Poll::Ready(v) = unsafe { Pin::new_unchecked(&mut me.a) }.poll(cx) {
                    return Poll::Ready(Out3::A(v));
                }
                i = 1;
            } else if i == 1 {
                if let Poll::Ready(v) = unsafe { Pin::new_unchecked(&mut me.b) }.poll(cx) {
                    return Poll::Ready(Out3::B(v));
                }
                i = 2;
            } else {
                if let Poll::Ready(v) = unsafe { Pin::new_unchecked(&mut me.c) }.poll(cx) {
                    return Poll::Ready(Out3::C(v));
                }
                i = 0;
            }
            n += 1;
        }
        Poll::Pending
    }
}

/// As tokio's: the futures are dropped before the chosen handler runs. Two or three branches.
#[macro_export]
macro_rules! select {
    (biased; $($t:tt)*) => { $crate::__select!(@m (0) [] $($t)*) };
    ($($t:tt)*) => { $crate::__select!(@m (unsafe { $crate::SELECT_START }) [] $($t)*) };
}
#[doc(hidden)]
#[macro_export]
macro_rules! __select {
    (@m $s:tt [$($acc:tt)*] $p:pat = $f:expr => $h:block , $($r:tt)*) => { $crate::__select!(@m $s [$($acc)* ($p, $f, $h)] $($r)*) };
    (@m $s:tt [$($acc:tt)*] $p:pat = $f:expr => $h:block $($r:tt)*) => { $crate::__select!(@m $s [$($acc)* ($p, $f, $h)] $($r)*) };
    (@m $s:tt [$($acc:tt)*] $p:pat = $f:expr => $h:expr , $($r:tt)*) => { $crate::__select!(@m $s [$($acc)* ($p, $f, $h)] $($r)*) };
    (@m $s:tt [$($acc:tt)*] $p:pat = $f:expr => $h:expr) => { $crate::__select!(@m $s [$($acc)* ($p, $f, $h)]) };
    (@m ($s:expr) [($p1:pat, $f1:expr, $h1:expr) ($p2:pat, $f2:expr, $h2:expr)]) => {{
        let __o = $crate::Sel2 { a: $f1, b: $f2, start: $s % 2 }.await;
        match __o {
            $crate::Out2::A($p1) => $h1,
            $crate::Out2::B($p2) => $h2,
        }
    }};
    (@m ($s:expr) [($p1:pat, $f1:expr, $h1:expr) ($p2:pat, $f2:expr, $h2:expr) ($p3:pat, $f3:expr, $h3:expr)]) => {{
        let __o = $crate::Sel3 { a: $f1, b: $f2, c: $f3, start: $s % 3 }.await;
        match __o {
            $crate::Out3::A($p1) => $h1,
            $crate::Out3::B($p2) => $h2,
            $crate::Out3::C($p3) => $h3,
        }
    }};
}
#[macro_export]
macro_rules! pin {
    ($($x:ident),*) => { $( let mut $x = $x; #[allow(unused_mut)] let mut $x = unsafe { ::core::pin::Pin::new_unchecked(&mut $x) }; )* };
}

pub mod sync {
    use super::*;
    use std::sync::Arc;
    pub const QMAX: usize = 4;

    pub mod mpsc {
        use super::*;
        pub mod error {
            #[derive(PartialEq, Eq, Clone, Copy)]
            pub struct SendError<T>(pub T);
            #[derive(PartialEq, Eq, Clone, Copy)]
            pub enum TrySendError<T> {
                Full(T),
                Closed(T),
            }
            #[derive(PartialEq, Eq, Clone, Copy, Debug)]
            pub enum TryRecvError {
                Empty,
                Disconnected,
            }
            impl<T> std::fmt::Debug for SendError<T> {
                fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                    f.write_str("SendError")
                }
            }
            impl<T> std::fmt::Debug for TrySendError<T> {
                fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                    f.write_str("TrySendError")
                }
            }
        }
        use error::*;
        struct Q<T> {
            s: [Option<T>; QMAX],
            head: usize,
            len: usize,
            cap: usize,
            senders: usize,
            open: bool,
        }
        struct Chan<T>(UnsafeCell<Q<T>>);
        unsafe impl<T: Send> Send for Chan<T> {}
        unsafe impl<T: Send> Sync for Chan<T> {}
        impl<T> Chan<T> {
            fn q(&self) -> &mut Q<T> {
                unsafe { &mut *self.0.get() }
            }
        }
        impl<T> Q<T> {
            fn push(&mut self, v: T) {
                assert!(self.len < QMAX, "model: queue too long");
                let i = (self.head + self.len) % QMAX;
                self.s[i] = Some(v);
                self.len += 1;
            }
            fn pop(&mut self) -> Option<T> {
                if self.len == 0 {
                    return None;
                }
                let v = self.s[self.head].take();
                self.head = (self.head + 1) % QMAX;
                self.len -= 1;
                v
            }
        }
        pub struct Sender<T>(Arc<Chan<T>>);
        pub struct Receiver<T>(Arc<Chan<T>>);
        impl<T> std::fmt::Debug for Sender<T> {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                f.write_str("Sender")
            }
        }
        pub fn channel<T>(buffer: usize) -> (Sender<T>, Receiver<T>) {
            assert!(buffer > 0, "mpsc bounded channel requires buffer > 0");
            let c = Arc::new(Chan(UnsafeCell::new(Q {
                s: [const { None }; QMAX],
                head: 0,
                len: 0,
                cap: buffer,
                senders: 1,
                open: true,
            })));
            (Sender(c.clone()), Receiver(c))
        }
        impl<T> Clone for Sender<T> {
            fn clone(&self) -> Self {
                self.0.q().senders += 1;
                Sender(self.0.clone())
            }
        }
        impl<T> Drop for Sender<T> {
            fn drop(&mut self) {
                self.0.q().senders -= 1;
            }
        }
        impl<T> Sender<T> {
            pub fn send(&self, v: T) -> Send_<'_, T> {
                Send_ { s: self, v: Some(v) }
            }
            pub fn try_send(&self, v: T) -> Result<(), TrySendError<T>> {
                let q = self.0.q();
                if !q.open {
                    return Err(TrySendError::Closed(v));
                }
                if q.len >= q.cap {
                    return Err(TrySendError::Full(v));
                }
                q.push(v);
                Ok(())
            }
            pub fn is_closed(&self) -> bool {
                !self.0.q().open
            }
            pub fn capacity(&self) -> usize {
                let q = self.0.q();
                q.cap - q.len
            }
            pub fn same_channel(&self, o: &Self) -> bool {
                Arc::ptr_eq(&self.0, &o.0)
            }
        }
        pub struct Send_<'a, T> {
            s: &'a Sender<T>,
            v: Option<T>,
        }
        impl<T> Unpin for Send_<'_, T> {}
        impl<T> Future for Send_<'_, T> {
            type Output = Result<(), SendError<T>>;
            fn poll(mut self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<Self::Output> {
                let q = self.s.0.q();
                let Some(v) = self.v.take() else { panic!("polled after completion") };
                if !q.open {
                    return Poll::Ready(Err(SendError(v)));
                }
                if q.len >= q.cap {
                    self.v = Some(v);
                    return Poll::Pending;
                }
                q.push(v);
                Poll::Ready(Ok(()))
            }
        }
        impl<T> Receiver<T> {
            pub fn recv(&mut self) -> Recv<'_, T> {
                Recv(self)
            }
            pub fn poll_recv(&mut self, _cx: &mut Context<'_>) -> Poll<Option<T>> {
                let q = self.0.q();
                match q.pop() {
                    Some(v) => Poll::Ready(Some(v)),
                    None if q.senders == 0 || !q.open => Poll::Ready(None),
                    None => Poll::Pending,
                }
            }
            pub fn try_recv(&mut self) -> Result<T, TryRecvError> {
                let q = self.0.q();
                match q.pop() {
                    Some(v) => Ok(v),
                    None if q.senders == 0 || !q.open => Err(TryRecvError::Disconnected),
                    None => Err(TryRecvError::Empty),
                }
            }
            pub fn close(&mut self) {
                self.0.q().open = false;
            }
            pub fn len(&self) -> usize {
                self.0.q().len
            }
            pub fn is_empty(&self) -> bool {
                self.0.q().len == 0
            }
        }
        impl<T> Drop for Receiver<T> {
            fn drop(&mut self) {
                let q = self.0.q();
                q.open = false;
                q.s = [const { None }; QMAX];
                q.len = 0;
            }
        }
        pub struct Recv<'a, T>(&'a mut Receiver<T>);
        impl<T> Future for Recv<'_, T> {
            type Output = Option<T>;
            fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
                self.0.poll_recv(cx)
            }
        }
    }

    pub mod broadcast {
        use super::*;
        pub mod error {
            #[derive(Debug)]
            pub struct SendError<T>(pub T);
            #[derive(Debug, PartialEq, Eq, Clone)]
            pub enum RecvError {
                Closed,
                Lagged(u64),
            }
            #[derive(Debug, PartialEq, Eq, Clone)]
            pub enum TryRecvError {
                Empty,
                Closed,
                Lagged(u64),
            }
        }
        use error::*;
        struct Q<T> {
            /// the newest `cap` values; value number k is at k % QMAX
            s: [Option<T>; QMAX],
            tail: usize,
            cap: usize,
            senders: usize,
            receivers: usize,
        }
        struct Chan<T>(UnsafeCell<Q<T>>);
        unsafe impl<T: Send> Send for Chan<T> {}
        unsafe impl<T: Send> Sync for Chan<T> {}
        impl<T> Chan<T> {
            fn q(&self) -> &mut Q<T> {
                unsafe { &mut *self.0.get() }
            }
        }
        pub struct Sender<T>(Arc<Chan<T>>);
        pub struct Receiver<T>(Arc<Chan<T>>, usize);
        impl<T> std::fmt::Debug for Sender<T> {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                f.write_str("Sender")
            }
        }
        pub fn channel<T: Clone>(capacity: usize) -> (Sender<T>, Receiver<T>) {
            assert!(capacity > 0, "broadcast channel capacity cannot be zero");
            // as tokio: rounded up to a power of two
            let cap = if capacity == 1 {
                1
            } else if capacity == 2 {
                2
            } else {
                // larger ones behave alike as long as no more than QMAX values are outstanding
                QMAX
            };
            let c = Arc::new(Chan(UnsafeCell::new(Q {
                s: [const { None }; QMAX],
                tail: 0,
                cap,
                senders: 1,
                receivers: 1,
            })));
            (Sender(c.clone()), Receiver(c, 0))
        }
        impl<T> Sender<T> {
            pub fn send(&self, v: T) -> Result<usize, SendError<T>> {
                let q = self.0.q();
                if q.receivers == 0 {
                    return Err(SendError(v));
                }
                q.s[q.tail % QMAX] = Some(v);
                q.tail += 1;
                Ok(q.receivers)
            }
            pub fn subscribe(&self) -> Receiver<T> {
                let q = self.0.q();
                q.receivers += 1;
                Receiver(self.0.clone(), q.tail)
            }
            pub fn receiver_count(&self) -> usize {
                self.0.q().receivers
            }
        }
        impl<T> Clone for Sender<T> {
            fn clone(&self) -> Self {
                self.0.q().senders += 1;
                Sender(self.0.clone())
            }
        }
        impl<T> Drop for Sender<T> {
            fn drop(&mut self) {
                self.0.q().senders -= 1;
            }
        }
        impl<T> Drop for Receiver<T> {
            fn drop(&mut self) {
                self.0.q().receivers -= 1;
            }
        }
        impl<T: Clone> Receiver<T> {
            pub fn recv(&mut self) -> Recv<'_, T> {
                Recv(self)
            }
            pub fn try_recv(&mut self) -> Result<T, TryRecvError> {
                let q = self.0.q();
                if q.tail - self.1 > q.cap {
                    let n = q.tail - self.1 - q.cap;
                    self.1 += n;
                    return Err(TryRecvError::Lagged(n as u64));
                }
                if self.1 == q.tail {
                    return Err(if q.senders == 0 { TryRecvError::Closed } else { TryRecvError::Empty });
                }
                let v = q.s[self.1 % QMAX].clone();
                self.1 += 1;
                match v {
                    Some(v) => Ok(v),
                    None => unreachable!(),
                }
            }
        }
        pub struct Recv<'a, T>(&'a mut Receiver<T>);
        impl<T: Clone> Future for Recv<'_, T> {
            type Output = Result<T, RecvError>;
            fn poll(mut self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<Self::Output> {
                match self.0.try_recv() {
                    Ok(v) => Poll::Ready(Ok(v)),
                    Err(TryRecvError::Empty) => Poll::Pending,
                    Err(TryRecvError::Closed) => Poll::Ready(Err(RecvError::Closed)),
                    Err(TryRecvError::Lagged(n)) => Poll::Ready(Err(RecvError::Lagged(n))),
                }
            }
        }
    }

    pub struct Mutex<T: ?Sized> {
        locked: UnsafeCell<bool>,
        v: UnsafeCell<T>,
    }
    unsafe impl<T: ?Sized + Send> Send for Mutex<T> {}
    unsafe impl<T: ?Sized + Send> Sync for Mutex<T> {}
    impl<T> Mutex<T> {
        pub const fn new(v: T) -> Self {
            Mutex { locked: UnsafeCell::new(false), v: UnsafeCell::new(v) }
        }
        pub fn lock(&self) -> Lock<'_, T> {
            Lock(self)
        }
        pub fn try_lock(&self) -> Result<MutexGuard<'_, T>, TryLockError> {
            unsafe {
                if *self.locked.get() {
                    return Err(TryLockError(()));
                }
                *self.locked.get() = true;
                Ok(MutexGuard(self))
            }
        }
    }
    #[derive(Debug)]
    pub struct TryLockError(());
    pub struct Lock<'a, T>(&'a Mutex<T>);
    impl<'a, T> Future for Lock<'a, T> {
        type Output = MutexGuard<'a, T>;
        fn poll(self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<Self::Output> {
            match self.0.try_lock() {
                Ok(g) => Poll::Ready(g),
                Err(_) => Poll::Pending,
            }
        }
    }
    pub struct MutexGuard<'a, T>(&'a Mutex<T>);
    unsafe impl<T: Send> Sync for MutexGuard<'_, T> {}
    impl<T> std::ops::Deref for MutexGuard<'_, T> {
        type Target = T;
        fn deref(&self) -> &T {
            unsafe { &*self.0.v.get() }
        }
    }
    impl<T> std::ops::DerefMut for MutexGuard<'_, T> {
        fn deref_mut(&mut self) -> &mut T {
            unsafe { &mut *self.0.v.get() }
        }
    }
    impl<T> Drop for MutexGuard<'_, T> {
        fn drop(&mut self) {
            unsafe { *self.0.locked.get() = false }
        }
    }
}

pub mod task {
    use super::*;
    use std::sync::Arc;
    pub const MAXT: usize = 4;
    /// spawned tasks; the harness polls them
    pub static mut TASKS: [Option<Pin<Box<dyn Future<Output = ()>>>>; MAXT] = [const { None }; MAXT];

    pub struct JoinError(());
    impl std::fmt::Debug for JoinError {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str("JoinError")
        }
    }
    pub struct JoinHandle<T>(Arc<UnsafeCell<Option<T>>>);
    unsafe impl<T: Send> Send for JoinHandle<T> {}
    impl<T> Future for JoinHandle<T> {
        type Output = Result<T, JoinError>;
        fn poll(self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<Self::Output> {
            match unsafe { (*self.0.get()).take() } {
                Some(v) => Poll::Ready(Ok(v)),
                None => Poll::Pending,
            }
        }
    }
    pub fn spawn<F>(f: F) -> JoinHandle<F::Output>
    where
        F: Future + Send + 'static,
        F::Output: Send + 'static,
    {
        let slot = Arc::new(UnsafeCell::new(None));
        let h = JoinHandle(slot.clone());
        unsafe {
            let mut i = 0;
            while i < MAXT {
                if TASKS[i].is_none() {
                    TASKS[i] = Some(Box::pin(async move {
                        let v = f.await;
                        *slot.get() = Some(v);
                    }));
                    return h;
                }
                i += 1;
            }
        }
        panic!("model: too many tasks");
    }
}
pub use task::spawn;

pub mod time {
    use super::*;
    pub use std::time::Duration;
    /// polls a timer stays pending; u32::MAX: it never fires
    pub static mut POLLS_UNTIL_FIRED: u32 = u32::MAX;
    pub static mut LAST: Duration = Duration::ZERO;
    pub struct Sleep(());
    pub fn sleep(d: Duration) -> Sleep {
        unsafe { LAST = d };
        Sleep(())
    }
    impl Future for Sleep {
        type Output = ();
        fn poll(self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<()> {
            unsafe {
                if POLLS_UNTIL_FIRED == 0 {
                    return Poll::Ready(());
                }
                if POLLS_UNTIL_FIRED != u32::MAX {
                    POLLS_UNTIL_FIRED -= 1;
                }
            }
            Poll::Pending
        }
    }
    pub mod error {
        #[derive(Debug, PartialEq, Eq)]
        pub struct Elapsed(pub(crate) ());
    }
    pub struct Timeout<F> {
        f: F,
        s: Sleep,
    }
    pub fn timeout<F: Future>(d: Duration, f: F) -> Timeout<F> {
        Timeout { f, s: sleep(d) }
    }
    impl<F: Future> Future for Timeout<F> {
        type Output = Result<F::Output, error::Elapsed>;
        fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
            let me = unsafe { self.get_unchecked_mut() };
            if let Poll::Ready(v) = unsafe { Pin::new_unchecked(&mut me.f) }.poll(cx) {
                return Poll::Ready(Ok(v));
            }
            if Pin::new(&mut me.s).poll(cx).is_ready() {
                return Poll::Ready(Err(error::Elapsed(())));
            }
            Poll::Pending
        }
    }
}

pub mod io {
    use super::*;
    use std::io::Result;
    use std::sync::Arc;

    /// simplified: plain slices instead of ReadBuf
    pub trait AsyncRead {
        fn poll_read(&mut self, buf: &mut [u8]) -> Poll<Result<usize>>;
    }
    pub trait AsyncWrite {
        fn poll_write(&mut self, buf: &[u8]) -> Poll<Result<usize>>;
        fn poll_flush(&mut self) -> Poll<Result<()>> {
            Poll::Ready(Ok(()))
        }
    }
    pub struct ReadHalf<T>(Arc<UnsafeCell<T>>);
    pub struct WriteHalf<T>(Arc<UnsafeCell<T>>);
    unsafe impl<T: Send> Send for ReadHalf<T> {}
    unsafe impl<T: Send> Send for WriteHalf<T> {}
    unsafe impl<T: Send> Sync for ReadHalf<T> {}
    unsafe impl<T: Send> Sync for WriteHalf<T> {}
    pub fn split<T: AsyncRead + AsyncWrite>(t: T) -> (ReadHalf<T>, WriteHalf<T>) {
        let a = Arc::new(UnsafeCell::new(t));
        (ReadHalf(a.clone()), WriteHalf(a))
    }
    impl<T: AsyncRead> AsyncRead for ReadHalf<T> {
        fn poll_read(&mut self, buf: &mut [u8]) -> Poll<Result<usize>> {
            unsafe { (*self.0.get()).poll_read(buf) }
        }
    }
    impl<T: AsyncWrite> AsyncWrite for WriteHalf<T> {
        fn poll_write(&mut self, buf: &[u8]) -> Poll<Result<usize>> {
            unsafe { (*self.0.get()).poll_write(buf) }
        }
        fn poll_flush(&mut self) -> Poll<Result<()>> {
            unsafe { (*self.0.get()).poll_flush() }
        }
    }
    pub trait AsyncReadExt: AsyncRead {
        fn read<'a>(&'a mut self, buf: &'a mut [u8]) -> Read<'a, Self> {
            Read { r: self, buf }
        }
    }
    impl<T: AsyncRead + ?Sized> AsyncReadExt for T {}
    pub struct Read<'a, T: ?Sized> {
        r: &'a mut T,
        buf: &'a mut [u8],
    }
    impl<T: AsyncRead + ?Sized> Future for Read<'_, T> {
        type Output = Result<usize>;
        fn poll(mut self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<Self::Output> {
            let me = &mut *self;
            me.r.poll_read(me.buf)
        }
    }
    pub trait AsyncWriteExt: AsyncWrite {
        fn write<'a>(&'a mut self, buf: &'a [u8]) -> Write<'a, Self> {
            Write { w: self, buf }
        }
        fn write_all<'a>(&'a mut self, buf: &'a [u8]) -> WriteAll<'a, Self> {
            WriteAll { w: self, buf }
        }
        fn flush<'a>(&'a mut self) -> Flush<'a, Self> {
            Flush { w: self }
        }
    }
    impl<T: AsyncWrite + ?Sized> AsyncWriteExt for T {}
    pub struct Write<'a, T: ?Sized> {
        w: &'a mut T,
        buf: &'a [u8],
    }
    impl<T: AsyncWrite + ?Sized> Future for Write<'_, T> {
        type Output = Result<usize>;
        fn poll(mut self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<Self::Output> {
            let me = &mut *self;
            me.w.poll_write(me.buf)
        }
    }
    pub struct Flush<'a, T: ?Sized> {
        w: &'a mut T,
    }
    impl<T: AsyncWrite + ?Sized> Future for Flush<'_, T> {
        type Output = Result<()>;
        fn poll(mut self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<Self::Output> {
            self.w.poll_flush()
        }
    }
    pub struct WriteAll<'a, T: ?Sized> {
        w: &'a mut T,
        buf: &'a [u8],
    }
    impl<T: AsyncWrite + ?Sized> Future for WriteAll<'_, T> {
        type Output = Result<()>;
        fn poll(mut self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<Self::Output> {
            let me = &mut *self;
            while !me.buf.is_empty() {
                match me.w.poll_write(me.buf) {
                    Poll::Pending => return Poll::Pending,
                    Poll::Ready(Err(e)) => return Poll::Ready(Err(e)),
                    Poll::Ready(Ok(0)) => return Poll::Ready(Err(std::io::ErrorKind::WriteZero.into())),
                    Poll::Ready(Ok(n)) => me.buf = &me.buf[n..],
                }
            }
            Poll::Ready(Ok(()))
        }
    }
}
