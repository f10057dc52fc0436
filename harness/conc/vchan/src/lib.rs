//! A channel with the interface of `async-channel`; every operation is preceded by a scheduling point.
#[cfg(feature = "plain")]
pub use real::*;
#[cfg(not(feature = "plain"))]
pub use chan::*;

#[cfg(not(feature = "plain"))]
mod chan {
    use std::{
        collections::VecDeque,
        error::Error,
        fmt,
        future::Future,
        pin::Pin,
        sync::{Arc, Mutex, MutexGuard},
        task::{Context, Poll, Waker},
    };
    use vstd::vstd_switch as sw;

    struct Inner<T> {
        q: VecDeque<T>,
        cap: Option<usize>,
        senders: usize,
        receivers: usize,
        closed: bool,
        wakers: Vec<Waker>,
    }
    impl<T> Inner<T> {
        fn wake(&mut self) {
            for w in self.wakers.drain(..) {
                w.wake();
            }
        }
        fn full(&self) -> bool {
            self.cap.is_some_and(|c| self.q.len() >= c)
        }
    }
    type Shared<T> = Arc<Mutex<Inner<T>>>;
    fn get<T>(s: &Shared<T>) -> MutexGuard<'_, Inner<T>> {
        s.lock().unwrap_or_else(|e| e.into_inner())
    }

    pub struct Sender<T>(Shared<T>);
    pub struct Receiver<T>(Shared<T>);

    fn make<T>(cap: Option<usize>) -> (Sender<T>, Receiver<T>) {
        let s = Arc::new(Mutex::new(Inner {
            q: VecDeque::new(),
            cap,
            senders: 1,
            receivers: 1,
            closed: false,
            wakers: vec![],
        }));
        (Sender(s.clone()), Receiver(s))
    }
    pub fn unbounded<T>() -> (Sender<T>, Receiver<T>) {
        make(None)
    }
    pub fn bounded<T>(cap: usize) -> (Sender<T>, Receiver<T>) {
        assert!(cap > 0, "capacity cannot be zero");
        make(Some(cap))
    }

    impl<T> Sender<T> {
        pub fn try_send(&self, t: T) -> Result<(), TrySendError<T>> {
            sw();
            let mut i = get(&self.0);
            if i.closed {
                Err(TrySendError::Closed(t))
            } else if i.full() {
                Err(TrySendError::Full(t))
            } else {
                i.q.push_back(t);
                i.wake();
                Ok(())
            }
        }
        pub fn send(&self, t: T) -> Send<'_, T> {
            Send(self, Some(t))
        }
        pub fn send_blocking(&self, mut t: T) -> Result<(), SendError<T>> {
            loop {
                match self.try_send(t) {
                    Ok(()) => return Ok(()),
                    Err(TrySendError::Closed(t)) => return Err(SendError(t)),
                    Err(TrySendError::Full(x)) => t = x,
                }
                vstd::thread::yield_now();
            }
        }
    }
    impl<T> Receiver<T> {
        pub fn try_recv(&self) -> Result<T, TryRecvError> {
            sw();
            let mut i = get(&self.0);
            match i.q.pop_front() {
                Some(t) => {
                    i.wake();
                    Ok(t)
                }
                None if i.closed => Err(TryRecvError::Closed),
                None => Err(TryRecvError::Empty),
            }
        }
        pub fn recv(&self) -> Recv<'_, T> {
            Recv(self)
        }
        pub fn recv_blocking(&self) -> Result<T, RecvError> {
            loop {
                match self.try_recv() {
                    Ok(t) => return Ok(t),
                    Err(TryRecvError::Closed) => return Err(RecvError),
                    Err(TryRecvError::Empty) => vstd::thread::yield_now(),
                }
            }
        }
    }
    macro_rules! common {
        ($t:ident, $n:ident) => {
            impl<T> $t<T> {
                pub fn len(&self) -> usize {
                    sw();
                    get(&self.0).q.len()
                }
                pub fn is_empty(&self) -> bool {
                    self.len() == 0
                }
                pub fn is_full(&self) -> bool {
                    sw();
                    get(&self.0).full()
                }
                pub fn capacity(&self) -> Option<usize> {
                    get(&self.0).cap
                }
                pub fn is_closed(&self) -> bool {
                    sw();
                    get(&self.0).closed
                }
                pub fn close(&self) -> bool {
                    sw();
                    let mut i = get(&self.0);
                    i.wake();
                    !std::mem::replace(&mut i.closed, true)
                }
                pub fn sender_count(&self) -> usize {
                    get(&self.0).senders
                }
                pub fn receiver_count(&self) -> usize {
                    get(&self.0).receivers
                }
            }
            impl<T> Clone for $t<T> {
                fn clone(&self) -> Self {
                    get(&self.0).$n += 1;
                    $t(self.0.clone())
                }
            }
            impl<T> Drop for $t<T> {
                fn drop(&mut self) {
                    sw();
                    let mut i = get(&self.0);
                    i.$n -= 1;
                    if i.$n == 0 {
                        i.closed = true;
                        i.wake();
                    }
                }
            }
            impl<T> fmt::Debug for $t<T> {
                fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                    write!(f, concat!(stringify!($t), " {{ .. }}"))
                }
            }
        };
    }
    common!(Sender, senders);
    common!(Receiver, receivers);

    pub struct Recv<'a, T>(&'a Receiver<T>);
    impl<T> Future for Recv<'_, T> {
        type Output = Result<T, RecvError>;
        fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
            let mut i = get(&self.0 .0);
            match i.q.pop_front() {
                Some(t) => Poll::Ready(Ok(t)),
                None if i.closed => Poll::Ready(Err(RecvError)),
                None => {
                    i.wakers.push(cx.waker().clone());
                    Poll::Pending
                }
            }
        }
    }
    pub struct Send<'a, T>(&'a Sender<T>, Option<T>);
    impl<T> Unpin for Send<'_, T> {}
    impl<T> Future for Send<'_, T> {
        type Output = Result<(), SendError<T>>;
        fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
            let me = self.get_mut();
            let t = me.1.take().expect("polled again");
            match me.0.try_send(t) {
                Ok(()) => Poll::Ready(Ok(())),
                Err(TrySendError::Closed(t)) => Poll::Ready(Err(SendError(t))),
                Err(TrySendError::Full(t)) => {
                    me.1 = Some(t);
                    get(&me.0 .0).wakers.push(cx.waker().clone());
                    Poll::Pending
                }
            }
        }
    }

    #[derive(PartialEq, Eq, Clone, Copy)]
    pub struct SendError<T>(pub T);
    #[derive(PartialEq, Eq, Clone, Copy)]
    pub enum TrySendError<T> {
        Full(T),
        Closed(T),
    }
    #[derive(PartialEq, Eq, Clone, Copy, Debug)]
    pub struct RecvError;
    #[derive(PartialEq, Eq, Clone, Copy, Debug)]
    pub enum TryRecvError {
        Empty,
        Closed,
    }
    impl<T> SendError<T> {
        pub fn into_inner(self) -> T {
            self.0
        }
    }
    impl<T> TrySendError<T> {
        pub fn into_inner(self) -> T {
            match self {
                TrySendError::Full(t) | TrySendError::Closed(t) => t,
            }
        }
        pub fn is_full(&self) -> bool {
            matches!(self, TrySendError::Full(_))
        }
        pub fn is_closed(&self) -> bool {
            matches!(self, TrySendError::Closed(_))
        }
    }
    impl TryRecvError {
        pub fn is_empty(&self) -> bool {
            matches!(self, TryRecvError::Empty)
        }
        pub fn is_closed(&self) -> bool {
            matches!(self, TryRecvError::Closed)
        }
    }
    macro_rules! err {
        ($($t:ty [$($g:tt)*];)*) => {$(
            impl<$($g)*> fmt::Display for $t {
                fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                    write!(f, "channel operation failed")
                }
            }
            impl<$($g)*> Error for $t {}
        )*};
    }
    impl<T> fmt::Debug for SendError<T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            write!(f, "SendError(..)")
        }
    }
    impl<T> fmt::Debug for TrySendError<T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            write!(f, "TrySendError(..)")
        }
    }
    err! { SendError<T> [T]; TrySendError<T> [T]; RecvError []; TryRecvError []; }
}
