//! Stand-in for `tokio`: tasks of one thread whose order is chosen from outside, and unbounded
//! channels.
use std::cell::{Cell, RefCell};
use std::future::Future;
use std::pin::Pin;
use std::sync::Arc;
use std::sync::atomic::{AtomicBool, Ordering::Relaxed};
use std::task::{Context, Poll, Wake, Waker};

struct Flag(AtomicBool);
impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.0.store(true, Relaxed)
    }
}
struct Task {
    future: Option<Pin<Box<dyn Future<Output = ()>>>>,
    ready: Arc<Flag>,
    done: bool,
}
thread_local! {
    static TASKS: RefCell<Vec<Task>> = const { RefCell::new(Vec::new()) };
    static CHOOSE: Cell<Option<fn(usize) -> usize>> = const { Cell::new(None) };
}
/// which of several ready tasks goes on
pub fn choose_with(f: fn(usize) -> usize) {
    CHOOSE.with(|c| c.set(Some(f)));
}
pub fn choose(n: usize) -> usize {
    if n < 2 {
        return 0;
    }
    match CHOOSE.with(|c| c.get()) {
        Some(f) => f(n),
        None => 0,
    }
}
fn poll_task(i: usize) {
    let (mut f, flag) = TASKS.with(|t| {
        let t = &mut t.borrow_mut()[i];
        t.ready.0.store(false, Relaxed);
        (t.future.take(), t.ready.clone())
    });
    let Some(mut future) = f.take() else { return };
    let waker = Waker::from(flag);
    let r = future.as_mut().poll(&mut Context::from_waker(&waker));
    TASKS.with(|t| {
        let t = &mut t.borrow_mut()[i];
        match r {
            Poll::Ready(()) => t.done = true,
            Poll::Pending if !t.done => t.future = Some(future),
            Poll::Pending => {}
        }
    });
}
fn add(future: Pin<Box<dyn Future<Output = ()>>>) -> usize {
    TASKS.with(|t| {
        let mut t = t.borrow_mut();
        t.push(Task { future: Some(future), ready: Arc::new(Flag(AtomicBool::new(true))), done: false });
        t.len() - 1
    })
}
/// forgets a task: it does not go on
fn abort(i: usize) {
    let f = TASKS.with(|t| {
        let t = &mut t.borrow_mut()[i];
        t.done = true;
        t.future.take()
    });
    drop(f);
}
/// Runs until the future is done, or nothing can go on.
pub fn run<T: 'static>(future: impl Future<Output = T> + 'static) -> Option<T> {
    let main = task::spawn(future);
    loop {
        if let Some(v) = main.take() {
            TASKS.with(|t| t.borrow_mut().clear());
            return Some(v);
        }
        let ready: Vec<usize> = TASKS.with(|t| {
            let t = t.borrow();
            (0..t.len()).filter(|&i| !t[i].done && t[i].ready.0.load(Relaxed)).collect()
        });
        if ready.is_empty() {
            return None;
        }
        poll_task(ready[choose(ready.len())]);
    }
}
/// Starts a task, and runs it at once as far as it goes.
pub fn start<T: 'static>(future: impl Future<Output = T> + 'static) -> task::JoinHandle<T> {
    let h = task::spawn(future);
    poll_task(h.task);
    h
}
/// gives way to the other tasks, once
pub async fn pause() {
    let mut first = true;
    std::future::poll_fn(move |cx| {
        if first {
            first = false;
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        Poll::Ready(())
    })
    .await
}
pub mod task {
    use super::*;
    use std::fmt;
    use std::rc::Rc;
    #[derive(Debug)]
    pub struct JoinError;
    impl fmt::Display for JoinError {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            f.write_str("the task did not finish")
        }
    }
    impl std::error::Error for JoinError {}
    struct Result_<T> {
        value: Option<T>,
        waker: Option<Waker>,
    }
    pub struct JoinHandle<T> {
        pub(crate) task: usize,
        result: Rc<RefCell<Result_<T>>>,
    }
    unsafe impl<T> Send for JoinHandle<T> {}
    unsafe impl<T> Sync for JoinHandle<T> {}
    impl<T> Unpin for JoinHandle<T> {}
    impl<T> fmt::Debug for JoinHandle<T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            f.write_str("JoinHandle")
        }
    }
    impl<T> JoinHandle<T> {
        /// the result, if it is there
        pub fn take(&self) -> Option<T> {
            self.result.borrow_mut().value.take()
        }
        pub fn is_finished(&self) -> bool {
            self.result.borrow().value.is_some()
        }
        pub fn abort(&self) {
            super::abort(self.task)
        }
    }
    impl<T> Future for JoinHandle<T> {
        type Output = Result<T, JoinError>;
        fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
            let mut r = self.result.borrow_mut();
            match r.value.take() {
                Some(v) => Poll::Ready(Ok(v)),
                None => {
                    r.waker = Some(cx.waker().clone());
                    Poll::Pending
                }
            }
        }
    }
    pub fn spawn<T: 'static>(future: impl Future<Output = T> + 'static) -> JoinHandle<T> {
        let result = Rc::new(RefCell::new(Result_ { value: None, waker: None }));
        let r = result.clone();
        let task = add(Box::pin(async move {
            let v = future.await;
            let mut r = r.borrow_mut();
            r.value = Some(v);
            if let Some(w) = r.waker.take() {
                w.wake()
            }
        }));
        JoinHandle { task, result }
    }
    pub fn spawn_blocking<T: 'static>(f: impl FnOnce() -> T + 'static) -> JoinHandle<T> {
        spawn(async move { f() })
    }
    pub async fn yield_now() {
        super::pause().await
    }
    pub struct JoinSet<T> {
        tasks: Vec<JoinHandle<T>>,
    }
    impl<T> fmt::Debug for JoinSet<T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            f.write_str("JoinSet")
        }
    }
    impl<T: 'static> Default for JoinSet<T> {
        fn default() -> Self {
            Self::new()
        }
    }
    impl<T: 'static> JoinSet<T> {
        pub fn new() -> Self {
            JoinSet { tasks: vec![] }
        }
        pub fn spawn(&mut self, future: impl Future<Output = T> + 'static) {
            self.tasks.push(spawn(future));
        }
        pub fn len(&self) -> usize {
            self.tasks.len()
        }
        pub fn is_empty(&self) -> bool {
            self.tasks.is_empty()
        }
        pub fn abort_all(&mut self) {
            for t in &self.tasks {
                t.abort()
            }
        }
        pub async fn shutdown(&mut self) {
            self.abort_all();
            self.tasks.clear();
        }
        pub async fn join_next(&mut self) -> Option<Result<T, JoinError>> {
            if self.tasks.is_empty() {
                return None;
            }
            std::future::poll_fn(|cx| {
                for i in 0..self.tasks.len() {
                    if let Poll::Ready(v) = Pin::new(&mut self.tasks[i]).poll(cx) {
                        self.tasks.remove(i);
                        return Poll::Ready(Some(v));
                    }
                }
                Poll::Pending
            })
            .await
        }
    }
    impl<T> Drop for JoinSet<T> {
        fn drop(&mut self) {
            for t in &self.tasks {
                let _ = TASKS.try_with(|v| {
                    if let Ok(mut v) = v.try_borrow_mut() {
                        if let Some(x) = v.get_mut(t.task) {
                            x.done = true;
                        }
                    }
                });
            }
        }
    }
}
pub use task::spawn;
pub mod sync {
    pub mod mpsc {
        use std::cell::RefCell;
        use std::collections::VecDeque;
        use std::fmt;
        use std::rc::Rc;
        use std::task::{Poll, Waker};
        pub mod error {
            use std::fmt;
            #[derive(Clone, Copy, PartialEq, Eq)]
            pub struct SendError<T>(pub T);
            impl<T> fmt::Debug for SendError<T> {
                fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                    f.write_str("SendError")
                }
            }
            impl<T> fmt::Display for SendError<T> {
                fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                    f.write_str("channel closed")
                }
            }
            impl<T> std::error::Error for SendError<T> {}
            #[derive(Clone, Copy, Debug, PartialEq, Eq)]
            pub enum TryRecvError {
                Empty,
                Disconnected,
            }
        }
        struct Channel<T> {
            queue: VecDeque<T>,
            senders: usize,
            open: bool,
            waker: Option<Waker>,
        }
        impl<T> Channel<T> {
            fn wake(&mut self) {
                if let Some(w) = self.waker.take() {
                    w.wake()
                }
            }
        }
        pub struct UnboundedSender<T>(Rc<RefCell<Channel<T>>>);
        pub struct UnboundedReceiver<T>(Rc<RefCell<Channel<T>>>);
        unsafe impl<T> Send for UnboundedSender<T> {}
        unsafe impl<T> Sync for UnboundedSender<T> {}
        unsafe impl<T> Send for UnboundedReceiver<T> {}
        unsafe impl<T> Sync for UnboundedReceiver<T> {}
        impl<T> fmt::Debug for UnboundedSender<T> {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                f.write_str("UnboundedSender")
            }
        }
        impl<T> fmt::Debug for UnboundedReceiver<T> {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                f.write_str("UnboundedReceiver")
            }
        }
        pub fn unbounded_channel<T>() -> (UnboundedSender<T>, UnboundedReceiver<T>) {
            let c = Rc::new(RefCell::new(Channel { queue: VecDeque::new(), senders: 1, open: true, waker: None }));
            (UnboundedSender(c.clone()), UnboundedReceiver(c))
        }
        impl<T> Clone for UnboundedSender<T> {
            fn clone(&self) -> Self {
                self.0.borrow_mut().senders += 1;
                UnboundedSender(self.0.clone())
            }
        }
        impl<T> Drop for UnboundedSender<T> {
            fn drop(&mut self) {
                let mut c = self.0.borrow_mut();
                c.senders -= 1;
                if c.senders == 0 {
                    c.wake();
                }
            }
        }
        impl<T> UnboundedSender<T> {
            pub fn send(&self, v: T) -> Result<(), error::SendError<T>> {
                let mut c = self.0.borrow_mut();
                if !c.open {
                    return Err(error::SendError(v));
                }
                c.queue.push_back(v);
                c.wake();
                Ok(())
            }
            pub fn is_closed(&self) -> bool {
                !self.0.borrow().open
            }
        }
        impl<T> UnboundedReceiver<T> {
            pub async fn recv(&mut self) -> Option<T> {
                std::future::poll_fn(|cx| {
                    let mut c = self.0.borrow_mut();
                    if let Some(v) = c.queue.pop_front() {
                        return Poll::Ready(Some(v));
                    }
                    if c.senders == 0 || !c.open {
                        return Poll::Ready(None);
                    }
                    c.waker = Some(cx.waker().clone());
                    Poll::Pending
                })
                .await
            }
            pub fn try_recv(&mut self) -> Result<T, error::TryRecvError> {
                let mut c = self.0.borrow_mut();
                match c.queue.pop_front() {
                    Some(v) => Ok(v),
                    None if c.senders == 0 => Err(error::TryRecvError::Disconnected),
                    None => Err(error::TryRecvError::Empty),
                }
            }
            pub fn close(&mut self) {
                self.0.borrow_mut().open = false;
            }
        }
        impl<T> Drop for UnboundedReceiver<T> {
            fn drop(&mut self) {
                let old = {
                    let mut c = self.0.borrow_mut();
                    c.open = false;
                    std::mem::take(&mut c.queue)
                };
                drop(old);
            }
        }
    }
}
pub mod io {
    pub trait AsyncRead {}
    pub trait AsyncWrite {}
    pub struct Nothing;
    impl AsyncRead for Nothing {}
    impl AsyncWrite for Nothing {}
}
#[doc(hidden)]
pub enum Two<A, B> {
    A(A),
    B(B),
}
#[macro_export]
macro_rules! select {
    ($(biased;)? $p:pat = $f:expr => $b:expr, $q:pat = $g:expr => $c:expr $(,)?) => {{
        let two = {
            let mut a = ::std::pin::pin!($f);
            let mut b = ::std::pin::pin!($g);
            let first = $crate::choose(2);
            ::std::future::poll_fn(|cx| {
                for i in 0..2 {
                    if (i + first) % 2 == 0 {
                        if let ::std::task::Poll::Ready(v) = ::std::future::Future::poll(a.as_mut(), cx) {
                            return ::std::task::Poll::Ready($crate::Two::A(v));
                        }
                    } else if let ::std::task::Poll::Ready(v) = ::std::future::Future::poll(b.as_mut(), cx) {
                        return ::std::task::Poll::Ready($crate::Two::B(v));
                    }
                }
                ::std::task::Poll::Pending
            })
            .await
        };
        match two {
            $crate::Two::A($p) => $b,
            $crate::Two::B($q) => $c,
        }
    }};
}
