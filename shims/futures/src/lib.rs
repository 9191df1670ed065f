//! Stand-in for `futures`: the next of a number of futures.
use std::future::Future;
use std::pin::Pin;
use std::task::{Context, Poll};

pub trait Stream {
    type Item;
    fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>>;
}
pub trait StreamExt: Stream + Unpin {
    fn next(&mut self) -> impl Future<Output = Option<Self::Item>> {
        std::future::poll_fn(|cx| Pin::new(&mut *self).poll_next(cx))
    }
}
impl<S: Stream + Unpin> StreamExt for S {}
pub mod stream {
    use super::*;
    pub use super::{Stream, StreamExt};
    pub struct FuturesUnordered<F>(std::cell::RefCell<Vec<F>>);
    impl<F> Default for FuturesUnordered<F> {
        fn default() -> Self {
            Self::new()
        }
    }
    impl<F> FuturesUnordered<F> {
        pub fn new() -> Self {
            FuturesUnordered(Default::default())
        }
        pub fn len(&self) -> usize {
            self.0.borrow().len()
        }
        pub fn is_empty(&self) -> bool {
            self.0.borrow().is_empty()
        }
    }
    impl<F: Future + Unpin> FuturesUnordered<F> {
        pub fn push(&self, f: F) {
            self.0.borrow_mut().push(f)
        }
    }
    impl<F: Future + Unpin> Stream for FuturesUnordered<F> {
        type Item = F::Output;
        fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<F::Output>> {
            let all = self.0.get_mut();
            if all.is_empty() {
                return Poll::Ready(None);
            }
            for i in 0..all.len() {
                if let Poll::Ready(v) = Pin::new(&mut all[i]).poll(cx) {
                    all.remove(i);
                    return Poll::Ready(Some(v));
                }
            }
            Poll::Pending
        }
    }
}
