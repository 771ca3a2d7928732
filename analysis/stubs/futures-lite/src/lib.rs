//! Stand-in for `futures-lite` 2.x (not available offline): the subset of its API with the same
//! names and signatures.
pub use futures_core::Stream;
pub use futures_io::{AsyncBufRead, AsyncRead, AsyncSeek, AsyncWrite};
pub use future::FutureExt;
pub use stream::StreamExt;

pub mod future {
    use std::{
        future::Future,
        pin::Pin,
        task::{Context, Poll},
    };
    pub trait FutureExt: Future {
        fn poll(&mut self, cx: &mut Context<'_>) -> Poll<Self::Output>
        where
            Self: Unpin,
        {
            Future::poll(Pin::new(self), cx)
        }
        fn boxed<'a>(self) -> Pin<Box<dyn Future<Output = Self::Output> + Send + 'a>>
        where
            Self: Sized + Send + 'a,
        {
            Box::pin(self)
        }
    }
    impl<F: Future + ?Sized> FutureExt for F {}
}

pub mod stream {
    use futures_core::Stream;
    use std::{
        future::Future,
        pin::Pin,
        task::{Context, Poll},
    };
    pub use futures_core::Stream as _Stream;

    pub struct NextFuture<'a, S: ?Sized>(&'a mut S);
    impl<S: Stream + Unpin + ?Sized> Future for NextFuture<'_, S> {
        type Output = Option<S::Item>;
        fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
            Pin::new(&mut *self.0).poll_next(cx)
        }
    }
    pub struct Map<S, F>(S, F);
    impl<S, F> Map<S, F> {
        // pin projection: S is structurally pinned, F is not
        fn project(self: Pin<&mut Self>) -> (Pin<&mut S>, &mut F) {
            unsafe {
                let this = self.get_unchecked_mut();
                (Pin::new_unchecked(&mut this.0), &mut this.1)
            }
        }
    }
    impl<S: Stream, F: FnMut(S::Item) -> T, T> Stream for Map<S, F> {
        type Item = T;
        fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<T>> {
            let (s, f) = self.project();
            s.poll_next(cx).map(|o| o.map(f))
        }
    }
    pub struct Filter<S, P>(S, P);
    impl<S: Stream, P: FnMut(&S::Item) -> bool> Stream for Filter<S, P> {
        type Item = S::Item;
        fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<S::Item>> {
            let this = unsafe { self.get_unchecked_mut() };
            loop {
                match unsafe { Pin::new_unchecked(&mut this.0) }.poll_next(cx) {
                    Poll::Ready(Some(x)) => {
                        if (this.1)(&x) {
                            return Poll::Ready(Some(x));
                        }
                    }
                    other => return other,
                }
            }
        }
    }
    pub struct CollectFuture<S, C>(S, C);
    impl<S: Stream, C: Default + Extend<S::Item>> Future for CollectFuture<S, C> {
        type Output = C;
        fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<C> {
            let this = unsafe { self.get_unchecked_mut() };
            loop {
                match unsafe { Pin::new_unchecked(&mut this.0) }.poll_next(cx) {
                    Poll::Ready(Some(x)) => this.1.extend(Some(x)),
                    Poll::Ready(None) => return Poll::Ready(std::mem::take(&mut this.1)),
                    Poll::Pending => return Poll::Pending,
                }
            }
        }
    }
    pub trait StreamExt: Stream {
        fn next(&mut self) -> NextFuture<'_, Self>
        where
            Self: Unpin,
        {
            NextFuture(self)
        }
        fn map<T, F>(self, f: F) -> Map<Self, F>
        where
            Self: Sized,
            F: FnMut(Self::Item) -> T,
        {
            Map(self, f)
        }
        fn filter<P>(self, p: P) -> Filter<Self, P>
        where
            Self: Sized,
            P: FnMut(&Self::Item) -> bool,
        {
            Filter(self, p)
        }
        fn collect<C: Default + Extend<Self::Item>>(self) -> CollectFuture<Self, C>
        where
            Self: Sized,
        {
            CollectFuture(self, C::default())
        }
        fn poll_next(&mut self, cx: &mut Context<'_>) -> Poll<Option<Self::Item>>
        where
            Self: Unpin,
        {
            Stream::poll_next(Pin::new(self), cx)
        }
    }
    impl<S: Stream + ?Sized> StreamExt for S {}
}
