//! Stand-in for futures-lite, the parts hyperbee uses.
pub use futures_core::Stream;
pub use futures_io::{AsyncRead, AsyncWrite};
pub use stream::StreamExt;
pub use future::FutureExt;
pub mod future {
    use std::future::Future;
    use std::pin::Pin;
    use std::task::{Context, Poll};
    pub trait FutureExt: Future {
        fn poll(&mut self, cx: &mut Context<'_>) -> Poll<Self::Output>
        where
            Self: Unpin,
        {
            Future::poll(Pin::new(self), cx)
        }
    }
    impl<F: Future + ?Sized> FutureExt for F {}
}
pub mod stream {
    use futures_core::Stream;
    use std::future::Future;
    use std::pin::Pin;
    use std::task::{Context, Poll};
    pub struct NextFuture<'a, S: ?Sized>(&'a mut S);
    impl<S: Stream + Unpin + ?Sized> Future for NextFuture<'_, S> {
        type Output = Option<S::Item>;
        fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
            Pin::new(&mut *self.0).poll_next(cx)
        }
    }
    pub use futures_util::stream::Map;
    pub trait StreamExt: Stream {
        fn poll_next(&mut self, cx: &mut Context<'_>) -> Poll<Option<Self::Item>>
        where
            Self: Unpin,
        {
            Stream::poll_next(Pin::new(self), cx)
        }
        fn next(&mut self) -> NextFuture<'_, Self>
        where
            Self: Unpin,
        {
            NextFuture(self)
        }
        fn map<T, F: FnMut(Self::Item) -> T>(self, f: F) -> Map<Self, F>
        where
            Self: Sized,
        {
            futures_util::StreamExt::map(self, f)
        }
    }
    impl<S: Stream + ?Sized> StreamExt for S {}
}
