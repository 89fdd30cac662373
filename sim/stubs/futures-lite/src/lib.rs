//! Stand-in for `futures-lite` (not available offline) with the same API for what it offers.
pub use futures_core::ready;
pub use futures_core::Stream;
pub use futures_io::{AsyncBufRead, AsyncRead, AsyncSeek, AsyncWrite};
pub use futures_util::io::{AsyncBufReadExt, AsyncReadExt, AsyncSeekExt, AsyncWriteExt};
pub use std::future::Future;

pub use future::FutureExt;
pub use stream::StreamExt;

#[macro_export]
macro_rules! pin {
    ($($x:ident),* $(,)?) => { $(
        let mut $x = $x;
        #[allow(unused_mut)]
        let mut $x = unsafe { ::core::pin::Pin::new_unchecked(&mut $x) };
    )* }
}

pub mod io {
    pub use futures_io::*;
    pub use futures_util::io::*;
}

pub mod future {
    pub use std::future::{pending, poll_fn, ready, Future, Pending, Ready};
    use std::pin::Pin;
    use std::task::{Context, Poll};
    pub type Boxed<T> = Pin<Box<dyn Future<Output = T> + Send + 'static>>;
    pub type BoxedLocal<T> = Pin<Box<dyn Future<Output = T> + 'static>>;

    pub fn block_on<T: 'static>(fut: impl Future<Output = T> + 'static) -> T {
        if simrt::active() {
            simrt::block_on(fut)
        } else {
            futures_block_on(fut)
        }
    }
    fn futures_block_on<T>(fut: impl Future<Output = T>) -> T {
        let mut fut = Box::pin(fut);
        let w = futures_util::task::noop_waker();
        let mut cx = Context::from_waker(&w);
        loop {
            if let Poll::Ready(v) = fut.as_mut().poll(&mut cx) {
                return v;
            }
            std::thread::yield_now();
        }
    }
    pub async fn poll_once<T, F: Future<Output = T>>(f: F) -> Option<T> {
        let mut f = Box::pin(f);
        poll_fn(move |cx| {
            Poll::Ready(match f.as_mut().poll(cx) {
                Poll::Ready(v) => Some(v),
                Poll::Pending => None,
            })
        })
        .await
    }
    pub async fn yield_now() {
        simrt::yield_now().await
    }
    pub async fn zip<A: Future, B: Future>(a: A, b: B) -> (A::Output, B::Output) {
        futures_util::future::join(a, b).await
    }
    pub async fn try_zip<T1, T2, E>(
        a: impl Future<Output = Result<T1, E>>,
        b: impl Future<Output = Result<T2, E>>,
    ) -> Result<(T1, T2), E> {
        futures_util::future::try_join(a, b).await
    }
    pub async fn or<T>(a: impl Future<Output = T>, b: impl Future<Output = T>) -> T {
        let (mut a, mut b) = (Box::pin(a), Box::pin(b));
        poll_fn(move |cx| {
            if let Poll::Ready(v) = a.as_mut().poll(cx) {
                return Poll::Ready(v);
            }
            b.as_mut().poll(cx)
        })
        .await
    }
    pub use or as race;

    pub trait FutureExt: Future {
        fn poll(&mut self, cx: &mut Context<'_>) -> Poll<Self::Output>
        where
            Self: Unpin,
        {
            Future::poll(Pin::new(self), cx)
        }
        fn or<F: Future<Output = Self::Output>>(self, other: F) -> impl Future<Output = Self::Output>
        where
            Self: Sized,
        {
            or(self, other)
        }
        fn race<F: Future<Output = Self::Output>>(self, other: F) -> impl Future<Output = Self::Output>
        where
            Self: Sized,
        {
            or(self, other)
        }
        fn catch_unwind(self) -> futures_util::future::CatchUnwind<Self>
        where
            Self: Sized + std::panic::UnwindSafe,
        {
            futures_util::FutureExt::catch_unwind(self)
        }
        fn boxed<'a>(self) -> Pin<Box<dyn Future<Output = Self::Output> + Send + 'a>>
        where
            Self: Sized + Send + 'a,
        {
            Box::pin(self)
        }
        fn boxed_local<'a>(self) -> Pin<Box<dyn Future<Output = Self::Output> + 'a>>
        where
            Self: Sized + 'a,
        {
            Box::pin(self)
        }
    }
    impl<F: Future + ?Sized> FutureExt for F {}
}

pub mod stream {
    pub use futures_core::Stream;
    use futures_util::stream as fs;
    use futures_util::stream::StreamExt as FS;
    pub use futures_util::stream::{empty, iter, pending, poll_fn, repeat, select as or, unfold};
    use std::future::Future;
    use std::pin::Pin;
    use std::task::{Context, Poll};
    pub type Boxed<T> = Pin<Box<dyn Stream<Item = T> + Send + 'static>>;
    pub type BoxedLocal<T> = Pin<Box<dyn Stream<Item = T> + 'static>>;
    pub fn once<T>(t: T) -> fs::Once<std::future::Ready<T>> {
        fs::once(std::future::ready(t))
    }

    pub use futures_util::stream::{once as once_future, repeat_with, try_unfold};

    pin_project_lite::pin_project! {
        /// A stream or future made of a stream and a closure
        pub struct With<S, P, X> {
            #[pin]
            s: S,
            p: P,
            x: X,
        }
    }
    /// which adapter it is
    pub struct AFilter;
    pub struct AFilterMap;
    pub struct ATakeWhile(bool);
    pub struct ASkipWhile(bool);
    pub struct AMapWhile(bool);
    pub struct AStepBy(usize, usize);
    pub struct AScan<St>(St, bool);
    pub struct FFold<T>(Option<T>);
    pub struct FForEach;
    pub struct FLast<T>(Option<T>);
    pub type Filter<S, P> = With<S, P, AFilter>;
    pub type FilterMap<S, P> = With<S, P, AFilterMap>;
    pub type TakeWhile<S, P> = With<S, P, ATakeWhile>;
    pub type SkipWhile<S, P> = With<S, P, ASkipWhile>;
    pub type MapWhile<S, P> = With<S, P, AMapWhile>;
    pub type StepBy<S> = With<S, (), AStepBy>;
    pub type Scan<S, St, F> = With<S, F, AScan<St>>;
    pub type FoldFuture<S, F, T> = With<S, F, FFold<T>>;
    pub type ForEachFuture<S, F> = With<S, F, FForEach>;
    pub type LastFuture<S, T> = With<S, (), FLast<T>>;

    impl<S: Stream, P: FnMut(&S::Item) -> bool> Stream for With<S, P, AFilter> {
        type Item = S::Item;
        fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<S::Item>> {
            let mut m = self.project();
            loop {
                match futures_core::ready!(m.s.as_mut().poll_next(cx)) {
                    Some(x) if !(m.p)(&x) => continue,
                    r => return Poll::Ready(r),
                }
            }
        }
    }
    impl<S: Stream, T, P: FnMut(S::Item) -> Option<T>> Stream for With<S, P, AFilterMap> {
        type Item = T;
        fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<T>> {
            let mut m = self.project();
            loop {
                match futures_core::ready!(m.s.as_mut().poll_next(cx)) {
                    None => return Poll::Ready(None),
                    Some(x) => {
                        if let Some(t) = (m.p)(x) {
                            return Poll::Ready(Some(t));
                        }
                    }
                }
            }
        }
    }
    impl<S: Stream, P: FnMut(&S::Item) -> bool> Stream for With<S, P, ATakeWhile> {
        type Item = S::Item;
        fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<S::Item>> {
            let m = self.project();
            if m.x.0 {
                return Poll::Ready(None);
            }
            match futures_core::ready!(m.s.poll_next(cx)) {
                Some(x) if (m.p)(&x) => Poll::Ready(Some(x)),
                _ => {
                    m.x.0 = true;
                    Poll::Ready(None)
                }
            }
        }
    }
    impl<S: Stream, P: FnMut(&S::Item) -> bool> Stream for With<S, P, ASkipWhile> {
        type Item = S::Item;
        fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<S::Item>> {
            let mut m = self.project();
            loop {
                match futures_core::ready!(m.s.as_mut().poll_next(cx)) {
                    Some(x) if !m.x.0 && (m.p)(&x) => continue,
                    r => {
                        m.x.0 = true;
                        return Poll::Ready(r);
                    }
                }
            }
        }
    }
    impl<S: Stream, T, P: FnMut(S::Item) -> Option<T>> Stream for With<S, P, AMapWhile> {
        type Item = T;
        fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<T>> {
            let m = self.project();
            if m.x.0 {
                return Poll::Ready(None);
            }
            let r = futures_core::ready!(m.s.poll_next(cx)).and_then(|x| (m.p)(x));
            m.x.0 = r.is_none();
            Poll::Ready(r)
        }
    }
    impl<S: Stream> Stream for With<S, (), AStepBy> {
        type Item = S::Item;
        fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<S::Item>> {
            let mut m = self.project();
            loop {
                match futures_core::ready!(m.s.as_mut().poll_next(cx)) {
                    Some(_) if m.x.1 > 0 => m.x.1 -= 1,
                    r => {
                        m.x.1 = m.x.0 - 1;
                        return Poll::Ready(r);
                    }
                }
            }
        }
    }
    impl<S: Stream, St, B, F: FnMut(&mut St, S::Item) -> Option<B>> Stream for With<S, F, AScan<St>> {
        type Item = B;
        fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<B>> {
            let m = self.project();
            if m.x.1 {
                return Poll::Ready(None);
            }
            let r = futures_core::ready!(m.s.poll_next(cx)).and_then(|x| (m.p)(&mut m.x.0, x));
            m.x.1 = r.is_none();
            Poll::Ready(r)
        }
    }
    impl<S: Stream, T, F: FnMut(T, S::Item) -> T> Future for With<S, F, FFold<T>> {
        type Output = T;
        fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<T> {
            let mut m = self.project();
            while let Some(x) = futures_core::ready!(m.s.as_mut().poll_next(cx)) {
                let old = m.x.0.take().unwrap();
                m.x.0 = Some((m.p)(old, x));
            }
            Poll::Ready(m.x.0.take().unwrap())
        }
    }
    impl<S: Stream, F: FnMut(S::Item)> Future for With<S, F, FForEach> {
        type Output = ();
        fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
            let mut m = self.project();
            while let Some(x) = futures_core::ready!(m.s.as_mut().poll_next(cx)) {
                (m.p)(x);
            }
            Poll::Ready(())
        }
    }
    impl<S: Stream> Future for With<S, (), FLast<S::Item>> {
        type Output = Option<S::Item>;
        fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<S::Item>> {
            let mut m = self.project();
            while let Some(x) = futures_core::ready!(m.s.as_mut().poll_next(cx)) {
                m.x.0 = Some(x);
            }
            Poll::Ready(m.x.0.take())
        }
    }
    /// Futures that look at items until one decides.
    pub struct Until<'a, S: ?Sized, P, R> {
        s: &'a mut S,
        p: P,
        end: Option<R>,
    }
    impl<S: ?Sized, P, R> Unpin for Until<'_, S, P, R> {}
    impl<S: Stream + Unpin + ?Sized, R, P: FnMut(S::Item) -> Option<R>> Future for Until<'_, S, P, R> {
        type Output = R;
        fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<R> {
            let m = &mut *self;
            while let Some(x) = futures_core::ready!(Pin::new(&mut *m.s).poll_next(cx)) {
                if let Some(r) = (m.p)(x) {
                    return Poll::Ready(r);
                }
            }
            Poll::Ready(m.end.take().unwrap())
        }
    }
    type BoxFn<'a, A, R> = Box<dyn FnMut(A) -> Option<R> + Send + 'a>;

    pub trait StreamExt: Stream {
        fn poll_next(&mut self, cx: &mut Context<'_>) -> Poll<Option<Self::Item>>
        where
            Self: Unpin,
        {
            Stream::poll_next(Pin::new(self), cx)
        }
        fn next(&mut self) -> fs::Next<'_, Self>
        where
            Self: Unpin,
        {
            FS::next(self)
        }
        fn try_next<T, E>(&mut self) -> fs::TryNext<'_, Self>
        where
            Self: Stream<Item = Result<T, E>> + Unpin,
        {
            futures_util::TryStreamExt::try_next(self)
        }
        fn count(self) -> fs::Count<Self>
        where
            Self: Sized,
        {
            FS::count(self)
        }
        fn map<T, F: FnMut(Self::Item) -> T>(self, f: F) -> fs::Map<Self, F>
        where
            Self: Sized,
        {
            FS::map(self, f)
        }
        fn then<F: FnMut(Self::Item) -> Fut, Fut: Future>(self, f: F) -> fs::Then<Self, Fut, F>
        where
            Self: Sized,
        {
            FS::then(self, f)
        }
        fn filter<P: FnMut(&Self::Item) -> bool>(self, p: P) -> Filter<Self, P>
        where
            Self: Sized,
        {
            With { s: self, p, x: AFilter }
        }
        fn filter_map<T, P: FnMut(Self::Item) -> Option<T>>(self, p: P) -> FilterMap<Self, P>
        where
            Self: Sized,
        {
            With { s: self, p, x: AFilterMap }
        }
        fn take_while<P: FnMut(&Self::Item) -> bool>(self, p: P) -> TakeWhile<Self, P>
        where
            Self: Sized,
        {
            With { s: self, p, x: ATakeWhile(false) }
        }
        fn skip_while<P: FnMut(&Self::Item) -> bool>(self, p: P) -> SkipWhile<Self, P>
        where
            Self: Sized,
        {
            With { s: self, p, x: ASkipWhile(false) }
        }
        fn map_while<T, P: FnMut(Self::Item) -> Option<T>>(self, p: P) -> MapWhile<Self, P>
        where
            Self: Sized,
        {
            With { s: self, p, x: AMapWhile(false) }
        }
        fn step_by(self, n: usize) -> StepBy<Self>
        where
            Self: Sized,
        {
            assert!(n > 0);
            With { s: self, p: (), x: AStepBy(n, 0) }
        }
        fn scan<St, B, F: FnMut(&mut St, Self::Item) -> Option<B>>(self, st: St, f: F) -> Scan<Self, St, F>
        where
            Self: Sized,
        {
            With { s: self, p: f, x: AScan(st, false) }
        }
        fn fold<T, F: FnMut(T, Self::Item) -> T>(self, init: T, f: F) -> FoldFuture<Self, F, T>
        where
            Self: Sized,
        {
            With { s: self, p: f, x: FFold(Some(init)) }
        }
        fn for_each<F: FnMut(Self::Item)>(self, f: F) -> ForEachFuture<Self, F>
        where
            Self: Sized,
        {
            With { s: self, p: f, x: FForEach }
        }
        fn last(self) -> LastFuture<Self, Self::Item>
        where
            Self: Sized,
        {
            With { s: self, p: (), x: FLast(None) }
        }
        fn flat_map<U: Stream, F: FnMut(Self::Item) -> U>(self, f: F) -> fs::FlatMap<Self, U, F>
        where
            Self: Sized,
        {
            FS::flat_map(self, f)
        }
        fn flatten(self) -> fs::Flatten<Self>
        where
            Self: Sized,
            Self::Item: Stream,
        {
            FS::flatten(self)
        }
        fn cycle(self) -> fs::Cycle<Self>
        where
            Self: Sized + Clone,
        {
            FS::cycle(self)
        }
        fn cloned<'a, T: Clone + 'a>(self) -> fs::Map<Self, fn(&'a T) -> T>
        where
            Self: Sized + Stream<Item = &'a T>,
        {
            FS::map(self, T::clone)
        }
        fn copied<'a, T: Copy + 'a>(self) -> fs::Map<Self, fn(&'a T) -> T>
        where
            Self: Sized + Stream<Item = &'a T>,
        {
            FS::map(self, T::clone)
        }
        fn try_collect<T, E, C: Default + Extend<T>>(self) -> fs::TryCollect<Self, C>
        where
            Self: Sized + Stream<Item = Result<T, E>>,
        {
            futures_util::TryStreamExt::try_collect(self)
        }
        fn nth(&mut self, n: usize) -> Until<'_, Self, BoxFn<'static, Self::Item, Option<Self::Item>>, Option<Self::Item>>
        where
            Self: Unpin,
        {
            let mut left = n;
            Until {
                s: self,
                p: Box::new(move |x| {
                    if left == 0 {
                        return Some(Some(x));
                    }
                    left -= 1;
                    None
                }),
                end: Some(None),
            }
        }
        fn all<'a, P: FnMut(Self::Item) -> bool + Send + 'a>(&'a mut self, mut p: P) -> Until<'a, Self, BoxFn<'a, Self::Item, bool>, bool>
        where
            Self: Unpin,
        {
            Until { s: self, p: Box::new(move |x| if p(x) { None } else { Some(false) }), end: Some(true) }
        }
        fn any<'a, P: FnMut(Self::Item) -> bool + Send + 'a>(&'a mut self, mut p: P) -> Until<'a, Self, BoxFn<'a, Self::Item, bool>, bool>
        where
            Self: Unpin,
        {
            Until { s: self, p: Box::new(move |x| if p(x) { Some(true) } else { None }), end: Some(false) }
        }
        fn find<'a, P: FnMut(&Self::Item) -> bool + Send + 'a>(&'a mut self, mut p: P) -> Until<'a, Self, BoxFn<'a, Self::Item, Option<Self::Item>>, Option<Self::Item>>
        where
            Self: Unpin,
        {
            Until { s: self, p: Box::new(move |x| if p(&x) { Some(Some(x)) } else { None }), end: Some(None) }
        }
        fn find_map<'a, T, P: FnMut(Self::Item) -> Option<T> + Send + 'a>(&'a mut self, mut p: P) -> Until<'a, Self, BoxFn<'a, Self::Item, Option<T>>, Option<T>>
        where
            Self: Unpin,
        {
            Until { s: self, p: Box::new(move |x| p(x).map(Some)), end: Some(None) }
        }
        fn position<'a, P: FnMut(Self::Item) -> bool + Send + 'a>(&'a mut self, mut p: P) -> Until<'a, Self, BoxFn<'a, Self::Item, Option<usize>>, Option<usize>>
        where
            Self: Unpin,
        {
            let mut at = 0;
            Until {
                s: self,
                p: Box::new(move |x| {
                    if p(x) {
                        return Some(Some(at));
                    }
                    at += 1;
                    None
                }),
                end: Some(None),
            }
        }
        fn try_for_each<'a, E, F: FnMut(Self::Item) -> Result<(), E> + Send + 'a>(&'a mut self, mut f: F) -> Until<'a, Self, BoxFn<'a, Self::Item, Result<(), E>>, Result<(), E>>
        where
            Self: Unpin,
        {
            Until { s: self, p: Box::new(move |x| f(x).err().map(Err)), end: Some(Ok(())) }
        }
        fn take(self, n: usize) -> fs::Take<Self>
        where
            Self: Sized,
        {
            FS::take(self, n)
        }
        fn skip(self, n: usize) -> fs::Skip<Self>
        where
            Self: Sized,
        {
            FS::skip(self, n)
        }
        fn chain<U: Stream<Item = Self::Item>>(self, o: U) -> fs::Chain<Self, U>
        where
            Self: Sized,
        {
            FS::chain(self, o)
        }
        fn enumerate(self) -> fs::Enumerate<Self>
        where
            Self: Sized,
        {
            FS::enumerate(self)
        }
        fn inspect<F: FnMut(&Self::Item)>(self, f: F) -> fs::Inspect<Self, F>
        where
            Self: Sized,
        {
            FS::inspect(self, f)
        }
        fn fuse(self) -> fs::Fuse<Self>
        where
            Self: Sized,
        {
            FS::fuse(self)
        }
        fn zip<U: Stream>(self, o: U) -> fs::Zip<Self, U>
        where
            Self: Sized,
        {
            FS::zip(self, o)
        }
        fn collect<C: Default + Extend<Self::Item>>(self) -> fs::Collect<Self, C>
        where
            Self: Sized,
        {
            FS::collect(self)
        }
        fn boxed<'a>(self) -> Pin<Box<dyn Stream<Item = Self::Item> + Send + 'a>>
        where
            Self: Sized + Send + 'a,
        {
            Box::pin(self)
        }
        fn boxed_local<'a>(self) -> Pin<Box<dyn Stream<Item = Self::Item> + 'a>>
        where
            Self: Sized + 'a,
        {
            Box::pin(self)
        }
    }
    impl<S: Stream + ?Sized> StreamExt for S {}
}

pub mod prelude {
    pub use crate::future::{Future, FutureExt as _};
    pub use crate::stream::{Stream, StreamExt as _};
    pub use crate::{AsyncBufRead, AsyncRead, AsyncSeek, AsyncWrite};
}
