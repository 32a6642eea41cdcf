//! Stand-in for futures: streams whose items are ready at once (the harness's accounts are in memory).
use std::future::{ready, Future, Ready};

pub mod executor {
    pub use super::block_on;
}
pub fn block_on<F: Future>(f: F) -> F::Output {
    use std::sync::Arc;
    use std::task::{Context, Poll, Wake, Waker};
    struct Noop;
    impl Wake for Noop {
        fn wake(self: Arc<Self>) {}
    }
    let waker = Waker::from(Arc::new(Noop));
    let mut cx = Context::from_waker(&waker);
    let mut f = Box::pin(f);
    loop {
        if let Poll::Ready(v) = f.as_mut().poll(&mut cx) {
            return v;
        }
    }
}
pub mod future {
    use super::block_on;
    pub use std::future::{ready, Future, Ready};
    pub fn join_all<I: IntoIterator>(i: I) -> Ready<Vec<<I::Item as Future>::Output>>
    where
        I::Item: Future,
    {
        ready(i.into_iter().map(block_on).collect())
    }
    pub fn try_join_all<I: IntoIterator, T, E>(i: I) -> Ready<Result<Vec<T>, E>>
    where
        I::Item: Future<Output = Result<T, E>>,
    {
        ready(i.into_iter().map(block_on).collect())
    }
}
pub trait StreamExt {}
pub trait TryStreamExt {}
pub trait FutureExt {}
pub trait TryFutureExt {}
pub struct Stream<'a, T>(Box<dyn Iterator<Item = T> + 'a>);
impl<'a, T> StreamExt for Stream<'a, T> {}
impl<'a, T> TryStreamExt for Stream<'a, T> {}
pub mod stream {
    pub use super::{Stream, StreamExt, TryStreamExt};
    pub fn iter<'a, I: IntoIterator>(i: I) -> Stream<'a, I::Item>
    where
        I::IntoIter: 'a,
    {
        Stream(Box::new(i.into_iter()))
    }
}
fn boxed<'a, T>(i: impl Iterator<Item = T> + 'a) -> Stream<'a, T> {
    Stream(Box::new(i))
}
impl<'a, T: 'a> Stream<'a, T> {
    pub fn then<F: Future + 'a>(self, mut g: impl FnMut(T) -> F + 'a) -> Stream<'a, F::Output> {
        boxed(self.0.map(move |x| block_on(g(x))))
    }
    pub fn map<U: 'a>(self, g: impl FnMut(T) -> U + 'a) -> Stream<'a, U> {
        boxed(self.0.map(g))
    }
    pub fn filter_map<U: 'a, F: Future<Output = Option<U>> + 'a>(self, mut g: impl FnMut(T) -> F + 'a) -> Stream<'a, U> {
        boxed(self.0.filter_map(move |x| block_on(g(x))))
    }
    pub fn enumerate(self) -> Stream<'a, (usize, T)> {
        boxed(self.0.enumerate())
    }
    pub fn zip<U: 'a>(self, o: Stream<'a, U>) -> Stream<'a, (T, U)> {
        boxed(self.0.zip(o.0))
    }
    pub fn take(self, n: usize) -> Stream<'a, T> {
        boxed(self.0.take(n))
    }
    pub fn chunks(mut self, n: usize) -> Stream<'a, Vec<T>> {
        boxed(std::iter::from_fn(move || {
            let v: Vec<T> = self.0.by_ref().take(n).collect();
            (!v.is_empty()).then_some(v)
        }))
    }
    pub fn next(&mut self) -> Ready<Option<T>> {
        ready(self.0.next())
    }
    pub fn collect<C: Default + Extend<T>>(self) -> Ready<C> {
        let mut c = C::default();
        c.extend(self.0);
        ready(c)
    }
    pub fn for_each<F: Future<Output = ()>>(self, mut g: impl FnMut(T) -> F) -> Ready<()> {
        self.0.for_each(|x| block_on(g(x)));
        ready(())
    }
    pub fn fold<A, F: Future<Output = A>>(self, a: A, mut g: impl FnMut(A, T) -> F) -> Ready<A> {
        ready(self.0.fold(a, |a, x| block_on(g(a, x))))
    }
}
impl<'a, F: Future + 'a> Stream<'a, F> {
    pub fn buffer_unordered(self, _n: usize) -> Stream<'a, F::Output> {
        boxed(self.0.map(block_on))
    }
    pub fn buffered(self, _n: usize) -> Stream<'a, F::Output> {
        boxed(self.0.map(block_on))
    }
}
impl<'a, T: 'a, E: 'a> Stream<'a, Result<T, E>> {
    pub fn try_collect<C: Default + Extend<T>>(self) -> Ready<Result<C, E>> {
        let mut c = C::default();
        for x in self.0 {
            match x {
                Ok(x) => c.extend(std::iter::once(x)),
                Err(e) => return ready(Err(e)),
            }
        }
        ready(Ok(c))
    }
    pub fn map_ok<U: 'a>(self, mut g: impl FnMut(T) -> U + 'a) -> Stream<'a, Result<U, E>> {
        boxed(self.0.map(move |x| x.map(&mut g)))
    }
    pub fn map_err<U: 'a>(self, mut g: impl FnMut(E) -> U + 'a) -> Stream<'a, Result<T, U>> {
        boxed(self.0.map(move |x| x.map_err(&mut g)))
    }
    pub fn try_next(&mut self) -> Ready<Result<Option<T>, E>> {
        ready(self.0.next().transpose())
    }
}
