//! Minimal stand-in for the `asupersync` crate, written for this harness only.
//!
//! toon_rust uses three items of that crate (a poll-based `Stream` trait, its `next`
//! combinator and `iter`).  Building the real crate takes several minutes, which no
//! per-change check can afford, so the harness patches in this interface-compatible one.
pub mod stream {
    use std::future::Future;
    use std::ops::DerefMut;
    use std::pin::Pin;
    use std::task::{Context, Poll, ready};

    pub trait Stream {
        type Item;
        fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>>;
        fn size_hint(&self) -> (usize, Option<usize>) {
            (0, None)
        }
    }
    impl<S: Stream + Unpin + ?Sized> Stream for Box<S> {
        type Item = S::Item;
        fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<S::Item>> {
            Pin::new(&mut **self).poll_next(cx)
        }
        fn size_hint(&self) -> (usize, Option<usize>) {
            (**self).size_hint()
        }
    }
    impl<S: Stream + Unpin + ?Sized> Stream for &mut S {
        type Item = S::Item;
        fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<S::Item>> {
            Pin::new(&mut **self).poll_next(cx)
        }
        fn size_hint(&self) -> (usize, Option<usize>) {
            (**self).size_hint()
        }
    }
    impl<P> Stream for Pin<P>
    where
        P: DerefMut + Unpin,
        P::Target: Stream,
    {
        type Item = <P::Target as Stream>::Item;
        fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
            self.get_mut().as_mut().poll_next(cx)
        }
        fn size_hint(&self) -> (usize, Option<usize>) {
            (**self).size_hint()
        }
    }

    pub struct Iter<I>(I);
    impl<I> Unpin for Iter<I> {}
    impl<I: Iterator> Stream for Iter<I> {
        type Item = I::Item;
        fn poll_next(mut self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Option<I::Item>> {
            Poll::Ready(self.0.next())
        }
        fn size_hint(&self) -> (usize, Option<usize>) {
            self.0.size_hint()
        }
    }
    pub fn iter<I: IntoIterator>(i: I) -> Iter<I::IntoIter> {
        Iter(i.into_iter())
    }

    pub struct Next<'a, S: ?Sized> {
        s: &'a mut S,
        done: bool,
    }
    impl<S: ?Sized + Unpin> Unpin for Next<'_, S> {}
    impl<S: Stream + Unpin + ?Sized> Future for Next<'_, S> {
        type Output = Option<S::Item>;
        fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
            if self.done {
                return Poll::Ready(None);
            }
            let r = ready!(Pin::new(&mut *self.s).poll_next(cx));
            self.done = true;
            Poll::Ready(r)
        }
    }

    /// Drives a closure per item until it says stop; backs the terminal combinators.
    pub struct Drive<S, St, F, O> {
        s: S,
        st: Option<St>,
        f: F,
        fin: fn(St) -> O,
    }
    impl<S, St, F, O> Unpin for Drive<S, St, F, O> {}
    impl<S, St, F, O> Future for Drive<S, St, F, O>
    where
        S: Stream + Unpin,
        F: FnMut(&mut St, S::Item) -> bool,
    {
        type Output = O;
        fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<O> {
            let this = &mut *self;
            loop {
                let item = ready!(Pin::new(&mut this.s).poll_next(cx));
                let go = match item {
                    Some(it) => (this.f)(this.st.as_mut().expect("polled after completion"), it),
                    None => false,
                };
                if !go {
                    return Poll::Ready((this.fin)(this.st.take().expect("polled after completion")));
                }
            }
        }
    }

    /// A stream adapter defined by a per-item closure.
    pub struct Adapt<S, F> {
        s: S,
        f: F,
        done: bool,
    }
    pub enum Step<T> {
        Yield(T),
        Skip,
        Stop,
    }
    impl<S, F> Unpin for Adapt<S, F> {}
    impl<S, F, T> Stream for Adapt<S, F>
    where
        S: Stream + Unpin,
        F: FnMut(S::Item) -> Step<T>,
    {
        type Item = T;
        fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<T>> {
            let this = &mut *self;
            while !this.done {
                let Some(it) = ready!(Pin::new(&mut this.s).poll_next(cx)) else {
                    this.done = true;
                    break;
                };
                match (this.f)(it) {
                    Step::Yield(t) => return Poll::Ready(Some(t)),
                    Step::Skip => {}
                    Step::Stop => this.done = true,
                }
            }
            Poll::Ready(None)
        }
    }

    pub trait StreamExt: Stream {
        fn next(&mut self) -> Next<'_, Self>
        where
            Self: Unpin,
        {
            Next { s: self, done: false }
        }
        fn map<T, F: FnMut(Self::Item) -> T>(
            self,
            mut f: F,
        ) -> Adapt<Self, impl FnMut(Self::Item) -> Step<T>>
        where
            Self: Sized + Unpin,
        {
            Adapt { s: self, f: move |i| Step::Yield(f(i)), done: false }
        }
        fn filter<F: FnMut(&Self::Item) -> bool>(
            self,
            mut f: F,
        ) -> Adapt<Self, impl FnMut(Self::Item) -> Step<Self::Item>>
        where
            Self: Sized + Unpin,
        {
            Adapt { s: self, f: move |i| if f(&i) { Step::Yield(i) } else { Step::Skip }, done: false }
        }
        fn filter_map<T, F: FnMut(Self::Item) -> Option<T>>(
            self,
            mut f: F,
        ) -> Adapt<Self, impl FnMut(Self::Item) -> Step<T>>
        where
            Self: Sized + Unpin,
        {
            Adapt { s: self, f: move |i| f(i).map_or(Step::Skip, Step::Yield), done: false }
        }
        fn take_while<F: FnMut(&Self::Item) -> bool>(
            self,
            mut f: F,
        ) -> Adapt<Self, impl FnMut(Self::Item) -> Step<Self::Item>>
        where
            Self: Sized + Unpin,
        {
            Adapt { s: self, f: move |i| if f(&i) { Step::Yield(i) } else { Step::Stop }, done: false }
        }
        fn skip(self, mut n: usize) -> Adapt<Self, impl FnMut(Self::Item) -> Step<Self::Item>>
        where
            Self: Sized + Unpin,
        {
            Adapt {
                s: self,
                f: move |i| {
                    if n > 0 {
                        n -= 1;
                        Step::Skip
                    } else {
                        Step::Yield(i)
                    }
                },
                done: false,
            }
        }
        fn enumerate(self) -> Adapt<Self, impl FnMut(Self::Item) -> Step<(usize, Self::Item)>>
        where
            Self: Sized + Unpin,
        {
            let mut k = 0;
            Adapt {
                s: self,
                f: move |i| {
                    k += 1;
                    Step::Yield((k - 1, i))
                },
                done: false,
            }
        }
        fn collect<C: Default + Extend<Self::Item>>(
            self,
        ) -> Drive<Self, C, impl FnMut(&mut C, Self::Item) -> bool, C>
        where
            Self: Sized + Unpin,
        {
            Drive {
                s: self,
                st: Some(C::default()),
                f: |c: &mut C, i| {
                    c.extend(std::iter::once(i));
                    true
                },
                fin: |c| c,
            }
        }
        fn count(self) -> Drive<Self, usize, impl FnMut(&mut usize, Self::Item) -> bool, usize>
        where
            Self: Sized + Unpin,
        {
            Drive {
                s: self,
                st: Some(0),
                f: |c: &mut usize, _| {
                    *c += 1;
                    true
                },
                fin: |c| c,
            }
        }
        fn for_each<F: FnMut(Self::Item)>(
            self,
            mut f: F,
        ) -> Drive<Self, (), impl FnMut(&mut (), Self::Item) -> bool, ()>
        where
            Self: Sized + Unpin,
        {
            Drive {
                s: self,
                st: Some(()),
                f: move |(): &mut (), i| {
                    f(i);
                    true
                },
                fin: |c| c,
            }
        }
        #[allow(clippy::type_complexity)]
        fn fold<A, F: FnMut(A, Self::Item) -> A>(
            self,
            init: A,
            mut f: F,
        ) -> Drive<Self, Option<A>, impl FnMut(&mut Option<A>, Self::Item) -> bool, A>
        where
            Self: Sized + Unpin,
        {
            Drive {
                s: self,
                st: Some(Some(init)),
                f: move |a: &mut Option<A>, i| {
                    let cur = a.take().expect("accumulator");
                    *a = Some(f(cur, i));
                    true
                },
                fin: |a| a.expect("accumulator"),
            }
        }
    }
    impl<S: Stream + ?Sized> StreamExt for S {}
}
