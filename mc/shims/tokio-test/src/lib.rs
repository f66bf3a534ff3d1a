pub fn block_on<F: std::future::Future>(f: F) -> F::Output {
    tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap().block_on(f)
}
pub mod task {
    use futures::Stream;
    use std::{future::Future, ops::{Deref, DerefMut}, pin::Pin, task::{Context, Poll}};
    pub struct Spawn<T> { t: Pin<Box<T>> }
    pub fn spawn<T>(t: T) -> Spawn<T> { Spawn { t: Box::pin(t) } }
    fn cx<R>(f: impl FnOnce(&mut Context<'_>) -> R) -> R {
        let w = futures::task::noop_waker();
        f(&mut Context::from_waker(&w))
    }
    impl<T> Spawn<T> {
        pub fn enter<F, R>(&mut self, f: F) -> R where F: FnOnce(&mut Context<'_>, Pin<&mut T>) -> R { cx(|c| f(c, self.t.as_mut())) }
        pub fn is_woken(&self) -> bool { true }
    }
    impl<T: Future> Spawn<T> { pub fn poll(&mut self) -> Poll<T::Output> { cx(|c| self.t.as_mut().poll(c)) } }
    impl<T: Stream> Spawn<T> { pub fn poll_next(&mut self) -> Poll<Option<T::Item>> { cx(|c| self.t.as_mut().poll_next(c)) } }
    impl<T: Unpin> Deref for Spawn<T> { type Target = T; fn deref(&self) -> &T { &self.t } }
    impl<T: Unpin> DerefMut for Spawn<T> { fn deref_mut(&mut self) -> &mut T { &mut self.t } }
}
#[macro_export]
macro_rules! assert_ready { ($e:expr) => { match $e { ::core::task::Poll::Ready(v) => v, ::core::task::Poll::Pending => panic!("pending") } }; ($e:expr, $($m:tt)+) => { $crate::assert_ready!($e) } }
#[macro_export]
macro_rules! assert_pending { ($e:expr) => { match $e { ::core::task::Poll::Pending => {}, ::core::task::Poll::Ready(_) => panic!("ready") } }; ($e:expr, $($m:tt)+) => { $crate::assert_pending!($e) } }
