//! Stand-in for `futures`: the two functions the host uses. Nothing in the stand-in node ever waits.
pub mod executor {
    use std::{future::Future, pin::pin, task::{Context, Poll, Waker}};
    pub fn block_on<F: Future>(f: F) -> F::Output {
        let mut f = pin!(f);
        let mut cx = Context::from_waker(Waker::noop());
        loop { if let Poll::Ready(r) = f.as_mut().poll(&mut cx) { return r; } }
    }
}
pub mod future {
    use std::future::Future;
    pub async fn try_join_all<I, F, T, E>(i: I) -> Result<Vec<T>, E> where I: IntoIterator<Item = F>, F: Future<Output = Result<T, E>> {
        let mut out = vec![];
        for f in i { out.push(f.await?); }
        Ok(out)
    }
    pub async fn join_all<I, F, T>(i: I) -> Vec<T> where I: IntoIterator<Item = F>, F: Future<Output = T> {
        let mut out = vec![];
        for f in i { out.push(f.await); }
        out
    }
}
