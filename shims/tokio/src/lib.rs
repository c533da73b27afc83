//! Stand-in for `tokio`: what the host's API-backed provider uses. Nothing in the stand-in node ever waits.
pub mod task { pub fn block_in_place<F: FnOnce() -> R, R>(f: F) -> R { f() } }
pub mod runtime {
    use std::{future::Future, pin::pin, task::{Context, Poll, Waker}};
    pub struct Handle(());
    impl Handle {
        pub fn current() -> Handle { Handle(()) }
        pub fn block_on<F: Future>(&self, f: F) -> F::Output {
            let mut f = pin!(f);
            let mut cx = Context::from_waker(Waker::noop());
            loop { if let Poll::Ready(r) = f.as_mut().poll(&mut cx) { return r; } }
        }
    }
}
