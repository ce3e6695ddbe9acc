//! futures, but with a oneshot channel whose sender is scheduled by shuttle
pub use real::*;
pub mod channel {
    pub use real::channel::*;
    pub mod oneshot {
        pub use real::channel::oneshot::{Canceled, Receiver};
        use real::channel::oneshot as o;
        use std::task::{Context, Poll};

        /// Another thread may run now
        fn point() {
            if !std::thread::panicking() {
                shuttle::sync::atomic::AtomicBool::new(false).load(std::sync::atomic::Ordering::SeqCst);
            }
        }
        pub struct Sender<T>(o::Sender<T>);
        impl<T> std::fmt::Debug for Sender<T> {
            fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { self.0.fmt(f) }
        }
        impl<T> Sender<T> {
            pub fn send(self, t: T) -> Result<(), T> { point(); self.0.send(t) }
            pub fn is_canceled(&self) -> bool { point(); self.0.is_canceled() }
            pub fn poll_canceled(&mut self, cx: &mut Context<'_>) -> Poll<()> { self.0.poll_canceled(cx) }
            pub fn cancellation(&mut self) -> o::Cancellation<'_, T> { self.0.cancellation() }
            pub fn is_connected_to(&self, r: &Receiver<T>) -> bool { self.0.is_connected_to(r) }
        }
        pub fn channel<T>() -> (Sender<T>, Receiver<T>) {
            let (tx, rx) = o::channel();
            (Sender(tx), rx)
        }
    }
}
