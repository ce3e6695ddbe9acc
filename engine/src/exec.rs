//! A deterministic single-threaded executor: polls woken tasks in an order
//! chosen by the caller and reports deadlock instead of blocking.
use std::{
    future::Future,
    pin::Pin,
    sync::{atomic::{AtomicBool, Ordering}, Arc},
    task::{Context, Poll, Wake, Waker},
};

pub struct Flag(AtomicBool);
impl Wake for Flag {
    fn wake(self: Arc<Self>) { self.0.store(true, Ordering::SeqCst) }
    fn wake_by_ref(self: &Arc<Self>) { self.0.store(true, Ordering::SeqCst) }
}

/// A future with its own waker, polled by hand
pub struct Task<'a, T> {
    fut: Option<Pin<Box<dyn Future<Output = T> + 'a>>>,
    flag: Arc<Flag>,
    waker: Waker,
    pub out: Option<T>,
}
impl<'a, T> Task<'a, T> {
    pub fn new(f: impl Future<Output = T> + 'a) -> Self {
        let flag = Arc::new(Flag(AtomicBool::new(true)));
        Task { fut: Some(Box::pin(f)), waker: flag.clone().into(), flag, out: None }
    }
    pub fn woken(&self) -> bool { self.fut.is_some() && self.flag.0.load(Ordering::SeqCst) }
    pub fn done(&self) -> bool { self.fut.is_none() }
    /// Poll it.  Returns true if it finished now.
    pub fn poll(&mut self) -> bool {
        self.flag.0.store(false, Ordering::SeqCst);
        let Some(f) = &mut self.fut else { return false };
        let mut cx = Context::from_waker(&self.waker);
        match f.as_mut().poll(&mut cx) {
            Poll::Ready(v) => { self.out = Some(v); self.fut = None; true }
            Poll::Pending => false,
        }
    }
    pub fn cancel(&mut self) { self.fut = None }
}

/// Run a future; None if it stalls without having been woken
pub fn block_on<T>(f: impl Future<Output = T>) -> Option<T> {
    let mut t = Task::new(f);
    while t.woken() {
        if t.poll() { return t.out.take(); }
    }
    None
}
