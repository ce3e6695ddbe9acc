//! Running asynchronous cases: one thread, paused time, deadlock detection.
use engine::{Bad, R};
use std::{
    future::Future,
    pin::Pin,
    sync::{Arc, Mutex},
    task::{Context, Poll},
    time::Duration,
};

/// Run `f` to completion on one thread with virtual time.  As time advances
/// only when nothing else can run, a timeout is a deadlock.
pub fn run<F>(f: F) -> R
    where F: Future<Output = R>
{
    let rt = tokio::runtime::Builder::new_current_thread().enable_time().start_paused(true).build().unwrap();
    let r = rt.block_on(async move {
        match tokio::time::timeout(Duration::from_secs(3600), f).await {
            Ok(r) => r,
            Err(_) => Err(Bad::Fail("deadlock: nothing can make progress".into())),
        }
    });
    drop(rt);
    if let Some(m) = engine::stray_panic() {
        // the cause, rather than the symptom
        return Err(Bad::Fail(format!("in a background task: {m}")));
    }
    r
}

pub struct Yield(pub u32);
impl Future for Yield {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<()> {
        if self.0 == 0 { return Poll::Ready(()); }
        self.0 -= 1;
        cx.waker().wake_by_ref();
        Poll::Pending
    }
}

/// A seeded source of delays
#[derive(Clone)]
pub struct Delays(Arc<Mutex<(u64, u32)>>);
impl Delays {
    pub fn new(seed: u64, max: u32) -> Self { Delays(Arc::new(Mutex::new((seed | 1, max)))) }
    pub fn next(&self) -> Yield {
        let mut g = self.0.lock().unwrap();
        if g.1 == 0 { return Yield(0); }
        let mut s = g.0;
        s ^= s << 13; s ^= s >> 7; s ^= s << 17;
        g.0 = s;
        Yield((s >> 20) as u32 % (g.1 + 1))
    }
}
