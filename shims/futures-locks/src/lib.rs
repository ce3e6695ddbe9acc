//! Offline stand-in for the `futures-locks` crate: an RwLock whose handles are
//! reference counted, whose guards are owned, and whose futures take their
//! place in the queue when they are created (as in the original).
use futures_channel::oneshot;
use std::{
    cell::UnsafeCell,
    collections::VecDeque,
    fmt,
    future::Future,
    ops::{Deref, DerefMut},
    pin::Pin,
    sync::{Arc, Mutex},
    task::{Context, Poll},
};

#[derive(Debug)]
pub struct TryLockError;

#[derive(Default)]
struct State {
    exclusive: bool,
    readers: usize,
    rq: VecDeque<oneshot::Sender<()>>,
    wq: VecDeque<oneshot::Sender<()>>,
}
struct Inner<T: ?Sized> { state: Mutex<State>, data: UnsafeCell<T> }
unsafe impl<T: ?Sized + Send> Send for Inner<T> {}
unsafe impl<T: ?Sized + Send + Sync> Sync for Inner<T> {}

impl<T: ?Sized> Inner<T> {
    fn wake(g: &mut State) {
        while let Some(tx) = g.wq.pop_front() {
            if g.readers > 0 { g.wq.push_front(tx); return; }
            if tx.send(()).is_ok() { g.exclusive = true; return; }
        }
        for tx in std::mem::take(&mut g.rq) {
            if tx.send(()).is_ok() { g.readers += 1; }
        }
    }
    fn unlock_read(&self) {
        let mut g = self.state.lock().unwrap();
        g.readers -= 1;
        if g.readers == 0 { Self::wake(&mut g); }
    }
    fn unlock_write(&self) {
        let mut g = self.state.lock().unwrap();
        g.exclusive = false;
        Self::wake(&mut g);
    }
}

pub struct RwLock<T: ?Sized> { inner: Arc<Inner<T>> }
impl<T: ?Sized> Clone for RwLock<T> { fn clone(&self) -> Self { Self{inner: self.inner.clone()} } }
impl<T: fmt::Debug> fmt::Debug for RwLock<T> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        match self.try_read() {
            Ok(g) => f.debug_struct("RwLock").field("data", &*g).finish(),
            Err(_) => f.write_str("RwLock { <locked> }"),
        }
    }
}
impl<T: Default> Default for RwLock<T> { fn default() -> Self { Self::new(T::default()) } }

pub struct RwLockReadGuard<T: ?Sized> { inner: Arc<Inner<T>> }
pub struct RwLockWriteGuard<T: ?Sized> { inner: Arc<Inner<T>> }
unsafe impl<T: ?Sized + Send + Sync> Sync for RwLockReadGuard<T> {}
unsafe impl<T: ?Sized + Send + Sync> Sync for RwLockWriteGuard<T> {}
impl<T: ?Sized> Drop for RwLockReadGuard<T> { fn drop(&mut self) { self.inner.unlock_read() } }
impl<T: ?Sized> Drop for RwLockWriteGuard<T> { fn drop(&mut self) { self.inner.unlock_write() } }
impl<T: ?Sized> Deref for RwLockReadGuard<T> { type Target = T; fn deref(&self) -> &T { unsafe { &*self.inner.data.get() } } }
impl<T: ?Sized> Deref for RwLockWriteGuard<T> { type Target = T; fn deref(&self) -> &T { unsafe { &*self.inner.data.get() } } }
impl<T: ?Sized> DerefMut for RwLockWriteGuard<T> { fn deref_mut(&mut self) -> &mut T { unsafe { &mut *self.inner.data.get() } } }
impl<T: fmt::Debug + ?Sized> fmt::Debug for RwLockReadGuard<T> { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { (**self).fmt(f) } }
impl<T: fmt::Debug + ?Sized> fmt::Debug for RwLockWriteGuard<T> { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { (**self).fmt(f) } }

enum Fs { Acquired, Pending(oneshot::Receiver<()>), Done }

pub struct RwLockReadFut<T: ?Sized> { st: Fs, inner: Arc<Inner<T>> }
pub struct RwLockWriteFut<T: ?Sized> { st: Fs, inner: Arc<Inner<T>> }

impl<T: ?Sized> Future for RwLockReadFut<T> {
    type Output = RwLockReadGuard<T>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<Self::Output> {
        match &mut self.st {
            Fs::Acquired => {}
            Fs::Pending(rx) => match Pin::new(rx).poll(cx) { Poll::Pending => return Poll::Pending, Poll::Ready(_) => {} },
            Fs::Done => panic!("future polled after completion"),
        }
        self.st = Fs::Done;
        Poll::Ready(RwLockReadGuard{inner: self.inner.clone()})
    }
}
impl<T: ?Sized> Future for RwLockWriteFut<T> {
    type Output = RwLockWriteGuard<T>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<Self::Output> {
        match &mut self.st {
            Fs::Acquired => {}
            Fs::Pending(rx) => match Pin::new(rx).poll(cx) { Poll::Pending => return Poll::Pending, Poll::Ready(_) => {} },
            Fs::Done => panic!("future polled after completion"),
        }
        self.st = Fs::Done;
        Poll::Ready(RwLockWriteGuard{inner: self.inner.clone()})
    }
}
impl<T: ?Sized> Drop for RwLockReadFut<T> {
    fn drop(&mut self) {
        match &mut self.st {
            Fs::Done => {}
            Fs::Acquired => self.inner.unlock_read(),
            Fs::Pending(rx) => { rx.close(); if let Ok(Some(())) = rx.try_recv() { self.inner.unlock_read() } }
        }
    }
}
impl<T: ?Sized> Drop for RwLockWriteFut<T> {
    fn drop(&mut self) {
        match &mut self.st {
            Fs::Done => {}
            Fs::Acquired => self.inner.unlock_write(),
            Fs::Pending(rx) => { rx.close(); if let Ok(Some(())) = rx.try_recv() { self.inner.unlock_write() } }
        }
    }
}

impl<T> RwLock<T> {
    pub fn new(t: T) -> Self { Self { inner: Arc::new(Inner { state: Mutex::new(State::default()), data: UnsafeCell::new(t) }) } }
    pub fn try_unwrap(self) -> Result<T, Self> {
        Arc::try_unwrap(self.inner).map(|i| i.data.into_inner()).map_err(|inner| Self{inner})
    }
}
impl<T: ?Sized> RwLock<T> {
    pub fn get_mut(&mut self) -> Option<&mut T> {
        Arc::get_mut(&mut self.inner).map(|i| unsafe { &mut *i.data.get() })
    }
    pub fn read(&self) -> RwLockReadFut<T> {
        let mut g = self.inner.state.lock().unwrap();
        let st = if g.exclusive {
            let (tx, rx) = oneshot::channel();
            g.rq.push_back(tx);
            Fs::Pending(rx)
        } else { g.readers += 1; Fs::Acquired };
        RwLockReadFut { st, inner: self.inner.clone() }
    }
    pub fn write(&self) -> RwLockWriteFut<T> {
        let mut g = self.inner.state.lock().unwrap();
        let st = if g.exclusive || g.readers > 0 {
            let (tx, rx) = oneshot::channel();
            g.wq.push_back(tx);
            Fs::Pending(rx)
        } else { g.exclusive = true; Fs::Acquired };
        RwLockWriteFut { st, inner: self.inner.clone() }
    }
    pub fn try_read(&self) -> Result<RwLockReadGuard<T>, TryLockError> {
        let mut g = self.inner.state.lock().unwrap();
        if g.exclusive { Err(TryLockError) } else { g.readers += 1; Ok(RwLockReadGuard{inner: self.inner.clone()}) }
    }
    pub fn try_write(&self) -> Result<RwLockWriteGuard<T>, TryLockError> {
        let mut g = self.inner.state.lock().unwrap();
        if g.exclusive || g.readers > 0 { Err(TryLockError) } else { g.exclusive = true; Ok(RwLockWriteGuard{inner: self.inner.clone()}) }
    }
}

impl<T: 'static + Send> RwLock<T> {
    pub fn with_write<B, F, R>(&self, f: F) -> impl Future<Output = R> + use<T, B, F, R>
        where F: FnOnce(RwLockWriteGuard<T>) -> B, B: Future<Output = R>
    {
        let fut = self.write();
        async move { f(fut.await).await }
    }
    pub fn with_read<B, F, R>(&self, f: F) -> impl Future<Output = R> + use<T, B, F, R>
        where F: FnOnce(RwLockReadGuard<T>) -> B, B: Future<Output = R>
    {
        let fut = self.read();
        async move { f(fut.await).await }
    }
}
