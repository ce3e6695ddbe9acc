//! Offline stand-in for the `tokio-file` crate (POSIX AIO bindings for tokio,
//! FreeBSD only).
//!
//! Every operation is a plain pread/pwrite, executed when its future is polled.
//! A file that has been attached to a [`sim::World`] additionally gets its
//! operations delayed (by a seeded number of polls), failed, or recorded for
//! crash simulation.
use std::{
    future::Future,
    io::{self, IoSlice, IoSliceMut},
    marker::PhantomData,
    os::fd::{AsFd, AsRawFd, RawFd},
    pin::Pin,
    task::{Context, Poll},
};

pub mod sim;
use sim::{Kind, World};

#[derive(Clone, Copy)]
struct Seg(*mut u8, usize);

struct Core {
    fd: RawFd,
    off: u64,
    kind: Kind,
    segs: Vec<Seg>,
    st: Option<(Option<(World, usize)>, u64, u32, Option<i32>)>,
    done: bool,
}

impl Drop for Core {
    fn drop(&mut self) {
        // Cancelled in flight
        if let (Some((Some((w, _)), ..)), false) = (&self.st, self.done) { w.cancel() }
    }
}
// The buffers are borrowed for the future's lifetime.
unsafe impl Send for Core {}
unsafe impl Sync for Core {}

impl Core {
    fn new(fd: RawFd, off: u64, kind: Kind, segs: Vec<Seg>) -> Self {
        Core { fd, off, kind, segs, st: None, done: false }
    }
    fn len(&self) -> usize { self.segs.iter().map(|s| s.1).sum() }

    fn gather(&self) -> Vec<u8> {
        let mut v = Vec::with_capacity(self.len());
        for s in &self.segs {
            v.extend_from_slice(unsafe { std::slice::from_raw_parts(s.0, s.1) });
        }
        v
    }

    fn poll(&mut self, cx: &mut Context) -> Poll<io::Result<usize>> {
        if self.st.is_none() {
            let disk = sim::lookup(self.fd);
            let st = match &disk {
                None => (None, 0, 0, None),
                Some((w, d)) => {
                    if !w.admit(*d) {
                        // Like the real thing's, this future may be polled again
                        return Poll::Ready(Err(io::Error::from_raw_os_error(libc::EAGAIN)));
                    }
                    let data = (self.kind == Kind::Write && w.recording()).then(|| self.gather());
                    let (id, delay, fault) = w.submit(*d, self.kind, self.off, self.len(), data);
                    (disk, id, delay, fault)
                }
            };
            self.st = Some(st);
        }
        let st = self.st.as_mut().unwrap();
        if st.2 > 0 {
            st.2 -= 1;
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        let (disk, id, fault) = (st.0.clone(), st.1, st.3);
        let r = match fault {
            Some(e) => Err(io::Error::from_raw_os_error(e)),
            None => self.execute(),
        };
        self.done = true;
        if let Some((w, d)) = disk {
            w.complete(d, id, self.kind, r.is_ok());
        }
        Poll::Ready(r)
    }

    fn execute(&self) -> io::Result<usize> {
        let mut off = self.off;
        let mut total = 0;
        if self.kind == Kind::Sync {
            return Ok(0);
        }
        for s in &self.segs {
            let mut done = 0;
            while done < s.1 {
                let r = unsafe {
                    match self.kind {
                        Kind::Read => libc::pread(self.fd, s.0.add(done).cast(), s.1 - done, off as i64),
                        _ => libc::pwrite(self.fd, s.0.add(done).cast(), s.1 - done, off as i64),
                    }
                };
                if r < 0 { return Err(io::Error::last_os_error()); }
                if r == 0 { return Ok(total); }
                done += r as usize;
                total += r as usize;
                off += r as u64;
            }
        }
        Ok(total)
    }
}

macro_rules! fut {
    ($n:ident) => {
        pub struct $n<'a>(Core, PhantomData<&'a ()>);
        impl Future for $n<'_> {
            type Output = io::Result<usize>;
            fn poll(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<Self::Output> {
                self.0.poll(cx)
            }
        }
    };
}
fut!(ReadAt);
fut!(WriteAt);
fut!(ReadvAt);
fut!(WritevAt);
fut!(SyncAll);

pub trait AioFileExt: AsFd {
    fn read_at<'a>(&self, buf: &'a mut [u8], off: u64) -> io::Result<ReadAt<'a>> {
        let segs = vec![Seg(buf.as_mut_ptr(), buf.len())];
        Ok(ReadAt(Core::new(self.as_fd().as_raw_fd(), off, Kind::Read, segs), PhantomData))
    }
    fn write_at<'a>(&self, buf: &'a [u8], off: u64) -> io::Result<WriteAt<'a>> {
        let segs = vec![Seg(buf.as_ptr() as *mut u8, buf.len())];
        Ok(WriteAt(Core::new(self.as_fd().as_raw_fd(), off, Kind::Write, segs), PhantomData))
    }
    fn readv_at<'a>(&self, bufs: &mut [IoSliceMut<'a>], off: u64) -> io::Result<ReadvAt<'a>> {
        let segs = bufs.iter_mut().map(|b| Seg(b.as_mut_ptr(), b.len())).collect();
        Ok(ReadvAt(Core::new(self.as_fd().as_raw_fd(), off, Kind::Read, segs), PhantomData))
    }
    fn writev_at<'a>(&self, bufs: &[IoSlice<'a>], off: u64) -> io::Result<WritevAt<'a>> {
        let segs = bufs.iter().map(|b| Seg(b.as_ptr() as *mut u8, b.len())).collect();
        Ok(WritevAt(Core::new(self.as_fd().as_raw_fd(), off, Kind::Write, segs), PhantomData))
    }
    fn sync_all(&self) -> io::Result<SyncAll<'static>> {
        Ok(SyncAll(Core::new(self.as_fd().as_raw_fd(), 0, Kind::Sync, vec![]), PhantomData))
    }
}
impl<T: AsFd> AioFileExt for T {}
