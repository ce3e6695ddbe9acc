//! SOCK_SEQPACKET sockets, within the process.  Whoever connects says who they are.
use std::{cell::RefCell, collections::HashMap, io, path::{Path, PathBuf}};
use tokio::sync::{mpsc, Mutex};

/// FreeBSD's default net.local.seqpacket.maxseqpacket
pub const MAX_PACKET: usize = 65536;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct UCred { uid: u32, gid: u32 }
impl UCred {
    pub fn uid(&self) -> u32 { self.uid }
    pub fn gid(&self) -> u32 { self.gid }
    pub fn pid(&self) -> Option<i32> { None }
}

thread_local! {
    static LISTENERS: RefCell<HashMap<PathBuf, mpsc::UnboundedSender<UnixSeqpacket>>> = RefCell::new(HashMap::new());
    static UID: RefCell<u32> = const { RefCell::new(0) };
}
/// Who connects from now on, in this thread
pub fn set_uid(uid: u32) { UID.with(|x| *x.borrow_mut() = uid) }

#[derive(Debug)]
pub struct UnixSeqpacket {
    tx: mpsc::Sender<Vec<u8>>,
    rx: Mutex<mpsc::Receiver<Vec<u8>>>,
    peer: UCred,
}
impl UnixSeqpacket {
    /// Two connected sockets: the first is held by the user, the second by the daemon.
    pub fn between(user: u32, daemon: u32) -> (Self, Self) {
        let (atx, arx) = mpsc::channel(4);
        let (btx, brx) = mpsc::channel(4);
        (UnixSeqpacket { tx: atx, rx: Mutex::new(brx), peer: UCred { uid: daemon, gid: daemon } },
         UnixSeqpacket { tx: btx, rx: Mutex::new(arx), peer: UCred { uid: user, gid: user } })
    }
    pub async fn connect<P: AsRef<Path>>(p: P) -> io::Result<Self> {
        let l = LISTENERS.with(|l| l.borrow().get(p.as_ref()).cloned()).ok_or(io::Error::from_raw_os_error(2))?;
        let (a, b) = Self::between(UID.with(|x| *x.borrow()), 0);
        l.send(b).map_err(|_| io::Error::from(io::ErrorKind::ConnectionRefused))?;
        Ok(a)
    }
    pub async fn send(&self, b: &[u8]) -> io::Result<usize> {
        if b.len() > MAX_PACKET { return Err(io::Error::other("EMSGSIZE")) }
        self.tx.send(b.to_vec()).await.map_err(|_| io::Error::from(io::ErrorKind::BrokenPipe))?;
        Ok(b.len())
    }
    /// What doesn't fit is lost
    pub async fn recv(&self, b: &mut [u8]) -> io::Result<usize> {
        match self.rx.lock().await.recv().await {
            None => Ok(0),
            Some(v) => {
                let n = v.len().min(b.len());
                b[..n].copy_from_slice(&v[..n]);
                Ok(n)
            }
        }
    }
    pub fn peer_cred(&self) -> io::Result<UCred> { Ok(self.peer) }
}

pub struct UnixSeqpacketListener { rx: mpsc::UnboundedReceiver<UnixSeqpacket> }
impl UnixSeqpacketListener {
    pub fn bind<P: AsRef<Path>>(p: P) -> io::Result<Self> {
        let (tx, rx) = mpsc::unbounded_channel();
        LISTENERS.with(|l| l.borrow_mut().insert(p.as_ref().to_owned(), tx));
        Ok(UnixSeqpacketListener { rx })
    }
    pub async fn accept(&mut self) -> io::Result<UnixSeqpacket> {
        match self.rx.recv().await {
            Some(p) => Ok(p),
            None => std::future::pending().await,
        }
    }
}
/// Forget every listener of this thread's
pub fn reset() { LISTENERS.with(|l| l.borrow_mut().clear()) }
