//! bfffsd, as a library: its main function isn't run, but everything else is.
#![allow(refining_impl_trait, dead_code)]
include!("/repo/bfffs/src/bin/bfffsd/main.rs");

/// A running daemon
#[derive(Clone)]
pub struct Server(Arc<Bfffsd>);
impl Server {
    pub fn new(db: database::Database) -> Self {
        Server(Arc::new(Bfffsd {
            controller: Controller::new(db),
            _manager: Default::default(),
            mount_opts: MountOptions::default(),
        }))
    }
    pub fn controller(&self) -> &Controller { &self.0.controller }
    /// Serve one connection, until it ends
    pub async fn serve(self, peer: UnixSeqpacket) { self.0.handle_client(peer).await }
}
