//! bfffsd's FUSE layer
#![allow(refining_impl_trait)]
#[path = "/repo/bfffs/src/bin/bfffsd/fs.rs"]
pub mod fs;
