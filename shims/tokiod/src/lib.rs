//! tokio, and tokio::main
pub use daemon_macros::main;
pub use tokio::*;
