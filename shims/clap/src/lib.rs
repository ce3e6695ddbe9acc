//! Enough of clap to compile bfffsd's command line.
pub use daemon_macros::Parser;
pub trait Parser: Sized {
    fn parse() -> Self { unimplemented!() }
}
#[macro_export]
macro_rules! crate_version { () => { "0" } }
