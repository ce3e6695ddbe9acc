//! Enough of console-subscriber to compile bfffsd's main function.
pub struct ConsoleLayer;
pub struct Builder;
impl ConsoleLayer { pub fn builder() -> Builder { Builder } }
impl Builder {
    pub fn retention(self, _: std::time::Duration) -> Self { self }
    pub fn server_addr<A>(self, _: A) -> Self { self }
    pub fn spawn(self) -> ConsoleLayer { ConsoleLayer }
}
