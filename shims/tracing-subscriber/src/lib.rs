//! Enough of tracing-subscriber to compile the main functions of bfffsd and bfffs.
pub struct Registry;
pub fn registry() -> Registry { Registry }
impl Registry {
    pub fn with<L>(self, _: L) -> Self { self }
    pub fn init(self) {}
}
pub struct EnvFilter;
pub struct Builder;
impl EnvFilter { pub fn builder() -> Builder { Builder } }
impl Builder {
    pub fn with_env_var(self, _: &str) -> Self { self }
    pub fn with_default_directive(self, _: Directive) -> Self { self }
    pub fn from_env_lossy(self) -> EnvFilter { EnvFilter }
}
pub struct Directive;
pub mod filter {
    pub struct LevelFilter;
    impl LevelFilter {
        pub const WARN: LevelFilter = LevelFilter;
    }
    impl From<LevelFilter> for super::Directive { fn from(_: LevelFilter) -> Self { super::Directive } }
}
pub struct Sub;
pub fn fmt() -> Sub { Sub }
impl Sub {
    pub fn pretty(self) -> Self { self }
    pub fn with_env_filter(self, _: EnvFilter) -> Self { self }
    pub fn init(self) {}
}
pub mod fmt {
    pub struct Layer;
    pub fn layer() -> Layer { Layer }
}
pub mod prelude {}
