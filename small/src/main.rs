#![allow(dead_code, unused_imports, clippy::all)]
#[path = "/repo/bfffs-core/src/cache/mod.rs"]
pub mod cache;
#[path = "/repo/bfffs-core/src/property.rs"]
pub mod property;
pub mod raid {
    #[path = "/repo/bfffs-core/src/raid/codec.rs"]
    pub mod codec;
    #[path = "/repo/bfffs-core/src/raid/declust.rs"]
    pub mod declust;
    #[path = "/repo/bfffs-core/src/raid/prime_s.rs"]
    pub mod prime_s;
    #[path = "/repo/bfffs-core/src/raid/sgcursor.rs"]
    pub mod sgcursor;
}
#[path = "/repo/bfffs-core/src/types.rs"]
pub mod types;
#[path = "/repo/bfffs-core/src/util.rs"]
pub mod util;
#[path = "/repo/bfffs-core/src/writeback/mod.rs"]
pub mod writeback;
pub use crate::types::*;
pub use crate::util::*;

mod c_bytes;
mod c_cache;
mod c_codec;
mod c_format;
mod c_isal;
mod c_layout;
mod c_prop;
mod c_types;
mod c_wb;

fn main() {
    engine::main(vec![
        c_cache::lru(), c_cache::goi(),
        c_wb::credit(), c_wb::limit(),
        c_codec::recon(), c_codec::agree(),
        c_layout::bijection(), c_layout::order(),
        c_bytes::bytes(),
        c_types::encoding(), c_types::errno(),
        c_prop::property(),
        c_isal::gf(),
        c_format::format(),
    ])
}
