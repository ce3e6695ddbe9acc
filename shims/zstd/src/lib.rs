//! Offline stand-in for the `zstd` crate (the real one wants zstd-sys 2.0.x,
//! which isn't here).  A magic number in front of an LZ4 block.
pub mod bulk {
    use std::io;
    const MAGIC: &[u8] = b"\x28\xb5\x2f\xfd";
    pub fn compress(src: &[u8], _level: i32) -> io::Result<Vec<u8>> {
        let mut v = MAGIC.to_vec();
        v.extend(lz4_flex::block::compress(src));
        Ok(v)
    }
    pub fn decompress(src: &[u8], capacity: usize) -> io::Result<Vec<u8>> {
        if src.get(..4) != Some(MAGIC) {
            return Err(io::Error::other("bad zstd magic"));
        }
        lz4_flex::block::decompress(&src[4..], capacity).map_err(io::Error::other)
    }
}
