//! Offline stand-in for the `hexdump` crate.
pub fn hexdump_iter(buf: &[u8]) -> std::vec::IntoIter<Box<String>> {
    buf.chunks(16).map(|c| Box::new(format!("{c:02x?}"))).collect::<Vec<_>>().into_iter()
}
