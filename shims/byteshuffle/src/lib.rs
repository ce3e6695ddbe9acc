//! Offline stand-in for the `byteshuffle` crate.
pub fn shuffle(typesize: usize, src: &[u8]) -> Vec<u8> {
    let n = src.len() / typesize;
    let mut out = Vec::with_capacity(src.len());
    for j in 0..typesize {
        for i in 0..n { out.push(src[i * typesize + j]); }
    }
    out.extend_from_slice(&src[n * typesize..]);
    out
}
pub fn unshuffle(typesize: usize, src: &[u8]) -> Vec<u8> {
    let n = src.len() / typesize;
    let mut out = vec![0u8; src.len()];
    for j in 0..typesize {
        for i in 0..n { out[i * typesize + j] = src[j * n + i]; }
    }
    out[n * typesize..].copy_from_slice(&src[n * typesize..]);
    out
}
