//! What fsmodel.rs exercises: bfffs-core's own interface.
pub use bfffs_core::fs::Fs;
use bfffs_core::fs::FileData;

/// All extended attributes' namespaces and names
pub async fn listx(fs: &Fs, fd: &FileData) -> Result<Vec<(u8, Vec<u8>)>, String> {
    let f = |v: &mut Vec<u8>, x: &bfffs_core::fs_tree::ExtAttr| {
        v.push(x.namespace() as u8);
        v.push(x.name().len() as u8);
        v.extend_from_slice(x.name().as_encoded_bytes());
    };
    let v = fs.listextattr(fd, 64, f).await.map_err(|e| format!("error {e}"))?;
    let l = fs.listextattrlen(fd, |x| 2 + x.name().len() as u32).await;
    if l != Ok(v.len() as u32) { return Err(format!("the length is {l:?} rather than {}", v.len())); }
    let mut got = vec![];
    let mut p = 0;
    while p < v.len() {
        let e = p + 2 + v[p + 1] as usize;
        got.push((v[p], v[p + 2..e].to_vec()));
        p = e;
    }
    Ok(got)
}
