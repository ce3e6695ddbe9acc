//! Offline stand-in for the `lz4_flex` crate: a small LZ4 block codec.
pub mod block {
    #[derive(Debug)]
    pub struct DecompressError;
    impl std::fmt::Display for DecompressError {
        fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str("corrupt LZ4 block") }
    }
    impl std::error::Error for DecompressError {}

    fn put_len(out: &mut Vec<u8>, mut l: usize) {
        while l >= 255 { out.push(255); l -= 255; }
        out.push(l as u8);
    }
    fn put_seq(out: &mut Vec<u8>, lit: &[u8], m: Option<(usize, usize)>) {
        let ll = lit.len();
        let ml = m.map(|(_, l)| l - 4).unwrap_or(0);
        out.push(((ll.min(15) as u8) << 4) | ml.min(15) as u8);
        if ll >= 15 { put_len(out, ll - 15); }
        out.extend_from_slice(lit);
        if let Some((off, _)) = m {
            out.extend_from_slice(&(off as u16).to_le_bytes());
            if ml >= 15 { put_len(out, ml - 15); }
        }
    }
    pub fn compress(input: &[u8]) -> Vec<u8> {
        let mut out = Vec::with_capacity(input.len() / 2 + 16);
        let mut table = vec![usize::MAX; 4096];
        let n = input.len();
        let mut anchor = 0;
        let mut i = 0;
        while i + 12 < n {
            let w = u32::from_le_bytes(input[i..i + 4].try_into().unwrap());
            let h = (w.wrapping_mul(2654435761) >> 20) as usize;
            let c = table[h];
            table[h] = i;
            if c != usize::MAX && i - c <= 65535 && input[c..c + 4] == input[i..i + 4] {
                let maxl = n - 5 - i;
                let mut l = 4;
                while l < maxl && input[c + l] == input[i + l] { l += 1; }
                put_seq(&mut out, &input[anchor..i], Some((i - c, l)));
                i += l;
                anchor = i;
            } else {
                i += 1;
            }
        }
        put_seq(&mut out, &input[anchor..], None);
        out
    }
    pub fn decompress(input: &[u8], size: usize) -> Result<Vec<u8>, DecompressError> {
        let mut out: Vec<u8> = Vec::with_capacity(size);
        let mut p = 0;
        let e = || DecompressError;
        let get_len = |p: &mut usize, base: usize| -> Result<usize, DecompressError> {
            let mut l = base;
            if base == 15 {
                loop {
                    let b = *input.get(*p).ok_or_else(e)?;
                    *p += 1;
                    l += b as usize;
                    if b != 255 { break; }
                }
            }
            Ok(l)
        };
        loop {
            let tok = *input.get(p).ok_or_else(e)?;
            p += 1;
            let ll = get_len(&mut p, (tok >> 4) as usize)?;
            let lit = input.get(p..p + ll).ok_or_else(e)?;
            if out.len() + ll > size { return Err(e()); }
            out.extend_from_slice(lit);
            p += ll;
            if p == input.len() { break; }
            let off = u16::from_le_bytes(input.get(p..p + 2).ok_or_else(e)?.try_into().unwrap()) as usize;
            p += 2;
            let ml = get_len(&mut p, (tok & 15) as usize)? + 4;
            if off == 0 || off > out.len() || out.len() + ml > size { return Err(e()); }
            let s = out.len() - off;
            for k in 0..ml { let b = out[s + k]; out.push(b); }
        }
        Ok(out)
    }
}
