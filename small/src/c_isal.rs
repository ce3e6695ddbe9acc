use crate::c_codec::Buf;
use bfffs_isa_l as isal;
use engine::{ensure, ensure_eq, Check, Property, Src, R};

/// GF(2^8) with the polynomial 0x11d, the slow way
pub fn mul(a: u8, b: u8) -> u8 {
    let (mut a, mut b, mut r) = (a as u16, b, 0u16);
    while b != 0 {
        if b & 1 == 1 { r ^= a }
        a <<= 1;
        if a & 0x100 != 0 { a ^= 0x11d }
        b >>= 1;
    }
    r as u8
}
fn pow(a: u8, n: u32) -> u8 { (0..n).fold(1, |x, _| mul(x, a)) }
pub fn inv(a: u8) -> u8 { pow(a, 254) }
fn rank(m: &[u8], n: usize) -> usize {
    let mut m: Vec<Vec<u8>> = m.chunks(n).map(|r| r.to_vec()).collect();
    let mut r = 0;
    for c in 0..n {
        let Some(p) = (r..n).find(|i| m[*i][c] != 0) else { continue };
        m.swap(r, p);
        let iv = inv(m[r][c]);
        for j in 0..n { m[r][j] = mul(m[r][j], iv) }
        for i in 0..n {
            if i != r && m[i][c] != 0 {
                let f = m[i][c];
                for j in 0..n { let x = mul(f, m[r][j]); m[i][j] ^= x }
            }
        }
        r += 1;
    }
    r
}

fn gen_case(s: &mut Src, max: u64) -> R {
    let m = s.skew(2, max) as u32;
    let k = match s.below(3) { 0 => m - s.range(1, (m as u64 - 1).min(6)) as u32, 1 => s.range(1, (m as u64 - 1).min(6)) as u32, _ => s.range(1, m as u64 - 1) as u32 };
    s.note(format!("m={m} k={k}"));
    s.nontrivial();
    let mut a = vec![0xeeu8; (m * k) as usize];
    isal::gf_gen_cauchy1_matrix(&mut a, m, k);
    for i in 0..m { for j in 0..k {
        let want = if i < k { (i == j) as u8 } else { inv((i ^ j) as u8) };
        ensure_eq!(a[(i * k + j) as usize], want, "Cauchy {m}x{k} at {i},{j}");
    } }
    let ok = k <= 3 || k == 4 && m <= 25 || k == 5 && m <= 10 || k <= 21 && m - k == 4 || m - k <= 3;
    let mut a = vec![0xeeu8; (m * k) as usize];
    let r = engine::catch(|| isal::gf_gen_rs_matrix(&mut a, m, k));
    ensure_eq!(r.is_ok(), ok, "{m}x{k} Reed-Solomon matrices are safe");
    if ok {
        let mut g = 1u8;
        for i in 0..m {
            for j in 0..k {
                let want = if i < k { (i == j) as u8 } else { pow(g, j) };
                ensure_eq!(a[(i * k + j) as usize], want, "Reed-Solomon {m}x{k} at {i},{j}");
            }
            if i >= k { g = mul(g, 2) }
        }
    }
    // Wrongly sized buffers are refused
    let wrong = (m * k) as usize + s.urange(1, 3) - 2;
    if wrong != (m * k) as usize {
        let mut b = vec![0; wrong];
        ensure!(engine::catch(|| isal::gf_gen_cauchy1_matrix(&mut b, m, k)).is_err(), "a buffer of the wrong size was accepted");
        ensure!(engine::catch(|| isal::gf_gen_rs_matrix(&mut b, m, k)).is_err(), "a buffer of the wrong size was accepted");
    }
    Ok(())
}
fn inv_case(s: &mut Src, max: usize) -> R {
    let n = s.urange(1, max);
    let mut m = s.bytes(n * n);
    match s.below(4) {
        0 => { for x in m.iter_mut() { *x %= 3 } }
        1 if n > 1 => {
            // A linear combination
            let (i, j) = (s.idx(n), s.idx(n));
            let f = s.below(256) as u8;
            for c in 0..n { m[i * n + c] = mul(f, m[j * n + c]) }
        }
        2 => { for i in 0..n { for j in 0..i { m[i * n + j] = 0 } } }
        _ => (),
    }
    s.note(format!("{n}x{n} {:?}", &m[..m.len().min(32)]));
    let full = rank(&m, n) == n;
    if !full { s.class("singular") } else { s.nontrivial() }
    let mut out = vec![0u8; n * n];
    let mut input = m.clone();
    let r = isal::gf_invert_matrix(&input, &mut out, n as u32);
    ensure_eq!(r.is_ok(), full, "invertibility");
    if let Err(e) = &r { ensure_eq!(e.kind(), std::io::ErrorKind::InvalidData, "the error about a singular matrix") }
    if full {
        for i in 0..n { for j in 0..n {
            let x = (0..n).fold(0, |a, c| a ^ mul(m[i * n + c], out[c * n + j]));
            ensure_eq!(x, (i == j) as u8, "product with the inverse at {i},{j}");
        } }
    }
    input.pop();
    ensure!(engine::catch(|| isal::gf_invert_matrix(&input, &mut out, n as u32)).is_err(), "a matrix of the wrong size was accepted");
    Ok(())
}
fn enc_case(s: &mut Src, kmax: u64, fmax: u64, maxlen: u64) -> R {
    let (k, f) = (s.skew(1, kmax) as u32, s.skew(1, fmax) as u32);
    let len = s.skew(1, maxlen) as usize;
    s.note(format!("k={k} f={f} len={len}"));
    s.nontrivial();
    let a = s.bytes((k * f) as usize);
    let mut t = vec![0u8; (32 * k * f) as usize];
    isal::ec_init_tables(k, f, &a, &mut t);
    let mut data: Vec<Buf> = vec![];
    let mut raw = vec![];
    for _ in 0..k {
        let v = s.bytes(len);
        let mut b = Buf::new(s, len, 0);
        unsafe { std::ptr::copy_nonoverlapping(v.as_ptr(), b.ptr(), len) }
        data.push(b);
        raw.push(v);
    }
    let want: Vec<Vec<u8>> = (0..f as usize).map(|i| (0..len).map(|x| (0..k as usize).fold(0, |acc, j| acc ^ mul(a[i * k as usize + j], raw[j][x]))).collect()).collect();
    let mut out: Vec<Buf> = (0..f).map(|_| Buf::new(s, len, 0x99)).collect();
    let dp: Vec<*const u8> = data.iter_mut().map(|d| d.ptr() as *const u8).collect();
    let mut op: Vec<*mut u8> = out.iter_mut().map(|d| d.ptr()).collect();
    unsafe { isal::ec_encode_data(len, k, f, &t, &dp, &mut op) };
    for (i, o) in out.iter().enumerate() { ensure!(o.intact() && o.get() == &want[i][..], "row {i} of the product is wrong: k={k} f={f} len={len}") }
    let mut out: Vec<Buf> = (0..f).map(|_| Buf::new(s, len, 0)).collect();
    let mut op: Vec<*mut u8> = out.iter_mut().map(|d| d.ptr()).collect();
    for j in 0..k { unsafe { isal::ec_encode_data_update(len, k, f, j, &t, &raw[j as usize], &mut op) } }
    for (i, o) in out.iter().enumerate() { ensure!(o.intact() && o.get() == &want[i][..], "row {i} of the progressive product is wrong: k={k} f={f} len={len}") }
    // Wrong geometry is refused
    let kk = if k > 1 { k - 1 } else { k + 1 };
    ensure!(engine::catch(|| unsafe { isal::ec_encode_data(len, kk, f, &t, &dp, &mut op) }).is_err(), "wrong geometry was accepted");
    ensure!(engine::catch(|| unsafe { isal::ec_encode_data(len, k, f, &t, &dp[1..], &mut op) }).is_err(), "too few columns were accepted");
    ensure!(engine::catch(|| unsafe { isal::ec_encode_data_update(len, k, f, k, &t, &raw[0], &mut op) }).is_err(), "a column out of range was accepted");
    ensure!(engine::catch(|| unsafe { isal::ec_encode_data_update(len + 1, k, f, 0, &t, &raw[0], &mut op) }).is_err(), "a short column was accepted");
    Ok(())
}

pub fn gf() -> Property {
    Property { id: "C14", assumptions: &["The GF(2^8) library itself is the system's ISA-L."],
        checks: vec![
            Check::new("matrices", "Random dimensions up to 255; compared with an independent GF(2^8); non-trivial = always.", 3_000, 120_000, |s| gen_case(s, 255)),
            Check::new("matrices-small", "As matrices, up to 40.", 60_000, 600_000, |s| gen_case(s, 40)),
            Check::new("inversion", "Random, sparse, dependent and triangular matrices up to 12x12; non-trivial = invertible.", 1_200_000, 12_000_000, |s| inv_case(s, 12)),
            Check::new("inversion-wide", "As inversion, up to 90x90.", 5_000, 50_000, |s| inv_case(s, 90)),
            Check::new("inversion-huge", "As inversion, up to 255x255.", 400, 4_000, |s| inv_case(s, 255)),
            Check::new("products", "Random coefficients and data, all at once and progressively; non-trivial = always.", 200_000, 2_000_000, |s| enc_case(s, 20, 9, 400)),
            Check::new("products-long", "As products, with columns of up to 140 kB; non-trivial = always.", 9_000, 90_000, |s| enc_case(s, 4, 3, 140_000)),
            Check::new("products-huge", "As products, with columns of up to 4 MB; non-trivial = always.", 150, 2_000, |s| enc_case(s, 2, 2, 4_000_000)),
            Check::new("products-wide", "As products, up to 250 by 30; non-trivial = always.", 15_000, 90_000, |s| enc_case(s, 250, 30, 70)),
        ] }
}
