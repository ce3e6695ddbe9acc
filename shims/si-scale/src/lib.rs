//! Numbers with binary prefixes
#[macro_export]
macro_rules! scale_fn {
    ($name:ident, base: B1024, constraint: UnitAndAbove, mantissa_fmt: $f:literal, groupings: $g:literal, unit: $u:literal $(,)?) => {
        fn $name(x: u64) -> String {
            let (mut m, mut i) = (x as f64, 0);
            while m >= 1024.0 { m /= 1024.0; i += 1 }
            format!("{} {}{}", format!($f, m), ["", "ki", "Mi", "Gi", "Ti"][i], $u)
        }
    }
}
