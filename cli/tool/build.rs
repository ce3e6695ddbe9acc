use std::{fs, path::Path};
/// The command's sources, but its output and exit status are taken by the check
fn copy(from: &Path, to: &Path) {
    fs::create_dir_all(to).unwrap();
    for e in fs::read_dir(from).unwrap() {
        let e = e.unwrap();
        let (p, q) = (e.path(), to.join(e.file_name()));
        if p.is_dir() { copy(&p, &q); continue }
        let mut s = fs::read_to_string(&p).unwrap();
        for (a, b) in [("std::io::stdout()", "io::stdout()"), ("io::stdout()", "::clap::stdout()"), ("std::process::exit(", "process::exit("),
            ("process::exit(", "exit("), (" exit(", " ::clap::exit(")] {
            s = s.replace(a, b);
        }
        fs::write(q, s).unwrap();
    }
}
fn main() {
    println!("cargo:rerun-if-changed=/repo/bfffs/src");
    let out = std::env::var("OUT_DIR").unwrap();
    lalrpop::Configuration::new().set_in_dir("/repo/bfffs/src").set_out_dir(&out).process().unwrap();
    copy(Path::new("/repo/bfffs/src/bin/bfffs"), &Path::new(&out).join("tool"));
}
