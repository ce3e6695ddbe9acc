fn main() {
    println!("cargo:rerun-if-changed=/repo/bfffs/src");
    lalrpop::Configuration::new().set_in_dir("/repo/bfffs/src").set_out_dir(std::env::var("OUT_DIR").unwrap()).process().unwrap();
}
