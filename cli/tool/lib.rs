//! bfffs, as a library
#![allow(dead_code, unused_imports, unused_macros)]
macro_rules! print { ($($x:tt)*) => { ::clap::out(format_args!($($x)*)) } }
macro_rules! println { () => { print!("\n") }; ($($x:tt)*) => {{ print!($($x)*); print!("\n") }} }
macro_rules! eprintln { ($($x:tt)*) => {{ ::clap::err(format_args!($($x)*)); ::clap::err(format_args!("\n")) }} }
include!(concat!(env!("OUT_DIR"), "/tool/main.rs"));

pub struct Done { pub code: i32, pub out: String, pub err: String }

/// Run the command
pub async fn run(args: Vec<String>) -> Done {
    use futures::FutureExt;
    clap::set_args(args);
    clap::take_output();
    let r = std::panic::AssertUnwindSafe(async { main().await }).catch_unwind().await;
    let code = match r {
        Ok(()) => 0,
        Err(e) => match e.downcast::<clap::Exited>() {
            Ok(e) => e.0,
            Err(e) => std::panic::resume_unwind(e),
        },
    };
    let (out, err) = clap::take_output();
    Done { code, out, err }
}
