#[path = "../../full/src/rt.rs"]
#[allow(dead_code)]
mod rt;
mod t_cli;
#[path = "../../daemon/src/t_daemon.rs"]
#[allow(dead_code)]
mod t_daemon;
#[path = "../../full/src/world.rs"]
#[allow(dead_code)]
mod world;
use engine::Property;

fn main() {
    engine::main(vec![
        Property { id: "C35", checks: t_cli::checks(), assumptions: &[
            "clap parses arguments, and tabular and prettytable print cells, as their documentation says; they are replaced by simpler ones.",
        ] },
    ])
}
