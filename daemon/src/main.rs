#[path = "../../full/src/rt.rs"]
#[allow(dead_code)]
mod rt;
mod t_daemon;
#[path = "../../full/src/world.rs"]
#[allow(dead_code)]
mod world;
use engine::Property;

fn main() {
    engine::main(vec![
        Property { id: "C34", checks: t_daemon::checks(), assumptions: &[
            "The kernel's seqpacket sockets keep messages whole and in order, lose what does not fit the receiver's buffer, and tell who is at the other end.",
            "unmount(2) ends the FUSE session before it returns.",
        ] },
    ])
}
