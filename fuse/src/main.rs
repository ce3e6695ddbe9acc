#[path = "../../full/src/collide.rs"]
mod collide;
mod fsapi;
#[path = "../../full/src/fsmodel.rs"]
#[allow(dead_code)]
mod fsmodel;
#[path = "../../full/src/rt.rs"]
#[allow(dead_code)]
mod rt;
mod t_fuse;
#[path = "../../full/src/world.rs"]
#[allow(dead_code)]
mod world;
use engine::Property;

fn main() {
    engine::main(vec![
        Property { id: "C30", checks: t_fuse::checks(), assumptions: &[
            "The kernel speaks FUSE as FreeBSD's does: it keeps a directory's vnode while it has those of directories in it, serialises requests for one vnode, looks a name up before renaming or removing it, and forgets a file all at once.",
        ] },
    ])
}
