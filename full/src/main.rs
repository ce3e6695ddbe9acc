mod audit;
mod collide;
mod fsapi;
mod fsmodel;
mod rt;
mod store;
mod t_audit;
mod t_recs;
mod t_block;
mod t_conc;
mod t_crash;
mod t_ds;
mod t_fail;
mod t_fs;
mod t_gold;
mod t_match;
mod t_raid;
mod t_rot;
mod t_space;
mod t_tree;
mod world;
use engine::Property;

fn main() {
    if let Ok(d) = std::env::var("VERIF_GOLDEN") { return t_gold::generate(&d); }
    engine::main(vec![
        Property { id: "C20", checks: t_tree::checks(), assumptions: &[] },
        Property { id: "C21", checks: t_fs::checks(), assumptions: &[] },
        Property { id: "C23", checks: t_raid::checks(), assumptions: &[] },
        Property { id: "C24", checks: t_fail::checks24(), assumptions: &[] },
        Property { id: "C25", checks: t_fail::checks25(), assumptions: &[] },
        Property { id: "C26", checks: t_conc::checks(), assumptions: &[] },
        Property { id: "C27", checks: t_ds::checks(), assumptions: &[] },
        Property { id: "C28", checks: t_space::checks(), assumptions: &[] },
        Property { id: "C29", checks: t_block::checks(), assumptions: &[] },
        Property { id: "C22", checks: t_crash::checks(), assumptions: &[] },
        Property { id: "C31", checks: t_rot::checks(), assumptions: &[] },
        Property { id: "C33", checks: t_gold::checks(), assumptions: &["The pools in golden/ are what earlier versions wrote."] },
        Property { id: "C36", checks: t_match::checks(), assumptions: &[] },
        Property { id: "C37", checks: t_audit::checks(), assumptions: &[] },
        Property { id: "C38", checks: t_recs::checks(), assumptions: &[] },
    ])
}
