// Verification harness, compiled into the burn_fm binary under --cfg burn_verif
// (see DESIGN.md).  `entry` takes over only when BURN_VERIF is set; otherwise the
// binary is the ordinary command line tool.
#[allow(dead_code)]
pub mod sys { include!(concat!(env!("BURN_VERIF_DIR"), "/harness/sys.rs")); }
#[allow(dead_code)]
pub mod engine { include!(concat!(env!("BURN_VERIF_DIR"), "/harness/engine.rs")); }
#[allow(dead_code)]
pub mod lang { include!(concat!(env!("BURN_VERIF_DIR"), "/harness/lang.rs")); }
#[allow(dead_code)]
pub mod fm { include!(concat!(env!("BURN_VERIF_DIR"), "/harness/fm.rs")); }
#[allow(dead_code)]
pub mod world { include!(concat!(env!("BURN_VERIF_DIR"), "/harness/world.rs")); }
#[allow(dead_code)]
pub mod props_calc { include!(concat!(env!("BURN_VERIF_DIR"), "/harness/props_calc.rs")); }

#[allow(dead_code)]
pub mod codes { include!(concat!(env!("BURN_VERIF_DIR"), "/harness/codes.rs")); }
// Only these call functions other than those that compile, decompile and run tests. If they do
// not build against a changed tree, run.sh leaves them out of the build for other properties.
#[cfg(not(burn_no_codec))]
#[allow(dead_code)]
pub mod props_codec { include!(concat!(env!("BURN_VERIF_DIR"), "/harness/props_codec.rs")); }
#[allow(dead_code)]
pub mod fmp { include!(concat!(env!("BURN_VERIF_DIR"), "/harness/fmp.rs")); }
#[allow(dead_code)]
pub mod props_file { include!(concat!(env!("BURN_VERIF_DIR"), "/harness/props_file.rs")); }
#[cfg(not(burn_no_tool))]
#[allow(dead_code)]
pub mod props_asm { include!(concat!(env!("BURN_VERIF_DIR"), "/harness/props_asm.rs")); }
#[cfg(not(burn_no_tool))]
#[allow(dead_code)]
pub mod props_cli { include!(concat!(env!("BURN_VERIF_DIR"), "/harness/props_cli.rs")); }
#[allow(dead_code)]
pub mod props_src { include!(concat!(env!("BURN_VERIF_DIR"), "/harness/props_src.rs")); }

#[allow(dead_code)]
pub mod props_run { include!(concat!(env!("BURN_VERIF_DIR"), "/harness/props_run.rs")); }
#[allow(dead_code)]
pub mod props_db { include!(concat!(env!("BURN_VERIF_DIR"), "/harness/props_db.rs")); }
#[allow(dead_code)]
pub mod props_rel { include!(concat!(env!("BURN_VERIF_DIR"), "/harness/props_rel.rs")); }
macro_rules! variant_modules {
    ($dir:literal) => {
        #[allow(warnings)]
        pub mod calc_eval { include!(concat!(env!("BURN_VERIF_DIR"), "/harness/variants/", $dir, "/calc_eval.rs")); }
        #[allow(warnings)]
        pub mod calc_tokens { include!(concat!(env!("BURN_VERIF_DIR"), "/harness/variants/", $dir, "/calc_tokens.rs")); }
        #[allow(warnings)]
        pub mod database { include!(concat!(env!("BURN_VERIF_DIR"), "/harness/variants/", $dir, "/database.rs")); }
        #[allow(warnings)]
        pub mod layout_mgr { include!(concat!(env!("BURN_VERIF_DIR"), "/harness/variants/", $dir, "/layout_mgr.rs")); }
        #[allow(warnings)]
        pub mod relation_mgr { include!(concat!(env!("BURN_VERIF_DIR"), "/harness/variants/", $dir, "/relation_mgr.rs")); }
        #[allow(warnings)]
        pub mod test { include!(concat!(env!("BURN_VERIF_DIR"), "/harness/variants/", $dir, "/test.rs")); }
    };
}
/// src/testing as recorded in the pinned commit, and with the proposed repairs (DESIGN.md).
pub mod recorded { variant_modules!("recorded"); }
pub mod repaired { variant_modules!("repaired"); }

/// Names the content of the sources, so that a change of any of them rebuilds the binary.
pub const STAMP: &str = env!("BURN_VERIF_STAMP");

pub fn entry() -> bool {
    if std::env::var_os("BURN_VERIF").is_none() {
        return false;
    }
    engine::main(&props());
    true
}

fn props() -> Vec<engine::Prop> {
    let mut v = vec![props_calc::c01(), props_calc::c02(), props_calc::c03(), props_calc::c04()];
    v.extend(props_src::props());
    #[cfg(not(burn_no_codec))]
    v.extend(props_codec::props());
    v.extend(props_file::props());
    #[cfg(not(burn_no_tool))]
    v.extend(props_asm::props());
    #[cfg(not(burn_no_tool))]
    v.extend(props_cli::props());
    v.extend(props_run::props());
    v.extend(props_db::props());
    v.extend(props_rel::props());
    v.sort_by_key(|p| p.id);
    v
}
