//! `tpfacts`: a rustc driver that type-checks a crate with the real build's
//! flags and writes the facts the analysers need (resolved MIR, types, items,
//! impls) to `$TPFACTS_OUT/<crate>.json`.  It never runs the crate's code.
#![feature(rustc_private)]
#![allow(clippy::all)]

extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_infer;
extern crate rustc_trait_selection;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

mod dump;
mod json;

use rustc_driver::{Callbacks, Compilation};
use rustc_interface::interface;
use rustc_middle::ty::TyCtxt;

struct Cb {
    out: String,
}
impl Callbacks for Cb {
    fn config(&mut self, config: &mut interface::Config) {
        config.opts.unstable_opts.mir_opt_level = Some(0);
        config.opts.unstable_opts.always_encode_mir = true;
    }
    fn after_analysis<'tcx>(
        &mut self,
        _c: &interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> Compilation {
        let name = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
        let j = dump::dump_crate(tcx);
        let mut s = String::new();
        j.write(&mut s);
        let bin = tcx.crate_types().iter().any(|t| format!("{t:?}") == "Executable");
        let path = format!("{}/{}{}.json", self.out, name, if bin { "-bin" } else { "" });
        let tmp = format!("{}.{}.tmp", path, std::process::id());
        std::fs::write(&tmp, s).expect("write facts");
        std::fs::rename(&tmp, &path).expect("rename facts");
        Compilation::Continue
    }
}
struct Plain;
impl Callbacks for Plain {}

fn main() -> std::process::ExitCode {
    // Used as the compiler itself: argv[0] tpfacts, rest rustc's arguments.
    let mut args: Vec<String> = std::env::args().collect();
    let mut real = None;
    // as RUSTC_WORKSPACE_WRAPPER: argv[1] is the rustc it stands for
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("rustc")) && !args[1].starts_with('-') {
        real = Some(args.remove(1));
    }
    let crate_name = args
        .iter()
        .position(|a| a == "--crate-name")
        .and_then(|i| args.get(i + 1))
        .cloned()
        .unwrap_or_default();
    let out = std::env::var("TPFACTS_OUT").unwrap_or_default();
    let dump = !out.is_empty()
        && !crate_name.is_empty()
        && crate_name != "build_script_build"
        && crate_name != "___";
    if !dump && real.is_some() {
        // not a crate of interest: the compiler this wrapper stands for
        use std::os::unix::process::CommandExt;
        let err = std::process::Command::new(real.unwrap()).args(&args[1..]).exec();
        panic!("exec: {err}");
    }
    rustc_driver::catch_with_exit_code(|| {
        if dump {
            rustc_driver::compiler_entrypoint(&args, &mut Cb { out })
        } else {
            rustc_driver::compiler_entrypoint(&args, &mut Plain)
        }
    })
}
