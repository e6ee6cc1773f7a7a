//! `mirdump`: a rustc driver that type-checks one crate of the repository and writes its
//! monomorphised MIR, types and item facts as JSON for the static analyses in /verif/analysis.
//! It never runs the analysed program.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_infer;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;
extern crate rustc_trait_selection;

mod dump;
mod json;

use rustc_driver::{Callbacks, Compilation};
use rustc_interface::interface::Compiler;
use rustc_middle::ty::TyCtxt;

struct Cb {
    out: String,
}

impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let j = dump::dump_crate(tcx);
        let mut s = String::new();
        j.write(&mut s);
        std::fs::write(&self.out, s).expect("cannot write dump");
        Compilation::Continue
    }
}

struct NoCb;
impl Callbacks for NoCb {}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the path of the real rustc
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    let name = args.iter().position(|a| a == "--crate-name").and_then(|i| args.get(i + 1)).cloned();
    let dir = std::env::var("MIRDUMP_OUT").ok();
    match (name, dir) {
        (Some(name), Some(dir)) if name != "___" && !name.starts_with("build_script") => {
            args.push("-Zmir-opt-level=0".into());
            args.push("-Coverflow-checks=on".into());
            args.push("-Cdebug-assertions=off".into());
            args.push("-Zalways-encode-mir".into());
            args.push("--cap-lints=allow".into());
            let bin = args.windows(2).any(|w| w[0] == "--crate-type" && w[1] == "bin");
            let out = format!("{}/{}{}.json", dir, name, if bin { "_bin" } else { "" });
            rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Cb { out }))
        }
        _ => {
            rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut NoCb))
        }
    }
}
