//! Fact extractor: dumps the monomorphic MIR of a crate (and of the library
//! functions it instantiates) as JSON.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_ast;
extern crate rustc_attr_ir;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;
extern crate rustc_trait_selection;

mod dump;
mod json;

use rustc_driver::{Callbacks, Compilation};
use rustc_interface::interface;
use rustc_middle::ty::TyCtxt;

struct Cb {
    out: Option<String>,
}

impl Callbacks for Cb {
    fn config(&mut self, config: &mut interface::Config) {
        if self.out.is_some() {
            config.opts.unstable_opts.mir_opt_level = Some(0);
            config.opts.unstable_opts.always_encode_mir = true;
            // Closures of macros are told apart by path, not by place.
            config.opts.unstable_opts.span_free_formats = true;
        }
    }
    fn after_analysis<'tcx>(&mut self, _c: &interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        if let Some(out) = &self.out {
            if tcx.dcx().has_errors().is_none() {
                dump::dump(tcx, out);
            }
        }
        Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // As RUSTC_WORKSPACE_WRAPPER: argv[1] is the path of rustc.
    args.remove(0);
    let dir = std::env::var("PROCSTAR_FACTS_OUT").ok();
    let name = args
        .iter()
        .position(|a| a == "--crate-name")
        .and_then(|i| args.get(i + 1).cloned());
    let is_test = args.iter().any(|a| a == "--test");
    let ctype = args
        .iter()
        .position(|a| a == "--crate-type")
        .and_then(|i| args.get(i + 1).cloned())
        .unwrap_or_else(|| "bin".to_string());
    let out = match (dir, name) {
        (Some(d), Some(n)) if n != "___" && n != "build_script_build" && !is_test => {
            Some(format!("{}/{}.{}.json", d, n, ctype))
        }
        _ => None,
    };
    let mut cb = Cb { out };
    rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut cb))
}
