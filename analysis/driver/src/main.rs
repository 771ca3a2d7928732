//! Dumps the analysed crate as JSON: its types and, per function instance, the MIR as built from
//! the type-checked source (after borrow checking's promotion, before drop elaboration and before
//! coroutines become state machines), with callees resolved.
//!
//! Runs as RUSTC_WORKSPACE_WRAPPER. Environment: HB_DUMP = output file, HB_CRATE = crate name.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_ast;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

mod dump;
mod json;

use rustc_driver::Compilation;
use rustc_interface::interface::Compiler;
use rustc_middle::ty::TyCtxt;

struct Dump {
    out: String,
}

impl rustc_driver::Callbacks for Dump {
    fn after_expansion<'tcx>(&mut self, _c: &Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let text = dump::dump(tcx);
        std::fs::write(&self.out, text).expect("cannot write dump");
        Compilation::Continue
    }
}

struct Plain;
impl rustc_driver::Callbacks for Plain {}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // as wrapper: mirdump /path/to/rustc args...
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].ends_with("rustc.exe")) {
        args.remove(1);
    }
    let krate = std::env::var("HB_CRATE").unwrap_or_default();
    let mut name = None;
    for i in 0..args.len() {
        if args[i] == "--crate-name" {
            name = args.get(i + 1).cloned();
        }
    }
    let info = args.iter().any(|a| a == "--print" || a.starts_with("--print=") || a == "-vV");
    match (std::env::var("HB_DUMP"), name) {
        (Ok(out), Some(n)) if n == krate && !info => {
            rustc_driver::compiler_entrypoint(&args, &mut Dump { out })
        }
        _ => rustc_driver::compiler_entrypoint(&args, &mut Plain),
    }
}
