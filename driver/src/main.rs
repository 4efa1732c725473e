//! Dumps, as JSON, the resolved polymorphic MIR of everything reachable from the public functions of the
//! probe crate. Used by cargo as RUSTC_WRAPPER; compiles every other crate exactly as rustc would.
#![feature(rustc_private)]
#![allow(rustc::internal)]

extern crate rustc_driver;
extern crate rustc_abi;
extern crate rustc_attr_ir;
extern crate rustc_hir;
extern crate rustc_infer;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;
extern crate rustc_trait_selection;

#[macro_use]
mod json;
mod walk;

use rustc_driver::{Callbacks, Compilation};
use rustc_interface::interface::Compiler;
use rustc_middle::ty::TyCtxt;

struct Dump {
    out: String,
}

impl Callbacks for Dump {
    fn after_analysis<'tcx>(&mut self, _: &Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let j = walk::dump(tcx);
        let mut o = String::new();
        j.write(&mut o);
        std::fs::write(&self.out, o).expect("cannot write the dump");
        Compilation::Continue
    }
}

struct Plain;
impl Callbacks for Plain {}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // cargo: <wrapper> <rustc> <args...>
    args.remove(1);
    args[0] = "rustc".into();
    let name = args.iter().position(|a| a == "--crate-name").map(|p| args[p + 1].clone());
    let probe = name.as_deref() == Some("probe");
    rustc_driver::catch_with_exit_code(move || {
        if probe {
            let out = std::env::var("MIRDUMP_OUT").expect("MIRDUMP_OUT");
            rustc_driver::compiler_entrypoint(&args, &mut Dump { out })
        } else {
            rustc_driver::compiler_entrypoint(&args, &mut Plain)
        }
    })
}
