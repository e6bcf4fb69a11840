//! skyfacts: a rustc driver that dumps the type-checked program (MIR before the coroutine
//! transform, resolved callees per monomorphic instance, ADTs, trait impls, evaluated constants)
//! of the crates named in SKYFACTS_CRATES as JSON into SKYFACTS_DIR. It never runs the program.
#![feature(rustc_private)]
#![allow(clippy::all)]

extern crate rustc_abi;
extern crate rustc_ast;
extern crate rustc_attr_ir;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

mod dump;
mod json;

use rustc_driver::{Callbacks, Compilation};
use rustc_interface::interface;
use rustc_middle::ty::TyCtxt;

struct Cb;

impl Callbacks for Cb {
    fn after_expansion<'tcx>(&mut self, _c: &interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let dir = match std::env::var("SKYFACTS_DIR") {
            Ok(d) => d,
            Err(_) => return Compilation::Continue,
        };
        let want = std::env::var("SKYFACTS_CRATES").unwrap_or_default();
        let name = tcx.crate_name(rustc_span::def_id::LOCAL_CRATE).to_string();
        if want.split(',').any(|w| w == name) {
            let out = dump::dump(tcx);
            let p = format!("{dir}/{name}.json");
            let t = format!("{dir}/{name}.json.tmp{}", std::process::id());
            std::fs::write(&t, out).expect("write facts");
            std::fs::rename(&t, &p).expect("rename facts");
        }
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the path of the real rustc
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].ends_with("rustc.exe")) {
        args.remove(1);
    }
    let code = rustc_driver::catch_with_exit_code(move || {
        rustc_driver::compiler_entrypoint(&args, &mut Cb);
    });
    let _ = code;
    std::process::exit(if code == std::process::ExitCode::SUCCESS { 0 } else { 1 });
}
