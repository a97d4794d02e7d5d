//! rustc driver: dumps the resolved program (monomorphised-as-far-as-known MIR, resolved callees,
//! constants, types, item visibility, unsafe blocks) of one workspace crate as JSON.
//! Used as RUSTC_WORKSPACE_WRAPPER.  No target code is executed.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_ast;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;
extern crate rustc_mir_transform;

mod dump;
mod json;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def_id::LocalDefId;
use rustc_interface::interface;
use rustc_middle::mir::Body;
use rustc_middle::ty::TyCtxt;
use std::cell::RefCell;
use std::collections::HashMap;

thread_local! {
    pub static PRE: RefCell<HashMap<LocalDefId, Body<'static>>> = RefCell::new(HashMap::new());
}
static ORIG: std::sync::OnceLock<
    for<'tcx> fn(TyCtxt<'tcx>, LocalDefId) -> &'tcx rustc_data_structures::steal::Steal<Body<'tcx>>,
> = std::sync::OnceLock::new();

fn drops_wrapper<'tcx>(
    tcx: TyCtxt<'tcx>,
    def: LocalDefId,
) -> &'tcx rustc_data_structures::steal::Steal<Body<'tcx>> {
    // borrowck may need nested bodies first; mir_promoted is stolen by the original provider.
    if tcx.is_coroutine(def.to_def_id()) {
        tcx.ensure_done().mir_coroutine_witnesses(def);
    }
    let body = tcx.mir_promoted(def).0.borrow().clone();
    let body: Body<'static> = unsafe { std::mem::transmute::<Body<'tcx>, Body<'static>>(body) };
    PRE.with(|p| p.borrow_mut().insert(def, body));
    (ORIG.get().unwrap())(tcx, def)
}

struct Cb;
impl Callbacks for Cb {
    fn config(&mut self, config: &mut interface::Config) {
        config.override_queries = Some(|_sess, providers| {
            let _ = ORIG.set(providers.queries.mir_drops_elaborated_and_const_checked);
            providers.queries.mir_drops_elaborated_and_const_checked = drops_wrapper;
        });
    }
    fn after_analysis<'tcx>(&mut self, _c: &interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let out = std::env::var("VP_DUMP_DIR").expect("VP_DUMP_DIR");
        dump::dump_crate(tcx, &out);
        Compilation::Continue
    }
}
struct Plain;
impl Callbacks for Plain {}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the path of rustc
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    let mut name = String::new();
    for i in 0..args.len() {
        if args[i] == "--crate-name" && i + 1 < args.len() {
            name = args[i + 1].clone();
        }
    }
    let want = std::env::var("VP_DUMP_CRATES").unwrap_or_default();
    if want.split(',').any(|c| c == name) {
        args.push("-Zalways-encode-mir".into());
        go(&args, &mut Cb);
    } else {
        go(&args, &mut Plain);
    }
}
fn go(args: &[String], cb: &mut (dyn Callbacks + Send)) {
    let args = args.to_vec();
    let code = rustc_driver::catch_with_exit_code(move || rustc_driver::compiler_entrypoint(&args, cb));
    use std::process::Termination;
    let c = code.report();
    if c != std::process::ExitCode::SUCCESS {
        std::process::exit(1);
    }
}
