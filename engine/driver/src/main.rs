#![feature(rustc_private)]
//! RUSTC_WORKSPACE_WRAPPER driver: dumps the type-checked program (MIR as built, resolved callees,
//! ADT shapes, attributes, impls) of the crate being compiled as JSON.

extern crate rustc_abi;
extern crate rustc_ast;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_errors;
extern crate rustc_hir;
extern crate rustc_hir_pretty;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

mod dump;
mod json;

use rustc_driver::Compilation;
use rustc_hir::def_id::LocalDefId;
use rustc_middle::mir::Body;
use rustc_middle::ty::TyCtxt;
use rustc_data_structures::steal::Steal;
use std::sync::Mutex;
use std::collections::HashMap;

pub struct Bodies(pub HashMap<LocalDefId, Body<'static>>);
unsafe impl Send for Bodies {}
pub static BODIES: Mutex<Option<Bodies>> = Mutex::new(None);

type BuiltFn = for<'tcx> fn(TyCtxt<'tcx>, LocalDefId) -> &'tcx Steal<Body<'tcx>>;
static mut DEFAULT_BUILT: Option<BuiltFn> = None;

fn my_mir_built<'tcx>(tcx: TyCtxt<'tcx>, def: LocalDefId) -> &'tcx Steal<Body<'tcx>> {
    let f = unsafe { DEFAULT_BUILT.unwrap() };
    let steal = f(tcx, def);
    let body: Body<'tcx> = steal.borrow().clone();
    let body: Body<'static> = unsafe { std::mem::transmute(body) };
    BODIES.lock().unwrap().get_or_insert_with(|| Bodies(HashMap::new())).0.insert(def, body);
    steal
}

struct Cb {
    out: String,
}

impl rustc_driver::Callbacks for Cb {
    fn config(&mut self, config: &mut rustc_interface::Config) {
        config.override_queries = Some(|_sess, providers| {
            unsafe {
                DEFAULT_BUILT = Some(providers.queries.mir_built);
            }
            providers.queries.mir_built = my_mir_built;
        });
    }
    fn after_analysis<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> Compilation {
        dump::dump(tcx, &self.out);
        Compilation::Continue
    }
}

struct Plain;
impl rustc_driver::Callbacks for Plain {}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the rustc path
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    let name = args
        .iter()
        .position(|a| a == "--crate-name")
        .and_then(|i| args.get(i + 1))
        .cloned();
    let is_test = args.iter().any(|a| a == "--test");
    let out = std::env::var("AIRFACTS_OUT").ok();
    let kind = args
        .iter()
        .position(|a| a == "--crate-type")
        .and_then(|i| args.get(i + 1))
        .cloned()
        .unwrap_or_default();
    let only = std::env::var("AIRFACTS_CRATES").unwrap_or_default();
    rustc_driver::catch_with_exit_code(|| match (name, out) {
        (Some(n), Some(o))
            if !is_test
                && n != "build_script_build"
                && n != "___"
                && only.split(',').any(|c| c == n) =>
        {
            let mut cb = Cb { out: format!("{o}/{n}.{kind}.json") };
            rustc_driver::compiler_entrypoint(&args, &mut cb);
        }
        _ => rustc_driver::compiler_entrypoint(&args, &mut Plain),
    })
}
