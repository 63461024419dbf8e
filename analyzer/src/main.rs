#![feature(rustc_private)]
#![allow(dead_code)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;
mod auto;
mod drive;
mod effects;
mod exact;
mod func;
mod hooks;
mod interp;
mod iters;
mod parser;
mod step;
mod val;

struct Cb;
impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: rustc_middle::ty::TyCtxt<'tcx>) -> rustc_driver::Compilation {
        let name = tcx.crate_name(rustc_span::def_id::LOCAL_CRATE);
        if name.as_str() == "conch_parser" {
            if let (Ok(f), Ok(o)) = (std::env::var("CONCH_SA_FNS"), std::env::var("CONCH_SA_OUT")) { parser::export(tcx, &f, &o); }
            if let Ok(f) = std::env::var("CONCH_SA_DUMP") { parser::dump(tcx, &f); }
        }
        rustc_driver::Compilation::Continue
    }
}
fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) { args.remove(1); }
    rustc_driver::compiler_entrypoint(&args, &mut Cb);
}
