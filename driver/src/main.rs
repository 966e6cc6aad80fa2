#![feature(rustc_private)]
#![allow(clippy::all)]
extern crate rustc_abi;
extern crate rustc_ast;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_index;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

mod ir;
mod lower;
mod loader;
mod poly;
mod val;
mod interp;
mod ops;
mod call;
mod intrin;
mod x86;
mod spec;
mod entry;
mod judge;
mod check;
mod purity;
mod alloc;

use rustc_driver::{Callbacks, Compilation};
use rustc_interface::interface;
use rustc_middle::ty::TyCtxt;

struct Cb;

impl Callbacks for Cb {
    fn config(&mut self, config: &mut interface::Config) {
        config.file_loader = Some(Box::new(loader::ShimLoader::new()));
    }
    fn after_analysis<'tcx>(&mut self, _c: &interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        tcx.dcx().abort_if_errors();
        let cx = lower::Cx::new(tcx);
        if std::env::var("YV_KIND").map(|k| k.contains('P')).unwrap_or(false) { purity::run(&cx); }
        if std::env::var("YV_KIND").map(|k| k.contains('M')).unwrap_or(false) { alloc::run(&cx); }
        check::run(&cx);
        Compilation::Stop
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER protocol: argv[1] is the real rustc.
    let rustc = args.get(1).cloned().unwrap_or_default();
    let is_yuv = args.windows(2).any(|w| w[0] == "--crate-name" && w[1] == "yuv");
    if !is_yuv || std::env::var("YV_MODE").is_err() {
        let st = std::process::Command::new(&rustc).args(&args[2..]).status().expect("rustc");
        std::process::exit(st.code().unwrap_or(1));
    }
    let mut a: Vec<String> = vec!["rustc".into()];
    a.extend(args[2..].iter().cloned());
    for x in ["-Zmir-opt-level=1", "-Zinline-mir=no", "-Coverflow-checks=off", "-Cdebug-assertions=off", "-Zalways-encode-mir", "--cap-lints=allow"] {
        a.push(x.into());
    }
    let code = rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&a, &mut Cb));
    if code != std::process::ExitCode::SUCCESS { std::process::exit(3); }
}
