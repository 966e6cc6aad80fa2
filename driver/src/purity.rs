//! Effects of the crate's own functions beyond their arguments: global state, clocks, environment, foreign code.
use crate::lower::Cx;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_middle::mir::interpret::GlobalAlloc;
use rustc_middle::mir::{self, visit::Visitor, Rvalue, TerminatorKind};
use rustc_middle::ty::{self, TyCtxt};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Default)]
pub struct Out { pub bodies: usize, pub calls: usize, pub consts: usize, pub finds: BTreeSet<(String, String, String)>, pub notes: BTreeMap<String, usize>, pub ok_statics: BTreeSet<String> }

struct Vis<'tcx, 'a> { tcx: TyCtxt<'tcx>, body: &'a mir::Body<'tcx>, who: String, o: &'a mut Out }

/// functions whose result is not determined by their arguments
fn impure(path: &str) -> Option<&'static str> {
    let p = path.trim_start_matches('<');
    for (pre, why) in [
        ("std::time::Instant::now", "reads the clock"), ("std::time::SystemTime::now", "reads the clock"), ("std::time::Instant::elapsed", "reads the clock"), ("std::time::SystemTime::elapsed", "reads the clock"),
        ("std::env::", "reads the environment"), ("std::fs::", "accesses the file system"), ("std::net::", "accesses the network"), ("std::os::", "accesses the operating system"),
        ("std::process::id", "reads the process id"), ("std::process::Command", "starts a process"), ("std::io::stdin", "reads standard input"), ("std::io::Stdin", "reads standard input"),
        ("std::thread::current", "reads the thread identity"), ("std::thread::Thread::id", "reads the thread identity"),
        ("std::hash::RandomState", "is randomly seeded"), ("std::collections::hash_map::RandomState", "is randomly seeded"), ("std::random::", "draws random data"),
        ("core::arch::x86_64::_rdtsc", "reads the clock"), ("core::arch::x86_64::__rdtscp", "reads the clock"), ("core::arch::x86_64::_rdrand", "draws random data"), ("core::arch::x86_64::_rdseed", "draws random data"),
        ("std::arch::x86_64::_rdtsc", "reads the clock"), ("std::arch::x86_64::__rdtscp", "reads the clock"), ("std::arch::x86_64::_rdrand", "draws random data"), ("std::arch::x86_64::_rdseed", "draws random data"),
        ("core::arch::x86::_rdtsc", "reads the clock"), ("core::arch::x86::_rdrand", "draws random data"),
        ("rand::", "draws random data"), ("getrandom::", "draws random data"), ("fastrand::", "draws random data"), ("libc::", "calls the C library"),
    ] { if p.starts_with(pre) { return Some(why); } }
    None
}

impl<'tcx, 'a> Vis<'tcx, 'a> {
    fn stat(&mut self, d: DefId) {
        let tcx = self.tcx;
        let name = tcx.def_path_str(d);
        if tcx.is_foreign_item(d) { self.o.finds.insert(("static".into(), name, self.who.clone())); return; }
        let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
        let env = ty::TypingEnv::fully_monomorphized();
        if tcx.is_mutable_static(d) { self.o.finds.insert(("static".into(), format!("{name} is mutable"), self.who.clone())); return; }
        if tcx.is_thread_local_static(d) && !t.is_freeze(tcx, env) { self.o.finds.insert(("static".into(), format!("{name} is thread-local state of type {t}"), self.who.clone())); return; }
        if t.is_freeze(tcx, env) { self.o.ok_statics.insert(name); return; }
        if let ty::Adt(a, args) = t.kind() {
            let an = tcx.def_path_str(a.did());
            // initialised once by a function without arguments
            if (an.ends_with("LazyLock") || an.ends_with("OnceLock")) && args.types().next().map(|t| t.is_freeze(tcx, env)).unwrap_or(false) { self.o.ok_statics.insert(name); return; }
        }
        self.o.finds.insert(("static".into(), format!("{name} is shared mutable state of type {t}"), self.who.clone()));
    }
    fn callee(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>) {
        let tcx = self.tcx;
        self.o.calls += 1;
        let path = tcx.def_path_str(d);
        if let Some(why) = impure(&path) { self.o.finds.insert(("call".into(), format!("{path} {why}"), self.who.clone())); }
        if tcx.is_foreign_item(d) {
            let sym = tcx.codegen_fn_attrs(d).symbol_name.map(|s| s.to_string()).unwrap_or_default();
            if !sym.starts_with("llvm.") { self.o.finds.insert(("call".into(), format!("{path} is foreign code"), self.who.clone())); }
        }
        // a cell that is set once must not remember the arguments of the first call
        if path.contains("OnceLock") || path.contains("OnceCell") {
            let b = path.rsplit("::").next().unwrap_or("");
            if b == "set" || b == "get_or_try_init" || b == "try_insert" { self.o.finds.insert(("call".into(), format!("{path} stores a value of this call in global state"), self.who.clone())); }
            if b == "get_or_init" {
                let captures = args.types().any(|t| matches!(t.kind(), ty::Closure(_, a) if !a.as_closure().upvar_tys().is_empty()));
                if captures { self.o.finds.insert(("call".into(), format!("{path} stores a value computed from this call's arguments in global state"), self.who.clone())); }
            }
        }
        for (pre, what) in [("std::io::_print", "prints"), ("std::io::_eprint", "prints"), ("std::thread::available_parallelism", "asks for the number of threads"), ("rayon_core::current_num_threads", "asks for the number of threads"), ("core::slice::<impl [T]>::align_to", "looks at addresses"), ("core::ptr::const_ptr::<impl *const T>::align_offset", "looks at addresses")] {
            if path.starts_with(pre) { *self.o.notes.entry(format!("{} {what}", self.who)).or_insert(0) += 1; }
        }
    }
}

impl<'tcx, 'a> Visitor<'tcx> for Vis<'tcx, 'a> {
    fn visit_rvalue(&mut self, r: &Rvalue<'tcx>, l: mir::Location) {
        match r {
            Rvalue::ThreadLocalRef(d) => self.stat(*d),
            Rvalue::Cast(mir::CastKind::PointerExposeProvenance, ..) => { *self.o.notes.entry(format!("{} looks at an address", self.who)).or_insert(0) += 1; }
            _ => {}
        }
        self.super_rvalue(r, l);
    }
    fn visit_const_operand(&mut self, c: &mir::ConstOperand<'tcx>, _l: mir::Location) {
        self.o.consts += 1;
        if let ty::FnDef(d, args) = *c.const_.ty().kind() { self.callee(d, args.no_bound_vars().unwrap_or_else(|| ty::List::empty())); }
        if let mir::Const::Val(mir::ConstValue::Scalar(mir::interpret::Scalar::Ptr(p, _)), _) = c.const_ {
            if let Some(GlobalAlloc::Static(d)) = self.tcx.try_get_global_alloc(p.provenance.alloc_id()) { self.stat(d); }
        }
    }
    fn visit_terminator(&mut self, t: &mir::Terminator<'tcx>, l: mir::Location) {
        if let TerminatorKind::InlineAsm { .. } = &t.kind { *self.o.notes.entry(format!("{} contains inline assembly", self.who)).or_insert(0) += 1; }
        let _ = self.body;
        self.super_terminator(t, l);
    }
}

pub fn run(cx: &Cx) {
    let tcx = cx.tcx;
    let mut o = Out::default();
    for d in tcx.mir_keys(()) {
        let d = d.to_def_id();
        if !matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn | DefKind::Closure) { continue; }
        let body = tcx.optimized_mir(d);
        o.bodies += 1;
        let who = tcx.def_path_str(tcx.typeck_root_def_id(d));
        let mut v = Vis { tcx, body, who, o: &mut o };
        v.visit_body(body);
    }
    // hand-written promises that a type may be shared between tasks
    let mut unsafe_shared = 0;
    for name in [rustc_span::sym::Send, rustc_span::sym::Sync] {
        if let Some(t) = tcx.get_diagnostic_item(name).or_else(|| if name == rustc_span::sym::Sync { tcx.lang_items().sync_trait() } else { None }) {
            for &i in tcx.all_local_trait_impls(()).get(&t).map(|v| v.as_slice()).unwrap_or(&[]) { let _ = i; unsafe_shared += 1; }
        }
    }
    println!("PURE\t{}\t{}\t{}\t{}\t{}", o.bodies, o.calls, o.consts, unsafe_shared, o.ok_statics.iter().cloned().collect::<Vec<_>>().join(";"));
    for (k, w, f) in &o.finds { println!("IMPURE\t{k}\t{w}\t{f}"); }
    for (n, c) in &o.notes { println!("NOTE\t{c}\t{n}"); }
}
