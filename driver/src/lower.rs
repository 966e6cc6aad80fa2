//! Lowering of monomorphised MIR into ir::Body.
use crate::ir::*;
use rustc_abi::{FieldIdx, FieldsShape, TagEncoding, VariantIdx, Variants, Size};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_middle::mir::interpret::{AllocId, GlobalAlloc, Scalar};
use rustc_middle::mir::{self, ConstValue};
use rustc_middle::ty::layout::TyAndLayout;
use rustc_middle::ty::{self, EarlyBinder, Instance, InstanceKind, Ty, TyCtxt, TypingEnv};
use rustc_span::DUMMY_SP;
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

pub struct StaticMem {
    pub bytes: Rc<Vec<u8>>,
    pub relocs: Vec<(u64, CPtr)>,
    pub name: String,
    pub mutable: bool,
}

pub struct Cx<'tcx> {
    pub tcx: TyCtxt<'tcx>,
    pub env: TypingEnv<'tcx>,
    tys: RefCell<Vec<(Ty<'tcx>, Option<Rc<TyInfo>>)>>,
    ty_map: RefCell<HashMap<Ty<'tcx>, TyId>>,
    insts: RefCell<Vec<(Instance<'tcx>, Option<Rc<InstInfo>>)>>,
    inst_map: RefCell<HashMap<Instance<'tcx>, InstId>>,
    bodies: RefCell<HashMap<InstId, Option<Rc<Body>>>>,
    pub statics: RefCell<Vec<Rc<StaticMem>>>,
    static_map: RefCell<HashMap<AllocId, usize>>,
}

impl<'tcx> Cx<'tcx> {
    pub fn new(tcx: TyCtxt<'tcx>) -> Self {
        Cx { tcx, env: TypingEnv::fully_monomorphized(), tys: Default::default(), ty_map: Default::default(), insts: Default::default(), inst_map: Default::default(), bodies: Default::default(), statics: Default::default(), static_map: Default::default() }
    }

    pub fn public_fns(&self) -> Vec<(String, InstId)> {
        let tcx = self.tcx;
        let mut v = vec![];
        for ch in tcx.module_children_local(rustc_hir::def_id::CRATE_DEF_ID) {
            if !ch.vis.is_public() { continue; }
            if let rustc_hir::def::Res::Def(DefKind::Fn, d) = ch.res {
                if tcx.generics_of(d).requires_monomorphization(tcx) {
                    v.push((ch.ident.name.to_string(), u32::MAX));
                    continue;
                }
                let inst = Instance::mono(tcx, d);
                v.push((ch.ident.name.to_string(), self.inst(inst)));
            }
        }
        v.sort();
        v.dedup();
        v
    }

    pub fn def_of(&self, i: InstId) -> DefId { self.insts.borrow()[i as usize].0.def_id() }
    pub fn instance(&self, i: InstId) -> Instance<'tcx> { self.insts.borrow()[i as usize].0 }
    pub fn ty_of(&self, t: TyId) -> Ty<'tcx> { self.tys.borrow()[t as usize].0 }

    pub fn norm(&self, t: Ty<'tcx>) -> Ty<'tcx> {
        self.tcx.normalize_erasing_regions(self.env, ty::Unnormalized::new(t))
    }

    pub fn ty(&self, t: Ty<'tcx>) -> TyId {
        if let Some(&i) = self.ty_map.borrow().get(&t) { return i; }
        let mut v = self.tys.borrow_mut();
        let i = v.len() as TyId;
        v.push((t, None));
        self.ty_map.borrow_mut().insert(t, i);
        i
    }

    pub fn layout(&self, t: Ty<'tcx>) -> Option<TyAndLayout<'tcx>> {
        self.tcx.layout_of(self.env.as_query_input(t)).ok()
    }

    pub fn tyinfo(&self, id: TyId) -> Rc<TyInfo> {
        if let Some(i) = &self.tys.borrow()[id as usize].1 { return i.clone(); }
        let t = self.ty_of(id);
        let lay = self.layout(t);
        let size = lay.map(|l| l.size.bytes()).unwrap_or(0);
        let sized = lay.map(|l| l.is_sized()).unwrap_or(false);
        let kind = self.tykind(t, lay);
        let info = Rc::new(TyInfo { size, sized, kind, name: format!("{t}") });
        self.tys.borrow_mut()[id as usize].1 = Some(info.clone());
        info
    }

    fn is_fat(&self, pointee: Ty<'tcx>) -> bool {
        let tail = self.tcx.struct_tail_for_codegen(pointee, self.env);
        matches!(tail.kind(), ty::Slice(_) | ty::Str | ty::Dynamic(..))
    }

    fn fields_of(&self, lay: TyAndLayout<'tcx>) -> Vec<(u64, TyId)> {
        let n = lay.fields.count();
        let cx = ty::layout::LayoutCx::new(self.tcx, self.env);
        (0..n).map(|i| (lay.fields.offset(i).bytes(), self.ty(lay.field(&cx, i).ty))).collect()
    }

    fn tykind(&self, t: Ty<'tcx>, lay: Option<TyAndLayout<'tcx>>) -> TyK {
        let tcx = self.tcx;
        match t.kind() {
            ty::Bool => TyK::Bool,
            ty::Char => TyK::Char,
            ty::Int(i) => TyK::Int { bits: i.bit_width().unwrap_or(64) as u32, signed: true },
            ty::Uint(i) => TyK::Int { bits: i.bit_width().unwrap_or(64) as u32, signed: false },
            ty::Float(f) => TyK::Float { bits: f.bit_width() as u32 },
            ty::RawPtr(p, _) | ty::Ref(_, p, _) => TyK::Ptr { pointee: self.ty(*p), fat: self.is_fat(*p) },
            ty::FnPtr(..) => TyK::FnPtr,
            ty::FnDef(..) => TyK::FnDef,
            ty::Never => TyK::Never,
            ty::Str => TyK::Str,
            ty::Dynamic(..) => TyK::Dyn,
            ty::Slice(e) => TyK::Slice { elem: self.ty(*e) },
            ty::Array(e, n) => TyK::Array { elem: self.ty(*e), n: n.try_to_target_usize(tcx).unwrap_or(0) },
            ty::Tuple(..) | ty::Closure(..) => {
                let Some(l) = lay else { return TyK::Other };
                TyK::Struct { fields: self.fields_of(l), names: vec![], adt: "".into() }
            }
            ty::Adt(def, _) => {
                let Some(l) = lay else { return TyK::Other };
                if t.is_simd() {
                    let (n, e) = t.simd_size_and_type(tcx);
                    return TyK::Simd { elem: self.ty(e), n };
                }
                let adt = tcx.def_path_str(def.did());
                if def.is_union() { return TyK::Union; }
                if def.is_struct() {
                    let names = def.non_enum_variant().fields.iter().map(|f| f.name.to_string()).collect();
                    return TyK::Struct { fields: self.fields_of(l), names, adt };
                }
                // enum
                let cx = ty::layout::LayoutCx::new(tcx, self.env);
                let mut discrs = vec![];
                for (_, d) in def.discriminants(tcx) { discrs.push(d.val); }
                let mut variants = vec![];
                for vi in 0..def.variants().len() {
                    let v = VariantIdx::from_usize(vi);
                    let name = def.variant(v).name.to_string();
                    let fl = match &l.variants {
                        Variants::Multiple { .. } => self.fields_of(l.for_variant(&cx, v)),
                        Variants::Single { index } if *index == v => self.fields_of(l),
                        _ => vec![],
                    };
                    variants.push((name, fl));
                }
                let (tag, single) = match &l.variants {
                    Variants::Empty => (Tag::Single, 0),
                    Variants::Single { index } => (Tag::Single, index.as_usize()),
                    Variants::Multiple { tag, tag_encoding, tag_field, .. } => {
                        let off = l.fields.offset(tag_field.as_usize()).bytes();
                        let size = tag.size(&tcx).bytes();
                        match tag_encoding {
                            TagEncoding::Direct => (Tag::Direct { off, size }, 0),
                            TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => (
                                Tag::Niche { off, size, untagged: untagged_variant.as_usize(), first: niche_variants.start.as_usize(), last: niche_variants.last.as_usize(), start: *niche_start }, 0),
                        }
                    }
                };
                TyK::Enum { layout: Rc::new(EnumLayout { tag, single, discrs, variants }), adt }
            }
            _ => TyK::Other,
        }
    }

    pub fn inst(&self, i: Instance<'tcx>) -> InstId {
        if let Some(&x) = self.inst_map.borrow().get(&i) { return x; }
        let mut v = self.insts.borrow_mut();
        let id = v.len() as InstId;
        v.push((i, None));
        self.inst_map.borrow_mut().insert(i, id);
        id
    }

    pub fn instinfo(&self, id: InstId) -> Rc<InstInfo> {
        if let Some(i) = &self.insts.borrow()[id as usize].1 { return i.clone(); }
        let inst = self.instance(id);
        let tcx = self.tcx;
        let def = inst.def_id();
        let name = tcx.def_path_str(def);
        let (kind, sym) = match inst.def {
            InstanceKind::Intrinsic(d) => (IK::Intrinsic, tcx.item_name(d).to_string()),
            InstanceKind::LlvmIntrinsic(d) => (IK::Llvm, tcx.codegen_fn_attrs(d).symbol_name.map(|s| s.to_string()).unwrap_or_else(|| tcx.item_name(d).to_string())),
            InstanceKind::Virtual(_, n) => (IK::Virtual(n), tcx.item_name(def).to_string()),
            InstanceKind::Item(d) => {
                let sym = tcx.opt_item_name(d).map(|s| s.to_string()).unwrap_or_default();
                if tcx.is_foreign_item(d) {
                    (IK::Llvm, tcx.codegen_fn_attrs(d).symbol_name.map(|s| s.to_string()).unwrap_or(sym))
                } else if tcx.is_mir_available(d) { (IK::Item, sym) } else { (IK::NoMir, sym) }
            }
            InstanceKind::Shim(_) => (IK::Shim, tcx.opt_item_name(def).map(|s| s.to_string()).unwrap_or_default()),
        };
        let mut type_args = vec![];
        let mut const_args = vec![];
        for a in inst.args.iter() {
            if let Some(t) = a.as_type() { type_args.push(self.ty(t)); }
            if let Some(c) = a.as_const() {
                if let Some(v) = c.try_to_value() {
                    if let Some(s) = v.try_to_leaf() { const_args.push(s.to_bits_unchecked()); }
                }
            }
        }
        let ret = match inst.def {
            InstanceKind::Item(_) | InstanceKind::Intrinsic(_) | InstanceKind::LlvmIntrinsic(_) | InstanceKind::Virtual(..) if !tcx.is_closure_like(def) => {
                let sig = tcx.fn_sig(def).instantiate(tcx, inst.args).skip_norm_wip();
                let sig = tcx.instantiate_bound_regions_with_erased(sig);
                self.ty(self.norm(sig.output()))
            }
            _ => self.ty(tcx.types.unit),
        };
        let needs = match inst.def {
            InstanceKind::Item(d) if matches!(tcx.def_kind(d), rustc_hir::def::DefKind::Fn | rustc_hir::def::DefKind::AssocFn | rustc_hir::def::DefKind::Closure) && !tcx.is_foreign_item(d) =>
                tcx.codegen_fn_attrs(d).target_features.iter().map(|f| f.name).filter(|f| !self.baseline(*f)).map(|f| f.to_string()).collect(),
            _ => vec![],
        };
        let info = Rc::new(InstInfo { name, sym, kind, type_args, const_args, ret, local: def.is_local(), is_closure: tcx.is_closure_like(def), needs });
        self.insts.borrow_mut()[id as usize].1 = Some(info.clone());
        info
    }

    /// an extension that every x86-64 CPU has
    fn baseline(&self, f: rustc_span::Symbol) -> bool { matches!(f.as_str(), "x87" | "fxsr" | "sse" | "sse2") }
    /// an instruction-set extension and everything it includes
    pub fn implied_features(&self, f: &str) -> Vec<String> {
        let mut v: Vec<String> = self.tcx.implied_target_features(rustc_span::Symbol::intern(f)).iter().map(|s| s.to_string()).collect();
        v.push(f.to_string());
        v
    }
    /// functions of the crate that are compiled for extensions of the CPU
    pub fn feature_fns(&self) -> Vec<String> {
        let tcx = self.tcx;
        let mut v = vec![];
        for d in tcx.mir_keys(()) {
            let d = d.to_def_id();
            if !matches!(tcx.def_kind(d), rustc_hir::def::DefKind::Fn | rustc_hir::def::DefKind::AssocFn) { continue; }
            if tcx.codegen_fn_attrs(d).target_features.iter().any(|f| !self.baseline(f.name)) { v.push(tcx.def_path_str(d)); }
        }
        v
    }
    /// exported image types for 8 and 16-bit samples with their inherent functions
    pub fn image_types(&self) -> Vec<(String, TyId, Vec<(String, InstId)>)> {
        let tcx = self.tcx;
        let mut v = vec![];
        for ch in tcx.module_children_local(rustc_hir::def_id::CRATE_DEF_ID) {
            if !ch.vis.is_public() { continue; }
            let rustc_hir::def::Res::Def(DefKind::Struct, d) = ch.res else { continue };
            let n = ch.ident.name.to_string();
            if !n.contains("Image") { continue; }
            for (tn, el) in [("u8", tcx.types.u8), ("u16", tcx.types.u16)] {
                let inst_args = |d: DefId| ty::GenericArgs::for_item(tcx, d, |p, _| match p.kind { ty::GenericParamDefKind::Lifetime => tcx.lifetimes.re_erased.into(), _ => el.into() });
                let t = self.ty(self.norm(tcx.type_of(d).instantiate(tcx, inst_args(d)).skip_norm_wip()));
                let mut ms = vec![];
                for &imp in tcx.inherent_impls(d) {
                    for a in tcx.associated_items(imp).in_definition_order() {
                        if !a.is_fn() || !tcx.visibility(a.def_id).is_public() { continue; }
                        let g = tcx.generics_of(a.def_id);
                        if g.own_params.iter().any(|p| !matches!(p.kind, ty::GenericParamDefKind::Lifetime)) { continue; }
                        ms.push((a.name().to_string(), self.inst(Instance::new_raw(a.def_id, inst_args(a.def_id)))));
                    }
                }
                v.push((format!("{n}<{tn}>"), t, ms));
            }
        }
        v
    }
    pub fn resolve_closure_mut(&self, t: TyId) -> Option<(InstId, ty::ClosureKind)> {
        match self.ty_of(t).kind() {
            ty::Closure(d, args) => {
                let k = args.as_closure().kind();
                Some((self.inst(Instance::resolve_closure(self.tcx, *d, args, k)), k))
            }
            ty::FnDef(d, args) => {
                let i = Instance::expect_resolve(self.tcx, self.env, *d, args.no_bound_vars().unwrap(), DUMMY_SP);
                Some((self.inst(i), ty::ClosureKind::Fn))
            }
            _ => None,
        }
    }

    /// body of an intrinsic that has a Rust fallback
    pub fn intrinsic_fallback(&self, info: &InstInfo) -> Option<Rc<Body>> {
        let id = self.inst_by_info(info)?;
        if let Some(b) = self.bodies.borrow().get(&id) { return b.clone(); }
        let inst = self.instance(id);
        let d = inst.def_id();
        if self.tcx.intrinsic(d).map(|i| i.must_be_overridden).unwrap_or(true) || !self.tcx.is_mir_available(d) { return None; }
        let i2 = Instance { def: InstanceKind::Item(d), args: inst.args };
        let b = Some(Rc::new(self.lower(id, i2)));
        self.bodies.borrow_mut().insert(id, b.clone());
        b
    }
    fn inst_by_info(&self, info: &InstInfo) -> Option<InstId> {
        self.insts.borrow().iter().position(|x| x.1.as_ref().map(|i| std::ptr::eq(&**i, info)).unwrap_or(false)).map(|x| x as u32)
    }
    /// Item type of an iterator type
    pub fn iter_item(&self, t: TyId) -> Option<TyId> {
        let tcx = self.tcx;
        let ty = self.ty_of(t);
        let tr = match tcx.get_diagnostic_item(rustc_span::sym::Iterator) { Some(d) => d, None => return None };
        let mut cands = vec![tr];
        // rayon
        if let ty::Adt(def, _) = ty.kind() {
            let k = def.did().krate;
            if tcx.crate_name(k).as_str() == "rayon" {
                cands.clear();
                for &d in tcx.traits(k) { if tcx.item_name(d).as_str() == "ParallelIterator" { cands.push(d); } }
            }
        }
        for tr in cands {
            let item = tcx.associated_items(tr).in_definition_order().find(|a| a.name().as_str() == "Item")?.def_id;
            let p = Ty::new_projection(tcx, ty::IsRigid::No, item, [ty]);
            if let Ok(n) = tcx.try_normalize_erasing_regions(self.env, ty::Unnormalized::new(p)) { return Some(self.ty(n)); }
        }
        None
    }

    pub fn arg_names(&self, i: InstId) -> Vec<String> { self.tcx.fn_arg_idents(self.def_of(i)).iter().map(|x| x.map(|x| x.name.to_string()).unwrap_or_default()).collect() }
    pub fn is_mut_ref(&self, t: TyId) -> bool { matches!(self.ty_of(t).kind(), ty::Ref(_, _, m) if m.is_mut()) }
    /// element type of `&[T]` or of an enum whose first payload is a slice reference
    pub fn slice_elem_ty(&self, t: TyId) -> Option<TyId> {
        match &self.tyinfo(t).kind {
            TyK::Ptr { pointee, .. } => match &self.tyinfo(*pointee).kind { TyK::Slice { elem } => Some(*elem), _ => None },
            TyK::Enum { layout, .. } => layout.variants.iter().find(|v| v.0 == "Borrowed").and_then(|v| v.1.first()).and_then(|f| self.slice_elem_ty(f.1)),
            _ => None,
        }
    }

    /// Resolve a virtual call: trait method `callee` (Virtual instance) on the concrete type `t`.
    pub fn resolve_virtual(&self, callee: InstId, t: TyId) -> Option<InstId> {
        let inst = self.instance(callee);
        let conc = self.ty_of(t);
        let mut args: Vec<ty::GenericArg<'tcx>> = inst.args.iter().collect();
        if args.is_empty() { return None; }
        args[0] = conc.into();
        let args = self.tcx.mk_args(&args);
        let i = Instance::try_resolve(self.tcx, self.env, inst.def_id(), args).ok()??;
        Some(self.inst(i))
    }

    pub fn drop_inst(&self, t: Ty<'tcx>) -> Option<InstId> {
        if !t.needs_drop(self.tcx, self.env) { return None; }
        Some(self.inst(Instance::resolve_drop_glue(self.tcx, t)))
    }

    pub fn body(&self, id: InstId) -> Option<Rc<Body>> {
        if let Some(b) = self.bodies.borrow().get(&id) { return b.clone(); }
        let inst = self.instance(id);
        let ok = match inst.def {
            InstanceKind::Item(d) => !self.tcx.is_foreign_item(d) && self.tcx.is_mir_available(d),
            InstanceKind::Shim(_) => true,
            _ => false,
        };
        let b = if ok { Some(Rc::new(self.lower(id, inst))) } else { None };
        self.bodies.borrow_mut().insert(id, b.clone());
        b
    }

    fn lower(&self, id: InstId, inst: Instance<'tcx>) -> Body {
        let tcx = self.tcx;
        let raw = tcx.instance_mir(inst.def);
        let body: mir::Body<'tcx> = inst.instantiate_mir_and_normalize_erasing_regions(tcx, self.env, EarlyBinder::bind(tcx, raw.clone()));
        let locals = body.local_decls.iter().map(|d| self.ty(d.ty)).collect::<Vec<_>>();
        let sm = tcx.sess.source_map();
        let mut blocks = vec![];
        let file = {
            let f = sm.lookup_char_pos(body.span.lo());
            format!("{}", f.file.name.prefer_local_unconditionally())
        };
        let line_of = |sp: rustc_span::Span| -> u32 { if sp.is_dummy() { 0 } else { sm.lookup_char_pos(sp.source_callsite().lo()).line as u32 } };
        for bb in body.basic_blocks.iter() {
            let mut stmts = vec![];
            if !bb.is_cleanup {
                for s in &bb.statements {
                    if let Some(x) = self.stmt(&body, s) { stmts.push((x, line_of(s.source_info.span))); }
                }
            }
            let t = bb.terminator();
            let term = if bb.is_cleanup { Term::Diverge("cleanup") } else { self.term(&body, t, &mut stmts, line_of(t.source_info.span)) };
            blocks.push(Block { stmts, term, line: line_of(t.source_info.span), cleanup: bb.is_cleanup });
        }
        let (ipdom, loops) = cfg_info(&blocks);
        Body { inst: id, name: tcx.def_path_str(inst.def_id()), file, locals, nargs: body.arg_count, spread: body.spread_arg.map(|l| l.as_u32()), blocks, ipdom, loops }
    }

    fn place(&self, body: &mir::Body<'tcx>, p: &mir::Place<'tcx>) -> Place {
        let tcx = self.tcx;
        let cx = ty::layout::LayoutCx::new(tcx, self.env);
        let mut pt = mir::PlaceTy::from_ty(body.local_decls[p.local].ty);
        let mut projs: Vec<Proj> = vec![];
        let mut array_len = None;
        for e in p.projection.iter() {
            array_len = None;
            match e {
                mir::ProjectionElem::Deref => { let fat = pt.ty.builtin_deref(true).map(|x| self.is_fat(x)).unwrap_or(false); projs.push(Proj::Deref(fat)) }
                mir::ProjectionElem::Field(f, _) => {
                    let lay = self.layout(pt.ty).expect("layout");
                    let lay = match pt.variant_index { Some(v) => lay.for_variant(&cx, v), None => lay };
                    let off = lay.fields.offset(f.as_usize()).bytes();
                    if let Some(Proj::Off(o)) = projs.last_mut() { *o += off; } else if off != 0 { projs.push(Proj::Off(off)); }
                }
                mir::ProjectionElem::Downcast(..) => {}
                mir::ProjectionElem::Index(l) => {
                    let ety = pt.ty.builtin_index().unwrap();
                    let st = self.layout(ety).unwrap().size.bytes();
                    projs.push(Proj::Index { local: l.as_u32(), stride: st });
                }
                mir::ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    let ety = pt.ty.builtin_index().unwrap();
                    let st = self.layout(ety).unwrap().size.bytes();
                    if from_end {
                        if let ty::Array(_, n) = pt.ty.kind() {
                            let n = n.try_to_target_usize(tcx).unwrap();
                            projs.push(Proj::Off((n - offset) * st));
                        } else { projs.push(Proj::ConstEnd { off: offset, stride: st }); }
                    } else { projs.push(Proj::Off(offset * st)); }
                }
                mir::ProjectionElem::Subslice { from, to, from_end } => {
                    let ety = pt.ty.builtin_index().unwrap();
                    let st = self.layout(ety).unwrap().size.bytes();
                    projs.push(Proj::Subslice { from, to, from_end, stride: st });
                }
                mir::ProjectionElem::OpaqueCast(_) | mir::ProjectionElem::UnwrapUnsafeBinder(_) => {}
                #[allow(unreachable_patterns)]
                _ => {}
            }
            pt = pt.projection_ty(tcx, e);
            pt.ty = self.norm(pt.ty);
        }
        if let ty::Array(_, n) = pt.ty.kind() { array_len = n.try_to_target_usize(tcx); }
        Place { local: p.local.as_u32(), projs, ty: self.ty(pt.ty), array_len }
    }

    fn operand(&self, body: &mir::Body<'tcx>, o: &mir::Operand<'tcx>) -> Operand {
        match o {
            mir::Operand::Copy(p) | mir::Operand::Move(p) => Operand::Copy(self.place(body, p)),
            mir::Operand::Constant(c) => Operand::Const(self.constant(&c.const_)),
            mir::Operand::RuntimeChecks(_) => Operand::Const(CVal { bytes: Rc::new(vec![0]), relocs: vec![], ty: self.ty(self.tcx.types.bool), init: true }),
        }
    }

    fn constant(&self, c: &mir::Const<'tcx>) -> CVal {
        let t = c.ty();
        let tid = self.ty(t);
        let size = self.layout(t).map(|l| l.size.bytes()).unwrap_or(0);
        let v = match c.eval(self.tcx, self.env, DUMMY_SP) { Ok(v) => v, Err(_) => return CVal { bytes: Rc::new(vec![0; size as usize]), relocs: vec![], ty: tid, init: false } };
        self.constval(v, tid, size)
    }

    fn constval(&self, v: ConstValue, tid: TyId, size: u64) -> CVal {
        match v {
            ConstValue::ZeroSized => CVal { bytes: Rc::new(vec![]), relocs: vec![], ty: tid, init: true },
            ConstValue::Scalar(Scalar::Int(i)) => {
                let b = i.to_bits_unchecked().to_le_bytes();
                CVal { bytes: Rc::new(b[..i.size().bytes() as usize].to_vec()), relocs: vec![], ty: tid, init: true }
            }
            ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                let (prov, off) = p.into_raw_parts();
                CVal { bytes: Rc::new(vec![0; 8]), relocs: vec![(0, self.cptr(prov.alloc_id(), off.bytes()))], ty: tid, init: true }
            }
            ConstValue::Slice { alloc_id, meta } => {
                let mut b = vec![0u8; 8];
                b.extend_from_slice(&meta.to_le_bytes());
                CVal { bytes: Rc::new(b), relocs: vec![(0, self.cptr(alloc_id, 0))], ty: tid, init: true }
            }
            ConstValue::Indirect { alloc_id, offset } => {
                let a = self.tcx.global_alloc(alloc_id).unwrap_memory();
                let a = a.inner();
                let o = offset.bytes();
                let bytes = a.inspect_with_uninit_and_ptr_outside_interpreter(o as usize..(o + size) as usize).to_vec();
                let mut relocs = vec![];
                for (ro, prov) in a.provenance().ptrs().iter() {
                    let r = ro.bytes();
                    if r >= o && r + 8 <= o + size {
                        let k = (r - o) as usize;
                        let add = u64::from_le_bytes(bytes[k..k + 8].try_into().unwrap());
                        relocs.push((r - o, self.cptr(prov.alloc_id(), add)));
                    }
                }
                CVal { bytes: Rc::new(bytes), relocs, ty: tid, init: true }
            }
        }
    }

    fn cptr(&self, a: AllocId, off: u64) -> CPtr {
        match self.tcx.global_alloc(a) {
            GlobalAlloc::Function { instance } => CPtr::Fn(self.inst(instance)),
            GlobalAlloc::VTable(t, _) => CPtr::VTable(self.ty(t)),
            GlobalAlloc::Static(d) => {
                let name = self.tcx.def_path_str(d);
                let mutable = self.tcx.is_mutable_static(d);
                match self.tcx.eval_static_initializer(d) {
                    Ok(m) if !self.tcx.is_foreign_item(d) => CPtr::Mem(self.static_mem(a, m.inner(), name, mutable), off),
                    _ => CPtr::Static(name, mutable),
                }
            }
            GlobalAlloc::Memory(m) => CPtr::Mem(self.static_mem(a, m.inner(), String::new(), false), off),
            _ => CPtr::Static("typeid".into(), false),
        }
    }

    fn static_mem(&self, id: AllocId, a: &mir::interpret::Allocation, name: String, mutable: bool) -> usize {
        if let Some(&i) = self.static_map.borrow().get(&id) { return i; }
        let len = a.len();
        let bytes = a.inspect_with_uninit_and_ptr_outside_interpreter(0..len).to_vec();
        let ix = { let mut s = self.statics.borrow_mut(); s.push(Rc::new(StaticMem { bytes: Rc::new(bytes.clone()), relocs: vec![], name: name.clone(), mutable })); s.len() - 1 };
        self.static_map.borrow_mut().insert(id, ix);
        let mut relocs = vec![];
        for (ro, prov) in a.provenance().ptrs().iter() {
            let k = ro.bytes() as usize;
            let add = u64::from_le_bytes(bytes[k..k + 8].try_into().unwrap());
            relocs.push((ro.bytes(), self.cptr(prov.alloc_id(), add)));
        }
        self.statics.borrow_mut()[ix] = Rc::new(StaticMem { bytes: Rc::new(bytes), relocs, name, mutable });
        ix
    }

    fn stmt(&self, body: &mir::Body<'tcx>, s: &mir::Statement<'tcx>) -> Option<Stmt> {
        Some(match &s.kind {
            mir::StatementKind::Assign(b) => {
                let (p, r) = &**b;
                Stmt::Assign(self.place(body, p), self.rvalue(body, r)?)
            }
            mir::StatementKind::SetDiscriminant { place, variant_index } => Stmt::SetDiscr(self.place(body, place), variant_index.as_usize()),
            mir::StatementKind::StorageDead(l) => Stmt::Dead(l.as_u32()),
            mir::StatementKind::StorageLive(l) => Stmt::Live(l.as_u32()),
            mir::StatementKind::Intrinsic(i) => match &**i {
                mir::NonDivergingIntrinsic::Assume(o) => Stmt::Assume(self.operand(body, o)),
                mir::NonDivergingIntrinsic::CopyNonOverlapping(c) => {
                    let ety = c.src.ty(&body.local_decls, self.tcx).builtin_deref(true).unwrap();
                    let sz = self.layout(ety).unwrap().size.bytes();
                    Stmt::CopyNonOverlapping(self.operand(body, &c.src), self.operand(body, &c.dst), self.operand(body, &c.count), sz)
                }
            },
            _ => return None,
        })
    }

    fn rvalue(&self, body: &mir::Body<'tcx>, r: &mir::Rvalue<'tcx>) -> Option<Rvalue> {
        let tcx = self.tcx;
        Some(match r {
            mir::Rvalue::Use(o, ..) => Rvalue::Use(self.operand(body, o)),
            mir::Rvalue::Repeat(o, n) => {
                let t = o.ty(&body.local_decls, tcx);
                Rvalue::Repeat(self.operand(body, o), n.try_to_target_usize(tcx).unwrap_or(0), self.ty(t))
            }
            mir::Rvalue::Ref(_, _, p) | mir::Rvalue::RawPtr(_, p) => Rvalue::AddrOf(self.place(body, p)),
            mir::Rvalue::Reborrow(_, _, p) => Rvalue::AddrOf(self.place(body, p)),
            mir::Rvalue::Cast(k, o, t) => {
                let from = o.ty(&body.local_decls, tcx);
                let (f, tt) = (self.ty(from), self.ty(*t));
                let ck = match k {
                    mir::CastKind::IntToInt => CastK::IntToInt,
                    mir::CastKind::FloatToInt => CastK::FloatToInt,
                    mir::CastKind::FloatToFloat => CastK::FloatToFloat,
                    mir::CastKind::IntToFloat => CastK::IntToFloat,
                    mir::CastKind::PtrToPtr => CastK::PtrToPtr,
                    mir::CastKind::FnPtrToPtr => CastK::FnPtrToPtr,
                    mir::CastKind::Transmute | mir::CastKind::BoxDerefTransmute => CastK::Transmute,
                    mir::CastKind::Subtype => CastK::Noop,
                    mir::CastKind::PointerExposeProvenance => CastK::ExposeAddr,
                    mir::CastKind::PointerWithExposedProvenance => CastK::FromExposed,
                    mir::CastKind::PointerCoercion(pc, _) => match pc {
                        ty::adjustment::PointerCoercion::ReifyFnPointer(_) => match from.kind() {
                            ty::FnDef(d, a) => {
                                let i = Instance::resolve_for_fn_ptr(tcx, self.env, *d, a.no_bound_vars().unwrap()).expect("reify");
                                CastK::Reify(self.inst(i))
                            }
                            _ => CastK::Noop,
                        },
                        ty::adjustment::PointerCoercion::ClosureFnPointer(_) => match from.kind() {
                            ty::Closure(d, a) => CastK::Reify(self.inst(Instance::resolve_closure(tcx, *d, a, ty::ClosureKind::FnOnce))),
                            _ => CastK::Noop,
                        },
                        ty::adjustment::PointerCoercion::Unsize => self.unsize(from, *t),
                        _ => CastK::Noop,
                    },
                };
                Rvalue::Cast(ck, self.operand(body, o), f, tt)
            }
            mir::Rvalue::BinaryOp(op, b) => {
                use mir::BinOp as B;
                let bo = match op {
                    B::Add | B::AddUnchecked => BinOp::Add,
                    B::Sub | B::SubUnchecked => BinOp::Sub,
                    B::Mul | B::MulUnchecked => BinOp::Mul,
                    B::AddWithOverflow => BinOp::AddO,
                    B::SubWithOverflow => BinOp::SubO,
                    B::MulWithOverflow => BinOp::MulO,
                    B::Div => BinOp::Div, B::Rem => BinOp::Rem, B::BitXor => BinOp::Xor, B::BitAnd => BinOp::And, B::BitOr => BinOp::Or,
                    B::Shl | B::ShlUnchecked => BinOp::Shl, B::Shr | B::ShrUnchecked => BinOp::Shr,
                    B::Eq => BinOp::Eq, B::Lt => BinOp::Lt, B::Le => BinOp::Le, B::Ne => BinOp::Ne, B::Ge => BinOp::Ge, B::Gt => BinOp::Gt, B::Cmp => BinOp::Cmp, B::Offset => BinOp::Offset,
                };
                let t = b.0.ty(&body.local_decls, tcx);
                Rvalue::Bin(bo, self.operand(body, &b.0), self.operand(body, &b.1), self.ty(t))
            }
            mir::Rvalue::UnaryOp(op, o) => {
                let t = o.ty(&body.local_decls, tcx);
                let u = match op { mir::UnOp::Not => UnOp::Not, mir::UnOp::Neg => UnOp::Neg, mir::UnOp::PtrMetadata => UnOp::PtrMeta };
                Rvalue::Un(u, self.operand(body, o), self.ty(t))
            }
            mir::Rvalue::Discriminant(p) => Rvalue::Discr(self.place(body, p)),
            mir::Rvalue::Aggregate(k, ops) => {
                let cx = ty::layout::LayoutCx::new(tcx, self.env);
                let t = r.ty(&body.local_decls, tcx);
                let lay = self.layout(t).expect("agg layout");
                match &**k {
                    mir::AggregateKind::RawPtr(..) => {
                        let v: Vec<_> = ops.iter().map(|o| self.operand(body, o)).collect();
                        Rvalue::RawPtr(v[0].clone(), v[1].clone())
                    }
                    mir::AggregateKind::Adt(d, v, _, _, af) => {
                        let isenum = tcx.adt_def(*d).is_enum();
                        let vl = if isenum { lay.for_variant(&cx, *v) } else { lay };
                        let fs = ops.iter_enumerated().map(|(i, o)| { let i = af.unwrap_or(i); (vl.fields.offset(i.as_usize()).bytes(), self.operand(body, o)) }).collect();
                        Rvalue::Aggregate(fs, self.ty(t), if isenum { Some(v.as_usize()) } else { None })
                    }
                    _ => {
                        let fs = ops.iter_enumerated().map(|(i, o)| (lay.fields.offset(i.as_usize()).bytes(), self.operand(body, o))).collect();
                        Rvalue::Aggregate(fs, self.ty(t), None)
                    }
                }
            }
            mir::Rvalue::CopyForDeref(p) => Rvalue::Use(Operand::Copy(self.place(body, p))),
            mir::Rvalue::WrapUnsafeBinder(o, _) => Rvalue::Use(self.operand(body, o)),
            mir::Rvalue::ThreadLocalRef(d) => {
                Rvalue::Use(Operand::Const(CVal { bytes: Rc::new(vec![0; 8]), relocs: vec![(0, CPtr::Static(tcx.def_path_str(*d), true))], ty: self.ty(tcx.types.usize), init: true }))
            }
        })
    }

    fn unsize(&self, from: Ty<'tcx>, to: Ty<'tcx>) -> CastK {
        let tcx = self.tcx;
        let (a, b) = match (from.builtin_deref(true), to.builtin_deref(true)) {
            (Some(a), Some(b)) => (a, b),
            _ => {
                // Box<T> -> Box<dyn Trait> and similar: take the pointee from the first generic type argument
                match (from.kind(), to.kind()) {
                    (ty::Adt(_, x), ty::Adt(_, y)) => (x.type_at(0), y.type_at(0)),
                    _ => return CastK::Noop,
                }
            }
        };
        let (sa, sb) = tcx.struct_lockstep_tails_for_codegen(a, b, self.env);
        match (sa.kind(), sb.kind()) {
            (ty::Array(_, n), ty::Slice(_)) => CastK::Unsize { len: n.try_to_target_usize(tcx), vtable: None },
            (_, ty::Dynamic(..)) if !matches!(sa.kind(), ty::Dynamic(..)) => CastK::Unsize { len: None, vtable: Some(self.ty(sa)) },
            _ => CastK::Noop,
        }
    }

    fn term(&self, body: &mir::Body<'tcx>, t: &mir::Terminator<'tcx>, stmts: &mut Vec<(Stmt, u32)>, line: u32) -> Term {
        let tcx = self.tcx;
        use mir::TerminatorKind as K;
        match &t.kind {
            K::Goto { target, .. } => Term::Goto(target.as_u32()),
            K::SwitchInt { discr, targets } => {
                let ty = discr.ty(&body.local_decls, tcx);
                Term::Switch(self.operand(body, discr), self.ty(ty), targets.iter().map(|(v, b)| (v, b.as_u32())).collect(), targets.otherwise().as_u32())
            }
            K::Return => Term::Return,
            K::Unreachable => Term::Unreachable,
            K::UnwindResume | K::UnwindTerminate(_) => Term::Diverge("unwind"),
            K::Drop { place, target, .. } => {
                let pt = place.ty(&body.local_decls, tcx).ty;
                match self.drop_inst(pt) {
                    None => Term::Goto(target.as_u32()),
                    Some(i) => Term::Drop(self.place(body, place), Some(i), target.as_u32()),
                }
            }
            K::Call { func, args, destination, target, .. } => {
                let fty = func.ty(&body.local_decls, tcx);
                let mut rust_call = false;
                let callee = match fty.kind() {
                    ty::FnDef(d, a) => {
                        let sig = tcx.fn_sig(*d).skip_binder();
                        rust_call = sig.abi() == rustc_abi::ExternAbi::RustCall;
                        let i = Instance::expect_resolve(tcx, self.env, *d, a.no_bound_vars().unwrap(), DUMMY_SP);
                        Callee::Inst(self.inst(i))
                    }
                    _ => Callee::Dyn(self.operand(body, func)),
                };
                let ops: Vec<_> = args.iter().map(|a| self.operand(body, &a.node)).collect();
                let arg_tys = args.iter().map(|a| self.ty(a.node.ty(&body.local_decls, tcx))).collect();
                let _ = (&stmts, line);
                Term::Call { callee, args: ops, arg_tys, dest: self.place(body, destination), target: target.map(|b| b.as_u32()), rust_call }
            }
            K::Assert { cond, expected, target, msg, .. } => Term::Assert { cond: self.operand(body, cond), expected: *expected, target: target.as_u32(), msg: format!("{:?}", msg).chars().take(60).collect() },
            K::FalseEdge { real_target, .. } | K::FalseUnwind { real_target, .. } => Term::Goto(real_target.as_u32()),
            K::InlineAsm { targets, .. } => Term::Asm(targets.first().map(|b| b.as_u32()).unwrap_or(0)),
            _ => Term::Diverge("unsupported terminator"),
        }
    }
}

pub fn succs(t: &Term) -> Vec<u32> {
    match t {
        Term::Goto(b) | Term::Asm(b) => vec![*b],
        Term::Switch(_, _, ts, o) => { let mut v: Vec<u32> = ts.iter().map(|x| x.1).collect(); v.push(*o); v }
        Term::Drop(_, _, b) => vec![*b],
        Term::Call { target: Some(b), .. } => vec![*b],
        Term::Assert { target, .. } => vec![*target],
        _ => vec![],
    }
}

fn cfg_info(blocks: &[Block]) -> (Vec<u32>, Vec<Option<Rc<Vec<bool>>>>) {
    let n = blocks.len();
    let exit = n;
    let sc: Vec<Vec<usize>> = blocks.iter().map(|b| {
        let mut v: Vec<usize> = succs(&b.term).into_iter().map(|x| x as usize).collect();
        if matches!(b.term, Term::Return) { v.push(exit); }
        v.sort(); v.dedup(); v
    }).collect();
    // reverse graph from exit: post-dominators by iterative set algorithm on RPO of the reversed CFG
    let mut preds: Vec<Vec<usize>> = vec![vec![]; n + 1];
    for (i, s) in sc.iter().enumerate() { for &x in s { preds[x].push(i); } }
    // order: DFS postorder on reversed graph from exit
    let mut order = vec![]; let mut seen = vec![false; n + 1];
    let mut st = vec![(exit, 0usize)]; seen[exit] = true;
    while let Some((b, k)) = st.pop() {
        if k < preds[b].len() { st.push((b, k + 1)); let p = preds[b][k]; if !seen[p] { seen[p] = true; st.push((p, 0)); } } else { order.push(b); }
    }
    order.reverse();
    let mut rpo = vec![usize::MAX; n + 1];
    for (i, &b) in order.iter().enumerate() { rpo[b] = i; }
    let mut ip = vec![usize::MAX; n + 1];
    ip[exit] = exit;
    let mut ch = true;
    while ch {
        ch = false;
        for &b in order.iter().skip(1) {
            let mut nd = usize::MAX;
            for &s in &sc[b] {
                if ip[s] == usize::MAX || rpo[s] == usize::MAX { continue; }
                nd = if nd == usize::MAX { s } else {
                    let (mut a, mut c) = (nd, s);
                    while a != c { while rpo[a] > rpo[c] { a = ip[a]; } while rpo[c] > rpo[a] { c = ip[c]; } }
                    a
                };
            }
            if nd != ip[b] { ip[b] = nd; ch = true; }
        }
    }
    // dominators + natural loops
    let mut fpo = vec![]; let mut seen = vec![false; n];
    let mut st = vec![(0usize, 0usize)]; if n > 0 { seen[0] = true; }
    while let Some((b, k)) = st.pop() {
        if k < sc[b].len() { st.push((b, k + 1)); let p = sc[b][k]; if p < n && !seen[p] { seen[p] = true; st.push((p, 0)); } } else { fpo.push(b); }
    }
    fpo.reverse();
    let mut frpo = vec![usize::MAX; n];
    for (i, &b) in fpo.iter().enumerate() { frpo[b] = i; }
    let mut idom = vec![usize::MAX; n];
    if n > 0 { idom[0] = 0; }
    let mut ch = true;
    while ch {
        ch = false;
        for &b in fpo.iter().skip(1) {
            let mut nd = usize::MAX;
            for &p in &preds[b] {
                if p >= n || idom[p] == usize::MAX { continue; }
                nd = if nd == usize::MAX { p } else {
                    let (mut a, mut c) = (nd, p);
                    while a != c { while frpo[a] > frpo[c] { a = idom[a]; } while frpo[c] > frpo[a] { c = idom[c]; } }
                    a
                };
            }
            if nd != idom[b] { idom[b] = nd; ch = true; }
        }
    }
    let dom = |a: usize, mut b: usize| -> bool { if frpo[b] == usize::MAX { return false; } loop { if a == b { return true; } if b == 0 { return false; } b = idom[b]; } };
    let mut loops: Vec<Option<Rc<Vec<bool>>>> = vec![None; n];
    let mut acc: HashMap<usize, Vec<bool>> = HashMap::new();
    for b in 0..n {
        if frpo[b] == usize::MAX { continue; }
        for &s in &sc[b] {
            if s < n && dom(s, b) {
                let set = acc.entry(s).or_insert_with(|| { let mut v = vec![false; n]; v[s] = true; v });
                let mut w = vec![b];
                while let Some(x) = w.pop() { if !set[x] { set[x] = true; for &p in &preds[x] { if frpo[p] != usize::MAX { w.push(p); } } } }
            }
        }
    }
    for (h, v) in acc { loops[h] = Some(Rc::new(v)); }
    (ip.into_iter().take(n).map(|x| if x == usize::MAX { n as u32 } else { x as u32 }).collect(), loops)
}
#[allow(unused)]
fn _unused(_: FieldIdx, _: Size, _: FieldsShape<FieldIdx>) {}
