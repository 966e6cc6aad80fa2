//! Calls: models of iterator adaptors, slices and primitive methods; everything else is interpreted through its MIR.
use crate::interp::*;
use crate::ir::*;
use crate::ops::*;
use crate::poly::{self, Poly};
use crate::val::*;
use std::rc::Rc;

fn base(n: &str) -> &str {
    // last path segment without generic arguments
    let n = n.trim();
    let mut depth = 0i32;
    let b = n.as_bytes();
    let mut i = b.len();
    while i > 0 {
        i -= 1;
        match b[i] { b'>' => depth += 1, b'<' => depth -= 1, b':' if depth == 0 => return &n[i + 1..], _ => {} }
    }
    n
}

impl<'a, 'tcx> Interp<'a, 'tcx> {
    pub fn sv(&self, v: &Val) -> V { read_scalar(&v.e, 0, v.size) }
    fn ptr_of(&self, v: &Val) -> R<PtrV> { match read_scalar(&v.e, 0, 8) { V::Ptr(p) => Ok((*p).clone()), V::C(_) => Ok(PtrV { alloc: u32::MAX, off: Poly::k(0) }), x => abort(format!("expected a pointer, got {} in {}", short(&x), self.loc())) } }
    fn len_of(&self, v: &Val) -> R<Poly> { match to_poly(&read_scalar(&v.e, 8, 8), 64, false) { Some(p) => Ok(p), None => abort(format!("slice length unknown in {}", self.loc())) } }
    fn seq_arg(&self, v: &Val) -> Option<Rc<Seq>> { match v.e.first() { Some(Ent { v: V::Seq(s), .. }) => Some(s.clone()), _ => None } }
    fn seq_val(&self, size: u64, s: Seq) -> Val { let sz = size.max(8); Val { size, e: vec![Ent { off: 0, size: sz, v: V::Seq(Rc::new(s)) }] } }

    /// (instance, takes the tuple expanded)
    pub fn call_closure(&mut self, st: &mut State, cty: TyId, env: &Val, env_ref: Option<PtrV>, args: Vec<Val>, arg_tys: &[TyId], ret: u64) -> R<Option<Val>> {
        // reference to a closure
        if let TyK::Ptr { pointee, .. } = self.cx.tyinfo(cty).kind {
            let p = self.ptr_of(env).or_else(|e| if self.cx.tyinfo(pointee).size == 0 { Ok(PtrV { alloc: u32::MAX, off: Poly::k(0) }) } else { Err(e) })?;
            let inner = if p.alloc == u32::MAX { Val::unit() } else { self.read(st, &p, self.cx.tyinfo(pointee).size)? };
            return self.call_closure(st, pointee, &inner, Some(p), args, arg_tys, ret);
        }
        if self.cx.tyinfo(cty).kind == TyK::FnPtr { let V::Fn(i) = self.sv(env) else { return abort("fn pointer") }; return self.call(st, i, args, arg_tys, false, ret); }
        let Some((inst, kind)) = self.cx.resolve_closure_mut(cty) else { return abort("callback type") };
        if self.cx.tyinfo(cty).kind == TyK::FnDef { return self.call(st, inst, args, arg_tys, false, ret); }
        let body = match self.cx.body(inst) { Some(b) => b, None => return abort("closure body") };
        let by_value = matches!(kind, rustc_middle::ty::ClosureKind::FnOnce);
        let mut a = vec![];
        let mut tmp = None;
        if by_value { a.push(env.clone()); } else {
            let p = match env_ref { Some(p) if p.alloc != u32::MAX => p, _ => { let s = st.alloc_val(env.clone()); tmp = Some(s); PtrV { alloc: s, off: Poly::k(0) } } };
            a.push(Val::scalar(8, V::Ptr(Rc::new(p))));
        }
        a.extend(args);
        let r = self.run_body(st, body, a)?;
        if let Some(t) = tmp { if (t as usize) < st.slots.len() { st.slots[t as usize] = Slot::Free; } while matches!(st.slots.last(), Some(Slot::Free)) { st.slots.pop(); } }
        Ok(r)
    }

    fn seq_len(&self, s: &Seq) -> Poly { s.end.sub(&s.pos) }

    /// element i (absolute position) of a sequence
    fn seq_item(&mut self, st: &mut State, s: &Seq, i: &Poly) -> R<Val> {
        Ok(match &s.k {
            SeqK::Iter { ptr, esz, copied } => {
                let p = PtrV { alloc: ptr.alloc, off: ptr.off.add(&i.scale(*esz as i64)) };
                if *copied { self.read(st, &p, *esz)? } else { Val::scalar(8, V::Ptr(Rc::new(p))) }
            }
            SeqK::Chunks { ptr, esz, n, total, exact } => {
                let Some(o) = i.mul(n) else { return abort("chunk offset") };
                let p = PtrV { alloc: ptr.alloc, off: ptr.off.add(&o.scale(*esz as i64)) };
                let len = if *exact { n.clone() } else {
                    let rest = total.sub(&o);
                    if poly::nonneg(&rest.sub(n), &st.facts) { n.clone() } else if poly::nonneg(&n.sub(&rest), &st.facts) { rest } else { return abort(format!("length of the last chunk in {}", self.loc())) }
                };
                Val::pair(V::Ptr(Rc::new(p)), pv(len))
            }
            SeqK::Windows { ptr, esz, n } => Val::pair(V::Ptr(Rc::new(PtrV { alloc: ptr.alloc, off: ptr.off.add(&i.scale(*esz as i64)) })), pv(n.clone())),
            SeqK::Range { bytes } => Val::scalar(*bytes, norm_p(i.clone(), (*bytes * 8) as u32)),
            SeqK::Zip(a, b, t) => {
                let rel = i.sub(&s.pos);
                let _ = rel;
                let (x, y) = (self.seq_item(st, a, &a.pos.add(i))?, self.seq_item(st, b, &b.pos.add(i))?);
                self.tuple(*t, vec![x, y])
            }
            SeqK::Enumerate(a, t) => {
                let x = self.seq_item(st, a, &a.pos.add(i))?;
                self.tuple(*t, vec![Val::scalar(8, pv(i.clone())), x])
            }
            SeqK::Rev(a) => { let j = a.end.addc(-1).sub(i); self.seq_item(st, a, &j)? }
            SeqK::StepBy(a, n) => { let j = a.pos.add(&i.scale(*n)); self.seq_item(st, a, &j)? }
            SeqK::Map(a, f, env, t, _) => {
                let x = self.seq_item(st, a, &a.pos.add(i))?;
                let env = env.clone();
                let rt = self.cx.tyinfo(*t).size;
                match self.call_closure(st, *f, &env, None, vec![x], &[], rt)? { Some(v) => v, None => return abort("diverging map callback") }
            }
        })
    }
    fn tuple(&self, t: TyId, vs: Vec<Val>) -> Val {
        let ti = self.cx.tyinfo(t);
        let mut e = vec![];
        if let TyK::Struct { fields, .. } = &ti.kind { for (f, v) in fields.iter().zip(vs) { write_ents(&mut e, f.0, v.size, &v.e); } }
        Val { size: ti.size, e }
    }

    /// Option<item> of type `ot`, Some iff cond
    fn option(&mut self, st: &mut State, ot: TyId, item: Val, cond: &CondV) -> R<Val> {
        let ti = self.cx.tyinfo(ot);
        let TyK::Enum { layout, .. } = &ti.kind else { return abort(format!("option type {}", ti.name)) };
        let lay = layout.clone();
        let dec = cond_poly(cond, &st.facts);
        let foff = lay.variants[1].1.first().map(|x| x.0).unwrap_or(0);
        let mut e: Vec<Ent> = vec![];
        if dec != Some(false) { write_ents(&mut e, foff, item.size, &item.e); }
        let a = st.alloc_val(Val { size: ti.size, e });
        let p = PtrV { alloc: a, off: Poly::k(0) };
        match dec {
            Some(b) => { self.write_tag(st, &p, &lay, b as usize)?; if !b { if let Tag::Niche { .. } = lay.tag {} } }
            None => match &lay.tag {
                Tag::Direct { off, size } => { let (o, sz) = (*off, *size); self.write(st, &PtrV { alloc: a, off: Poly::k(o as i64) }, &Val::scalar(sz, V::Cond(Rc::new(cond.clone()))))?; }
                Tag::Niche { off, size, .. } => {
                    let m = self.mem(st, a)?;
                    let v = read_scalar(&m.e, *off, *size);
                    let (o, sz) = (*off, *size);
                    self.write(st, &PtrV { alloc: a, off: Poly::k(o as i64) }, &Val::scalar(sz, V::Opt(Rc::new(cond.clone()), Rc::new(v))))?;
                }
                Tag::Single => return abort("option layout"),
            },
        }
        let m = self.mem(st, a)?;
        let r = Val { size: ti.size, e: m.e.clone() };
        st.slots.pop();
        Ok(r)
    }
    fn option_item_ty(&self, ot: TyId) -> Option<TyId> { match &self.cx.tyinfo(ot).kind { TyK::Enum { layout, .. } => layout.variants.get(1).and_then(|v| v.1.first()).map(|x| x.1), _ => None } }

    fn min_len(&self, st: &State, a: &Poly, b: &Poly) -> R<Poly> {
        if poly::nonneg(&b.sub(a), &st.facts) { Ok(a.clone()) } else if poly::nonneg(&a.sub(b), &st.facts) { Ok(b.clone()) } else { Ok(poly::min_sym(a, b)) }
    }

    /// iterator from a value of type `t`: an iterator already, or a slice/array reference, or a range
    fn to_seq(&mut self, st: &mut State, v: &Val, t: TyId) -> R<Option<Seq>> {
        if let Some(s) = self.seq_arg(v) { return Ok(Some((*s).clone())); }
        let ti = self.cx.tyinfo(t);
        match &ti.kind {
            TyK::Ptr { pointee, fat } => {
                let pi = self.cx.tyinfo(*pointee);
                match &pi.kind {
                    TyK::Slice { elem } if *fat => { let esz = self.cx.tyinfo(*elem).size; let p = self.ptr_of(v)?; return Ok(Some(Seq { k: SeqK::Iter { ptr: p, esz, copied: false }, pos: Poly::k(0), end: self.len_of(v)? })); }
                    TyK::Array { elem, n } => { let esz = self.cx.tyinfo(*elem).size; let p = self.ptr_of(v)?; return Ok(Some(Seq { k: SeqK::Iter { ptr: p, esz, copied: false }, pos: Poly::k(0), end: Poly::k(*n as i64) })); }
                    TyK::Struct { adt, .. } if adt.ends_with("::Vec") => {
                        let _ = st; return Ok(None);
                    }
                    _ => {}
                }
                Ok(None)
            }
            TyK::Struct { adt, fields, .. } => {
                if adt.ends_with("ops::Range") || adt.ends_with("range::Range") {
                    let sz = self.cx.tyinfo(fields[0].1).size;
                    let (a, b) = (read_scalar(&v.e, fields[0].0, sz), read_scalar(&v.e, fields[1].0, sz));
                    let signed = matches!(self.cx.tyinfo(fields[0].1).kind, TyK::Int { signed: true, .. });
                    if let (Some(x), Some(y)) = (to_poly(&a, (sz * 8) as u32, signed), to_poly(&b, (sz * 8) as u32, signed)) { return Ok(Some(Seq { k: SeqK::Range { bytes: sz }, pos: x, end: y })); }
                }
                Ok(None)
            }
            _ => Ok(None),
        }
    }

    fn chunk_seq(&mut self, st: &State, v: &Val, n: &V, esz: u64, exact: bool) -> R<Seq> {
        let (p, len) = (self.ptr_of(v)?, self.len_of(v)?);
        let Some(n) = to_poly(n, 64, false) else { return abort(format!("chunk size unknown in {}", self.loc())) };
        if !poly::nonneg(&n.addc(-1), &st.facts) { let zero = n.konst() == Some(0) || n.t.len() == 1 && n.c == 0 && n.syms().iter().any(|s| { let i = poly::info(*s); i.twin.is_none() && i.lower.as_ref().map(|l| l.konst() == Some(0)).unwrap_or(false) });
            self.find("panic", zero && st.unsure == 0, format!("chunk size {n:?} may be zero"));
            if zero { return abort(format!("chunk size zero in {}", self.loc())); } }
        let cnt = match poly_div(&len, &n, &st.facts).map(|x| x.0).or_else(|| n.konst().and_then(|k| poly::floor_div(&len, k, &st.facts))).or_else(|| poly::div_equal(&len, &n, &st.facts)).or_else(|| {
            // a multiple of a stride: cancel the stride
            if n.c != 0 || n.t.len() != 1 || n.t[0].1 < 3 { return None; }
            let m = Poly { c: 0, t: vec![(n.t[0].0, 1)] };
            let (rows, r) = poly_div(&len, &m, &st.facts)?;
            if r.konst() != Some(0) { return None; }
            poly::floor_div(&rows, n.t[0].1, &st.facts)
        }) { Some(q) => q, None => {
            // the rows of one plane walked with the stride of another: the two are independent of each other
            let stride = |p: &Poly| -> Vec<String> { p.syms().into_iter().map(poly::name).filter(|x| x.starts_with("S_")).collect() };
            if let ([own], [other]) = (&stride(&len)[..], &stride(&n)[..]) {
                let q = n.syms();
                if own != other && q.len() == 1 && n == Poly::sym(q[0]) {
                    self.find(if own.starts_with("S_d") { "stride-dst" } else { "stride-src" }, st.unsure == 0, format!("the rows of a plane whose stride is {own} are walked with the stride {other} of another plane"));
                }
            }
            return abort(format!("chunk count of {len:?} by {n:?} in {}", self.loc()))
        } };
        let whole = cnt.mul(&n).map(|w| w == len).unwrap_or(false);
        let end = if exact || whole { cnt } else { cnt.addc(1) };
        Ok(Seq { k: SeqK::Chunks { ptr: p, esz, n, total: len, exact: exact || whole }, pos: Poly::k(0), end })
    }

    fn slice_elem(&self, t: TyId) -> Option<u64> { match &self.cx.tyinfo(t).kind { TyK::Ptr { pointee, .. } => match &self.cx.tyinfo(*pointee).kind { TyK::Slice { elem } => Some(self.cx.tyinfo(*elem).size), _ => None }, _ => None } }

    /// models; Ok(None) = not modelled
    fn model(&mut self, st: &mut State, name: &str, info: &InstInfo, args: &[Val], tys: &[TyId], rsize: u64) -> R<Option<Option<Val>>> {
        let b = base(name);
        let done = |v: Val| Ok(Some(Some(v)));
        // ---- feature detection
        if name.starts_with("std_detect::") || name.contains("::__is_feature_detected::") {
            let on = self.features.contains(b);
            self.queried.insert(b.to_string(), on);
            return done(Val::scalar(1, V::C(on as u128)));
        }
        if b == "black_box" || b == "assume_init" && false { return done(args[0].clone()); }
        // ---- panics
        if name.starts_with("core::panicking::") || name.starts_with("std::rt::") || name.contains("panic_fmt") || b == "unwrap_failed" || b == "expect_failed" || name.contains("slice_index_fail") || name.contains("len_mismatch_fail") || b == "handle_alloc_error" || b == "panic_bounds_check" {
            if b.contains("nounwind_nobacktrace") || name.contains("precondition") { return Ok(Some(None)); }
            self.find("panic", st.unsure == 0 && st.facts.is_empty(), format!("call of {b}"));
            return Ok(Some(None));
        }
        if b == "precondition_check" || name.contains("::ub_checks::") { return done(Val::scalar(rsize, V::C(0))); }
        // ---- vec![x; n]: fresh memory
        if name.ends_with("vec::from_elem") {
            let Some(n) = to_poly(&self.sv(&args[1]), 64, false) else { return abort(format!("vector length unknown in {}", self.loc())) };
            if !poly::nonneg(&n, &st.facts) { self.find("overflow", poly::witness_neg(&n, &st.facts).is_some() && st.unsure == 0, format!("vector length {n:?} may be negative")); }
            let (Some(po), Some(co), TyK::Struct { fields, names, .. }) = (crate::alloc::vec_ptr(self.cx, info.ret), crate::alloc::vec_cap(self.cx, info.ret), self.cx.tyinfo(info.ret).kind.clone()) else { return abort("vector layout") };
            let Some(lo) = names.iter().position(|n| n == "len").map(|i| fields[i].0) else { return abort("vector layout") };
            self.regions.push(Region { name: format!("vector {}", self.regions.len()), esz: self.cx.tyinfo(tys[0]).size, len: n.clone(), out: true, rv: RegVal::Opaque { bits: 8 } });
            let p = PtrV { alloc: EXT_BASE + self.regions.len() as u32 - 1, off: Poly::k(0) };
            let mut e = vec![];
            write_ents(&mut e, po, 8, &Val::scalar(8, V::Ptr(Rc::new(p))).e);
            write_ents(&mut e, co, 8, &Val::scalar(8, V::C(1 << 20)).e);
            write_ents(&mut e, lo, 8, &Val::scalar(8, pv(n)).e);
            return done(Val { size: rsize, e });
        }
        if self.trust_rotation && name.starts_with("fast_transpose::") && (b.starts_with("transpose_") || b.starts_with("rotate180_")) { return Ok(Some(self.rotation(st, b, info, args, tys, rsize)?)); }
        // ---- iterator protocol on modelled sequences
        let seq0 = args.first().and_then(|a| self.seq_arg(a));
        if let Some(s) = &seq0 {
            match b {
                "into_iter" | "by_ref" | "into_par_iter" if args[0].size == rsize => return done(args[0].clone()),
                "zip" => {
                    let Some(o) = self.to_seq(st, &args[1], tys[1])? else { return abort(format!("zip argument {} in {}", self.cx.tyinfo(tys[1]).name, self.loc())) };
                    let tt = self.seq_tuple_ty(info, name)?;
                    let n = self.min_len(st, &self.seq_len(s), &self.seq_len(&o))?;
                    return done(self.seq_val(rsize, Seq { k: SeqK::Zip(s.clone(), Rc::new(o), tt), pos: Poly::k(0), end: n }));
                }
                "enumerate" => { let n = self.seq_len(s); let tt = self.cx.iter_item(info.ret).unwrap_or(0); return done(self.seq_val(rsize, Seq { k: SeqK::Enumerate(s.clone(), tt), pos: Poly::k(0), end: n })); }
                "rev" => { return done(self.seq_val(rsize, Seq { k: SeqK::Rev(s.clone()), pos: Poly::k(0), end: self.seq_len(s) })); }
                "copied" | "cloned" => { if let SeqK::Iter { ptr, esz, .. } = &s.k { return done(self.seq_val(rsize, Seq { k: SeqK::Iter { ptr: ptr.clone(), esz: *esz, copied: true }, pos: s.pos.clone(), end: s.end.clone() })); } }
                "map" => { let n = self.seq_len(s); return done(self.seq_val(rsize, Seq { k: SeqK::Map(s.clone(), tys[1], args[1].clone(), 0, false), pos: Poly::k(0), end: n })); }
                "skip" => {
                    let Some(n) = to_poly(&self.sv(&args[1]), 64, false) else { return abort(format!("skip count in {}", self.loc())) };
                    let len = self.seq_len(s);
                    let pos = if poly::nonneg(&len.sub(&n), &st.facts) { s.pos.add(&n) } else if poly::nonneg(&n.sub(&len), &st.facts) { s.end.clone() } else { s.pos.add(&poly::min_sym(&n, &len)) };
                    return done(self.seq_val(rsize, Seq { k: s.k.clone(), pos, end: s.end.clone() }));
                }
                "take" => {
                    let Some(n) = to_poly(&self.sv(&args[1]), 64, false) else { return abort(format!("take count in {}", self.loc())) };
                    let n = self.min_len(st, &n, &self.seq_len(s))?;
                    return done(self.seq_val(rsize, Seq { k: s.k.clone(), pos: s.pos.clone(), end: s.pos.add(&n) }));
                }
                "step_by" => {
                    let Some(n) = to_poly(&self.sv(&args[1]), 64, false).and_then(|p| p.konst()) else { return abort("step_by") };
                    let len = self.seq_len(s);
                    let Some(c) = poly::floor_div(&len.addc(n - 1), n, &st.facts) else { return abort("step_by length") };
                    return done(self.seq_val(rsize, Seq { k: SeqK::StepBy(s.clone(), n), pos: Poly::k(0), end: c }));
                }
                "len" => return done(Val::scalar(8, pv(self.seq_len(s)))),
                "last" => {
                    let c = CondV::Ge(self.seq_len(s).addc(-1));
                    let v = self.seq_item(st, s, &s.end.addc(-1))?;
                    return Ok(Some(Some(self.option(st, info.ret, v, &c)?)));
                }
                "for_each" => {
                    let n = self.seq_len(s);
                    let (s, cty, env) = ((**s).clone(), tys[1], args[1].clone());
                    let slot = st.alloc_val(env.clone());
                    let er = PtrV { alloc: slot, off: Poly::k(0) };
                    let ok = self.repeat(st, &n, &mut |it: &mut Self, st: &mut State, i: &Poly| {
                        let x = it.seq_item(st, &s, &s.pos.add(i))?;
                        let env = it.read(st, &er, env.size)?;
                        Ok(it.call_closure(st, cty, &env, Some(er.clone()), vec![x], &[], 0)?.is_some())
                    })?;
                    if !ok { return Ok(Some(None)); }
                    st.slots[slot as usize] = Slot::Free;
                    while matches!(st.slots.last(), Some(Slot::Free)) { st.slots.pop(); }
                    return done(Val::unit());
                }
                "into_remainder" | "remainder" => {
                    if let SeqK::Chunks { ptr, esz, n, total, exact: true } = &s.k {
                        let cnt = poly_div(total, n, &st.facts).map(|x| x.0).or_else(|| n.konst().and_then(|k| poly::floor_div(total, k, &st.facts)));
                        let Some(used) = cnt.and_then(|c| c.mul(n)) else { return abort("remainder") };
                        return done(Val::pair(V::Ptr(Rc::new(PtrV { alloc: ptr.alloc, off: ptr.off.add(&used.scale(*esz as i64)) })), pv(total.sub(&used))));
                    }
                    return abort(format!("remainder in {}", self.loc()));
                }
                "as_slice" | "into_slice" | "as_mut_slice" => if let SeqK::Iter { ptr, esz, .. } = &s.k { return done(Val::pair(V::Ptr(Rc::new(PtrV { alloc: ptr.alloc, off: ptr.off.add(&s.pos.scale(*esz as i64)) })), pv(self.seq_len(s)))); },
                _ => {}
            }
            return abort(format!("iterator method {name} in {}", self.loc()));
        }
        // iterator through a reference
        if matches!(b, "next" | "next_back" | "nth" | "remainder" | "len" | "for_each" | "into_remainder" | "by_ref" | "clone" | "size_hint") && args.len() >= 1 && args[0].size == 8 {
            if let V::Ptr(p) = self.sv(&args[0]) {
                if p.alloc < EXT_BASE { if let Some(o) = p.off.konst() {
                    let m = self.mem(st, p.alloc)?;
                    let i = ent_find(&m.e, o as u64);
                    if let Some(Ent { off, size, v: V::Seq(s) }) = m.e.get(i).cloned() { if off == o as u64 {
                        match b {
                            "next" | "next_back" => {
                                let c = CondV::Ge(self.seq_len(&s).addc(-1));
                                let dec = cond_poly(&c, &st.facts);
                                let back = b == "next_back";
                                let at = if back { s.end.addc(-1) } else { s.pos.clone() };
                                let ot = info.ret;
                                let v = if dec == Some(false) { Val { size: 0, e: vec![] } } else { self.seq_item(st, &s, &at)? };
                                if dec != Some(false) {
                                    let n = if back { Seq { k: s.k.clone(), pos: s.pos.clone(), end: s.end.addc(-1) } } else { Seq { k: s.k.clone(), pos: s.pos.addc(1), end: s.end.clone() } };
                                    self.write(st, &p, &Val { size, e: vec![Ent { off: 0, size, v: V::Seq(Rc::new(n)) }] })?;
                                }
                                return Ok(Some(Some(self.option(st, ot, v, &c)?)));
                            }
                            "by_ref" => return done(args[0].clone()),
                            "clone" => return done(Val { size: rsize, e: vec![Ent { off: 0, size, v: V::Seq(s) }] }),
                            "len" | "remainder" => { let a = Val { size, e: vec![Ent { off: 0, size, v: V::Seq(s) }] }; return self.model(st, name, info, &[a], tys, rsize); }
                            _ => return abort(format!("iterator method {name} in {}", self.loc())),
                        }
                    } }
                } }
            }
        }
        // ---- slices
        if name.starts_with("core::slice::<impl [T]>::") || name.starts_with("std::slice::<impl [T]>::") || name.starts_with("rayon::slice::") || name.contains("ParallelSlice") || name.contains("::slice::<impl [") {
            let esz = tys.first().and_then(|t| self.slice_elem(*t));
            if let Some(esz) = esz {
                match b {
                    "iter" | "iter_mut" | "par_iter" | "par_iter_mut" => { let (p, n) = (self.ptr_of(&args[0])?, self.len_of(&args[0])?); return done(self.seq_val(rsize, Seq { k: SeqK::Iter { ptr: p, esz, copied: false }, pos: Poly::k(0), end: n })); }
                    "chunks_exact" | "chunks_exact_mut" | "par_chunks_exact" | "par_chunks_exact_mut" => { let n = self.sv(&args[1]); let s = self.chunk_seq(st, &args[0], &n, esz, true)?; return done(self.seq_val(rsize, s)); }
                    "chunks" | "chunks_mut" | "par_chunks" | "par_chunks_mut" => { let n = self.sv(&args[1]); let s = self.chunk_seq(st, &args[0], &n, esz, false)?; return done(self.seq_val(rsize, s)); }
                    "windows" | "par_windows" => {
                        let Some(n) = to_poly(&self.sv(&args[1]), 64, false) else { return abort("windows") };
                        let (p, len) = (self.ptr_of(&args[0])?, self.len_of(&args[0])?);
                        let end = len.sub(&n).addc(1);
                        if !poly::nonneg(&end, &st.facts) { return abort("windows length"); }
                        return done(self.seq_val(rsize, Seq { k: SeqK::Windows { ptr: p, esz, n }, pos: Poly::k(0), end }));
                    }
                    "copy_from_slice" | "clone_from_slice" => {
                        let (dl, sl) = (self.len_of(&args[0])?, self.len_of(&args[1])?);
                        let d = dl.sub(&sl);
                        if d != Poly::k(0) && !(poly::nonneg(&d, &st.facts) && poly::nonneg(&d.neg(), &st.facts)) {
                            let w = poly::witness_neg(&d, &st.facts).or_else(|| poly::witness_neg(&d.neg(), &st.facts));
                            self.find("panic", w.is_some() && st.unsure == 0, format!("copy_from_slice of {sl:?} into {dl:?} elements {w:?}"));
                        }
                        let (s, dd) = (read_scalar(&args[1].e, 0, 8), read_scalar(&args[0].e, 0, 8));
                        self.memcpy(st, &s, &dd, &pv(sl), esz)?;
                        return done(Val::unit());
                    }
                    "fill" => {
                        let (p, n) = (self.ptr_of(&args[0])?, self.len_of(&args[0])?);
                        if let Some(c) = n.konst() { if c <= 4096 { for i in 0..c { self.write(st, &PtrV { alloc: p.alloc, off: p.off.addc(i * esz as i64) }, &args[1])?; } return done(Val::unit()); } }
                        let v = args[1].clone();
                        self.repeat(st, &n, &mut |it: &mut Self, st: &mut State, i: &Poly| { it.write(st, &PtrV { alloc: p.alloc, off: p.off.add(&i.scale(esz as i64)) }, &v)?; Ok(true) })?;
                        return done(Val::unit());
                    }
                    "len" => return done(Val::scalar(8, pv(self.len_of(&args[0])?))),
                    _ => {}
                }
            }
        }
        if b == "into_iter" && args.len() == 1 {
            if let Some(s) = self.to_seq(st, &args[0], tys[0])? {
                if !matches!(s.k, SeqK::Range { .. }) || s.pos.konst().is_none() || s.end.konst().is_none() {
                    if matches!(s.k, SeqK::Range { .. }) {
                        // normalise an empty range
                        if !poly::nonneg(&s.end.sub(&s.pos), &st.facts) { return abort(format!("range {:?}..{:?} may be reversed in {}", s.pos, s.end, self.loc())); }
                    }
                    return done(self.seq_val(rsize, s));
                }
            }
        }
        if matches!(b, "rev" | "step_by" | "zip" | "map" | "enumerate" | "for_each" | "skip" | "take") && !args.is_empty() && name.contains("Iterator") {
            if let Some(s) = self.to_seq(st, &args[0], tys[0])? {
                if matches!(s.k, SeqK::Range { .. }) {
                    let mut a = args.to_vec();
                    a[0] = self.seq_val(args[0].size, s);
                    return self.model(st, name, info, &a, tys, rsize);
                }
            }
        }
        // ---- primitive methods
        if args.len() == 2 && matches!(b, "min" | "max") && args[0].size <= 8 && args[0].size > 0 && args[1].size == args[0].size {
            let ti = self.cx.tyinfo(tys[0]);
            if matches!(ti.kind, TyK::Int { .. } | TyK::Float { .. }) {
                let (x, y) = (self.sv(&args[0]), self.sv(&args[1]));
                return done(Val::scalar(args[0].size, self.minmax(st, &x, &y, &ti.kind, b == "min")?));
            }
        }
        if args.len() == 3 && b == "clamp" && args[0].size <= 8 && args[0].size > 0 {
            let ti = self.cx.tyinfo(tys[0]);
            if matches!(ti.kind, TyK::Int { .. } | TyK::Float { .. }) {
                let (x, y, z) = (self.sv(&args[0]), self.sv(&args[1]), self.sv(&args[2]));
                let m = self.minmax(st, &x, &y, &ti.kind, false)?;
                return done(Val::scalar(args[0].size, self.minmax(st, &m, &z, &ti.kind, true)?));
            }
        }
        Ok(None)
    }

    /// fast_transpose::{transpose,rotate180}_*: output pixel (y, w-1-x) [flop: (y, x)] of a transposition is input pixel (x, y) [flip: (x, h-1-y)]
    fn rotation(&mut self, st: &mut State, b: &str, info: &InstInfo, args: &[Val], tys: &[TyId], rsize: u64) -> R<Option<Val>> {
        let TyK::Enum { layout, .. } = self.cx.tyinfo(info.ret).kind.clone() else { return abort("rotation result") };
        let rest = b.trim_start_matches("transpose_").trim_start_matches("rotate180_");
        let n: i64 = if rest.starts_with("rgba") { 4 } else if rest.starts_with("rgb") { 3 } else if rest.contains("alpha") { 2 } else { 1 };
        let Some(esz) = tys.first().and_then(|t| self.slice_elem(*t)) else { return abort("rotation element") };
        let int = |it: &Self, i: usize| to_poly(&it.sv(&args[i]), 64, false).ok_or(Abort("rotation argument".into()));
        let (sp, sl, ss) = (self.ptr_of(&args[0])?, self.len_of(&args[0])?, int(self, 1)?);
        let (dp, dl, ds) = (self.ptr_of(&args[2])?, self.len_of(&args[2])?, int(self, 3)?);
        let (w, h) = (int(self, 4)?, int(self, 5)?);
        let half = b.starts_with("rotate180");
        let (mut flip, mut flop) = (false, false);
        if !half {
            for (i, f) in [(6, &mut flip), (7, &mut flop)] {
                let TyK::Enum { layout, .. } = self.cx.tyinfo(tys[i]).kind.clone() else { return abort("rotation flags") };
                let a = st.alloc_val(args[i].clone());
                let V::C(k) = self.read_discr(st, &PtrV { alloc: a, off: Poly::k(0) }, &layout)? else { return abort("rotation flags") };
                st.slots.pop();
                let v = layout.discrs.iter().position(|d| *d == k).unwrap_or(k as usize);
                *f = !layout.variants[v].0.starts_with("No");
            }
        }
        let (dw, dh) = if half { (w.clone(), h.clone()) } else { (h.clone(), w.clone()) };
        let area = |a: &Poly, b: &Poly| a.mul(b).ok_or(Abort("rotation size".into()));
        let mut eqs = vec![sl.sub(&area(&ss, &h)?), dl.sub(&area(&ds, &dh)?)];
        if half && n == 1 { eqs.insert(0, sl.sub(&dl)); }
        let ges = [ss.sub(&w.scale(n)), ds.sub(&dw.scale(n))];
        // equalities established by earlier branches
        let facts = st.facts.clone();
        for f in facts.iter().filter(|f| facts.contains(&f.neg())) {
            let Some(s) = f.syms().into_iter().find(|s| matches!(f.linear_in(*s), Some((a, _)) if a.konst().is_some_and(|k| k.abs() == 1))) else { continue };
            let Some((a, b)) = f.linear_in(s) else { continue };
            let v = b.scale(-a.konst().unwrap_or(1));
            for d in &mut eqs { if let Some(x) = d.subst(s, &v) { *d = x; } }
        }
        let mut bad = None;
        for d in &eqs { if !(poly::nonneg(d, &st.facts) && poly::nonneg(&d.neg(), &st.facts)) { bad.get_or_insert((poly::witness_neg(d, &st.facts).or_else(|| poly::witness_neg(&d.neg(), &st.facts)), format!("{d:?} is not 0"))); } }
        for d in &ges { if !poly::nonneg(d, &st.facts) { bad.get_or_insert((poly::witness_neg(d, &st.facts), format!("{d:?} may be negative"))); } }
        let result = |it: &mut Self, st: &mut State, v: &str| -> R<Option<Val>> {
            let i = layout.variants.iter().position(|x| x.0 == v).ok_or(Abort("rotation result".into()))?;
            let a = st.alloc(rsize);
            it.write_tag(st, &PtrV { alloc: a, off: Poly::k(0) }, &layout, i)?;
            let m = it.mem(st, a)?;
            let r = Val { size: rsize, e: m.e.clone() };
            st.slots.pop();
            Ok(Some(r))
        };
        if let Some((w, why)) = bad {
            self.find("reject", w.is_some() && st.unsure == 0, format!("a well-formed image is rejected by {b}: {why} {w:?}"));
            return Ok(None);
        }
        let one = Poly::k(1);
        self.repeat(st, &h, &mut |it: &mut Self, st: &mut State, y: &Poly| {
            it.repeat(st, &w, &mut |it: &mut Self, st: &mut State, x: &Poly| {
                let iy = if flip { h.sub(&one).sub(y) } else { y.clone() };
                let (ox, oy) = if half { (w.sub(&one).sub(x), h.sub(&one).sub(y)) } else { (y.clone(), if flop { x.clone() } else { w.sub(&one).sub(x) }) };
                let (Some(a), Some(b)) = (iy.mul(&ss), oy.mul(&ds)) else { return abort("rotation offset") };
                let v = it.read(st, &PtrV { alloc: sp.alloc, off: sp.off.add(&a.add(&x.scale(n)).scale(esz as i64)) }, n as u64 * esz)?;
                it.write(st, &PtrV { alloc: dp.alloc, off: dp.off.add(&b.add(&ox.scale(n)).scale(esz as i64)) }, &v)?;
                Ok(true)
            })
        })?;
        result(self, st, "Ok")
    }

    pub fn minmax(&mut self, st: &State, x: &V, y: &V, k: &TyK, is_min: bool) -> R<V> {
        let (bits, signed, enc) = match k { TyK::Int { bits, signed } => (*bits, *signed, Enc::Int), TyK::Float { bits } => (*bits, true, enc_of(&TyK::Float { bits: *bits })), _ => return abort("minmax") };
        if let (V::P(_), _) | (_, V::P(_)) = (x, y) {
            let (Some(a), Some(b)) = (to_poly(x, bits, signed), to_poly(y, bits, signed)) else { return abort("min of size and sample") };
            let d = b.sub(&a);
            if poly::nonneg(&d, &st.facts) { return Ok(if is_min { x.clone() } else { y.clone() }); }
            if poly::nonneg(&d.neg(), &st.facts) { return Ok(if is_min { y.clone() } else { x.clone() }); }
            // min(a, b) with both linear: a fresh bounded symbol
            if is_min {
                let p = poly::min_sym(&a, &b);
                return Ok(pv(p));
            }
            return abort(format!("max of sizes {a:?} {b:?} in {}", self.loc()));
        }
        Ok(v_minmax(x, y, bits, signed, enc, is_min))
    }

    fn seq_tuple_ty(&self, info: &InstInfo, name: &str) -> R<TyId> {
        match self.cx.iter_item(info.ret) { Some(t) => Ok(t), None => abort(format!("item type of {name}")) }
    }

    /// every extension the callee is compiled for must have been established by a detection query that answered yes
    fn need_features(&mut self, st: &State, inst: InstId, info: &InstInfo) {
        self.checked.insert(inst);
        let mut have: std::collections::BTreeSet<String> = Default::default();
        for (f, on) in &self.queried { if *on { have.extend(self.cx.implied_features(&f.replace("sse4_", "sse4."))); } }
        let miss: Vec<String> = info.needs.iter().filter(|f| !have.contains(*f)).cloned().collect();
        if info.local { self.feature_fns.insert(info.name.clone()); }
        self.feature_calls += 1;
        if !miss.is_empty() {
            let q: Vec<&String> = self.queried.iter().filter(|x| *x.1).map(|x| x.0).collect();
            self.find("feature", st.unsure == 0, format!("{} is compiled for {} but only {q:?} was established", info.name, miss.join("+")));
        }
    }

    pub fn call(&mut self, st: &mut State, inst: InstId, args: Vec<Val>, arg_tys: &[TyId], rust_call: bool, rsize: u64) -> R<Option<Val>> {
        self.calls += 1;
        let info = self.cx.instinfo(inst);
        match info.kind {
            IK::Intrinsic => return self.intrinsic(st, &info.sym.clone(), &info, args, arg_tys, rsize),
            IK::Llvm => return self.llvm(st, &info.sym.clone(), &info, args, arg_tys, rsize),
            IK::Virtual(_) => {
                let V::VTab(t) = read_scalar(&args[0].e, 8, 8) else { return abort(format!("virtual call on unknown object in {}", self.loc())) };
                let Some(i) = self.cx.resolve_virtual(inst, t) else { return abort(format!("virtual target of {}", info.name)) };
                let mut a = args.clone();
                a[0] = Val { size: 8, e: slice_ents(&args[0].e, 0, 8) };
                let mut tys = arg_tys.to_vec();
                if !tys.is_empty() { tys[0] = 0; }
                return self.call(st, i, a, &tys, rust_call, rsize);
            }
            _ => {}
        }
        if !info.needs.is_empty() && !self.checked.contains(&inst) { self.need_features(st, inst, &info); }
        if !info.local || info.name.contains("::rayon") {
            let name = info.name.clone();
            if name.contains("rayon") { self.par += 1; }
            if let Some(r) = self.model(st, &name, &info, &args, arg_tys, rsize)? { return Ok(r); }
        }
        let Some(body) = self.cx.body(inst) else { return abort(format!("no body for {} in {}", info.name, self.loc())) };
        let mut a = args;
        if rust_call && !arg_tys.is_empty() {
            let lt = *arg_tys.last().unwrap();
            let last = a.pop().unwrap();
            let expects_tuple = body.spread.is_some() || (a.len() + 1 == body.nargs && !info.is_closure);
            let fields = match &self.cx.tyinfo(lt).kind { TyK::Struct { fields, .. } => fields.clone(), _ => vec![] };
            if expects_tuple && body.spread.is_some() { a.push(last); }
            else { for (o, t) in &fields { let sz = self.cx.tyinfo(*t).size; a.push(Val { size: sz, e: slice_ents(&last.e, *o, sz) }); } }
        } else if let Some(sp) = body.spread {
            // direct call of a rust-call function with expanded arguments
            let n = sp as usize - 1;
            if a.len() > n + 1 || a.len() == n { 
                let rest: Vec<Val> = a.drain(n..).collect();
                let t = body.locals[sp as usize];
                a.push(self.tuple(t, rest));
            }
        }
        if info.local { if info.name.contains("avx") || info.name.contains("sse") { self.kernels.insert(info.name.clone()); } }
        self.run_body(st, body, a)
    }
}

pub fn v_minmax(x: &V, y: &V, bits: u32, signed: bool, enc: Enc, is_min: bool) -> V {
    if matches!(x, V::Undef) || matches!(y, V::Undef) { return V::Undef; }
    let (a, b) = if enc == Enc::Int { (as_data(x, bits, signed), as_data(y, bits, signed)) } else { (as_float(x, enc), as_float(y, enc)) };
    let (c, d) = match (a.is_const(), b.is_const()) { (_, Some(c)) => (c, &a), (Some(c), _) => (c, &b), _ => {
        // both varying
        if a == b { return x.clone(); }
        if is_min { if a.hi <= b.lo { return x.clone(); } if b.hi <= a.lo { return y.clone(); } } else { if a.lo >= b.hi { return x.clone(); } if b.lo >= a.hi { return y.clone(); } }
        let (lo, hi) = if is_min { (a.lo.min(b.lo), a.hi.min(b.hi)) } else { (a.lo.max(b.lo), a.hi.max(b.hi)) };
        return data_to_v(Data::nonlin(bits, enc, merge_deps(&a.all_deps(), &b.all_deps()), lo, hi));
    } };
    let r = if is_min { d_clamp(d, f64::NEG_INFINITY, c) } else { d_clamp(d, c, f64::INFINITY) };
    data_to_v(r)
}
