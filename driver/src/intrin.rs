//! Core, SIMD and LLVM target intrinsics.
use crate::call::v_minmax;
use crate::interp::*;
use crate::ir::*;
use crate::ops::*;
use crate::poly::{self, Poly};
use crate::val::*;
use std::rc::Rc;

pub fn lanes(v: &Val, n: u64, lsz: u64) -> Vec<V> { (0..n).map(|i| read_scalar(&v.e, i * lsz, lsz)).collect() }
pub fn from_lanes(l: Vec<V>, lsz: u64, size: u64) -> Val { Val { size, e: l.into_iter().enumerate().filter(|(_, v)| *v != V::Undef).map(|(i, v)| Ent { off: i as u64 * lsz, size: lsz, v }).collect() } }

pub fn is_ones(v: &V, bits: u32) -> bool { matches!(v, V::C(c) if *c & mask(bits) == mask(bits)) }
/// mask lane as a condition (sign bit / all bits)
pub fn lane_cond(v: &V, bits: u32) -> Option<Result<bool, CondV>> {
    match v {
        V::C(c) => Some(Ok((c >> (bits - 1)) & 1 == 1)),
        V::Cond(c) => Some(Err((**c).clone())),
        V::D(d) if d.enc == Enc::Int => {
            // sign bit of a sample value
            if let Some(x) = repr(d, bits, true) { if x.lo >= 0.0 { return Some(Ok(false)); } if x.hi < 0.0 { return Some(Ok(true)); } return Some(Err(CondV::Data(BinOp::Lt, V::D(Rc::new(x)), V::D(Rc::new(Data::konst(bits, 0.0, Enc::Int)))))); }
            None
        }
        _ => None,
    }
}
/// lanes that say "i < n" for a symbolic n
pub fn prefix_mask(m: &[V], _bits: u32) -> Option<crate::poly::Poly> {
    let V::Cond(c) = m.first()? else { return None };
    let CondV::Ge(p0) = &**c else { return None };
    for (i, x) in m.iter().enumerate() {
        match x { V::Cond(c) => { let CondV::Ge(p) = &**c else { return None }; if *p != p0.addc(-(i as i64)) { return None; } } _ => return None }
    }
    Some(p0.addc(1))
}
pub fn choose(c: &V, a: &V, b: &V, mbits: u32, bits: u32) -> V {
    if a == b { return a.clone(); }
    match lane_cond(c, mbits) {
        Some(Ok(t)) => if t { a.clone() } else { b.clone() },
        Some(Err(c)) => join_v(a, b, Some(&c), bits),
        None => { let d = merge_deps(&deps_of(c), &merge_deps(&deps_of(a), &deps_of(b))); if matches!(a, V::Undef) || matches!(b, V::Undef) || matches!(c, V::Undef) { V::Undef } else { V::D(Rc::new(Data::nonlin(bits, Enc::Int, d, 0.0, p2(bits) - 1.0))) } }
    }
}
pub fn sat(d: Data, bits: u32, signed: bool) -> V {
    let (lo, hi) = if signed { (-p2(bits - 1), p2(bits - 1) - 1.0) } else { (0.0, p2(bits) - 1.0) };
    data_to_v(Data { bits, ovf: if d.ovf == 1 { 2 } else { d.ovf }, ..d_clamp(&d, lo, hi) })
}
fn rnd_half(d: &Data, mode: &str) -> Data {
    let mut x = d.clone();
    if let Some(c) = d.is_const() { return Data::konst(d.bits, match mode { "floor" => c.floor(), "ceil" => c.ceil(), "trunc" => c.trunc(), "even" => { let r = c.round(); if (c - c.trunc()).abs() == 0.5 { 2.0 * (c / 2.0).round() } else { r } } _ => c.round() }, d.enc); }
    let f = |v: f64| match mode { "floor" => v.floor(), "ceil" => v.ceil(), "trunc" => v.trunc(), _ => v.round() };
    if d.lin { let (a, b) = match mode { "floor" => (-1.0, 0.0), "ceil" => (0.0, 1.0), "trunc" => (if d.hi > 0.0 { -1.0 } else { 0.0 }, if d.lo < 0.0 { 1.0 } else { 0.0 }), _ => (-0.5, 0.5) }; x.elo += a; x.ehi += b; if let Some((p, q)) = x.clamp { x.clamp = Some((f(p), f(q))); } }
    x.lo = f(d.lo); x.hi = f(d.hi);
    x
}
pub fn round_mode(v: &V, enc: Enc, mode: &str) -> V { if matches!(v, V::Undef) { return V::Undef; } data_to_v(rnd_half(&as_float(v, enc), mode)) }

impl<'a, 'tcx> Interp<'a, 'tcx> {
    fn simd_ty(&self, t: TyId) -> R<(u64, u64, TyK)> { match &self.cx.tyinfo(t).kind { TyK::Simd { elem, n } => { let e = self.cx.tyinfo(*elem); Ok((*n, e.size, e.kind.clone())) } _ => abort(format!("not a vector: {}", self.cx.tyinfo(t).name)) } }

    pub fn intrinsic(&mut self, st: &mut State, name: &str, info: &InstInfo, args: Vec<Val>, tys: &[TyId], rsize: u64) -> R<Option<Val>> {
        if let Some(op) = name.strip_prefix("simd_") { return self.simd(st, op, info, &args, tys, rsize).map(Some); }
        let s0 = || self.sv(&args[0]);
        let sc = |v: V| Ok(Some(Val::scalar(rsize, v)));
        let tsz = info.type_args.first().map(|t| self.cx.tyinfo(*t).size).unwrap_or(0);
        let kind0 = || self.cx.tyinfo(tys[0]).kind.clone();
        let fenc = |n: &str| if n.ends_with("f64") { Enc::F64 } else if n.ends_with("f16") { Enc::F16 } else { Enc::F32 };
        match name {
            "size_of" => sc(V::C(tsz as u128)),
            "size_of_val" => { let t = info.type_args[0]; let ti = self.cx.tyinfo(t); match &ti.kind { TyK::Slice { elem } => { let e = self.cx.tyinfo(*elem).size; let n = to_poly(&read_scalar(&args[0].e, 8, 8), 64, false); match n { Some(n) => sc(pv(n.scale(e as i64))), None => abort("size_of_val") } } _ if ti.sized => sc(V::C(ti.size as u128)), _ => sc(top(vec![], "size_of_val")) } }
            "min_align_of" | "align_of" | "pref_align_of" | "min_align_of_val" | "align_of_val" => sc(V::C(1)),
            "needs_drop" => sc(V::C(0)),
            "likely" | "unlikely" | "black_box" | "assert_inhabited" | "assert_zero_valid" | "assert_mem_uninitialized_valid" if args.is_empty() => Ok(Some(Val::unit())),
            "likely" | "unlikely" | "black_box" => Ok(Some(args[0].clone())),
            "cold_path" | "assert_inhabited" | "assert_zero_valid" | "assert_mem_uninitialized_valid" | "assume" | "forget" => Ok(Some(Val::unit())),
            "ub_checks" | "contract_checks" | "overflow_checks" | "is_val_statically_known" => sc(V::C(0)),
            "abort" | "unreachable" => Ok(None),
            "transmute" | "transmute_unchecked" => Ok(Some(Val { size: rsize, e: args[0].e.clone() })),
            "ptr_metadata" => if rsize == 0 { Ok(Some(Val::unit())) } else { sc(read_scalar(&args[0].e, 8, 8)) },
            "read_via_copy" | "volatile_load" | "unaligned_volatile_load" => { let V::Ptr(p) = s0() else { return abort("read pointer") }; Ok(Some(self.read(st, &p, rsize)?)) }
            "write_via_move" | "volatile_store" => { let V::Ptr(p) = s0() else { return abort("write pointer") }; self.write(st, &p, &args[1])?; Ok(Some(Val::unit())) }
            "offset" | "arith_offset" => {
                let esz = match &kind0() { TyK::Ptr { pointee, .. } => self.cx.tyinfo(*pointee).size as i64, _ => 1 };
                match s0() {
                    V::Ptr(p) => { let Some(n) = to_poly(&self.sv(&args[1]), 64, true) else { return abort(format!("pointer offset by {} in {}", short(&self.sv(&args[1])), self.loc())) }; sc(V::Ptr(Rc::new(PtrV { alloc: p.alloc, off: p.off.add(&n.scale(esz)) }))) }
                    v => sc(v),
                }
            }
            "ptr_offset_from" | "ptr_offset_from_unsigned" => {
                let esz = tsz.max(1) as i64;
                match (s0(), self.sv(&args[1])) { (V::Ptr(p), V::Ptr(q)) if p.alloc == q.alloc => { let d = p.off.sub(&q.off); match poly::floor_div(&d, esz, &st.facts) { Some(q) => sc(pv(q)), None => abort("pointer difference") } } _ => abort("pointer difference") }
            }
            "typed_swap_nonoverlapping" => { let (V::Ptr(a), V::Ptr(b)) = (s0(), self.sv(&args[1])) else { return abort("swap") }; let (x, y) = (self.read(st, &a, tsz)?, self.read(st, &b, tsz)?); self.write(st, &a, &y)?; self.write(st, &b, &x)?; Ok(Some(Val::unit())) }
            "copy_nonoverlapping" | "copy" => { let n = self.sv(&args[2]); let (s, d) = (s0(), self.sv(&args[1])); self.memcpy(st, &s, &d, &n, tsz)?; Ok(Some(Val::unit())) }
            "write_bytes" => {
                let (p, n, b) = (s0(), self.sv(&args[2]), self.sv(&args[1]));
                let (V::Ptr(p), Some(n)) = (p, to_poly(&n, 64, false)) else { return abort("write_bytes") };
                let n = n.scale(tsz as i64);
                if let Some(c) = n.konst() { let e = (0..c).map(|i| Ent { off: i as u64, size: 1, v: b.clone() }).collect(); self.write(st, &p, &Val { size: c as u64, e })?; return Ok(Some(Val::unit())); }
                abort("write_bytes of symbolic length")
            }
            "compare_bytes" => abort("memcmp"),
            "caller_location" => sc(V::C(0)),
            "discriminant_value" => {
                let V::Ptr(p) = s0() else { return abort("discriminant") };
                let TyK::Ptr { pointee, .. } = kind0() else { return abort("discriminant") };
                match &self.cx.tyinfo(pointee).kind { TyK::Enum { layout, .. } => { let l = layout.clone(); let v = self.read_discr(st, &p, &l)?; let v = match v { V::C(c) => V::C(c & mask((rsize * 8) as u32)), v => v }; sc(v) } _ => sc(V::C(0)) }
            }
            "select_unpredictable" => { let c = s0(); match self.truth(st, &c) { Some(true) => Ok(Some(args[1].clone())), Some(false) => Ok(Some(args[2].clone())), None => { let (a, b) = (self.sv(&args[1]), self.sv(&args[2])); if let V::Cond(c) = &c { sc(join_v(&a, &b, Some(c), (rsize * 8) as u32)) } else { abort("select_unpredictable") } } } }
            "wrapping_add" | "unchecked_add" => Ok(Some(self.binop(st, BinOp::Add, &s0(), &self.sv(&args[1]), tys[0], rsize)?)),
            "wrapping_sub" | "unchecked_sub" => Ok(Some(self.binop(st, BinOp::Sub, &s0(), &self.sv(&args[1]), tys[0], rsize)?)),
            "wrapping_mul" | "unchecked_mul" => Ok(Some(self.binop(st, BinOp::Mul, &s0(), &self.sv(&args[1]), tys[0], rsize)?)),
            "unchecked_shl" => Ok(Some(self.binop(st, BinOp::Shl, &s0(), &self.sv(&args[1]), tys[0], rsize)?)),
            "unchecked_shr" => Ok(Some(self.binop(st, BinOp::Shr, &s0(), &self.sv(&args[1]), tys[0], rsize)?)),
            "unchecked_div" | "exact_div" => Ok(Some(self.binop(st, BinOp::Div, &s0(), &self.sv(&args[1]), tys[0], rsize)?)),
            "unchecked_rem" => Ok(Some(self.binop(st, BinOp::Rem, &s0(), &self.sv(&args[1]), tys[0], rsize)?)),
            "add_with_overflow" => Ok(Some(self.binop(st, BinOp::AddO, &s0(), &self.sv(&args[1]), tys[0], rsize)?)),
            "sub_with_overflow" => Ok(Some(self.binop(st, BinOp::SubO, &s0(), &self.sv(&args[1]), tys[0], rsize)?)),
            "mul_with_overflow" => Ok(Some(self.binop(st, BinOp::MulO, &s0(), &self.sv(&args[1]), tys[0], rsize)?)),
            "three_way_compare" => { let (a, b) = (s0(), self.sv(&args[1])); if let (V::C(_), V::C(_)) = (&a, &b) { return Ok(Some(self.binop(st, BinOp::Cmp, &a, &b, tys[0], 1)?)); } abort("three-way comparison") }
            "saturating_add" | "saturating_sub" => {
                let (bits, signed) = match kind0() { TyK::Int { bits, signed } => (bits, signed), _ => return abort("saturating") };
                let (a, b) = (s0(), self.sv(&args[1]));
                if matches!(a, V::P(_)) || matches!(b, V::P(_)) {
                    let (Some(x), Some(y)) = (to_poly(&a, bits, signed), to_poly(&b, bits, signed)) else { return abort("saturating mix") };
                    if name == "saturating_add" { return sc(pv(x.add(&y))); }
                    let d = x.sub(&y);
                    if poly::nonneg(&d, &st.facts) { return sc(pv(d)); }
                    if poly::nonneg(&d.neg(), &st.facts) { return sc(V::C(0)); }
                    return abort(format!("saturating_sub {x:?} {y:?} in {}", self.loc()));
                }
                sc(self.sat_op(&a, &b, bits, signed, name == "saturating_add"))
            }
            "rotate_left" | "rotate_right" => {
                let bits = (args[0].size * 8) as u32;
                let V::C(k) = self.sv(&args[1]) else { return abort("rotate") };
                let k = k as u32 % bits;
                let k = if name == "rotate_left" { k } else { (bits - k) % bits };
                let v = s0();
                match fields(&v, bits) { Some(fs) => { let mut p = slice_fields(&fs, bits - k, k); p.extend(slice_fields(&fs, 0, bits - k)); sc(from_fields(p, bits)) } None => sc(top(deps_of(&v), "rotate")) }
            }
            "bswap" => { let bits = (args[0].size * 8) as u32; let v = s0(); sc(bswap_v(&v, bits)) }
            "ctpop" | "ctlz" | "cttz" | "ctlz_nonzero" | "cttz_nonzero" | "bitreverse" => {
                let bits = (args[0].size * 8) as u32;
                match s0() { V::C(c) => { let c = c & mask(bits); sc(V::C(match name { "ctpop" => c.count_ones(), "ctlz" | "ctlz_nonzero" => c.leading_zeros() - (128 - bits), "cttz" | "cttz_nonzero" => if c == 0 { bits } else { c.trailing_zeros() }, _ => return abort("bitreverse") } as u128)) } v => sc(top(deps_of(&v), name)) }
            }
            "fabsf32" | "fabsf64" | "fabs" => { let e = if name == "fabs" { enc_of(&kind0()) } else { fenc(name) }; let d = as_float(&s0(), e); let r = if d.lo >= 0.0 { d } else if d.hi <= 0.0 { d_mulc(&d, -1.0) } else { let m = d.hi.max(-d.lo); Data::nonlin(d.bits, e, d.all_deps(), 0.0, m) }; sc(data_to_v(r)) }
            "minnumf32" | "minnumf64" | "minimumf32" | "minimum_number_nsz_f32" | "minimum_number_nsz_f64" => { let e = fenc(name); let b = if e == Enc::F64 { 64 } else { 32 }; sc(v_minmax(&s0(), &self.sv(&args[1]), b, true, e, true)) }
            "maxnumf32" | "maxnumf64" | "maximumf32" | "maximum_number_nsz_f32" | "maximum_number_nsz_f64" => { let e = fenc(name); let b = if e == Enc::F64 { 64 } else { 32 }; sc(v_minmax(&s0(), &self.sv(&args[1]), b, true, e, false)) }
            _ if name.starts_with("round_ties_even") || name.starts_with("rint") || name.starts_with("nearbyint") => sc(round_mode(&s0(), fenc(name), "even")),
            _ if name.starts_with("round") => sc(round_mode(&s0(), fenc(name), "round")),
            _ if name.starts_with("floor") => sc(round_mode(&s0(), fenc(name), "floor")),
            _ if name.starts_with("ceil") => sc(round_mode(&s0(), fenc(name), "ceil")),
            _ if name.starts_with("trunc") => sc(round_mode(&s0(), fenc(name), "trunc")),
            _ if name.starts_with("fmaf") || name.starts_with("fmuladd") => { let e = fenc(name); let (a, b, c) = (as_float(&s0(), e), as_float(&self.sv(&args[1]), e), as_float(&self.sv(&args[2]), e)); sc(data_to_v(d_add(&d_mul(&a, &b), &c, 1.0))) }
            _ if name.starts_with("sqrtf") || name.starts_with("powf") || name.starts_with("expf") || name.starts_with("powif") || name.starts_with("logf") || name.starts_with("copysign") => {
                let e = fenc(name);
                let d = as_float(&s0(), e);
                if let (Some(c), "sqrtf32") = (d.is_const(), name) { return sc(data_to_v(Data::konst(32, (c as f32).sqrt() as f64, e))); }
                if let (true, Some(a), Some(b)) = (name.starts_with("powf") && e == Enc::F32, d.is_const(), args.get(1).and_then(|x| as_float(&self.sv(x), e).is_const())) { return sc(data_to_v(Data::konst(32, (a as f32).powf(b as f32) as f64, e))); }
                let mut deps = d.all_deps(); for a in &args[1..] { deps = merge_deps(&deps, &deps_of(&self.sv(a))); }
                sc(data_to_v(Data::unknown(d.bits, e, deps)))
            }
            "type_id" => sc(V::C(0)),
            "float_to_int_unchecked" => { let e = enc_of(&kind0()); let t = self.cx.tyinfo(info.ret); let (b, s) = match t.kind { TyK::Int { bits, signed } => (bits, signed), _ => (32, true) }; sc(self.float_to_int(&s0(), e, b, s)) }
            "fadd_fast" | "fadd_algebraic" => { let e = enc_of(&kind0()); sc(fop(BinOp::Add, &s0(), &self.sv(&args[1]), e)) }
            "fmul_fast" | "fmul_algebraic" => { let e = enc_of(&kind0()); sc(fop(BinOp::Mul, &s0(), &self.sv(&args[1]), e)) }
            "fsub_fast" | "fsub_algebraic" => { let e = enc_of(&kind0()); sc(fop(BinOp::Sub, &s0(), &self.sv(&args[1]), e)) }
            "fdiv_fast" | "fdiv_algebraic" => { let e = enc_of(&kind0()); sc(fop(BinOp::Div, &s0(), &self.sv(&args[1]), e)) }
            _ => {
                // an intrinsic with a fallback body
                if let Some(b) = self.cx.intrinsic_fallback(info) { return self.run_body(st, b, args); }
                abort(format!("intrinsic {name} in {}", self.loc()))
            }
        }
    }

    pub fn sat_op(&self, a: &V, b: &V, bits: u32, signed: bool, add: bool) -> V {
        if matches!(a, V::Undef) || matches!(b, V::Undef) { return V::Undef; }
        let (x, y) = (as_data(a, bits, signed), as_data(b, bits, signed));
        if y.is_const() == Some(0.0) { return a.clone(); }
        if x.is_const() == Some(0.0) && add { return b.clone(); }
        let mut d = d_add(&x, &y, if add { 1.0 } else { -1.0 });
        // saturation at a bound the other operand was already wrapped around
        if x.ovf == 1 && y.is_const().map(|k| k.abs() >= 4.0) == Some(true) || y.ovf == 1 && add && x.is_const().map(|k| k.abs() >= 4.0) == Some(true) { d.ovf = d.ovf.max(2); }
        sat(d, bits, signed)
    }

    pub fn simd(&mut self, st: &mut State, op: &str, info: &InstInfo, args: &[Val], tys: &[TyId], rsize: u64) -> R<Val> {
        let (n, lsz, ek) = match self.simd_ty(tys[0]) { Ok(x) => x, Err(_) => (0, 0, TyK::Other) };
        let bits = (lsz * 8) as u32;
        let enc = enc_of(&ek);
        let signed = matches!(ek, TyK::Int { signed: true, .. });
        let l = |i: usize| lanes(&args[i], n, lsz);
        let map2 = |f: &dyn Fn(&V, &V) -> V| -> Val { let (a, b) = (l(0), l(1)); from_lanes(a.iter().zip(&b).map(|(x, y)| if (matches!(x, V::Undef) || matches!(y, V::Undef)) && !matches!((x, y), (V::C(0), _) | (_, V::C(0))) { V::Undef } else { f(x, y) }).collect(), lsz, rsize) };
        let arith = |o: BinOp| -> Val { map2(&|x, y| if enc == Enc::Int { iop(o, x, y, bits, signed) } else { fop(o, x, y, enc) }) };
        Ok(match op {
            "add" => arith(BinOp::Add), "sub" => arith(BinOp::Sub), "mul" => arith(BinOp::Mul), "div" => arith(BinOp::Div), "rem" => arith(BinOp::Rem),
            "and" => map2(&|x, y| bitop(BinOp::And, x, y, bits)), "or" => map2(&|x, y| bitop(BinOp::Or, x, y, bits)), "xor" => map2(&|x, y| if x == y { V::C(0) } else { bitop(BinOp::Xor, x, y, bits) }),
            "shl" => arith(BinOp::Shl), "shr" => arith(BinOp::Shr),
            "saturating_add" => map2(&|x, y| self.sat_op(x, y, bits, signed, true)),
            "saturating_sub" => map2(&|x, y| self.sat_op(x, y, bits, signed, false)),
            "eq" | "ne" | "lt" | "le" | "gt" | "ge" => {
                let o = match op { "eq" => BinOp::Eq, "ne" => BinOp::Ne, "lt" => BinOp::Lt, "le" => BinOp::Le, "gt" => BinOp::Gt, _ => BinOp::Ge };
                let (rn, rl, _) = match self.simd_ty(info.ret) { Ok(x) => x, Err(_) => (n, rsize / n.max(1), TyK::Other) };
                let _ = rn;
                let rb = (rl * 8) as u32;
                let (a, b) = (l(0), l(1));
                let v = a.iter().zip(&b).map(|(x, y)| {
                    if matches!(x, V::Undef) || matches!(y, V::Undef) { return V::Undef; }
                    let r = if enc == Enc::Int { iop(o, x, y, bits, signed) } else {
                        let (p, q) = (as_float(x, enc), as_float(y, enc));
                        if let (Some(p), Some(q)) = (p.is_const(), q.is_const()) { V::C(match o { BinOp::Eq => p == q, BinOp::Ne => p != q, BinOp::Lt => p < q, BinOp::Le => p <= q, BinOp::Gt => p > q, _ => p >= q } as u128) }
                        else { let c = CondV::Data(o, V::D(Rc::new(p)), V::D(Rc::new(q))); match cond_poly(&c, &[]) { Some(b) => V::C(b as u128), None => V::Cond(Rc::new(c)) } }
                    };
                    match r { V::C(c) => V::C(if c & 1 == 1 { mask(rb) } else { 0 }), v => v }
                }).collect();
                from_lanes(v, rl, rsize)
            }
            "select" => {
                let mb = bits;
                let (vn, vl, _) = self.simd_ty(tys[1])?;
                let m = l(0);
                let (a, b) = (lanes(&args[1], vn, vl), lanes(&args[2], vn, vl));
                from_lanes((0..vn as usize).map(|i| choose(&m[i], &a[i], &b[i], mb, (vl * 8) as u32)).collect(), vl, rsize)
            }
            "select_bitmask" => {
                let (vn, vl, _) = self.simd_ty(tys[1])?;
                let m = self.sv(&args[0]);
                let (a, b) = (lanes(&args[1], vn, vl), lanes(&args[2], vn, vl));
                let bitsof = self.mask_bits(&m, vn);
                from_lanes((0..vn as usize).map(|i| match &bitsof[i] { Ok(true) => a[i].clone(), Ok(false) => b[i].clone(), Err(Some(c)) if is_ones(&a[i], (vl * 8) as u32) && matches!(b[i], V::C(0)) => V::Cond(Rc::new(c.clone())), Err(Some(c)) => join_v(&a[i], &b[i], Some(c), (vl * 8) as u32), Err(None) => choose(&top(deps_of(&m), "mask"), &a[i], &b[i], 1, (vl * 8) as u32) }).collect(), vl, rsize)
            }
            "bitmask" => {
                let m = l(0);
                let mut c = 0u128; let mut all = true;
                for (i, x) in m.iter().enumerate() { match lane_cond(x, bits) { Some(Ok(b)) => if b { c |= 1 << i }, _ => all = false } }
                if all { Val::scalar(rsize, V::C(c)) } else {
                    // keep the per-lane conditions as one-bit fields
                    let fs: Vec<Field> = m.iter().map(|x| match lane_cond(x, bits) { Some(Ok(b)) => Field { w: 1, src: FSrc::C(b as u128) }, _ => Field { w: 1, src: FSrc::Part(Rc::new(Data::nonlin(1, Enc::Int, deps_of(x), 0.0, 1.0)), 0) } }).collect();
                    let mut fs = fs; let w = n as u32; let tb = (rsize * 8) as u32; if w < tb { fs.push(Field { w: tb - w, src: FSrc::C(0) }); }
                    Val::scalar(rsize, V::Cat(Rc::new(cat(fs))))
                }
            }
            "cast" | "as" | "cast_ptr" => {
                let (_, rl, rk) = self.simd_ty(info.ret)?;
                let re = enc_of(&rk);
                let rs = matches!(rk, TyK::Int { signed: true, .. });
                let rb = (rl * 8) as u32;
                let a = l(0);
                let mut out = vec![];
                for x in &a {
                    if matches!(x, V::Undef) { out.push(V::Undef); continue; }
                    out.push(match (enc, re) {
                        (Enc::Int, Enc::Int) => match x { V::Cond(c) => V::Cond(c.clone()), x => self.int_cast(x, bits, signed, rb, rs) },
                        (Enc::Int, e) => self.int_to_float(x, bits, signed, e),
                        (e, Enc::Int) => self.float_to_int(x, e, rb, rs),
                        (e, f) => self.float_to_float(x, e, f),
                    });
                }
                from_lanes(out, rl, rsize)
            }
            "shuffle" | "shuffle_const_generic" => {
                let idx = if op == "shuffle" { let k = args[2].size / 4; lanes(&args[2], k, 4) } else { return abort("shuffle_const_generic") };
                let mut a = l(0); a.extend(l(1));
                let mut out = vec![];
                for i in idx { let V::C(i) = i else { return abort("shuffle index") }; out.push(a.get(i as usize).cloned().unwrap_or(V::Undef)); }
                from_lanes(out, lsz, rsize)
            }
            "extract" | "extract_dyn" => { let V::C(i) = self.sv(&args[1]) else { return abort("extract index") }; Val::scalar(rsize, read_scalar(&args[0].e, i as u64 * lsz, lsz)) }
            "insert" | "insert_dyn" => { let V::C(i) = self.sv(&args[1]) else { return abort("insert index") }; let mut e = args[0].e.clone(); write_ents(&mut e, i as u64 * lsz, lsz, &args[2].e); Val { size: rsize, e } }
            "splat" => { let (rn, rl, _) = self.simd_ty(info.ret)?; let v = self.sv(&args[0]); from_lanes(vec![v; rn as usize], rl, rsize) }
            "neg" => { let a = l(0); from_lanes(a.iter().map(|x| match x { V::Undef => V::Undef, x => if enc == Enc::Int { iop(BinOp::Sub, &V::C(0), x, bits, signed) } else { data_to_v(d_mulc(&as_float(x, enc), -1.0)) } }).collect(), lsz, rsize) }
            "fma" | "relaxed_fma" => { let (a, b, c) = (l(0), l(1), l(2)); from_lanes((0..n as usize).map(|i| { if [&a[i], &b[i], &c[i]].iter().any(|x| matches!(x, V::Undef)) { return V::Undef; } data_to_v(d_add(&d_mul(&as_float(&a[i], enc), &as_float(&b[i], enc)), &as_float(&c[i], enc), 1.0)) }).collect(), lsz, rsize) }
            "fmin" | "minimum_number_nsz" | "fmax" | "maximum_number_nsz" => { let mn = op.contains("min"); map2(&|x, y| v_minmax(x, y, bits, true, enc, mn)) }
            "floor" | "ceil" | "trunc" | "round" | "round_ties_even" => { let m = if op == "round_ties_even" { "even" } else { op }; from_lanes(l(0).iter().map(|x| round_mode(x, enc, m)).collect(), lsz, rsize) }
            "bswap" => from_lanes(l(0).iter().map(|x| bswap_v(x, bits)).collect(), lsz, rsize),
            "ctpop" => { from_lanes(l(0).iter().map(|x| match x { V::C(c) => V::C((c & mask(bits)).count_ones() as u128), x => top(deps_of(x), "ctpop") }).collect(), lsz, rsize) }
            "reduce_add_unordered" | "reduce_add_ordered" => { let a = l(0); let mut r = a[0].clone(); for x in &a[1..] { r = if enc == Enc::Int { iop(BinOp::Add, &r, x, bits, signed) } else { fop(BinOp::Add, &r, x, enc) }; } if args.len() > 1 { r = if enc == Enc::Int { iop(BinOp::Add, &r, &self.sv(&args[1]), bits, signed) } else { fop(BinOp::Add, &r, &self.sv(&args[1]), enc) }; } Val::scalar(rsize, r) }
            "reduce_max" | "reduce_min" => { let a = l(0); let mut r = a[0].clone(); for x in &a[1..] { r = v_minmax(&r, x, bits, signed, enc, op == "reduce_min"); } Val::scalar(rsize, r) }
            "reduce_and" | "reduce_or" => { let a = l(0); let mut r = a[0].clone(); for x in &a[1..] { r = bitop(if op == "reduce_and" { BinOp::And } else { BinOp::Or }, &r, x, bits); } Val::scalar(rsize, r) }
            "masked_load" => {
                // mask, ptr, default
                let (vn, vl, _) = self.simd_ty(info.ret)?;
                let m = l(0);
                let V::Ptr(p) = self.sv(&args[1]) else { return abort("masked load pointer") };
                let d = lanes(&args[2], vn, vl);
                let mut out = vec![];
                if let Some(n) = prefix_mask(&m, bits) { return self.prefix_load(st, &p, &n, &d, vl, rsize); }
                for i in 0..vn as usize {
                    match lane_cond(&m[i], bits) {
                        Some(Ok(true)) => { let v = self.read(st, &PtrV { alloc: p.alloc, off: p.off.addc((i as u64 * vl) as i64) }, vl)?; out.push(self.sv(&v)); }
                        Some(Ok(false)) => out.push(d[i].clone()),
                        _ => return abort(format!("masked load with a variable mask in {}", self.loc())),
                    }
                }
                from_lanes(out, vl, rsize)
            }
            "masked_store" => {
                let m = l(0);
                let V::Ptr(p) = self.sv(&args[1]) else { return abort("masked store pointer") };
                let (vn, vl, _) = self.simd_ty(tys[2])?;
                let d = lanes(&args[2], vn, vl);
                if let Some(n) = prefix_mask(&m, bits) { self.prefix_store(st, &p, &n, &d, vl)?; return Ok(Val::unit()); }
                for i in 0..vn as usize {
                    match lane_cond(&m[i], bits) {
                        Some(Ok(true)) => self.write(st, &PtrV { alloc: p.alloc, off: p.off.addc((i as u64 * vl) as i64) }, &Val::scalar(vl, d[i].clone()))?,
                        Some(Ok(false)) => {}
                        _ => return abort(format!("masked store with a variable mask in {}", self.loc())),
                    }
                }
                Val::unit()
            }
            _ => return abort(format!("simd_{op} in {}", self.loc())),
        })
    }

    fn prefix_load(&mut self, st: &mut State, p: &PtrV, n: &crate::poly::Poly, d: &[V], vl: u64, rsize: u64) -> R<Val> {
        use crate::poly::Poly;
        let vn = d.len();
        if p.alloc >= EXT_BASE && p.alloc < STATIC_BASE {
            let rg = (p.alloc - EXT_BASE) as u16;
            self.check_bounds(st, rg, &p.off, &n.scale(vl as i64), false);
            let r = self.regions[rg as usize].clone();
            if r.esz != vl || r.out { return abort(format!("masked load of {vl}-byte lanes from {}", r.name)); }
            let Some(so) = p.off.div_exact(vl as i64) else { return abort("misaligned masked load") };
            let v = (0..vn).map(|i| self.elem_value(rg, so.addc(i as i64))).collect();
            Rc::make_mut(&mut st.fills).push(Fill { region: rg, so, n: n.clone(), cap: vn as i64, slot: u32::MAX, base: 0, rep: false });
            return Ok(from_lanes(v, vl, rsize));
        }
        let _ = Poly::k(0);
        let v = self.read(st, p, vn as u64 * vl)?;
        Ok(v)
    }
    fn prefix_store(&mut self, st: &mut State, p: &PtrV, n: &crate::poly::Poly, d: &[V], vl: u64) -> R<()> {
        if p.alloc >= EXT_BASE && p.alloc < STATIC_BASE {
            let rg = (p.alloc - EXT_BASE) as u16;
            self.check_bounds(st, rg, &p.off, &n.scale(vl as i64), true);
            let r = self.regions[rg as usize].clone();
            if !r.out { self.find("source-write", true, "write to source".into()); return Ok(()); }
            if r.esz != vl { return abort(format!("masked store of {vl}-byte lanes to {}", r.name)); }
            let Some(eo) = p.off.div_exact(vl as i64) else { return abort("misaligned masked store") };
            self.check_fills(st, d, n);
            let loc = self.loc();
            Rc::make_mut(&mut st.effects).push(Effect { region: rg, off: eo, vals: d.to_vec(), quants: vec![], count: Some(n.clone()), may: false, loc });
            return Ok(());
        }
        let room = self.mem(st, p.alloc)?.size as i64 - p.off.konst().unwrap_or(0);
        let cap = (self.bound(&n.scale(vl as i64), room, st) / vl as i64).min(d.len() as i64);
        for i in 0..cap as usize { self.write(st, &PtrV { alloc: p.alloc, off: p.off.addc((i as u64 * vl) as i64) }, &Val::scalar(vl, d[i].clone()))?; }
        Ok(())
    }

    pub fn mask_bits(&self, m: &V, n: u64) -> Vec<Result<bool, Option<CondV>>> {
        (0..n as u32).map(|i| match m {
            V::C(c) => Ok((c >> i) & 1 == 1),
            V::Mask(n) => Err(Some(CondV::Ge(n.addc(-1 - i as i64)))),
            V::Cond(c) if n == 1 => Err(Some((**c).clone())),
            _ => Err(None),
        }).collect()
    }

}

pub fn bswap_v(v: &V, bits: u32) -> V {
    match fields(v, bits) {
        Some(fs) => { let nb = bits / 8; let mut p = vec![]; for i in 0..nb { p.extend(slice_fields(&fs, (nb - 1 - i) * 8, 8)); } from_fields(p, bits) }
        None => top(deps_of(v), "bswap"),
    }
}
