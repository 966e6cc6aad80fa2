//! Transfer functions of the LLVM x86 intrinsics used by core::arch.
use crate::interp::*;
use crate::intrin::*;
use crate::ir::*;
use crate::ops::*;
use crate::val::*;
use std::rc::Rc;

fn undef2(a: &V, b: &V) -> bool { matches!(a, V::Undef) || matches!(b, V::Undef) }
fn zero(v: &V) -> bool { matches!(v, V::C(0)) }

/// exact product as wide data
fn prod(a: &V, ab: u32, asg: bool, b: &V, bb: u32, bsg: bool) -> Data {
    let (x, y) = (as_data(a, ab, asg), as_data(b, bb, bsg));
    // a number that no longer fits its lane is widened: the product is that of another number
    let big = |d: &Data| d.is_const().map(|k| k.abs() >= 4.0) == Some(true);
    let lost = x.ovf == 1 && big(&y) || y.ovf == 1 && big(&x);
    let mut d = d_mul(&Data { bits: 32, ..x }, &Data { bits: 32, ..y });
    if lost { d.ovf = d.ovf.max(2); }
    d
}

impl<'a, 'tcx> Interp<'a, 'tcx> {
    fn lane_ty(&self, t: TyId) -> Option<(u64, u64, bool, Enc)> {
        match &self.cx.tyinfo(t).kind { TyK::Simd { elem, n } => { let e = self.cx.tyinfo(*elem); Some((*n, e.size, matches!(e.kind, TyK::Int { signed: true, .. }), enc_of(&e.kind))) } _ => None }
    }

    pub fn llvm(&mut self, st: &mut State, name: &str, info: &InstInfo, args: Vec<Val>, tys: &[TyId], rsize: u64) -> R<Option<Val>> {
        let tail = name.rsplit("::").next().unwrap_or(name);
        match tail {
            "__rust_no_alloc_shim_is_unstable_v2" | "__rust_no_alloc_shim_is_unstable" | "__rust_dealloc" => return Ok(Some(Val { size: rsize, e: if rsize > 0 { vec![Ent { off: 0, size: rsize, v: V::C(0) }] } else { vec![] } })),
            "__rust_alloc" | "__rust_alloc_zeroed" => {
                let V::C(sz) = self.sv(&args[0]) else { return abort(format!("allocation of symbolic size in {}", self.loc())) };
                let a = st.alloc(sz as u64);
                if tail.ends_with("zeroed") { let m = self.mem_mut(st, a)?; m.e = (0..sz as u64).map(|i| Ent { off: i, size: 1, v: V::C(0) }).collect(); }
                return Ok(Some(Val::scalar(8, V::Ptr(Rc::new(PtrV { alloc: a, off: crate::poly::Poly::k(0) })))));
            }
            _ => {}
        }
        let Some(n) = name.strip_prefix("llvm.x86.") else { return abort(format!("llvm {name} in {}", self.loc())) };
        let parts: Vec<&str> = n.split('.').collect();
        let body = parts[1..].join(".");
        let rt = self.lane_ty(info.ret);
        let at: Vec<Option<(u64, u64, bool, Enc)>> = tys.iter().map(|t| self.lane_ty(*t)).collect();
        let la = |i: usize, sz: u64| -> Vec<V> { lanes(&args[i], args[i].size / sz, sz) };
        let out = |v: Vec<V>, sz: u64| Ok(Some(from_lanes(v, sz, rsize)));
        let b = body.as_str();
        let has = |p: &str| b.starts_with(p);
        if has("pack") {
            // packsswb packssdw packuswb packusdw
            let (sb, db) = if b.contains("wb") { (2u64, 1u64) } else { (4, 2) };
            let signed = has("packss");
            let (x, y) = (la(0, sb), la(1, sb));
            let per = (16 / sb) as usize;
            let mut o = vec![];
            for l in 0..(rsize / 16) as usize { for s in [&x, &y] { for i in 0..per {
                let v = &s[l * per + i];
                o.push(if matches!(v, V::Undef) { V::Undef } else { sat(as_data(v, (sb * 8) as u32, true), (db * 8) as u32, signed) });
            } } }
            return out(o, db);
        }
        if has("pshuf.b") {
            let (x, ix) = (la(0, 1), la(1, 1));
            let mut o = vec![];
            for i in 0..rsize as usize {
                o.push(match &ix[i] { V::C(c) => { let c = (*c & 0xff) as usize; if c & 0x80 != 0 { V::C(0) } else { x[(i & !15) + (c & 15)].clone() } } V::Undef => V::Undef, v => return abort(format!("byte shuffle by a variable {} in {}", short(v), self.loc())) });
            }
            return out(o, 1);
        }
        if has("vpermi2var") || has("permvar") || b == "permd" || b == "permps" {
            let Some((ln, sz, _, _)) = rt else { return abort("permute type") };
            let two = has("vpermi2var");
            let (mut x, ix) = (la(0, sz), la(1, sz));
            if two { x.extend(la(2, sz)); }
            let m = if two { 2 * ln - 1 } else { ln - 1 } as u128;
            let mut o = vec![];
            for i in 0..ln as usize { o.push(match &ix[i] { V::C(c) => x[(c & m) as usize].clone(), V::Undef => V::Undef, v => return abort(format!("permute by a variable {} in {}", short(v), self.loc())) }); }
            return out(o, sz);
        }
        if has("pmadd.ub.sw") || has("pmaddubs.w") {
            let (x, y) = (la(0, 1), la(1, 1));
            let mut o = vec![];
            for i in 0..x.len() / 2 {
                if (0..2).any(|j| undef2(&x[2 * i + j], &y[2 * i + j]) && !zero(&y[2 * i + j])) { o.push(V::Undef); continue; }
                let s = d_add(&prod(&x[2 * i], 8, false, &y[2 * i], 8, true), &prod(&x[2 * i + 1], 8, false, &y[2 * i + 1], 8, true), 1.0);
                o.push(sat(s, 16, true));
            }
            return out(o, 2);
        }
        if has("pmadd.wd") || has("pmaddw.d") {
            let (x, y) = (la(0, 2), la(1, 2));
            let mut o = vec![];
            for i in 0..x.len() / 2 {
                if (0..2).any(|j| undef2(&x[2 * i + j], &y[2 * i + j]) && !zero(&x[2 * i + j]) && !zero(&y[2 * i + j])) { o.push(V::Undef); continue; }
                let s = d_add(&prod(&x[2 * i], 16, true, &y[2 * i], 16, true), &prod(&x[2 * i + 1], 16, true, &y[2 * i + 1], 16, true), 1.0);
                o.push(data_to_v(Data { bits: 32, ..s }));
            }
            return out(o, 4);
        }
        if has("pmul.hr.sw") {
            let (x, y) = (la(0, 2), la(1, 2));
            let o = x.iter().zip(&y).map(|(p, q)| if undef2(p, q) { V::Undef } else { let s = d_addc(&prod(p, 16, true, q, 16, true), 16384.0); data_to_v(Data { bits: 16, ..d_shr(&s, 15) }) }).collect();
            return out(o, 2);
        }
        if has("pmulhu.w") || has("pmulh.w") || has("pmulhu") || has("pmulh") {
            let sg = !has("pmulhu");
            let (x, y) = (la(0, 2), la(1, 2));
            let o = x.iter().zip(&y).map(|(p, q)| if undef2(p, q) { V::Undef } else { data_to_v(Data { bits: 16, ..d_shr(&prod(p, 16, sg, q, 16, sg), 16) }) }).collect();
            return out(o, 2);
        }
        if has("pavg") {
            let sz = if b.contains(".w") { 2 } else { 1 };
            let bits = (sz * 8) as u32;
            let (x, y) = (la(0, sz), la(1, sz));
            let o = x.iter().zip(&y).map(|(p, q)| if undef2(p, q) { V::Undef } else { data_to_v(Data { bits, ..d_shr(&d_addc(&d_add(&Data { bits: 32, ..as_data(p, bits, false) }, &Data { bits: 32, ..as_data(q, bits, false) }, 1.0), 1.0), 1) }) }).collect();
            return out(o, sz);
        }
        if has("vpdpbusd") || has("vpdpwssd") {
            let bu = has("vpdpbusd");
            let sat_ = b.contains("vpdpbusds") || b.contains("vpdpwssds");
            let (k, es) = if bu { (4usize, 1u64) } else { (2, 2) };
            let (s, x, y) = (la(0, 4), la(1, es), la(2, es));
            let mut o = vec![];
            for i in 0..s.len() {
                if matches!(s[i], V::Undef) || (0..k).any(|j| undef2(&x[k * i + j], &y[k * i + j]) && !zero(&x[k * i + j]) && !zero(&y[k * i + j])) { o.push(V::Undef); continue; }
                let mut d = as_mod(&s[i], 32);
                for j in 0..k { d = d_add(&d, &prod(&x[k * i + j], (es * 8) as u32, !bu, &y[k * i + j], (es * 8) as u32, true), 1.0); }
                o.push(if sat_ { sat(d, 32, true) } else { data_to_v(Data { bits: 32, ..d }) });
            }
            return out(o, 4);
        }
        if has("vcvtps2ph") || has("mask.vcvtps2ph") || n.starts_with("vcvtps2ph") {
            let x = la(0, 4);
            let o = x.iter().map(|v| if matches!(v, V::Undef) { V::Undef } else { self.float_to_float(v, Enc::F32, Enc::F16) }).collect();
            return out(o, 2);
        }
        if has("vcvtph2ps") {
            let x = la(0, 2);
            let o = x.iter().take((rsize / 4) as usize).map(|v| if matches!(v, V::Undef) { V::Undef } else { self.float_to_float(v, Enc::F16, Enc::F32) }).collect();
            return out(o, 4);
        }
        if has("round.p") || has("mask.rndscale.p") {
            let V::C(m) = self.sv(&args[1]) else { return abort("rounding mode") };
            let mode = match m & 7 { 0 | 4 => "even", 1 => "floor", 2 => "ceil", _ => "trunc" };
            let o = la(0, 4).iter().map(|v| round_mode(v, Enc::F32, mode)).collect();
            return out(o, 4);
        }
        if has("cvtps2dq") || has("cvt.ps2dq") || has("mask.cvtps2dq") || has("cvttps2dq") || has("mask.cvttps2dq") {
            let mode = if b.contains("cvtt") { "trunc" } else { "even" };
            let o = la(0, 4).iter().map(|v| if matches!(v, V::Undef) { V::Undef } else { self.float_to_int(&round_mode(v, Enc::F32, mode), Enc::F32, 32, true) }).collect();
            return out(o, 4);
        }
        if has("mask.cvtps2udq") || has("mask.cvttps2udq") {
            let mode = if b.contains("cvtt") { "trunc" } else { "even" };
            let o = la(0, 4).iter().map(|v| if matches!(v, V::Undef) { V::Undef } else { self.float_to_int(&round_mode(v, Enc::F32, mode), Enc::F32, 32, false) }).collect();
            return out(o, 4);
        }
        if has("min.ps") || has("max.ps") {
            let (x, y) = (la(0, 4), la(1, 4));
            let mn = has("min");
            let o = x.iter().zip(&y).map(|(p, q)| crate::call::v_minmax(p, q, 32, true, Enc::F32, mn)).collect();
            return out(o, 4);
        }
        if (has("psrl") || has("psra") || has("psll")) && (b.contains(".w") || b.contains(".d") || b.contains(".q")) && !b.contains("v") {
            let sz = if b.contains(".w") { 2 } else if b.contains(".d") { 4 } else { 8 };
            let bits = (sz * 8) as u32;
            let cnt = if args[1].size <= 4 { self.sv(&args[1]) } else { read_scalar(&args[1].e, 0, 8) };
            let V::C(c) = cnt else { return abort(format!("shift by a variable in {}", self.loc())) };
            let o = la(0, sz).iter().map(|v| if matches!(v, V::Undef) { V::Undef } else if c as u32 >= bits { if has("psra") { shr(v, bits - 1, bits, true) } else { V::C(0) } } else if has("psll") { shl(v, c as u32, bits) } else { shr(v, c as u32, bits, has("psra")) }).collect();
            return out(o, sz);
        }
        if has("phadd") {
            let sz = if b.contains(".w") { 2 } else { 4 };
            let (x, y) = (la(0, sz), la(1, sz));
            let per = (16 / sz) as usize;
            let mut o = vec![];
            for l in 0..(rsize / 16) as usize { for s in [&x, &y] { for i in 0..per / 2 { let (p, q) = (&s[l * per + 2 * i], &s[l * per + 2 * i + 1]); o.push(if undef2(p, q) { V::Undef } else { iop(BinOp::Add, p, q, (sz * 8) as u32, true) }); } } }
            return out(o, sz);
        }
        if has("psad.bw") {
            let (x, y) = (la(0, 1), la(1, 1));
            let mut o = vec![];
            for i in 0..x.len() / 8 {
                let d: Vec<SrcId> = (0..8).flat_map(|j| merge_deps(&deps_of(&x[8 * i + j]), &deps_of(&y[8 * i + j]))).collect();
                if (0..8).all(|j| zero(&y[8 * i + j])) { let mut s = Data::konst(64, 0.0, Enc::Int); for j in 0..8 { s = d_add(&s, &Data { bits: 64, ..as_data(&x[8 * i + j], 8, false) }, 1.0); } o.push(data_to_v(Data { bits: 64, ..s })); }
                else { o.push(V::D(Rc::new(Data::nonlin(64, Enc::Int, merge_deps(&d, &[]), 0.0, 2040.0)))); }
            }
            return out(o, 8);
        }
        // unknown intrinsic: the result is an unknown function of all arguments
        self.missing.insert(name.to_string());
        let mut d = vec![];
        for a in &args { for e in &a.e { d = merge_deps(&d, &deps_of(&e.v)); } }
        let _ = at;
        match rt {
            Some((ln, sz, _, e)) => out((0..ln).map(|_| V::D(Rc::new(Data::unknown((sz * 8) as u32, e, d.clone())))).collect(), sz),
            None => Ok(Some(Val::scalar(rsize, top(d, name)))),
        }
    }
}
