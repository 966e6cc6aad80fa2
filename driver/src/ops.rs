//! Scalar operations and casts.
use crate::interp::*;
use crate::ir::*;
use crate::poly::{self, Poly};
use crate::val::*;
use std::rc::Rc;

pub fn is_data(v: &V) -> bool { matches!(v, V::D(_) | V::Cat(_)) }

pub fn enc_of(k: &TyK) -> Enc { match k { TyK::Float { bits: 16 } => Enc::F16, TyK::Float { bits: 32 } => Enc::F32, TyK::Float { .. } => Enc::F64, _ => Enc::Int } }

fn f_const(op: BinOp, a: u128, b: u128, enc: Enc) -> Option<u128> {
    match enc {
        Enc::F32 => { let (x, y) = (f32::from_bits(a as u32), f32::from_bits(b as u32)); let r = match op { BinOp::Add => x + y, BinOp::Sub => x - y, BinOp::Mul => x * y, BinOp::Div => x / y, BinOp::Rem => x % y, _ => return None }; Some(r.to_bits() as u128) }
        Enc::F64 => { let (x, y) = (f64::from_bits(a as u64), f64::from_bits(b as u64)); let r = match op { BinOp::Add => x + y, BinOp::Sub => x - y, BinOp::Mul => x * y, BinOp::Div => x / y, BinOp::Rem => x % y, _ => return None }; Some(r.to_bits() as u128) }
        _ => None,
    }
}

/// multiply / add etc. on float data
pub fn fop(op: BinOp, a: &V, b: &V, enc: Enc) -> V {
    if let (V::C(x), V::C(y)) = (a, b) { if let Some(r) = f_const(op, *x, *y, enc) { return V::C(r); } }
    let (x, y) = (as_float(a, enc), as_float(b, enc));
    let r = match op {
        BinOp::Add => d_add(&x, &y, 1.0),
        BinOp::Sub => d_add(&x, &y, -1.0),
        BinOp::Mul => d_mul(&x, &y),
        BinOp::Div => match y.is_const() { Some(k) if k != 0.0 => d_mulc(&x, 1.0 / k), _ => Data::unknown(x.bits, enc, merge_deps(&x.all_deps(), &y.all_deps())) },
        _ => Data::unknown(x.bits, enc, merge_deps(&x.all_deps(), &y.all_deps())),
    };
    data_to_v(r)
}

/// integer data operation on lanes of `bits`
pub fn iop(op: BinOp, a: &V, b: &V, bits: u32, signed: bool) -> V {
    if let (V::C(x), V::C(y)) = (a, b) { if let Some(r) = int_const(op, *x, *y, bits, signed) { return V::C(r); } }
    if matches!(a, V::Undef) || matches!(b, V::Undef) {
        if op == BinOp::And { if matches!(a, V::C(0)) || matches!(b, V::C(0)) { return V::C(0); } }
        return V::Undef;
    }
    match op {
        BinOp::Add => data_to_v(d_add(&as_mod(a, bits), &as_mod(b, bits), 1.0)),
        BinOp::Sub => data_to_v(d_add(&as_mod(a, bits), &as_mod(b, bits), -1.0)),
        BinOp::Mul => {
            // choose representatives so that the product is right modulo 2^bits
            let (x, y) = (pick(a, bits, signed), pick(b, bits, signed));
            data_to_v(d_mul(&x, &y))
        }
        BinOp::Div => {
            let (x, y) = (as_data(a, bits, signed), as_data(b, bits, signed));
            match y.is_const() { Some(k) if k > 0.0 && x.lo >= 0.0 => data_to_v(d_div(&x, k)), _ => data_to_v(Data::nonlin(bits, Enc::Int, merge_deps(&x.all_deps(), &y.all_deps()), if signed { -p2(bits - 1) } else { 0.0 }, x.lo.abs().max(x.hi.abs()))) }
        }
        BinOp::Rem => { let (x, y) = (as_data(a, bits, signed), as_data(b, bits, signed)); data_to_v(Data::nonlin(bits, Enc::Int, merge_deps(&x.all_deps(), &y.all_deps()), if x.lo >= 0.0 { 0.0 } else { -p2(bits - 1) }, y.hi.max(0.0))) }
        BinOp::Shl | BinOp::Shr => {
            let V::C(k) = b else { return data_to_v(Data::nonlin(bits, Enc::Int, merge_deps(&deps_of(a), &deps_of(b)), if signed { -p2(bits - 1) } else { 0.0 }, p2(bits) - 1.0)); };
            let k = (*k as u32) % bits;
            if op == BinOp::Shl { shl(a, k, bits) } else { shr(a, k, bits, signed) }
        }
        BinOp::And | BinOp::Or | BinOp::Xor => bitop(op, a, b, bits),
        BinOp::Lt | BinOp::Le | BinOp::Gt | BinOp::Ge | BinOp::Eq | BinOp::Ne => {
            let (x, y) = (as_data(a, bits, signed), as_data(b, bits, signed));
            let c = CondV::Data(op, V::D(Rc::new(x)), V::D(Rc::new(y)));
            match cond_poly(&c, &[]) { Some(b) => V::C(b as u128), None => V::Cond(Rc::new(c)) }
        }
        _ => top(merge_deps(&deps_of(a), &deps_of(b)), "op"),
    }
}
fn pick(v: &V, bits: u32, signed: bool) -> Data {
    match v { V::C(_) => as_data(v, bits, signed), V::D(d) if d.enc == Enc::Int => Data { bits, ..(**d).clone() }, _ => as_data(v, bits, signed) }
}

pub fn int_const(op: BinOp, a: u128, b: u128, bits: u32, signed: bool) -> Option<u128> {
    let m = mask(bits);
    let (a, b) = (a & m, b & m);
    let (sa, sb) = (sext(a, bits), sext(b, bits));
    Some(match op {
        BinOp::Add => a.wrapping_add(b) & m,
        BinOp::Sub => a.wrapping_sub(b) & m,
        BinOp::Mul => a.wrapping_mul(b) & m,
        BinOp::Div => if b == 0 { return None } else if signed { (sa.wrapping_div(sb) as u128) & m } else { a / b },
        BinOp::Rem => if b == 0 { return None } else if signed { (sa.wrapping_rem(sb) as u128) & m } else { a % b },
        BinOp::Xor => a ^ b, BinOp::And => a & b, BinOp::Or => a | b,
        BinOp::Shl => (a << (b as u32 % bits)) & m,
        BinOp::Shr => if signed { ((sa >> (b as u32 % bits)) as u128) & m } else { a >> (b as u32 % bits) },
        BinOp::Eq => (a == b) as u128, BinOp::Ne => (a != b) as u128,
        BinOp::Lt => (if signed { sa < sb } else { a < b }) as u128,
        BinOp::Le => (if signed { sa <= sb } else { a <= b }) as u128,
        BinOp::Gt => (if signed { sa > sb } else { a > b }) as u128,
        BinOp::Ge => (if signed { sa >= sb } else { a >= b }) as u128,
        BinOp::Cmp => { let o = if signed { sa.cmp(&sb) } else { a.cmp(&b) }; (o as i8 as u8) as u128 }
        _ => return None,
    })
}

pub fn shl(a: &V, k: u32, bits: u32) -> V {
    if k == 0 { return a.clone(); }
    match a {
        V::C(c) => V::C((c << k) & mask(bits)),
        V::D(d) if d.enc == Enc::Int => {
            let x = d_mulc(&Data { bits, ..(**d).clone() }, p2(k));
            if d.lin || d.hi * p2(k) < p2(bits) && d.lo >= 0.0 {
                // bits shifted out only matter modulo 2^bits: fine for the affine view; keep exact fields when bits are lost
                if x.lo >= -p2(bits - 1) && x.hi < p2(bits) { return data_to_v(x); }
                if d.exact() && !(d.lo >= 0.0 && d.hi < p2(bits)) { return data_to_v(x); }
                if d.lin && d.clamp.is_none() { return data_to_v(x); }
            }
            field_shl(a, k, bits)
        }
        V::D(_) | V::Cat(_) => field_shl(a, k, bits),
        _ => top(deps_of(a), "shl"),
    }
}
fn field_shl(a: &V, k: u32, bits: u32) -> V {
    let Some(fs) = fields(a, bits) else { return top(deps_of(a), "shl") };
    let mut p = vec![Field { w: k.min(bits), src: FSrc::C(0) }];
    if k < bits { p.extend(slice_fields(&fs, 0, bits - k)); }
    from_fields(p, bits)
}
pub fn shr(a: &V, k: u32, bits: u32, signed: bool) -> V {
    if k == 0 { return a.clone(); }
    match a {
        V::C(c) => V::C(if signed { ((sext(*c & mask(bits), bits) >> k.min(127)) as u128) & mask(bits) } else if k >= bits { 0 } else { (c & mask(bits)) >> k }),
        V::D(d) if d.enc == Enc::Int => {
            match repr(d, bits, signed) {
                Some(x) => data_to_v(Data { bits, ..d_shr(&x, k) }),
                None => if signed && overflows(d, bits, true) && k < bits {
                    // the low bits are those of the value, the sign is not
                    let s = Data { ovf: 1, ..Data::nonlin(k, Enc::Int, d.all_deps(), -p2(k - 1), p2(k - 1) - 1.0) };
                    from_fields(vec![Field { w: bits - k, src: FSrc::Part(d.clone(), k) }, Field { w: k, src: FSrc::Part(Rc::new(s), 0) }], bits)
                } else if signed { data_to_v(Data::nonlin(bits, Enc::Int, d.all_deps(), -p2(bits - 1 - k.min(bits - 1)), p2(bits - 1 - k.min(bits - 1)))) } else { field_shr(a, k, bits) },
            }
        }
        V::Cat(fs) => {
            if signed { if let Some(l) = fs.last() { if !matches!(l.src, FSrc::C(0)) { let d = as_data(a, bits, true); return data_to_v(d_shr(&d, k)); } } }
            field_shr(a, k, bits)
        }
        V::D(_) => field_shr(a, k, bits),
        _ => top(deps_of(a), "shr"),
    }
}
fn field_shr(a: &V, k: u32, bits: u32) -> V {
    let Some(fs) = fields(a, bits) else { return top(deps_of(a), "shr") };
    if k >= bits { return V::C(0); }
    let mut p = slice_fields(&fs, k, bits - k);
    p.push(Field { w: k, src: FSrc::C(0) });
    from_fields(p, bits)
}

pub fn bitop(op: BinOp, a: &V, b: &V, bits: u32) -> V {
    // masks produced by comparisons
    if let (V::Cond(c), v) | (v, V::Cond(c)) = (a, b) {
        if bits > 8 || !matches!(v, V::C(0) | V::C(1)) || op == BinOp::Xor {
            let deps = merge_deps(&cond_deps(c), &deps_of(v));
            match (op, v) {
                (BinOp::And, V::C(x)) if *x == mask(bits) => return V::Cond(c.clone()),
                (BinOp::And, V::C(0)) => return V::C(0),
                (BinOp::Or, V::C(0)) => return V::Cond(c.clone()),
                (BinOp::Xor, V::C(x)) if *x == mask(bits) => return V::Cond(Rc::new(CondV::Not(c.clone()))),
                (BinOp::And, v) if is_data(v) || matches!(v, V::C(_)) => { if let Some(r) = select(c, v, &V::C(0), bits) { return r; } let d = as_data(v, bits, false); return data_to_v(Data::nonlin(bits, Enc::Int, deps, d.lo.min(0.0), d.hi.max(0.0))); }
                _ => return data_to_v(Data::nonlin(bits, Enc::Int, deps, 0.0, p2(bits) - 1.0)),
            }
        }
    }
    let (Some(fa), Some(fb)) = (fields(a, bits), fields(b, bits)) else { return top(merge_deps(&deps_of(a), &deps_of(b)), "bit operation") };
    // xor with the sign bit: a modular offset
    if op == BinOp::Xor {
        for (x, y) in [(a, b), (b, a)] {
            if let (V::D(d), V::C(c)) = (x, y) {
                if *c == 1u128 << (bits - 1) && d.enc == Enc::Int { return data_to_v(d_addc(&Data { bits, ..(**d).clone() }, -p2(bits - 1))); }
                if *c == mask(bits) && d.enc == Enc::Int { return data_to_v(d_addc(&d_mulc(&Data { bits, ..(**d).clone() }, -1.0), -1.0)); }
                if d.enc == Enc::Int && d.lo >= 0.0 && d.hi <= *c as f64 && (*c + 1).is_power_of_two() { return data_to_v(d_addc(&d_mulc(&Data { bits, ..(**d).clone() }, -1.0), *c as f64)); }
            }
        }
    }
    // split at all boundaries
    let simp_all = |f: &Vec<Field>| slice_fields(f, 0, bits);
    let (fa, fb) = (simp_all(&fa), simp_all(&fb));
    let mut cuts: Vec<u32> = vec![0];
    for f in [&fa, &fb] { let mut p = 0; for x in f.iter() { p += x.w; cuts.push(p); } }
    // constant runs for masks
    for f in [&fa, &fb] { let mut p = 0; for x in f.iter() { if let FSrc::C(c) = x.src { let mut prev = c & 1; for i in 1..x.w { let b = (c >> i) & 1; if b != prev { cuts.push(p + i); prev = b; } } } p += x.w; } }
    cuts.sort(); cuts.dedup();
    let mut out = vec![];
    for w in cuts.windows(2) {
        let (o, n) = (w[0], w[1] - w[0]);
        let (x, y) = (slice_fields(&fa, o, n), slice_fields(&fb, o, n));
        let cx = if x.len() == 1 { if let FSrc::C(c) = x[0].src { Some(c) } else { None } } else { None };
        let cy = if y.len() == 1 { if let FSrc::C(c) = y[0].src { Some(c) } else { None } } else { None };
        match (cx, cy) {
            (Some(p), Some(q)) => { let r = match op { BinOp::And => p & q, BinOp::Or => p | q, _ => p ^ q }; out.push(Field { w: n, src: FSrc::C(r) }); }
            (Some(p), None) | (None, Some(p)) => {
                let z = if cx.is_some() { y } else { x };
                match op {
                    BinOp::And if p == 0 => out.push(Field { w: n, src: FSrc::C(0) }),
                    BinOp::And if p == mask(n) => out.extend(z),
                    BinOp::Or if p == 0 => out.extend(z),
                    BinOp::Or if p == mask(n) => out.push(Field { w: n, src: FSrc::C(p) }),
                    BinOp::Xor if p == 0 => out.extend(z),
                    _ => { let deps = merge_deps(&deps_of(a), &deps_of(b)); out.push(Field { w: n, src: FSrc::Part(Rc::new(Data::nonlin(n, Enc::Int, deps, 0.0, p2(n) - 1.0)), 0) }); }
                }
            }
            _ => {
                if x == y && op != BinOp::Xor { out.extend(x); continue; }
                let deps = merge_deps(&deps_of(a), &deps_of(b));
                out.push(Field { w: n, src: FSrc::Part(Rc::new(Data::nonlin(n, Enc::Int, deps, 0.0, p2(n) - 1.0)), 0) });
            }
        }
    }
    from_fields(out, bits)
}

fn ctl(v: &V) -> bool { matches!(v, V::P(_)) }

pub fn cmp_poly(op: BinOp, a: &Poly, b: &Poly) -> CondV {
    match op {
        BinOp::Lt => CondV::Ge(b.sub(a).addc(-1)),
        BinOp::Le => CondV::Ge(b.sub(a)),
        BinOp::Gt => CondV::Ge(a.sub(b).addc(-1)),
        BinOp::Ge => CondV::Ge(a.sub(b)),
        BinOp::Eq => CondV::Eq(a.sub(b)),
        _ => CondV::Not(Rc::new(CondV::Eq(a.sub(b)))),
    }
}
pub fn mk_cond(c: CondV, facts: &[Poly]) -> V {
    match &c { CondV::Ge(p) | CondV::Eq(p) if p.is_const() => V::C(cond_poly(&c, &[]).unwrap() as u128), CondV::Not(d) => match &**d { CondV::Eq(p) if p.is_const() => V::C(cond_poly(&c, &[]).unwrap() as u128), _ => V::Cond(Rc::new(c)) }, _ => { let _ = facts; V::Cond(Rc::new(c)) } }
}

impl<'a, 'tcx> Interp<'a, 'tcx> {
    pub fn binop(&mut self, st: &State, op: BinOp, a: &V, b: &V, t: TyId, dsz: u64) -> R<Val> {
        let ti = self.cx.tyinfo(t);
        let sz = ti.size;
        let bits = (sz * 8) as u32;
        let enc = enc_of(&ti.kind);
        let signed = matches!(ti.kind, TyK::Int { signed: true, .. });
        // pointers
        if matches!(ti.kind, TyK::Ptr { .. }) || matches!(a, V::Ptr(_)) {
            return self.ptr_op(op, a, b, t, dsz);
        }
        if enc != Enc::Int {
            return Ok(match op {
                BinOp::Eq | BinOp::Ne | BinOp::Lt | BinOp::Le | BinOp::Gt | BinOp::Ge => {
                    let (x, y) = (as_float(a, enc), as_float(b, enc));
                    let v = if let (Some(p), Some(q)) = (x.is_const(), y.is_const()) {
                        V::C(match op { BinOp::Eq => p == q, BinOp::Ne => p != q, BinOp::Lt => p < q, BinOp::Le => p <= q, BinOp::Gt => p > q, _ => p >= q } as u128)
                    } else { let c = CondV::Data(op, V::D(Rc::new(x)), V::D(Rc::new(y))); match cond_poly(&c, &[]) { Some(b) => V::C(b as u128), None => V::Cond(Rc::new(c)) } };
                    Val::scalar(1, v)
                }
                _ => Val::scalar(sz, fop(op, a, b, enc)),
            });
        }
        let checked = matches!(op, BinOp::AddO | BinOp::SubO | BinOp::MulO);
        if checked {
            let base = match op { BinOp::AddO => BinOp::Add, BinOp::SubO => BinOp::Sub, _ => BinOp::Mul };
            let v = self.binop(st, base, a, b, t, sz)?;
            let of = if let (V::C(x), V::C(y)) = (a, b) {
                let (x, y) = (if signed { sext(*x & mask(bits), bits) } else { (*x & mask(bits)) as i128 }, if signed { sext(*y & mask(bits), bits) } else { (*y & mask(bits)) as i128 });
                let r = match base { BinOp::Add => x.checked_add(y), BinOp::Sub => x.checked_sub(y), _ => x.checked_mul(y) };
                let (lo, hi) = if signed { (-(1i128 << (bits - 1)), (1i128 << (bits - 1)) - 1) } else { (0, if bits >= 127 { i128::MAX } else { (1i128 << bits) - 1 }) };
                V::C(match r { Some(r) => r < lo || r > hi, None => true } as u128)
            } else if ctl(a) || ctl(b) {
                // sub: overflow iff negative
                if base == BinOp::Sub && !signed { match (to_poly(a, bits, signed), to_poly(b, bits, signed)) { (Some(x), Some(y)) => mk_cond(CondV::Ge(y.sub(&x).addc(-1)), &st.facts), _ => V::C(0) } } else { V::C(0) }
            } else if matches!(a, V::D(_) | V::Cat(_) | V::C(_)) && matches!(b, V::D(_) | V::Cat(_) | V::C(_)) {
                let (x, y) = (Data { bits: 128, ..as_data(a, bits, signed) }, Data { bits: 128, ..as_data(b, bits, signed) });
                let r = match base { BinOp::Add => d_add(&x, &y, 1.0), BinOp::Sub => d_add(&x, &y, -1.0), _ => d_mul(&x, &y) };
                let (lo, hi) = if signed { (-p2(bits - 1), p2(bits - 1) - 1.0) } else { (0.0, p2(bits) - 1.0) };
                if r.lo >= lo && r.hi <= hi { V::C(0) }
                else if r.lo < lo && r.hi <= hi { V::Cond(Rc::new(CondV::Data(BinOp::Lt, V::D(Rc::new(r)), V::D(Rc::new(Data::konst(128, lo, Enc::Int)))))) }
                else if r.lo >= lo { V::Cond(Rc::new(CondV::Data(BinOp::Gt, V::D(Rc::new(r)), V::D(Rc::new(Data::konst(128, hi, Enc::Int)))))) }
                else { V::Cond(Rc::new(CondV::Unknown(merge_deps(&deps_of(a), &deps_of(b))))) }
            } else { V::Cond(Rc::new(CondV::Unknown(merge_deps(&deps_of(a), &deps_of(b))))) };
            let mut e = v.e;
            e.push(Ent { off: sz, size: 1, v: of });
            return Ok(Val { size: dsz, e });
        }
        let iscmp = matches!(op, BinOp::Eq | BinOp::Ne | BinOp::Lt | BinOp::Le | BinOp::Gt | BinOp::Ge);
        let osz = if iscmp || op == BinOp::Cmp { 1 } else { sz };
        if let (V::C(x), V::C(y)) = (a, b) {
            let yb = if matches!(op, BinOp::Shl | BinOp::Shr) { *y & 0xff } else { *y };
            if let Some(r) = int_const(op, *x, yb, bits, signed) { return Ok(Val::scalar(osz, V::C(r))); }
            return Ok(Val::scalar(osz, top(vec![], "constant op")));
        }
        if matches!(a, V::Undef) || matches!(b, V::Undef) { return Ok(Val::scalar(osz, V::Undef)); }
        // booleans / conditions
        if matches!(a, V::Cond(_)) || matches!(b, V::Cond(_)) {
            let d = merge_deps(&deps_of(a), &deps_of(b));
            let v = match (op, a, b) {
                (BinOp::And, V::Cond(x), V::Cond(y)) => V::Cond(Rc::new(CondV::And(x.clone(), y.clone()))),
                (BinOp::Or, V::Cond(x), V::Cond(y)) => V::Cond(Rc::new(CondV::Not(Rc::new(CondV::And(Rc::new(CondV::Not(x.clone())), Rc::new(CondV::Not(y.clone()))))))),
                (BinOp::And, V::Cond(x), V::C(k)) | (BinOp::And, V::C(k), V::Cond(x)) => if k & 1 == 1 { V::Cond(x.clone()) } else { V::C(0) },
                (BinOp::Or, V::Cond(x), V::C(k)) | (BinOp::Or, V::C(k), V::Cond(x)) => if k & 1 == 1 { V::C(1) } else { V::Cond(x.clone()) },
                (BinOp::Xor | BinOp::Ne, V::Cond(x), V::C(k)) | (BinOp::Xor | BinOp::Ne, V::C(k), V::Cond(x)) => if k & 1 == 1 { V::Cond(Rc::new(CondV::Not(x.clone()))) } else { V::Cond(x.clone()) },
                (BinOp::Eq, V::Cond(x), V::C(k)) | (BinOp::Eq, V::C(k), V::Cond(x)) => if k & 1 == 0 { V::Cond(Rc::new(CondV::Not(x.clone()))) } else { V::Cond(x.clone()) },
                _ => if iscmp { V::Cond(Rc::new(CondV::Unknown(d))) } else { data_to_v(Data::nonlin(bits, Enc::Int, d, if signed { -p2(bits - 1) } else { 0.0 }, p2(bits) - 1.0)) },
            };
            return Ok(Val::scalar(osz, v));
        }
        if let (BinOp::Sub, V::Pow(n), V::C(1)) = (op, a, b) { return Ok(Val::scalar(osz, V::Mask(n.clone()))); }
        if let (BinOp::Shr, V::Mask(n), V::P(_) | V::C(_)) = (op, a, b) { if let Some(k) = to_poly(b, 32, false) { let r = n.sub(&k); if poly::nonneg(&r, &st.facts) { return Ok(Val::scalar(osz, V::Mask(Rc::new(r)))); } } }
        if ctl(a) || ctl(b) {
            let (Some(x), Some(y)) = (to_poly(a, bits, signed), to_poly(b, bits, signed)) else {
                return Ok(Val::scalar(osz, if iscmp { V::Cond(Rc::new(CondV::Unknown(merge_deps(&deps_of(a), &deps_of(b))))) } else { top(merge_deps(&deps_of(a), &deps_of(b)), "size mixed with sample") }));
            };
            if iscmp { return Ok(Val::scalar(1, mk_cond(cmp_poly(op, &x, &y), &st.facts))); }
            if matches!(op, BinOp::Shr) && !signed && y.konst().is_none() && matches!(a, V::C(c) if *c & mask(bits) == mask(bits)) {
                let n = Poly::k(bits as i64).sub(&y);
                if poly::nonneg(&n, &st.facts) && poly::nonneg(&y, &st.facts) { return Ok(Val::scalar(osz, V::Mask(Rc::new(n)))); }
            }
            if matches!(op, BinOp::Shl) && y.konst().is_none() && x.konst() == Some(1) && poly::nonneg(&y, &st.facts) && poly::nonneg(&Poly::k(bits as i64 - 1).sub(&y), &st.facts) { return Ok(Val::scalar(osz, V::Pow(Rc::new(y)))); }
            let r = match op {
                BinOp::Add => Some(x.add(&y)),
                BinOp::Sub => Some(x.sub(&y)),
                BinOp::Mul => x.mul(&y),
                BinOp::Shl => y.konst().filter(|k| *k < 62).map(|k| x.scale(1 << k)),
                BinOp::Div => match y.konst() { Some(k) => poly::floor_div(&x, k, &st.facts), None => poly_div(&x, &y, &st.facts).map(|q| q.0) },
                BinOp::Rem => match y.konst() { Some(k) => poly::floor_div(&x, k, &st.facts).map(|q| x.sub(&q.scale(k))), None => poly_div(&x, &y, &st.facts).map(|q| q.1) },
                BinOp::Shr => y.konst().filter(|k| *k < 62).and_then(|k| poly::floor_div(&x, 1 << k, &st.facts)),
                BinOp::And => {
                    let (p, m) = if let Some(m) = y.konst() { (x.clone(), m) } else if let Some(m) = x.konst() { (y.clone(), m) } else { return Ok(Val::scalar(osz, top(vec![], "and of sizes"))) };
                    if m >= 0 && (m + 1) & m == 0 { poly::floor_div(&p, m + 1, &st.facts).map(|q| p.sub(&q.scale(m + 1))) }
                    else { let inv = if bits == 64 { !m } else { !(m) & (mask(bits) as i64) }; if inv >= 0 && (inv + 1) & inv == 0 { poly::floor_div(&p, inv + 1, &st.facts).map(|q| q.scale(inv + 1)) } else { None } }
                }
                _ => None,
            };
            let Some(r) = r else { return abort(format!("size arithmetic {op:?} of {x:?} and {y:?} in {}", self.loc())) };
            // no wrap-around
            if !r.is_const() || !x.is_const() {
                if matches!(op, BinOp::Sub) && !signed && !poly::nonneg(&r, &st.facts) {
                    let w = poly::witness_neg(&r, &st.facts);
                    // wrapping subtraction is only a defect if the result is used; record as possible
                    let _ = w;
                }
                if bits < 64 && matches!(op, BinOp::Add | BinOp::Mul | BinOp::Shl) {
                    let ok = self.max_narrow.iter().any(|m| poly::nonneg(&m.sub(&r), &st.facts)) || r.is_const();
                    if !ok { self.find("narrow-overflow", st.unsure == 0, format!("{bits}-bit arithmetic {op:?} gives {r:?}, which does not fit for large images")); }
                }
            }
            return Ok(Val::scalar(sz, norm_p(r, bits)));
        }
        if matches!(a, V::Top(_) | V::Seq(_) | V::Opt(..) | V::Fn(_) | V::VTab(_)) || matches!(b, V::Top(_) | V::Seq(_) | V::Opt(..) | V::Fn(_) | V::VTab(_)) {
            let d = merge_deps(&deps_of(a), &deps_of(b));
            return Ok(Val::scalar(osz, if iscmp { V::Cond(Rc::new(CondV::Unknown(d))) } else { top(d, "operation on unknown value") }));
        }
        if op == BinOp::Cmp { let d = merge_deps(&deps_of(a), &deps_of(b)); return Ok(Val::scalar(1, top(d, "three-way comparison"))); }
        Ok(Val::scalar(osz, iop(op, a, b, bits, signed)))
    }

    fn ptr_op(&mut self, op: BinOp, a: &V, b: &V, t: TyId, _dsz: u64) -> R<Val> {
        let iscmp = matches!(op, BinOp::Eq | BinOp::Ne | BinOp::Lt | BinOp::Le | BinOp::Gt | BinOp::Ge);
        match (op, a, b) {
            (BinOp::Offset, V::Ptr(p), n) => {
                let TyK::Ptr { pointee, .. } = self.cx.tyinfo(t).kind else { return abort("offset") };
                let esz = self.cx.tyinfo(pointee).size as i64;
                let Some(n) = to_poly(n, 64, true) else { return abort(format!("pointer offset by {} in {}", short(n), self.loc())) };
                Ok(Val::scalar(8, V::Ptr(Rc::new(PtrV { alloc: p.alloc, off: p.off.add(&n.scale(esz)) }))))
            }
            (BinOp::Offset, V::C(c), V::C(_)) => Ok(Val::scalar(8, V::C(*c))),
            (_, V::Ptr(p), V::Ptr(q)) if iscmp => {
                if p.alloc == q.alloc { Ok(Val::scalar(1, mk_cond(cmp_poly(op, &p.off, &q.off), &[]))) } else { Ok(Val::scalar(1, V::C((op == BinOp::Ne) as u128))) }
            }
            (BinOp::Sub, V::Ptr(p), V::Ptr(q)) if p.alloc == q.alloc => Ok(Val::scalar(8, pv(p.off.sub(&q.off)))),
            (_, V::Ptr(_), V::C(0)) | (_, V::C(0), V::Ptr(_)) if iscmp => Ok(Val::scalar(1, V::C((op == BinOp::Ne) as u128))),
            (_, V::C(x), V::C(y)) => Ok(Val::scalar(1, V::C(int_const(op, *x, *y, 64, false).unwrap_or(0)))),
            (BinOp::And, V::Ptr(_), V::C(_)) => Ok(Val::scalar(8, V::C(0))), // alignment check of an address
            _ => if iscmp { Ok(Val::scalar(1, V::Cond(Rc::new(CondV::Unknown(vec![]))))) } else { abort(format!("pointer operation {op:?} {} {} in {}", short(a), short(b), self.loc())) },
        }
    }

    pub fn unop(&mut self, op: UnOp, v: Val, t: TyId) -> R<Val> {
        let ti = self.cx.tyinfo(t);
        let sz = ti.size;
        let bits = (sz * 8) as u32;
        if op == UnOp::PtrMeta {
            if v.size <= 8 { return Ok(Val::unit()); }
            return Ok(Val::scalar(8, read_scalar(&v.e, 8, 8)));
        }
        let x = read_scalar(&v.e, 0, sz);
        let enc = enc_of(&ti.kind);
        if enc != Enc::Int {
            return Ok(Val::scalar(sz, match &x { V::C(c) => V::C(c ^ (1u128 << (bits - 1))), _ => data_to_v(d_mulc(&as_float(&x, enc), -1.0)) }));
        }
        let r = match (op, &x) {
            (UnOp::Not, V::C(c)) => if ti.kind == TyK::Bool { V::C((c & 1) ^ 1) } else { V::C(!c & mask(bits)) },
            (UnOp::Not, V::Cond(c)) => V::Cond(Rc::new(CondV::Not(c.clone()))),
            (UnOp::Neg, V::C(c)) => V::C((!c).wrapping_add(1) & mask(bits)),
            (UnOp::Neg, V::P(p)) => V::P(Rc::new(p.neg())),
            (UnOp::Neg, d) if is_data(d) => data_to_v(d_mulc(&as_data(d, bits, true), -1.0)),
            (UnOp::Not, d) if is_data(d) => bitop(BinOp::Xor, d, &V::C(mask(bits)), bits),
            (UnOp::Not, V::P(p)) => pv(p.neg().addc(-1)),
            (_, V::Undef) => V::Undef,
            (_, v) => top(deps_of(v), "unary"),
        };
        Ok(Val::scalar(sz, r))
    }

    pub fn int_cast(&mut self, v: &V, fb: u32, fs: bool, tb: u32, ts: bool) -> V {
        let _ = ts;
        match v {
            V::C(c) => V::C(if fs { (sext(*c & mask(fb), fb) as u128) & mask(tb) } else { (*c & mask(fb)) & mask(tb) }),
            V::P(p) => V::P(p.clone()),
            V::Cond(c) => if fb == 8 { V::Cond(c.clone()) } else { top(cond_deps(c), "cast of mask") },
            V::Undef => V::Undef,
            d if is_data(d) => {
                if tb <= fb {
                    match d { V::D(x) if x.enc == Enc::Int && (x.lin && x.clamp.is_none() || (x.lo >= -p2(tb - 1) && x.hi < p2(tb))) => {
                            // exact values that lose high bits keep their bit identity
                            if x.exact() && x.lo >= 0.0 && x.hi >= p2(tb) { return from_fields(slice_fields(&fields(d, fb).unwrap(), 0, tb), tb); }
                            V::D(Rc::new(Data { bits: tb, ..(**x).clone() })) }
                        _ => from_fields(slice_fields(&fields(d, fb).unwrap(), 0, tb), tb) }
                } else {
                    if let (V::Cat(fs_), false) = (d, fs) { let mut p = fs_.to_vec(); p.push(Field { w: tb - fb, src: FSrc::C(0) }); return from_fields(p, tb); }
                    if let V::D(x) = d { if x.enc != Enc::Int { let mut p = fields(d, fb).unwrap(); p.push(Field { w: tb - fb, src: FSrc::C(0) }); return from_fields(p, tb); } }
                    data_to_v(Data { bits: tb, ..as_data(d, fb, fs) })
                }
            }
            v => top(deps_of(v), "cast"),
        }
    }

    pub fn float_to_int(&self, v: &V, enc: Enc, tb: u32, ts: bool) -> V {
        let d = as_float(v, enc);
        let (lo, hi) = if ts { (-p2(tb - 1), p2(tb - 1) - 1.0) } else { (0.0, p2(tb) - 1.0) };
        if let Some(c) = d.is_const() { let x = if c.is_nan() { 0.0 } else { c.trunc().max(lo).min(hi) }; return V::C((x as i128 as u128) & mask(tb)); }
        if !d.lin { return data_to_v(Data::nonlin(tb, Enc::Int, d.all_deps(), d.lo.trunc().max(lo), d.hi.trunc().min(hi))); }
        let mut x = d.clone();
        x.enc = Enc::Int; x.bits = tb; x.tz = 0;
        if d.hi > 0.0 { x.elo -= 1.0; }
        if d.lo < 0.0 { x.ehi += 1.0; }
        x.lo = d.lo.trunc(); x.hi = d.hi.trunc();
        data_to_v(d_clamp(&x, lo, hi))
    }
    pub fn int_to_float(&self, v: &V, fb: u32, fs: bool, enc: Enc) -> V {
        let bits = match enc { Enc::F16 => 16, Enc::F32 => 32, _ => 64 };
        match v {
            V::C(c) => { let x = if fs { sext(*c & mask(fb), fb) as f64 } else { (*c & mask(fb)) as f64 }; data_to_v(Data::konst(bits, if enc == Enc::F32 { x as f32 as f64 } else { x }, enc)) }
            V::P(_) => top(vec![], "float of size"),
            _ => { let mut d = as_data(v, fb, fs); d.enc = enc; d.bits = bits; d.tz = 0; if enc == Enc::F16 && d.hi.abs().max(d.lo.abs()) > 2048.0 { let m = d.hi.abs().max(d.lo.abs()) * 4.9e-4; d.elo -= m; d.ehi += m; } data_to_v(d) }
        }
    }
    pub fn float_to_float(&self, v: &V, from: Enc, to: Enc) -> V {
        let bits = match to { Enc::F16 => 16, Enc::F32 => 32, _ => 64 };
        if let V::D(d) = v { if d.enc != from { return data_to_v(Data::unknown(bits, to, d.all_deps())); } }
        let mut d = as_float(v, from);
        if let Some(c) = d.is_const() { return data_to_v(Data::konst(bits, if to == Enc::F32 { c as f32 as f64 } else { c }, to)); }
        d.enc = to; d.bits = bits;
        let u = match to { Enc::F16 => 4.9e-4, Enc::F32 if from == Enc::F64 => 6e-8, _ => 0.0 };
        let m = d.hi.abs().max(d.lo.abs()) * u;
        if m.is_finite() { d.elo -= m; d.ehi += m; }
        data_to_v(d)
    }

    pub fn cast(&mut self, k: &CastK, v: Val, f: TyId, t: TyId) -> R<Val> {
        let (fi, ti) = (self.cx.tyinfo(f), self.cx.tyinfo(t));
        let x = || read_scalar(&v.e, 0, fi.size.min(v.size.max(1)));
        let ib = |k: &TyK, sz: u64| -> (u32, bool) { match k { TyK::Int { bits, signed } => (*bits, *signed), TyK::Bool => (8, false), TyK::Char => (32, false), _ => ((sz * 8) as u32, false) } };
        Ok(match k {
            CastK::IntToInt => {
                let s = x();
                // enum to int
                if let TyK::Enum { layout, .. } = &fi.kind { let _ = layout; }
                let (fb, fs) = ib(&fi.kind, fi.size);
                let (tb, ts) = ib(&ti.kind, ti.size);
                let r = self.int_cast(&s, fb, fs, tb, ts);
                Val::scalar(ti.size, r)
            }
            CastK::FloatToInt => { let (tb, ts) = ib(&ti.kind, ti.size); Val::scalar(ti.size, self.float_to_int(&x(), enc_of(&fi.kind), tb, ts)) }
            CastK::IntToFloat => { let (fb, fs) = ib(&fi.kind, fi.size); Val::scalar(ti.size, self.int_to_float(&x(), fb, fs, enc_of(&ti.kind))) }
            CastK::FloatToFloat => Val::scalar(ti.size, self.float_to_float(&x(), enc_of(&fi.kind), enc_of(&ti.kind))),
            CastK::PtrToPtr | CastK::FnPtrToPtr | CastK::Noop => { if v.size > ti.size { Val { size: ti.size, e: slice_ents(&v.e, 0, ti.size) } } else { v } }
            CastK::ExposeAddr | CastK::FromExposed => v,
            CastK::Transmute => Val { size: ti.size, e: v.e },
            CastK::Reify(i) => Val::scalar(8, V::Fn(*i)),
            CastK::Unsize { len, vtable } => {
                let p = read_scalar(&v.e, 0, 8);
                if let Some(n) = len { Val::pair(p, V::C(*n as u128)) } else if let Some(t) = vtable { Val::pair(p, V::VTab(*t)) } else { v }
            }
        })
    }
}

pub fn norm_p(p: Poly, bits: u32) -> V { match p.konst() { Some(c) => vk(c, bits), None => V::P(Rc::new(p)) } }

/// x / y for symbolic y: exact polynomial division with a remainder proved to be in [0, y)
pub fn poly_div(x: &Poly, y: &Poly, facts: &[Poly]) -> Option<(Poly, Poly)> {
    if x.konst() == Some(0) { return Some((Poly::k(0), Poly::k(0))); }
    if let Some((q, r)) = x.div_mono(y) {
        if poly::nonneg(&r, facts) && poly::nonneg(&y.sub(&r).addc(-1), facts) { return Some((q, r)); }
        // remainder may be negative by less than y: q-1
        if poly::nonneg(&r.add(y), facts) && poly::nonneg(&r.neg().addc(-1), facts) { return Some((q.addc(-1), r.add(y))); }
    }
    if poly::nonneg(x, facts) && poly::nonneg(&y.sub(x).addc(-1), facts) { return Some((Poly::k(0), x.clone())); }
    // long division by a divisor of several terms
    if y.t.len() + (y.c != 0) as usize > 1 {
        let deg = |m: poly::Mono| poly::mono_syms(m).count();
        let &(lm, lc) = y.t.iter().max_by_key(|t| (deg(t.0), t.0))?;
        let lead = Poly { c: 0, t: vec![(lm, lc)] };
        let (mut q, mut r) = (Poly::k(0), x.clone());
        for _ in 0..12 {
            let Some((_, d)) = r.t.iter().filter_map(|t| Poly { c: 0, t: vec![*t] }.div_mono(&lead).filter(|d| !(d.0.t.is_empty() && d.0.c == 0)).map(|d| ((deg(t.0), t.0), d.0))).max_by_key(|t| t.0) else { break };
            q = q.add(&d);
            r = r.sub(&d.mul(y)?);
        }
        if poly::nonneg(&r, facts) && poly::nonneg(&y.sub(&r).addc(-1), facts) { return Some((q, r)); }
    }
    if let Some(k) = y.konst() { if k > 0 { return x.div_floor(k).map(|(q, r)| (q, Poly::k(r))); } }
    None
}
