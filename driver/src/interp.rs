//! Abstract interpreter over ir::Body.
use crate::ir::*;
use crate::lower::Cx;
use crate::poly::{self, Poly};
use crate::val::*;
use std::collections::HashSet;
use std::rc::Rc;

pub const STATIC_BASE: u32 = 0x4000_0000;
pub const EXT_BASE: u32 = 0x2000_0000;

#[derive(Clone, Debug)]
pub enum RegVal {
    /// element = integer sample * 2^shift, sample in lo..=hi, `bits` wide, optionally byte-swapped in memory
    Int { bits: u32, lo: f64, hi: f64, shift: u32, be: bool },
    F16 { lo: f64, hi: f64 },
    /// byte samples whose range depends on their place in the pixel
    Cycle(Vec<(f64, f64)>),
    /// bit fields low to high: (width, channel, lo, hi); byte swapped if be
    Fields { fs: Vec<(u32, u8, f64, f64)>, bits: u32, be: bool },
    /// opaque bit patterns (exact copies only)
    Opaque { bits: u32 },
}

#[derive(Clone, Debug)]
pub struct Region { pub name: String, pub esz: u64, pub len: Poly, pub out: bool, pub rv: RegVal }

#[derive(Clone, Debug)]
pub struct Mem { pub size: u64, pub e: Vec<Ent> }

#[derive(Clone, Debug)]
pub enum Slot { Free, Mem(Rc<Mem>) }

#[derive(Clone, Debug, PartialEq)]
pub struct Effect {
    pub region: u16,
    /// element offset
    pub off: Poly,
    pub vals: Vec<V>,
    pub quants: Vec<(u16, Poly)>,
    /// only the first `count` elements of vals are written
    pub count: Option<Poly>,
    pub may: bool,
    pub loc: String,
}

#[derive(Clone, Debug)]
pub struct State {
    pub slots: Vec<Slot>,
    pub effects: Rc<Vec<Effect>>,
    pub facts: Vec<Poly>,
    pub unsure: u32,
    pub fills: Rc<Vec<Fill>>,
    /// writes at symbolic offsets of a temporary that wait for the tail copy that explains them
    pub pend: Rc<Vec<(u32, Poly, Val)>>,
}

/// the first `n` elements (n symbolic, n <= cap) of a temporary were copied from a source plane
#[derive(Clone, Debug)]
pub struct Fill { pub region: u16, pub so: Poly, pub n: Poly, pub cap: i64, pub slot: u32, pub base: i64, pub rep: bool }

#[derive(Clone, Debug)]
pub struct Finding { pub kind: &'static str, pub msg: String, pub loc: String, pub definite: bool }

pub struct Frame { pub body: Rc<Body>, pub base: u32 }

#[derive(Debug, Clone)]
pub struct Abort(pub String);
pub type R<T> = Result<T, Abort>;
pub fn abort<T>(s: impl Into<String>) -> R<T> { Err(Abort(s.into())) }

pub struct LoopCtx { pub set: Rc<Vec<bool>>, pub probe: bool, pub sym_exit: bool, pub exits: Vec<(State, u32, Poly)>, pub k: u16, pub t: Option<Poly>, pub restart: bool, pub depth: usize }

pub enum Flow { Stop, Diverge, Exit(u32) }

pub struct Interp<'a, 'tcx> {
    pub cx: &'a Cx<'tcx>,
    pub regions: Vec<Region>,
    pub features: HashSet<String>,
    /// calls of the rotation crate are taken at their documented meaning
    pub trust_rotation: bool,
    /// detection queries made so far and their answers
    pub queried: std::collections::BTreeMap<String, bool>,
    pub findings: Vec<Finding>,
    pub stack: Vec<(String, u32)>,
    pub steps: u64,
    pub max_steps: u64,
    /// parallel iterators met
    pub par: u64,
    /// functions whose required CPU extensions were checked in this run
    pub checked: HashSet<InstId>,
    pub feature_fns: std::collections::BTreeSet<String>,
    pub feature_calls: u64,
    pub accesses: u64,
    pub accesses_proved: u64,
    pub calls: u64,
    pub kernels: std::collections::BTreeSet<String>,
    pub max_narrow: Vec<Poly>,
    pub trace: bool,
    pub rloops: u64,
    pub missing: std::collections::BTreeSet<String>,
    pub uninit_out: u64,
}

impl State {
    pub fn new() -> State { State { slots: vec![], effects: Rc::new(vec![]), facts: vec![], unsure: 0, fills: Rc::new(vec![]), pend: Rc::new(vec![]) } }
    pub fn alloc(&mut self, size: u64) -> u32 { self.slots.push(Slot::Mem(Rc::new(Mem { size, e: vec![] }))); (self.slots.len() - 1) as u32 }
    pub fn alloc_val(&mut self, v: Val) -> u32 { self.slots.push(Slot::Mem(Rc::new(Mem { size: v.size, e: v.e }))); (self.slots.len() - 1) as u32 }
}

// ---------------------------------------------------------------- entry-list helpers
pub fn ent_find(e: &[Ent], off: u64) -> usize { e.partition_point(|x| x.off + x.size <= off) }

/// read `size` bytes at `off` as one scalar
pub fn read_scalar(e: &[Ent], off: u64, size: u64) -> V {
    let i = ent_find(e, off);
    if i < e.len() && e[i].off == off && e[i].size == size { return e[i].v.clone(); }
    // assemble
    let mut parts: Vec<Field> = vec![];
    let mut p = off;
    let mut j = i;
    let mut deps: Option<Vec<SrcId>> = None;
    while p < off + size {
        if j >= e.len() || e[j].off > p { return V::Undef; }
        let x = &e[j];
        let a = p - x.off;
        let b = (x.off + x.size).min(off + size) - x.off;
        match fields(&x.v, (x.size * 8) as u32) {
            Some(fs) => { for f in slice_fields(&fs, (a * 8) as u32, ((b - a) * 8) as u32) { parts.push(f); } }
            None => match &x.v { V::Undef => return V::Undef, v => {
                // first 8 bytes of opaque seq etc.
                deps = Some(merge_deps(&deps.unwrap_or_default(), &deps_of(v)));
            } },
        }
        p = x.off + b;
        j += 1;
    }
    if let Some(d) = deps { return top(d, "partial read of opaque value"); }
    from_fields(parts, (size * 8) as u32)
}

pub fn slice_ents(e: &[Ent], off: u64, size: u64) -> Vec<Ent> {
    let mut out = vec![];
    let mut i = ent_find(e, off);
    while i < e.len() && e[i].off < off + size {
        let x = &e[i];
        let (a, b) = (x.off.max(off), (x.off + x.size).min(off + size));
        if a == x.off && b == x.off + x.size { out.push(Ent { off: a - off, size: x.size, v: x.v.clone() }); }
        else {
            // partial: byte-wise
            for p in a..b { out.push(Ent { off: p - off, size: 1, v: read_scalar(e, p, 1) }); }
        }
        i += 1;
    }
    out
}

pub fn clear_range(e: &mut Vec<Ent>, off: u64, size: u64) -> usize {
    if size == 0 { return ent_find(e, off); }
    let i = ent_find(e, off);
    let mut j = i;
    while j < e.len() && e[j].off < off + size { j += 1; }
    if i == j { return i; }
    if e[i].off >= off && e[j - 1].off + e[j - 1].size <= off + size { e.drain(i..j); return i; }
    let mut keep_l = vec![]; let mut keep_r = vec![];
    if e[i].off < off { let x = e[i].clone(); for p in x.off..off { keep_l.push(Ent { off: p, size: 1, v: read_scalar(std::slice::from_ref(&x), p, 1) }); } }
    { let x = e[j - 1].clone(); let end = x.off + x.size; if end > off + size { for p in off + size..end { keep_r.push(Ent { off: p, size: 1, v: read_scalar(std::slice::from_ref(&x), p, 1) }); } } }
    let nl = keep_l.len();
    keep_l.extend(keep_r);
    e.splice(i..j, keep_l);
    i + nl
}
pub fn write_ents(e: &mut Vec<Ent>, off: u64, size: u64, src: &[Ent]) {
    if src.len() == 1 && src[0].off == 0 && src[0].size == size {
        let i = ent_find(e, off);
        if i < e.len() && e[i].off == off && e[i].size == size { e[i].v = src[0].v.clone(); return; }
    }
    let i = clear_range(e, off, size);
    if i == e.len() { e.extend(src.iter().map(|x| Ent { off: x.off + off, size: x.size, v: x.v.clone() })); }
    else { e.splice(i..i, src.iter().map(|x| Ent { off: x.off + off, size: x.size, v: x.v.clone() })); }
}

impl<'a, 'tcx> Interp<'a, 'tcx> {
    pub fn new(cx: &'a Cx<'tcx>) -> Self {
        Interp { cx, regions: vec![], features: HashSet::new(), trust_rotation: false, queried: Default::default(), findings: vec![], stack: vec![], steps: 0, max_steps: 30_000_000, par: 0, checked: HashSet::new(), feature_fns: Default::default(), feature_calls: 0, accesses: 0, accesses_proved: 0, calls: 0, kernels: Default::default(), max_narrow: vec![], trace: std::env::var("YV_TRACE").is_ok(), rloops: 0, missing: Default::default(), uninit_out: 0 }
    }
    pub fn loc(&self) -> String {
        // innermost frame that belongs to the analysed crate
        let mut v: Vec<String> = vec![];
        for (n, l) in self.stack.iter().rev() { if !n.starts_with('<') && !n.starts_with("std::") && !n.starts_with("core::") { v.push(format!("{n}:{l}")); if v.len() >= 3 { break; } } }
        v.join(" < ")
    }
    pub fn find(&mut self, kind: &'static str, definite: bool, msg: String) {
        let loc = self.loc();
        if self.findings.len() > 400 { return; }
        if self.findings.iter().any(|f| f.kind == kind && f.loc == loc && f.definite == definite) { return; }
        self.findings.push(Finding { kind, msg, loc, definite });
    }

    // ------------------------------------------------------------ memory
    pub fn mem<'s>(&self, st: &'s State, a: u32) -> R<&'s Mem> {
        match st.slots.get(a as usize) { Some(Slot::Mem(m)) => Ok(m), _ => abort(format!("access to freed slot {a}")) }
    }
    pub fn mem_mut<'s>(&self, st: &'s mut State, a: u32) -> R<&'s mut Mem> {
        match st.slots.get_mut(a as usize) { Some(Slot::Mem(m)) => Ok(Rc::make_mut(m)), _ => abort(format!("write to freed slot {a}")) }
    }

    pub fn elem_value(&self, region: u16, off: Poly) -> V {
        let r = &self.regions[region as usize];
        let swap = |v: V, bits: u32| -> V {
            let fs = fields(&v, bits).unwrap();
            let mut parts = vec![];
            let nb = bits / 8;
            for i in 0..nb { parts.extend(slice_fields(&fs, (nb - 1 - i) * 8, 8)); }
            from_fields(parts, bits)
        };
        match &r.rv {
            RegVal::Int { lo, hi, shift, be: false, .. } if lo == hi => V::C((*lo * p2(*shift)) as u128),
            RegVal::Int { bits, lo, hi, shift, be } => {
                let id = src_id(Src { region, off, ch: 0 }, *lo, *hi, *bits);
                let mut d = Data::of_src(id, *bits, Enc::Int);
                if *shift > 0 { d = d_mulc(&d, p2(*shift)); }
                let v = V::D(Rc::new(d));
                if *be { swap(v, *bits) } else { v }
            }
            RegVal::Cycle(rs) => {
                let n = rs.len() as i64;
                // rows start at a multiple of the stride, pixels at a multiple of n
                let known = off.t.iter().all(|(m, k)| k % n == 0 || crate::poly::mono_syms(*m).any(|s| crate::poly::name(s).starts_with("S_")));
                let (lo, hi) = if known { rs[off.c.rem_euclid(n) as usize] } else { (0.0, 255.0) };
                if lo == hi { return V::C(lo as u128); }
                V::D(Rc::new(Data::of_src(src_id(Src { region, off, ch: 0 }, lo, hi, 8), 8, Enc::Int)))
            }
            RegVal::F16 { lo, hi } => { let id = src_id(Src { region, off, ch: 0 }, *lo, *hi, 16); V::D(Rc::new(Data::of_src(id, 16, Enc::F16))) }
            RegVal::Opaque { bits } => { let id = src_id(Src { region, off, ch: 0 }, 0.0, p2(*bits) - 1.0, *bits); V::D(Rc::new(Data::of_src(id, *bits, Enc::Int))) }
            RegVal::Fields { fs, bits, be } => {
                let nb = (*bits / 8) as i64;
                let (off, ph) = if r.esz == 1 {
                    let ph = off.div_floor(nb).map(|x| x.1).unwrap_or_else(|| off.c.rem_euclid(nb));
                    (off.addc(-ph), Some(ph))
                } else { (off, None) };
                let mut parts = vec![];
                for (w, ch, lo, hi) in fs { let id = src_id(Src { region, off: off.clone(), ch: *ch }, *lo, *hi, *w); parts.push(Field { w: *w, src: FSrc::Part(Rc::new(Data { bits: *w, ..Data::of_src(id, *w, Enc::Int) }), 0) }); }
                let v = from_fields(parts, *bits);
                let v = if *be { swap(v, *bits) } else { v };
                match ph { Some(ph) => { let f = fields(&v, *bits).unwrap(); from_fields(slice_fields(&f, ph as u32 * 8, 8), 8) } None => v }
            }
        }
    }

    pub fn check_bounds(&mut self, st: &State, region: u16, off: &Poly, size: &Poly, write: bool) {
        self.accesses += 1;
        let r = &self.regions[region as usize];
        let name = r.name.clone();
        let len = r.len.scale(r.esz as i64);
        let hi = len.sub(off).sub(size);
        let ok1 = poly::nonneg(off, &st.facts);
        let ok2 = poly::nonneg(&hi, &st.facts);
        if ok1 && ok2 { self.accesses_proved += 1; return; }
        let bad = if !ok2 { &hi } else { off };
        // an access of symbolic size 0 is no access
        let mut facts = st.facts.clone();
        if !size.is_const() { facts.push(size.addc(-1)); }
        let w = poly::witness_neg(bad, &facts);
        let what = if write { "write" } else { "read" };
        let definite = w.is_some() && st.unsure == 0;
        self.find(if write { "oob-write" } else { "oob-read" }, definite, format!("{what} of {size:?} byte(s) at byte offset {off:?} of {name} (length {len:?} bytes){}", match &w { Some(w) => format!(", out of bounds e.g. for {w:?}"), None => String::new() }));
    }

    /// an element of a buffer as the last loop that fills it left it
    fn read_back(&self, st: &State, rg: u16, eo: &Poly) -> Option<V> {
        'effects: for f in st.effects.iter().rev().filter(|f| f.region == rg) {
            if self.trace { eprintln!("RB {eo:?} eff {:?} {:?} {} {:?} {}", f.off, f.quants, f.may, f.vals.iter().map(short).collect::<Vec<_>>(), f.loc); }
            if f.may || f.count.is_some() { return None; }
            let mut base = f.off.clone();
            let mut ks: Vec<(u16, Poly, Poly)> = vec![];
            for (k, u) in &f.quants { let (a, b) = base.linear_in(*k)?; ks.push((*k, a, u.clone())); base = b; }
            let deg = |p: &Poly| p.t.iter().map(|t| poly::mono_syms(t.0).count()).max().unwrap_or(0);
            ks.sort_by_key(|x| { let d = deg(&x.1); (std::cmp::Reverse(d), std::cmp::Reverse(x.1.konst().unwrap_or(0))) });
            let mut d = eo.sub(&base);
            let mut sol = vec![];
            for (i, (k, a, u)) in ks.iter().enumerate() {
                if poly::nonneg(&d.neg().addc(-1), &st.facts) { continue 'effects; }
                let (q, r) = crate::ops::poly_div(&d, a, &st.facts)?;
                if !(poly::nonneg(&q, &st.facts) && poly::nonneg(&u.sub(&q).addc(-1), &st.facts)) {
                    // the digits of a mixed radix are unique: what this one would be is outside of the loop
                    let mut low = Poly::k(f.vals.len() as i64);
                    for x in &ks[i + 1..] { low = low.add(&x.1.mul(&x.2.addc(-1))?); }
                    if poly::nonneg(&a.sub(&low), &st.facts) && (poly::nonneg(&q.neg().addc(-1), &st.facts) || poly::nonneg(&q.sub(u), &st.facts)) { continue 'effects; }
                    return None;
                }
                sol.push((*k, q)); d = r;
            }
            if poly::nonneg(&d.neg().addc(-1), &st.facts) || poly::nonneg(&d.addc(-(f.vals.len() as i64)), &st.facts) { continue; }
            let c = d.konst()?;
            let mut v = f.vals[c as usize].clone();
            for (k, q) in &sol { v = subst_v(&v, *k, q)?; }
            return Some(v);
        }
        None
    }

    pub fn read(&mut self, st: &State, p: &PtrV, size: u64) -> R<Val> {
        if size == 0 { return Ok(Val::unit()); }
        if p.alloc >= STATIC_BASE {
            let s = self.cx.statics.borrow()[(p.alloc - STATIC_BASE) as usize].clone();
            let Some(o) = p.off.konst() else { return Ok(Val::scalar(size, top(vec![], "table lookup at symbolic index"))); };
            if o < 0 || o as u64 + size > s.bytes.len() as u64 { self.find("oob-read", st.unsure == 0, format!("read of {size} bytes at {o} of a constant table of {} bytes", s.bytes.len())); return Ok(Val::scalar(size, top(vec![], "oob"))); }
            return Ok(self.const_val(&s.bytes[o as usize..o as usize + size as usize], &s.relocs, o as u64));
        }
        if p.alloc >= EXT_BASE {
            let rg = (p.alloc - EXT_BASE) as u16;
            self.check_bounds(st, rg, &p.off, &Poly::k(size as i64), false);
            let esz = self.regions[rg as usize].esz;
            if self.regions[rg as usize].out {
                // read back what was written
                if let Some((eo, 0)) = p.off.div_floor(esz as i64) {
                    for f in st.effects.iter().rev() {
                        if f.region == rg && !f.may && f.quants.is_empty() {
                            if let Some(d) = eo.sub(&f.off).konst() {
                                let n = size / esz;
                                if d >= 0 && d as u64 + n <= f.vals.len() as u64 {
                                    let e = (0..n).map(|i| Ent { off: i * esz, size: esz, v: f.vals[(d as u64 + i) as usize].clone() }).collect();
                                    return Ok(Val { size, e });
                                }
                            }
                        }
                    }
                }
                if let Some((eo, 0)) = p.off.div_floor(esz as i64) { if size % esz == 0 { if let Some(v) = (0..size / esz).map(|i| self.read_back(st, rg, &eo.addc(i as i64))).collect::<Option<Vec<V>>>() {
                    return Ok(Val { size, e: v.into_iter().enumerate().map(|(i, v)| Ent { off: i as u64 * esz, size: esz, v }).collect() });
                } } }
                return Ok(Val::scalar(size, top(vec![], "read of destination buffer")));
            }
            if size >= esz {
                if let Some((eo, 0)) = p.off.div_floor(esz as i64) {
                    if size % esz == 0 {
                        let e = (0..size / esz).map(|i| Ent { off: i * esz, size: esz, v: self.elem_value(rg, eo.addc(i as i64)) }).collect();
                        return Ok(Val { size, e });
                    }
                }
                return Ok(Val::scalar(size, top(vec![], "misaligned read of source")));
            }
            // part of an element
            if let Some((eo, r)) = p.off.div_floor(esz as i64) {
                if r as u64 + size <= esz {
                    let v = self.elem_value(rg, eo);
                    return Ok(Val::scalar(size, read_scalar(&[Ent { off: 0, size: esz, v }], r as u64, size)));
                }
            }
            return Ok(Val::scalar(size, top(vec![], "misaligned read of source")));
        }
        let Some(o) = p.off.konst() else {
            let m = self.mem(st, p.alloc)?;
            let mut d = vec![];
            for x in &m.e { d = merge_deps(&d, &deps_of(&x.v)); }
            return Ok(Val::scalar(size, top(d, "read of temporary at symbolic offset")));
        };
        if let Some(x) = st.pend.iter().find(|x| x.0 == p.alloc) {
            let m = self.mem(st, p.alloc)?;
            let mut d = deps_of(&read_scalar(&x.2.e, 0, x.2.size));
            for x in &m.e { d = merge_deps(&d, &deps_of(&x.v)); }
            return Ok(Val::scalar(size, top(d, "temporary written at symbolic offset")));
        }
        let m = self.mem(st, p.alloc)?;
        if o < 0 || o as u64 + size > m.size {
            let ms = m.size;
            self.find("oob-read", st.unsure == 0, format!("read of {size} bytes at offset {o} of a {ms}-byte temporary"));
            return Ok(Val { size, e: vec![] });
        }
        let m = self.mem(st, p.alloc)?;
        Ok(Val { size, e: slice_ents(&m.e, o as u64, size) })
    }

    pub fn read_sc(&mut self, st: &State, p: &PtrV, size: u64) -> R<V> {
        if p.alloc < EXT_BASE {
            if let Some(o) = p.off.konst() {
                let m = self.mem(st, p.alloc)?;
                if o >= 0 && o as u64 + size <= m.size { return Ok(read_scalar(&m.e, o as u64, size)); }
            }
        }
        let v = self.read(st, p, size)?;
        Ok(read_scalar(&v.e, 0, size))
    }

    pub fn write(&mut self, st: &mut State, p: &PtrV, v: &Val) -> R<()> {
        if v.size == 0 { return Ok(()); }
        if p.alloc >= STATIC_BASE { self.find("static-write", true, "write to a static".into()); return Ok(()); }
        if p.alloc >= EXT_BASE {
            let rg = (p.alloc - EXT_BASE) as u16;
            self.check_bounds(st, rg, &p.off, &Poly::k(v.size as i64), true);
            let r = self.regions[rg as usize].clone();
            if !r.out { self.find("source-write", st.unsure == 0, format!("write to source plane {}", r.name)); return Ok(()); }
            let (eo, rem) = match p.off.div_floor(r.esz as i64) { Some(x) => x, None => return abort("misaligned destination write") };
            let loc = self.loc();
            if v.size >= r.esz && rem == 0 && v.size % r.esz == 0 {
                let vals: Vec<V> = (0..v.size / r.esz).map(|i| read_scalar(&v.e, i * r.esz, r.esz)).collect();
                Rc::make_mut(&mut st.effects).push(Effect { region: rg, off: eo, vals, quants: vec![], count: None, may: false, loc });
            } else {
                // partial element write: merge with an earlier write of the same element if any
                let mut old = vec![Ent { off: 0, size: r.esz, v: V::Undef }];
                for f in st.effects.iter().rev() { if f.region == rg && f.quants.is_empty() { if let Some(d) = eo.sub(&f.off).konst() { if d >= 0 && (d as usize) < f.vals.len() { old = vec![Ent { off: 0, size: r.esz, v: f.vals[d as usize].clone() }]; break; } } } }
                write_ents(&mut old, rem as u64, v.size.min(r.esz - rem as u64), &v.e);
                let nv = read_scalar(&old, 0, r.esz);
                Rc::make_mut(&mut st.effects).push(Effect { region: rg, off: eo, vals: vec![nv], quants: vec![], count: None, may: false, loc });
            }
            return Ok(());
        }
        let Some(o) = p.off.konst() else {
            if self.replicate(st, p, v)? { return Ok(()); }
            let only_src = v.e.iter().all(|x| { let d = deps_of(&x.v); d.len() == 1 && { let s = src(d[0]); self.elem_value(s.region, s.off.clone()) == x.v } });
            if only_src && !st.fills.iter().any(|f| f.slot == p.alloc) { Rc::make_mut(&mut st.pend).push((p.alloc, p.off.clone(), v.clone())); return Ok(()); }
            self.weak(st, p.alloc, v)?;
            return Ok(());
        };
        let ms = self.mem(st, p.alloc)?.size;
        if o < 0 || o as u64 + v.size > ms { self.find("oob-write", st.unsure == 0, format!("write of {} bytes at offset {o} of a {ms}-byte temporary", v.size)); return Ok(()); }
        let m = self.mem_mut(st, p.alloc)?;
        write_ents(&mut m.e, o as u64, v.size, &v.e);
        Ok(())
    }
    fn weak(&mut self, st: &mut State, slot: u32, v: &Val) -> R<()> {
        // everything in the temporary may have changed
        let m = self.mem_mut(st, slot)?;
        let d: Vec<SrcId> = { let mut d = vec![]; for x in m.e.iter().chain(v.e.iter()) { d = merge_deps(&d, &deps_of(&x.v)); } d };
        let sz = m.size;
        m.e = vec![Ent { off: 0, size: sz, v: top(d, "temporary written at symbolic offset") }];
        Ok(())
    }

    /// write of the last filled item just behind the filled part of a tail buffer: from then on element p of the
    /// buffer is source item min(p, n - 1) as far as item n
    fn replicate(&mut self, st: &mut State, p: &PtrV, v: &Val) -> R<bool> {
        for fi in (0..st.fills.len()).rev() {
            let f = st.fills[fi].clone();
            if f.slot != p.alloc { continue; }
            let esz = self.regions[f.region as usize].esz as i64;
            let Some(c) = p.off.addc(-f.base).sub(&f.n.scale(esz)).konst() else { continue };
            if c < 0 || c % esz != 0 || v.size as i64 % esz != 0 { continue; }
            let room = self.mem(st, p.alloc)?.size as i64;
            let end = p.off.addc(v.size as i64);
            if !poly::nonneg(&Poly::k(room).sub(&end), &st.facts) { let w = poly::witness_neg(&Poly::k(room).sub(&end), &st.facts); self.find("oob-write", w.is_some() && st.unsure == 0, format!("write of {} bytes at offset {:?} of a {room}-byte temporary {w:?}", v.size, p.off)); return Ok(false); }
            for q in 0..v.size as i64 / esz {
                let c = c / esz + q;
                let x = read_scalar(&v.e, (q * esz) as u64, esz as u64);
                let ds = deps_of(&x);
                if ds.len() != 1 { return Ok(false); }
                let s = src(ds[0]);
                if s.region != f.region || self.elem_value(f.region, s.off.clone()) != x { return Ok(false); }
                let Some(d) = s.off.sub(&f.so).sub(&f.n).konst() else { return Ok(false) };
                let ch = c - d;
                if ch <= 0 || ch > 4 || c >= ch { return Ok(false); }
                let Some(npx) = f.n.div_exact(ch) else { return Ok(false) };
                let mut j = c;
                while f.base + (j + 1) * esz <= room {
                    if j / ch > 0 {
                        // items 0.. are certainly filled when n >= 1
                        let m = poly::min_sym(&Poly::k(j / ch), &npx.addc(-1));
                        let nv = self.elem_value(f.region, f.so.add(&m.scale(ch)).addc(c));
                        let mm = self.mem_mut(st, p.alloc)?;
                        write_ents(&mut mm.e, (f.base + j * esz) as u64, esz as u64, &[Ent { off: 0, size: esz as u64, v: nv }]);
                    }
                    j += ch;
                }
            }
            Rc::make_mut(&mut st.fills)[fi].rep = true;
            return Ok(true);
        }
        Ok(false)
    }

    pub fn const_val(&self, bytes: &[u8], relocs: &[(u64, CPtr)], base: u64) -> Val {
        let n = bytes.len() as u64;
        let mut e = vec![];
        let mut p = 0u64;
        while p < n {
            if let Some((_, c)) = relocs.iter().find(|r| r.0 == base + p) { e.push(Ent { off: p, size: 8, v: self.cptr_v(c) }); p += 8; continue; }
            let next = relocs.iter().filter(|r| r.0 > base + p).map(|r| r.0 - base).min().unwrap_or(n).min(n);
            let sz = if n <= 16 { next - p } else if next - p >= 8 { 8 } else { next - p };
            let sz = if sz > 16 { 16 } else { sz };
            let mut b = [0u8; 16];
            b[..sz as usize].copy_from_slice(&bytes[p as usize..(p + sz) as usize]);
            e.push(Ent { off: p, size: sz, v: V::C(u128::from_le_bytes(b)) });
            p += sz;
        }
        Val { size: n, e }
    }
    fn cptr_v(&self, c: &CPtr) -> V {
        match c {
            CPtr::Mem(i, o) => V::Ptr(Rc::new(PtrV { alloc: STATIC_BASE + *i as u32, off: Poly::k(*o as i64) })),
            CPtr::Fn(i) => V::Fn(*i),
            CPtr::VTable(t) => V::VTab(*t),
            CPtr::Static(n, _) => top(vec![], &format!("static {n}")),
        }
    }

    // ------------------------------------------------------------ places and operands
    pub fn place(&mut self, st: &State, fr: &Frame, p: &Place) -> R<(PtrV, Option<V>)> {
        let mut a = PtrV { alloc: fr.base + p.local, off: Poly::k(0) };
        let mut meta: Option<V> = None;
        for pr in &p.projs {
            match pr {
                Proj::Off(o) => a.off = a.off.addc(*o as i64),
                Proj::Deref(fat) => {
                    let v = self.read_sc(st, &a, 8)?;
                    let v = match v { V::Opt(_, v) => (*v).clone(), v => v };
                    meta = if *fat { Some(self.read_sc(st, &PtrV { alloc: a.alloc, off: a.off.addc(8) }, 8)?) } else { None };
                    match v {
                        V::Ptr(q) => a = (*q).clone(),
                        V::C(_) => { a = PtrV { alloc: u32::MAX, off: Poly::k(0) }; }
                        v => return abort(format!("dereference of {} in {}", short(&v), self.loc())),
                    }
                }
                Proj::Index { local, stride } => {
                    let i = self.read_sc(st, &PtrV { alloc: fr.base + local, off: Poly::k(0) }, 8)?;
                    match to_poly(&i, 64, false) {
                        Some(i) => a.off = a.off.add(&i.scale(*stride as i64)),
                        None => {
                            // data-dependent index: model as an arbitrary element of a table
                            let d = deps_of(&i);
                            if !matches!(i, V::D(_) | V::Cat(_)) { return abort(format!("index {} in {}", short(&i), self.loc())); }
                            return Err(Abort(format!("data-index:{}", d.len())));
                        }
                    }
                    meta = None;
                }
                Proj::ConstEnd { off, stride } => {
                    let n = match &meta { Some(m) => to_poly(m, 64, false), None => None };
                    let Some(n) = n else { return abort("from-end index") };
                    a.off = a.off.add(&n.addc(-(*off as i64)).scale(*stride as i64));
                    meta = None;
                }
                Proj::Subslice { from, to, from_end, stride } => {
                    a.off = a.off.addc((*from * *stride) as i64);
                    if let Some(m) = &meta {
                        let Some(n) = to_poly(m, 64, false) else { return abort("subslice") };
                        meta = Some(pv(if *from_end { n.addc(-((*from + *to) as i64)) } else { Poly::k((*to - *from) as i64) }));
                    }
                }
            }
        }
        Ok((a, meta))
    }

    pub fn operand(&mut self, st: &State, fr: &Frame, o: &Operand) -> R<Val> {
        match o {
            Operand::Copy(p) => {
                let size = self.cx.tyinfo(p.ty).size;
                if size == 0 { return Ok(Val::unit()); }
                match self.place(st, fr, p) {
                    Ok((a, _)) => { if a.alloc == u32::MAX { return abort("dereference of an integer address"); } self.read(st, &a, size) }
                    Err(Abort(s)) if s.starts_with("data-index:") => self.table_read(st, fr, p, size),
                    Err(e) => Err(e),
                }
            }
            Operand::Const(c) => {
                if c.bytes.len() <= 16 && c.relocs.is_empty() {
                    if c.bytes.is_empty() { return Ok(Val::unit()); }
                    let mut b = [0u8; 16];
                    b[..c.bytes.len()].copy_from_slice(&c.bytes);
                    return Ok(Val::scalar(c.bytes.len() as u64, V::C(u128::from_le_bytes(b))));
                }
                Ok(self.const_val(&c.bytes, &c.relocs, 0))
            }
        }
    }
    /// array element selected by a data value: any element of the array
    fn table_read(&mut self, st: &State, fr: &Frame, p: &Place, size: u64) -> R<Val> {
        let Some(Proj::Index { local, .. }) = p.projs.last() else { return abort("data index in the middle of a place") };
        let i = self.read_sc(st, &PtrV { alloc: fr.base + local, off: Poly::k(0) }, 8)?;
        let Some(Proj::Index { stride, .. }) = p.projs.last() else { return abort("table stride") };
        let base = Place { projs: p.projs[..p.projs.len() - 1].to_vec(), ..p.clone() };
        if let (V::D(d), Ok((a, _))) = (&i, self.place(st, fr, &base)) { if *stride == size { if let Some(v) = self.table(st, &a, size, d) { return Ok(Val::scalar(size, v)); } } }
        Ok(Val::scalar(size, top(deps_of(&i), "table lookup by sample value")))
    }
    /// an entry of a table of constants selected by a sample: a tabulated function of it, or the inverse of one
    fn table(&mut self, st: &State, a: &PtrV, size: u64, d: &Data) -> Option<V> {
        let (lo, hi) = (d.lo, d.hi);
        if !(lo >= 0.0 && hi <= 65535.0) { return None; }
        let o = a.off.konst()?;
        if a.alloc >= EXT_BASE && a.alloc < STATIC_BASE { return None; }
        let n = hi as i64 + 1;
        let t: Vec<f64> = if a.alloc >= STATIC_BASE {
            let s = self.cx.statics.borrow()[(a.alloc - STATIC_BASE) as usize].clone();
            let e = (o + n * size as i64) as usize;
            if o < 0 || e > s.bytes.len() { return None; }
            s.bytes[o as usize..e].chunks(size as usize).map(|c| { let mut b = [0u8; 8]; b[..c.len()].copy_from_slice(c); u64::from_le_bytes(b) as f64 }).collect()
        } else {
            let m = self.mem(st, a.alloc).ok()?;
            if o < 0 || o as u64 + n as u64 * size > m.size { return None; }
            let mut t = vec![f64::NAN; n as usize];
            for e in &m.e {
                let rel = e.off as i64 - o;
                if rel < 0 || rel >= n * size as i64 { continue; }
                let V::C(c) = e.v else { if self.trace { eprintln!("TAB {rel} {}", short(&e.v)); } return None };
                if e.size < size || rel % size as i64 != 0 { return None; }
                for i in 0..e.size / size { if let Some(x) = t.get_mut((rel / size as i64 + i as i64) as usize) { *x = ((c >> (i as u32 * size as u32 * 8)) & mask(size as u32 * 8)) as f64; } }
            }
            t
        };
        if t.iter().skip(lo as usize).any(|x| x.is_nan()) { return None; }
        tabulated(d, t, size as u32 * 8).map(|d| V::D(Rc::new(d)))
    }
    pub fn operand_sc(&mut self, st: &State, fr: &Frame, o: &Operand) -> R<V> {
        match o {
            Operand::Copy(p) if p.projs.is_empty() => {
                let size = self.cx.tyinfo(p.ty).size;
                let m = self.mem(st, fr.base + p.local)?;
                Ok(read_scalar(&m.e, 0, size))
            }
            _ => { let v = self.operand(st, fr, o)?; Ok(read_scalar(&v.e, 0, v.size)) }
        }
    }

    pub fn write_tag(&mut self, st: &mut State, p: &PtrV, lay: &EnumLayout, variant: usize) -> R<()> {
        match &lay.tag {
            Tag::Single => Ok(()),
            Tag::Direct { off, size } => self.write(st, &PtrV { alloc: p.alloc, off: p.off.addc(*off as i64) }, &Val::scalar(*size, V::C(lay.discrs[variant] & mask((*size * 8) as u32)))),
            Tag::Niche { off, size, untagged, first, start, .. } => {
                if variant == *untagged { return Ok(()); }
                let v = start.wrapping_add((variant - first) as u128) & mask((*size * 8) as u32);
                self.write(st, &PtrV { alloc: p.alloc, off: p.off.addc(*off as i64) }, &Val::scalar(*size, V::C(v)))
            }
        }
    }
    pub fn read_discr(&mut self, st: &State, p: &PtrV, lay: &EnumLayout) -> R<V> {
        match &lay.tag {
            Tag::Single => Ok(V::C(lay.discrs.get(lay.single).copied().unwrap_or(0))),
            Tag::Direct { off, size } => {
                let v = self.read_sc(st, &PtrV { alloc: p.alloc, off: p.off.addc(*off as i64) }, *size)?;
                Ok(v)
            }
            Tag::Niche { off, size, untagged, first, last, start } => {
                let v = self.read_sc(st, &PtrV { alloc: p.alloc, off: p.off.addc(*off as i64) }, *size)?;
                match v {
                    V::C(c) => {
                        let rel = c.wrapping_sub(*start) & mask((*size * 8) as u32);
                        if rel <= (*last - *first) as u128 { Ok(V::C(lay.discrs[*first + rel as usize])) } else { Ok(V::C(lay.discrs[*untagged])) }
                    }
                    V::Opt(c, _) => {
                        // discr = cond ? untagged : first
                        let (u, f) = (lay.discrs[*untagged], lay.discrs[*first]);
                        if u == 1 && f == 0 { Ok(V::Cond(c)) } else if u == 0 && f == 1 { Ok(V::Cond(Rc::new(CondV::Not(c)))) } else { abort("niche discr") }
                    }
                    V::Undef => abort(format!("discriminant of uninitialised value in {}", self.loc())),
                    V::Top(_) => abort(format!("discriminant of unknown value in {}", self.loc())),
                    _ => Ok(V::C(lay.discrs[*untagged])),
                }
            }
        }
    }

    // ------------------------------------------------------------ statements
    fn stmt(&mut self, st: &mut State, fr: &Frame, s: &Stmt) -> R<()> {
        match s {
            Stmt::Assign(p, r) => self.assign(st, fr, p, r),
            Stmt::SetDiscr(p, v) => {
                let (a, _) = self.place(st, fr, p)?;
                if let TyK::Enum { layout, .. } = &self.cx.tyinfo(p.ty).kind { let l = layout.clone(); self.write_tag(st, &a, &l, *v)?; }
                Ok(())
            }
            Stmt::Dead(l) | Stmt::Live(l) => {
                let m = self.mem_mut(st, fr.base + l)?;
                m.e.clear();
                Ok(())
            }
            Stmt::Assume(o) => { let _ = self.operand_sc(st, fr, o)?; Ok(()) }
            Stmt::CopyNonOverlapping(s, d, n, sz) => {
                let (s, d, n) = (self.operand_sc(st, fr, s)?, self.operand_sc(st, fr, d)?, self.operand_sc(st, fr, n)?);
                self.memcpy(st, &s, &d, &n, *sz)
            }
            Stmt::Nop => Ok(()),
        }
    }

    pub fn memcpy(&mut self, st: &mut State, s: &V, d: &V, n: &V, sz: u64) -> R<()> {
        let Some(n) = to_poly(n, 64, false) else { return abort(format!("copy of unknown length {} in {}", short(n), self.loc())) };
        if n.konst() == Some(0) || sz == 0 { return Ok(()); }
        let (V::Ptr(s), V::Ptr(d)) = (s, d) else { return abort(format!("copy between {} and {}", short(s), short(d))) };
        let (s, d) = (s.clone(), d.clone());
        if let Some(n) = n.konst() {
            if n < 0 { self.find("oob-write", st.unsure == 0, format!("copy of {n} elements")); return Ok(()); }
            let v = self.read(st, &s, n as u64 * sz)?;
            return self.write(st, &d, &v);
        }
        // symbolic length: source or destination plane to plane
        if s.alloc >= EXT_BASE && d.alloc >= EXT_BASE && s.alloc < STATIC_BASE {
            let (rs, rd) = ((s.alloc - EXT_BASE) as u16, (d.alloc - EXT_BASE) as u16);
            let esz = self.regions[rd as usize].esz;
            if self.regions[rs as usize].esz != esz { return abort("memcpy between different element sizes"); }
            let bytes = n.scale(sz as i64);
            self.check_bounds(st, rs, &s.off, &bytes, false);
            self.check_bounds(st, rd, &d.off, &bytes, true);
            let (Some(so), Some(dof), Some(cnt)) = (s.off.div_exact(esz as i64), d.off.div_exact(esz as i64), bytes.div_exact(esz as i64)) else { return abort("misaligned memcpy") };
            if !self.regions[rd as usize].out { self.find("source-write", true, "write to source".into()); return Ok(()); }
            if self.regions[rs as usize].out { return abort("memcpy from destination"); }
            let k = poly::new_sym("i"); poly::set_upper(k, cnt.clone());
            let v = self.elem_value(rs, so.add(&Poly::sym(k)));
            let loc = self.loc();
            Rc::make_mut(&mut st.effects).push(Effect { region: rd, off: dof.add(&Poly::sym(k)), vals: vec![v], quants: vec![(k, cnt)], count: None, may: false, loc });
            return Ok(());
        }
        let total = n.scale(sz as i64);
        // source plane -> temporary, or temporary -> destination plane
        if s.alloc >= EXT_BASE && s.alloc < STATIC_BASE && d.alloc < EXT_BASE {
            let rs = (s.alloc - EXT_BASE) as u16;
            let Some(o) = d.off.konst() else { return abort("copy to a temporary at symbolic offset") };
            self.check_bounds(st, rs, &s.off, &total, false);
            let room = self.mem(st, d.alloc)?.size as i64 - o;
            let cap = self.bound(&total, room, st);
            let esz = self.regions[rs as usize].esz as i64;
            let Some(so) = s.off.div_exact(esz) else { return abort("misaligned copy from source") };
            let Some(ne) = total.div_exact(esz) else { return abort("copy of partial elements") };
            let ce = cap / esz;
            if self.regions[rs as usize].out { return abort("copy from destination into a temporary"); }
            let e = (0..ce).map(|i| Ent { off: (i * esz) as u64, size: esz as u64, v: self.elem_value(rs, so.addc(i)) }).collect();
            self.write(st, &d, &Val { size: (ce * esz) as u64, e })?;
            Rc::make_mut(&mut st.fills).push(Fill { region: rs, so, n: ne, cap: ce, slot: d.alloc, base: o, rep: false });
            if st.pend.iter().any(|x| x.0 == d.alloc) {
                let (mine, rest): (Vec<_>, Vec<_>) = st.pend.iter().cloned().partition(|x| x.0 == d.alloc);
                st.pend = Rc::new(rest);
                for (a, off, v) in mine { if !self.replicate(st, &PtrV { alloc: a, off }, &v)? { self.weak(st, a, &v)?; } }
            }
            return Ok(());
        }
        if d.alloc >= EXT_BASE && d.alloc < STATIC_BASE && s.alloc < EXT_BASE {
            let rd = (d.alloc - EXT_BASE) as u16;
            let Some(o) = s.off.konst() else { return abort("copy from a temporary at symbolic offset") };
            if !self.regions[rd as usize].out { self.find("source-write", true, "write to source".into()); return Ok(()); }
            self.check_bounds(st, rd, &d.off, &total, true);
            let room = self.mem(st, s.alloc)?.size as i64 - o;
            let cap = self.bound(&total, room, st);
            let esz = self.regions[rd as usize].esz as i64;
            let (Some(dof), Some(ne)) = (d.off.div_exact(esz), total.div_exact(esz)) else { return abort("misaligned copy to destination") };
            let m = self.mem(st, s.alloc)?;
            let vals: Vec<V> = (0..cap / esz).map(|i| read_scalar(&m.e, (o + i * esz) as u64, esz as u64)).collect();
            self.check_fills(st, &vals, &ne);
            let loc = self.loc();
            Rc::make_mut(&mut st.effects).push(Effect { region: rd, off: dof, vals, quants: vec![], count: Some(ne), may: false, loc });
            return Ok(());
        }
        if s.alloc < EXT_BASE && d.alloc < EXT_BASE {
            let (Some(a), Some(b)) = (s.off.konst(), d.off.konst()) else { return abort("temporary copy at symbolic offsets") };
            let room = (self.mem(st, d.alloc)?.size as i64 - b).min(self.mem(st, s.alloc)?.size as i64 - a);
            let cap = self.bound(&total, room, st);
            let v = self.read(st, &PtrV { alloc: s.alloc, off: Poly::k(a) }, cap as u64)?;
            return self.write(st, &d, &v);
        }
        abort(format!("copy of symbolic length {n:?} through a temporary in {}", self.loc()))
    }

    /// smallest provable constant bound of a byte count; reports when it can exceed `room`
    pub fn bound(&mut self, n: &Poly, room: i64, st: &State) -> i64 {
        if !poly::nonneg(&Poly::k(room).sub(n), &st.facts) {
            let w = poly::witness_neg(&Poly::k(room).sub(n), &st.facts);
            self.find("oob-write", w.is_some() && st.unsure == 0, format!("copy of {n:?} bytes into or out of {room} remaining bytes of a temporary {w:?}"));
            return room.max(0);
        }
        let (mut lo, mut hi) = (-1i64, room);
        while hi - lo > 1 { let m = lo + (hi - lo) / 2; if poly::nonneg(&Poly::k(m).sub(n), &st.facts) { hi = m } else { lo = m } }
        hi
    }
    /// values written for elements below `count` must only use filled parts of tail buffers
    pub fn check_fills(&mut self, st: &State, vals: &[V], count: &Poly) {
        if st.fills.is_empty() { return; }
        for (i, v) in vals.iter().enumerate() {
            let mut facts = st.facts.clone();
            facts.push(count.addc(-(i as i64) - 1));
            let mut any = false;
            for d in deps_of(v) {
                let s = src(d);
                if let Some((o1, o2)) = poly::min_parts(&s.off) {
                    // a replicated tail: item min(p, n-1), valid for p <= n
                    let mut bad = None; let mut hit = false;
                    for f in st.fills.iter().filter(|f| f.region == s.region && f.rep) { for o in [&o1, &o2] { if let Some(j) = o.sub(&f.so).konst() { if j >= 0 && j < f.cap + 8 {
                        hit = true;
                        // j <= n + ch - 1 where ch is the item size; n is a multiple of ch
                        let ch = { let mut g = f.n.t.iter().fold(f.n.c, |g, x| poly::gcd(g, x.1)); while g > 4 { g /= 2; } g };
                        let need = f.n.addc(ch - 1 - j);
                        if poly::nonneg(&need, &facts) { bad = None; } else if bad.is_none() { bad = Some((j, f.n.clone(), need)); }
                    } } } }
                    if hit { if let Some((j, n, need)) = bad { if !any { any = true; let w = poly::witness_neg(&need, &facts);
                        self.find("tail-fill", w.is_some() && st.unsure == 0, format!("output element {i} of a tail of {count:?} elements uses element {j} of a buffer in which only {n:?} elements and one replicated item were copied from {} {w:?}", self.regions[s.region as usize].name)); } } continue; }
                }
                let fl: Vec<(i64, Poly)> = st.fills.iter().filter(|f| f.region == s.region).filter_map(|f| { let j = s.off.sub(&f.so).konst()?; if j >= 0 && j < f.cap { Some((j, f.n.clone())) } else { None } }).collect();
                if fl.is_empty() { continue; }
                if fl.iter().any(|(j, n)| { let need = n.addc(-j - 1); need == count.addc(-(i as i64) - 1) || poly::nonneg(&need, &facts) }) { continue; }
                if any { continue; }
                any = true;
                let (j, n) = fl[0].clone();
                let w = poly::witness_neg(&n.addc(-j - 1), &facts);
                self.find("tail-fill", w.is_some() && st.unsure == 0, format!("output element {i} of a tail of {count:?} elements uses element {j} of a buffer in which only {n:?} elements were copied from {} {w:?}", self.regions[s.region as usize].name));
            }
        }
    }

    fn assign(&mut self, st: &mut State, fr: &Frame, p: &Place, r: &Rvalue) -> R<()> {
        let v = self.rvalue(st, fr, r, p)?;
        self.assign_val(st, fr, p, v)
    }
    pub fn assign_val(&mut self, st: &mut State, fr: &Frame, p: &Place, v: Val) -> R<()> {
        if p.projs.is_empty() {
            let m = self.mem_mut(st, fr.base + p.local)?;
            if v.size == m.size { m.e = v.e; } else { m.size = v.size; m.e = v.e; }
            return Ok(());
        }
        if v.size == 0 { return Ok(()); }
        match self.place(st, fr, p) {
            Ok((a, _)) => { if a.alloc == u32::MAX { return abort("store through integer address"); } let size = v.size; let _ = size; self.write_full(st, &a, v) }
            Err(Abort(s)) if s.starts_with("data-index:") => abort("store at data-dependent index"),
            Err(e) => Err(e),
        }
    }
    fn write_full(&mut self, st: &mut State, a: &PtrV, v: Val) -> R<()> { self.write(st, a, &v) }

    fn rvalue(&mut self, st: &mut State, fr: &Frame, r: &Rvalue, dest: &Place) -> R<Val> {
        match r {
            Rvalue::Use(o) => self.operand(st, fr, o),
            Rvalue::Repeat(o, n, t) => {
                let v = self.operand(st, fr, o)?;
                let sz = self.cx.tyinfo(*t).size;
                let mut e = Vec::with_capacity(v.e.len() * *n as usize);
                if *n > 1 << 20 { return abort("huge array"); }
                for i in 0..*n { for x in &v.e { e.push(Ent { off: x.off + i * sz, size: x.size, v: x.v.clone() }); } }
                Ok(Val { size: sz * n, e })
            }
            Rvalue::AddrOf(p) => {
                let (a, meta) = self.place(st, fr, p)?;
                let pt = self.cx.tyinfo(p.ty);
                let ptr = if a.alloc == u32::MAX { V::C(8) } else { V::Ptr(Rc::new(a)) };
                match pt.kind {
                    TyK::Slice { .. } | TyK::Str | TyK::Dyn => Ok(Val::pair(ptr, meta.unwrap_or(V::Undef))),
                    _ if !pt.sized => Ok(Val::pair(ptr, meta.unwrap_or(V::Undef))),
                    _ => Ok(Val::scalar(8, ptr)),
                }
            }
            Rvalue::Cast(k, o, f, t) => {
                let v = self.operand(st, fr, o)?;
                self.cast(k, v, *f, *t)
            }
            Rvalue::Bin(op, a, b, t) => {
                let (x, y) = (self.operand(st, fr, a)?, self.operand(st, fr, b)?);
                let (x, y) = (read_scalar(&x.e, 0, x.size), read_scalar(&y.e, 0, y.size));
                let dsz = self.cx.tyinfo(dest.ty).size;
                self.binop(st, *op, &x, &y, *t, dsz)
            }
            Rvalue::Un(op, o, t) => {
                let v = self.operand(st, fr, o)?;
                self.unop(*op, v, *t)
            }
            Rvalue::Discr(p) => {
                let (a, _) = self.place(st, fr, p)?;
                let ti = self.cx.tyinfo(p.ty);
                let dsz = self.cx.tyinfo(dest.ty).size;
                match &ti.kind {
                    TyK::Enum { layout, .. } => { let l = layout.clone(); let v = self.read_discr(st, &a, &l)?; let v = match v { V::C(c) => V::C(c & mask((dsz * 8) as u32)), v => v }; Ok(Val::scalar(dsz, v)) }
                    _ => Ok(Val::scalar(dsz, V::C(0))),
                }
            }
            Rvalue::Aggregate(fs, t, variant) => {
                let ti = self.cx.tyinfo(*t);
                let mut m: Vec<Ent> = vec![];
                for (off, o) in fs {
                    let v = self.operand(st, fr, o)?;
                    write_ents(&mut m, *off, v.size, &v.e);
                }
                let val = Val { size: ti.size, e: m };
                if let TyK::Enum { layout, adt } = &ti.kind { if adt.ends_with("YuvError") {
                    let w = poly::witness_neg(&Poly::k(-1), &st.facts);
                    let vn = variant.and_then(|v| layout.variants.get(v)).map(|v| v.0.clone()).unwrap_or_default();
                    self.find("reject", w.is_some() && st.unsure == 0, format!("a well-formed image can be rejected with {vn} {w:?}"));
                } }
                if let (Some(v), TyK::Enum { layout, .. }) = (variant, &ti.kind) {
                    let a = st.alloc_val(val);
                    self.write_tag(st, &PtrV { alloc: a, off: Poly::k(0) }, layout, *v)?;
                    let m = self.mem(st, a)?;
                    let r = Val { size: m.size, e: m.e.clone() };
                    st.slots.pop();
                    return Ok(r);
                }
                Ok(val)
            }
            Rvalue::RawPtr(p, m) => {
                let (p, m) = (self.operand(st, fr, p)?, self.operand(st, fr, m)?);
                if m.size == 0 { return Ok(p); }
                Ok(Val::pair(read_scalar(&p.e, 0, 8), read_scalar(&m.e, 0, 8)))
            }
        }
    }

    // ------------------------------------------------------------ control flow
    pub fn run_body(&mut self, st: &mut State, body: Rc<Body>, args: Vec<Val>) -> R<Option<Val>> {
        if self.stack.len() > 200 { return abort("recursion"); }
        let base = st.slots.len() as u32;
        for (i, &t) in body.locals.iter().enumerate() {
            let ti = self.cx.tyinfo(t);
            let mut m = Mem { size: ti.size, e: vec![] };
            if i >= 1 && i <= body.nargs { if let Some(a) = args.get(i - 1) { m.e = a.e.clone(); m.size = a.size; } }
            st.slots.push(Slot::Mem(Rc::new(m)));
        }
        let fr = Frame { body: body.clone(), base };
        let name = if body.name.contains("{closure") { body.name.clone() } else { body.name.clone() };
        self.stack.push((if self.cx.instinfo(body.inst).local { format!("{}@{}", name, body.file) } else { format!("<{name}>") }, 0));
        let exit = body.blocks.len() as u32;
        let r = self.run(st, &fr, 0, exit, &mut None);
        self.stack.pop();
        match r? {
            Flow::Stop => {}
            Flow::Diverge => return Ok(None),
            Flow::Exit(_) => return abort("loop exit escaped"),
        }
        let ret = match &st.slots[base as usize] { Slot::Mem(m) => Val { size: m.size, e: m.e.clone() }, _ => Val::unit() };
        if st.fills.iter().any(|f| f.slot >= base && f.slot != u32::MAX) { for f in Rc::make_mut(&mut st.fills) { if f.slot >= base { f.slot = u32::MAX; } } }
        if st.pend.iter().any(|f| f.0 >= base) { Rc::make_mut(&mut st.pend).retain(|f| f.0 < base); }
        for i in 0..body.locals.len() { st.slots[base as usize + i] = Slot::Free; }
        while matches!(st.slots.last(), Some(Slot::Free)) { st.slots.pop(); }
        Ok(Some(ret))
    }

    /// Run from `bb` until `stop`. `lp` is the innermost loop being summarised in this frame.
    pub fn run(&mut self, st: &mut State, fr: &Frame, bb0: u32, stop: u32, lp: &mut Option<LoopCtx>) -> R<Flow> {
        let body = fr.body.clone();
        let mut bb = bb0;
        let mut first = true;
        loop {
            if bb == stop && !(first && lp.is_some() && bb == bb0) { return Ok(Flow::Stop); }
            if let Some(l) = lp { if bb as usize >= l.set.len() || !l.set[bb as usize] { return Ok(Flow::Exit(bb)); } }
            let is_hdr = (bb as usize) < body.blocks.len() && body.loops[bb as usize].is_some();
            if is_hdr && !(first && lp.as_ref().map(|l| l.depth == 0 && bb == bb0).unwrap_or(false)) {
                // a loop (nested or outermost)
                let set = body.loops[bb as usize].clone().unwrap();
                match self.do_loop(st, fr, bb, set)? {
                    Flow::Exit(x) => { bb = x; first = false; continue; }
                    Flow::Diverge => return Ok(Flow::Diverge),
                    Flow::Stop => { first = false; continue; } // one iteration done concretely, revisit header
                }
            }
            first = false;
            let blk = &body.blocks[bb as usize];
            for (s, line) in &blk.stmts {
                self.steps += 1;
                if let Some(x) = self.stack.last_mut() { x.1 = *line; }
                self.stmt(st, fr, s)?;
            }
            if self.steps > self.max_steps { return abort("step budget exhausted"); }
            if let Some(x) = self.stack.last_mut() { x.1 = blk.line; }
            match &blk.term {
                Term::Goto(t) => bb = *t,
                Term::Asm(_) => return abort("inline assembly"),
                Term::Return => { if stop as usize == body.blocks.len() { return Ok(Flow::Stop); } bb = body.blocks.len() as u32; if bb == stop { return Ok(Flow::Stop); } return Ok(Flow::Exit(bb)); }
                Term::Unreachable => return Ok(Flow::Diverge),
                Term::Diverge(_) => return Ok(Flow::Diverge),
                Term::Drop(p, inst, t) => { self.do_drop(st, fr, p, *inst)?; bb = *t; }
                Term::Assert { cond, expected, target, msg } => {
                    let c = self.operand_sc(st, fr, cond)?;
                    match self.truth(st, &c) {
                        Some(b) => if b != *expected { self.find("panic", st.unsure == 0, format!("assertion fails: {msg}")); return Ok(Flow::Diverge); },
                        None => {
                            if let V::Cond(c) = &c {
                                let cc = if *expected { (**c).clone() } else { CondV::Not(c.clone()) };
                                let w = cond_witness_false(&cc, &st.facts);
                                self.find("panic", w.is_some() && st.unsure == 0, format!("assertion can fail: {msg} {w:?}"));
                                assume(st, &cc);
                            }
                        }
                    }
                    bb = *target;
                }
                Term::Switch(o, t, ts, other) => {
                    let v = self.operand_sc(st, fr, o)?;
                    let bits = (self.cx.tyinfo(*t).size * 8) as u32;
                    let decided = match &v {
                        V::C(c) => Some(ts.iter().find(|x| x.0 == *c & mask(bits)).map(|x| x.1).unwrap_or(*other)),
                        V::Cond(c) => match cond_poly(c, &st.facts) { Some(b) => { let k = b as u128; Some(ts.iter().find(|x| x.0 == k).map(|x| x.1).unwrap_or(*other)) } None => None },
                        V::P(p) => match decide_switch(p, ts, *other, &st.facts) { Some(b) => Some(b), None => None },
                        V::D(_) | V::Cat(_) => None,
                        V::Undef => return abort(format!("branch on uninitialised value in {}", self.loc())),
                        V::Top(_) => None,
                        v => return abort(format!("branch on {} in {}", short(v), self.loc())),
                    };
                    if let Some(d) = decided {
                        if let Some(l) = lp { if matches!(v, V::Cond(_)) {
                            let out = |b: u32| !l.set.get(b as usize).copied().unwrap_or(false);
                            if ts.iter().any(|x| out(x.1)) || out(*other) { if !out(d) { if let V::Cond(c) = &v { if has_poly(c) { l.sym_exit = true; } } } }
                        } }
                        bb = d; continue;
                    }
                    // undecided
                    let mut succ: Vec<(u32, Option<CondV>)> = vec![];
                    match &v {
                        V::Cond(c) => {
                            let f = ts.iter().find(|x| x.0 == 0).map(|x| x.1).unwrap_or(*other);
                            let t = ts.iter().find(|x| x.0 == 1).map(|x| x.1).unwrap_or(*other);
                            succ.push((t, Some((**c).clone())));
                            succ.push((f, Some(CondV::Not(c.clone()))));
                        }
                        _ => { let mut seen = vec![]; for x in ts.iter().map(|x| x.1).chain(std::iter::once(*other)) { if !seen.contains(&x) { seen.push(x); succ.push((x, None)); } } }
                    }
                    let is_dead = |b: u32| -> bool { dead_block(&body, b) };
                    if let Some(l) = lp {
                        let out: Vec<bool> = succ.iter().map(|x| !l.set.get(x.0 as usize).copied().unwrap_or(false)).collect();
                        let nout = out.iter().filter(|x| **x).count();
                        if nout == 1 && succ.len() == 2 && l.depth == 0 && !is_dead(succ[if out[0] { 0 } else { 1 }].0) {
                            let (oi, ii) = if out[0] { (0, 1) } else { (1, 0) };
                            if l.probe { l.sym_exit = true; if let Some(c) = &succ[ii].1 { assume(st, c); } bb = succ[ii].0; continue; }
                            // stay-condition in terms of k
                            let Some(stay) = &succ[ii].1 else { return abort(format!("data-dependent loop exit in {}", self.loc())) };
                            let Some(tn) = trip_count(stay, l.k, &st.facts) else { return abort(format!("loop exit condition not affine: {:?} in {}", stay, self.loc())) };
                            let tnc = tn.clone();
                            match &l.t {
                                None => { l.t = Some(tn.clone()); poly::set_upper(l.k, tn); }
                                Some(t0) => {
                                    if poly::nonneg(&tn.sub(t0), &st.facts) { /* never taken earlier */ }
                                    else if poly::nonneg(&t0.sub(&tn), &st.facts) { l.t = Some(tn.clone()); poly::set_upper(l.k, tn); l.restart = true; }
                                    else { return abort(format!("two incomparable loop exits {t0:?} / {tn:?} in {}", self.loc())) }
                                }
                            }
                            l.exits.push((st.clone(), succ[oi].0, tnc));
                            bb = succ[ii].0;
                            continue;
                        }
                        if nout >= 1 && l.depth > 0 && !succ.iter().zip(&out).all(|(s, o)| !*o || is_dead(s.0)) { return abort(format!("conditional exit inside a branch of a loop in {}", self.loc())); }
                    }
                    let join = body.ipdom[bb as usize];
                    let n0 = st.effects.len();
                    let mut res: Vec<State> = vec![];
                    let mut conds: Vec<Option<CondV>> = vec![];
                    let mut bf: Vec<Vec<Poly>> = vec![];
                    if self.trace { eprintln!("fork on {} in {}", short(&v), self.loc()); }
                    for (b, c) in succ {
                        let mut s2 = st.clone();
                        match &c { Some(c) => { if has_poly(c) { assume(&mut s2, c); } else { s2.unsure += 1; } } None => s2.unsure += 1 }
                        if c.as_ref().map(|c| !definite_cond(c)).unwrap_or(true) && s2.unsure == st.unsure { s2.unsure += 1; }
                        if is_dead(b) { self.note_dead(&s2, &body, b, c.as_ref(), &st.facts, st.unsure); continue; }
                        if let Some(l) = lp { l.depth += 1; }
                        let f = self.run(&mut s2, fr, b, join, lp);
                        if let Some(l) = lp { l.depth -= 1; }
                        match f? {
                            Flow::Stop => { bf.push(std::mem::replace(&mut s2.facts, st.facts.clone())); s2.unsure = st.unsure; res.push(s2); conds.push(c); }
                            Flow::Diverge => {}
                            Flow::Exit(x) => { if x as usize >= body.blocks.len() && join == x { bf.push(std::mem::replace(&mut s2.facts, st.facts.clone())); s2.unsure = st.unsure; res.push(s2); conds.push(c); } else { return abort(format!("loop left from inside a branch in {}", self.loc())); } }
                        }
                    }
                    if res.is_empty() { return Ok(Flow::Diverge); }
                    if res.len() == 1 { *st = res.pop().unwrap(); st.facts = bf.pop().unwrap(); }
                    else {
                        let two = res.len() == 2;
                        let mut it = res.into_iter();
                        let mut a = it.next().unwrap();
                        let c = conds[0].clone();
                        for b in it { let (fa, fb): (&[Poly], &[Poly]) = if two { (&bf[0], &bf[1]) } else { (&[], &[]) }; a = self.join(a, b, c.as_ref(), n0, fa, fb); }
                        *st = a;
                    }
                    bb = join;
                    if bb as usize >= body.blocks.len() { if stop == bb { return Ok(Flow::Stop); } return Ok(Flow::Exit(bb)); }
                }
                Term::Call { callee, args, arg_tys, dest, target, rust_call } => {
                    let inst = match callee {
                        Callee::Inst(i) => *i,
                        Callee::Dyn(o) => match self.operand_sc(st, fr, o)? { V::Fn(i) => i, v => return abort(format!("call through {} in {}", short(&v), self.loc())) },
                    };
                    let mut av = Vec::with_capacity(args.len());
                    for a in args { av.push(self.operand(st, fr, a)?); }
                    let r = self.call(st, inst, av, arg_tys, *rust_call, self.cx.tyinfo(dest.ty).size)?;
                    match (r, target) {
                        (Some(v), Some(t)) => { self.assign_val(st, fr, dest, v)?; bb = *t; }
                        (None, _) => return Ok(Flow::Diverge),
                        (Some(_), None) => return Ok(Flow::Diverge),
                    }
                }
            }
        }
    }

    fn note_dead(&mut self, _s: &State, body: &Body, b: u32, c: Option<&CondV>, facts: &[Poly], unsure: u32) {
        // the branch leads only to a panic
        if !dead_panics(body, b) { return; }
        let mut definite = false; let mut w = None;
        if let Some(c) = c { if has_poly(c) { w = cond_witness_false(&CondV::Not(Rc::new(c.clone())), facts); definite = w.is_some() && unsure == 0; } }
        self.find("panic", definite, format!("panic reachable {:?} when {:?}", w, c.map(|c| format!("{c:?}").chars().take(160).collect::<String>())));
    }

    fn do_drop(&mut self, st: &mut State, fr: &Frame, p: &Place, _inst: Option<InstId>) -> R<()> {
        // only Box / Vec / enum-of-buffer drops occur; they have no effect on image memory
        let _ = (st, fr, p);
        Ok(())
    }

    pub fn truth(&self, st: &State, v: &V) -> Option<bool> {
        match v { V::C(c) => Some(*c & 1 == 1), V::Cond(c) => cond_poly(c, &st.facts), _ => None }
    }

    // ------------------------------------------------------------ loops
    fn do_loop(&mut self, st: &mut State, fr: &Frame, h: u32, set: Rc<Vec<bool>>) -> R<Flow> {
        self.rloops += 1;
        // probe one iteration
        let mut s1 = st.clone();
        let nfind = self.findings.len();
        let acc = (self.accesses, self.accesses_proved);
        let mut lc = Some(LoopCtx { set: set.clone(), probe: true, sym_exit: false, exits: vec![], k: 0, t: None, restart: false, depth: 0 });
        let f = self.run(&mut s1, fr, h, h, &mut lc)?;
        let l = lc.unwrap();
        match f {
            Flow::Exit(x) if !l.sym_exit => { *st = s1; return Ok(Flow::Exit(x)); }
            Flow::Diverge => { if !l.sym_exit { *st = s1; return Ok(Flow::Diverge); } }
            Flow::Stop if !l.sym_exit => {
                *st = s1;
                // a loop decided by constants: whole batches of iterations in place, undone if one is not decided
                let mut n = 16;
                loop {
                    let snap = st.clone();
                    let (nfind, acc, steps) = (self.findings.len(), (self.accesses, self.accesses_proved), self.steps);
                    for _ in 0..n {
                        let mut lc = Some(LoopCtx { set: set.clone(), probe: true, sym_exit: false, exits: vec![], k: 0, t: None, restart: false, depth: 0 });
                        let f = self.run(st, fr, h, h, &mut lc)?;
                        if lc.unwrap().sym_exit {
                            *st = snap;
                            self.findings.truncate(nfind); (self.accesses, self.accesses_proved) = acc; self.steps = steps;
                            return Ok(Flow::Stop);
                        }
                        match f { Flow::Stop => {} f => return Ok(f) }
                    }
                    n = (n * 2).min(4096);
                }
            }
            _ => {}
        }
        // the decided first iteration may also leave in the middle: if it exits, follow it
        if let Flow::Exit(x) = f { *st = s1; return Ok(Flow::Exit(x)); }
        self.findings.truncate(nfind);
        (self.accesses, self.accesses_proved) = acc;
        let mut havoc: HashSet<(u32, u64)> = HashSet::new();
        for _attempt in 0..6 {
            (self.accesses, self.accesses_proved) = acc;
            let k = poly::new_sym("k");
            let n0 = st.slots.len();
            // header state at iteration k
            let mut hs = st.clone();
            let mut desc: Vec<(u32, u64)> = vec![];
            for a in 0..n0 {
                let (Slot::Mem(m0), Slot::Mem(m1)) = (&st.slots[a], &s1.slots[a]) else { continue };
                if Rc::ptr_eq(m0, m1) || m0.e == m1.e { continue; }
                let mut e = vec![];
                for x in &m0.e {
                    let y = read_scalar(&m1.e, x.off, x.size);
                    let v = if havoc.contains(&(a as u32, x.off)) { V::Undef } else { widen(&x.v, &y, k) };
                    if v == V::Undef && x.v != V::Undef { desc.push((a as u32, x.off)); }
                    if v != V::Undef { e.push(Ent { off: x.off, size: x.size, v }); }
                }
                hs.slots[a] = Slot::Mem(Rc::new(Mem { size: m0.size, e }));
            }
            let hdr = hs.clone();
            let ne = hs.effects.len();
            let mut lc = Some(LoopCtx { set: set.clone(), probe: false, sym_exit: false, exits: vec![], k, t: None, restart: false, depth: 0 });
            let mut s2 = hs.clone();
            let f = self.run(&mut s2, fr, h, h, &mut lc)?;
            let mut l = lc.unwrap();
            if l.restart {
                let t = l.t.clone();
                self.findings.truncate(nfind);
                (self.accesses, self.accesses_proved) = acc;
                s2 = hs.clone();
                let mut lc = Some(LoopCtx { set: set.clone(), probe: false, sym_exit: false, exits: vec![], k, t, restart: false, depth: 0 });
                let f2 = self.run(&mut s2, fr, h, h, &mut lc)?;
                l = lc.unwrap();
                if l.restart || !matches!(f2, Flow::Stop) { return abort("loop restart"); }
            }
            match f { Flow::Stop => {} _ => return abort(format!("loop body does not return to its header in {}", self.loc())) }
            let Some(t) = l.t.clone() else { return abort(format!("no loop exit found in {}", self.loc())) };
            if t.contains(k) { return abort("trip count depends on counter"); }
            // verify the induction hypothesis
            let k1 = Poly::sym(k).addc(1);
            let mut bad = false;
            for a in 0..n0 {
                let Slot::Mem(mh) = &hdr.slots[a] else { continue };
                let Slot::Mem(m2) = &s2.slots[a] else { continue };
                if Rc::ptr_eq(mh, m2) { continue; }
                for x in &mh.e {
                    if x.v == V::Undef { continue; }
                    let want = subst_v(&x.v, k, &k1);
                    let got = read_scalar(&m2.e, x.off, x.size);
                    if want.as_ref() != Some(&got) {
                        if self.trace { eprintln!("loop havoc slot {} off {} want {:?} got {:?}", a as i64 - fr.base as i64, x.off, want.map(|x| short(&x)), short(&got)); }
                        havoc.insert((a as u32, x.off)); bad = true;
                    }
                }
            }
            if bad { self.findings.truncate(nfind); continue; }
            if !poly::nonneg(&t, &st.facts) {
                return abort(format!("sign of trip count {t:?} unknown in {}", self.loc()));
            }
            // exit state: the earliest exit test, at k = T
            let tt = t.clone();
            let (mut es, xb, _) = match l.exits.into_iter().find(|x| x.2 == t) { Some(x) => x, None => return abort("no exit") };
            // effects before the exit test belong to a partial iteration
            if es.effects.len() != ne { return abort(format!("writes before the loop exit test in {}", self.loc())); }
            for a in 0..es.slots.len() {
                if let Slot::Mem(m) = &es.slots[a] {
                    if m.e.iter().any(|x| mentions(&x.v, k)) {
                        let mut m = (**m).clone();
                        m.e = m.e.into_iter().filter_map(|x| subst_v(&x.v, k, &tt).map(|v| Ent { off: x.off, size: x.size, v })).collect();
                        es.slots[a] = Slot::Mem(Rc::new(m));
                    }
                }
            }
            // effects of the iterations
            let mut eff = (*st.effects).clone();
            for f in s2.effects[ne..].iter() { let mut f = f.clone(); f.quants.insert(0, (k, tt.clone())); eff.push(f); }
            es.effects = Rc::new(eff);
            es.facts = st.facts.clone();
            es.unsure = st.unsure;
            if self.trace { eprintln!("loop in {} T={:?} writes {}", self.loc(), tt, s2.effects.len() - ne); }
            *st = es;
            return Ok(Flow::Exit(xb));
        }
        abort(format!("loop invariant not found in {}", self.loc()))
    }

    /// summarise `n` repetitions of a callback executed with a fresh counter (for_each and friends)
    pub fn repeat(&mut self, st: &mut State, n: &Poly, body: &mut dyn FnMut(&mut Self, &mut State, &Poly) -> R<bool>) -> R<bool> {
        if let Some(c) = n.konst() { if c <= 4 { for i in 0..c { if !body(self, st, &Poly::k(i))? { return Ok(false); } } return Ok(true); } }
        if !poly::nonneg(n, &st.facts) { return abort(format!("sign of repetition count {n:?} unknown in {}", self.loc())); }
        let nfind = self.findings.len();
        let acc = (self.accesses, self.accesses_proved);
        let mut s1 = st.clone();
        if !body(self, &mut s1, &Poly::k(0))? { if poly::nonneg(&n.addc(-1), &st.facts) { *st = s1; return Ok(false); } return abort("diverging repetition"); }
        self.findings.truncate(nfind);
        let mut havoc: HashSet<(u32, u64)> = HashSet::new();
        for _ in 0..6 {
            (self.accesses, self.accesses_proved) = acc;
            let k = poly::new_sym("k");
            poly::set_upper(k, n.clone());
            let n0 = st.slots.len();
            let mut hs = st.clone();
            for a in 0..n0 {
                let (Slot::Mem(m0), Slot::Mem(m1)) = (&st.slots[a], &s1.slots[a]) else { continue };
                if Rc::ptr_eq(m0, m1) || m0.e == m1.e { continue; }
                let mut e = vec![];
                for x in &m0.e { let y = read_scalar(&m1.e, x.off, x.size); let v = if havoc.contains(&(a as u32, x.off)) { V::Undef } else { widen(&x.v, &y, k) }; if v != V::Undef { e.push(Ent { off: x.off, size: x.size, v }); } }
                hs.slots[a] = Slot::Mem(Rc::new(Mem { size: m0.size, e }));
            }
            let ne = hs.effects.len();
            let mut s2 = hs.clone();
            if !body(self, &mut s2, &Poly::sym(k))? { return abort("diverging repetition"); }
            let k1 = Poly::sym(k).addc(1);
            let mut bad = false;
            for a in 0..n0 {
                let (Slot::Mem(mh), Slot::Mem(m2)) = (&hs.slots[a], &s2.slots[a]) else { continue };
                if Rc::ptr_eq(mh, m2) { continue; }
                for x in &mh.e { if x.v == V::Undef { continue; } if subst_v(&x.v, k, &k1).as_ref() != Some(&read_scalar(&m2.e, x.off, x.size)) { havoc.insert((a as u32, x.off)); bad = true; } }
            }
            if bad { self.findings.truncate(nfind); continue; }
            let mut eff = (*st.effects).clone();
            for f in s2.effects[ne..].iter() { let mut f = f.clone(); f.quants.insert(0, (k, n.clone())); eff.push(f); }
            let mut es = hs;
            for a in 0..es.slots.len() {
                if let Slot::Mem(m) = &es.slots[a] { if m.e.iter().any(|x| mentions(&x.v, k)) { let mut m = (**m).clone(); m.e = m.e.into_iter().filter_map(|x| subst_v(&x.v, k, n).map(|v| Ent { off: x.off, size: x.size, v })).collect(); es.slots[a] = Slot::Mem(Rc::new(m)); } }
            }
            es.effects = Rc::new(eff);
            es.facts = st.facts.clone(); es.unsure = st.unsure;
            *st = es;
            return Ok(true);
        }
        abort("repetition invariant not found")
    }

    // ------------------------------------------------------------ joins
    fn join(&mut self, a: State, b: State, c: Option<&CondV>, n0: usize, fa: &[Poly], fb: &[Poly]) -> State {
        let mut r = a.clone();
        let n = a.slots.len().min(b.slots.len());
        r.slots.truncate(n);
        for i in 0..n {
            match (&a.slots[i], &b.slots[i]) {
                (Slot::Mem(x), Slot::Mem(y)) => {
                    if Rc::ptr_eq(x, y) || x.e == y.e { continue; }
                    let mut e = vec![];
                    for p in &x.e {
                        let q = read_scalar(&y.e, p.off, p.size);
                        let v = if p.v == q { q } else if let Some(v) = join_ctl(&p.v, &q, fa, fb) { v } else { join_v(&p.v, &q, c, (p.size * 8) as u32) };
                        if v != V::Undef { e.push(Ent { off: p.off, size: p.size, v }); }
                    }
                    r.slots[i] = Slot::Mem(Rc::new(Mem { size: x.size, e }));
                }
                (Slot::Free, Slot::Free) => {}
                _ => r.slots[i] = Slot::Free,
            }
        }
        // effects
        let (ea, eb) = (&a.effects[n0..], &b.effects[n0..]);
        let mut eff = a.effects[..n0].to_vec();
        let same = ea.len() == eb.len() && ea.iter().zip(eb).all(|(x, y)| x.region == y.region && x.off == y.off && x.vals.len() == y.vals.len() && x.quants == y.quants && x.count == y.count && x.may == y.may);
        if same {
            for (x, y) in ea.iter().zip(eb) {
                let bits = (self.regions[x.region as usize].esz * 8) as u32;
                let mut z = x.clone();
                z.vals = x.vals.iter().zip(&y.vals).map(|(p, q)| if p == q { p.clone() } else { join_v(p, q, c, bits) }).collect();
                eff.push(z);
            }
        } else {
            // a branch in which the copy would be empty may leave it out
            let empty = |x: &Effect, facts: &[Poly]| x.count.as_ref().map(|n| poly::nonneg(&n.neg(), facts)).unwrap_or(false) || x.quants.iter().any(|q| poly::nonneg(&q.1.neg(), facts));
            for x in ea { let mut x = x.clone(); if !(eb.is_empty() && empty(&x, fb)) { x.may = true; } eff.push(x); }
            for x in eb { let mut x = x.clone(); if !(ea.is_empty() && empty(&x, fa)) { x.may = true; } eff.push(x); }
        }
        r.effects = Rc::new(eff);
        r.facts = a.facts.clone();
        r
    }
}

/// block from which only divergence is reachable
fn dead_block(body: &Body, b: u32) -> bool {
    let mut seen = vec![false; body.blocks.len()];
    let mut w = vec![b];
    while let Some(x) = w.pop() {
        if x as usize >= body.blocks.len() { return false; }
        if seen[x as usize] { continue; }
        seen[x as usize] = true;
        if matches!(body.blocks[x as usize].term, Term::Return) { return false; }
        w.extend(crate::lower::succs(&body.blocks[x as usize].term));
        if seen.iter().filter(|x| **x).count() > 40 { return false; }
    }
    true
}
fn dead_panics(body: &Body, b: u32) -> bool {
    let mut seen = vec![false; body.blocks.len()];
    let mut w = vec![b];
    while let Some(x) = w.pop() {
        if seen[x as usize] { continue; }
        seen[x as usize] = true;
        if matches!(body.blocks[x as usize].term, Term::Call { .. } | Term::Assert { .. }) { return true; }
        w.extend(crate::lower::succs(&body.blocks[x as usize].term));
    }
    false
}

pub fn has_poly(c: &CondV) -> bool { match c { CondV::Ge(_) | CondV::Eq(_) => true, CondV::Not(c) => has_poly(c), CondV::And(a, b) => has_poly(a) || has_poly(b), _ => false } }
pub fn definite_cond(c: &CondV) -> bool { match c { CondV::Ge(_) => true, CondV::Not(c) => matches!(**c, CondV::Ge(_)), CondV::Eq(_) => true, _ => false } }
pub fn assume(st: &mut State, c: &CondV) {
    match c {
        CondV::Ge(p) => st.facts.push(p.clone()),
        CondV::Eq(p) => { st.facts.push(p.clone()); st.facts.push(p.neg()); }
        CondV::Not(c) => match &**c { CondV::Ge(p) => st.facts.push(p.neg().addc(-1)), CondV::Not(c) => assume(st, c), CondV::Eq(p) => {
            // p != 0 : strengthen when the sign is known
            if poly::nonneg(p, &st.facts) { st.facts.push(p.addc(-1)); } else if poly::nonneg(&p.neg(), &st.facts) { st.facts.push(p.neg().addc(-1)); }
        } _ => {} },
        CondV::And(a, b) => { assume(st, a); assume(st, b); }
        _ => {}
    }
}
/// valuation for which the condition is false
pub fn cond_witness_false(c: &CondV, facts: &[Poly]) -> Option<Vec<(String, i64)>> {
    match c {
        CondV::Ge(p) => poly::witness_neg(p, facts),
        CondV::Not(c) => match &**c {
            CondV::Ge(p) => poly::witness_neg(&p.neg().addc(-1), facts),
            CondV::Not(c) => cond_witness_false(c, facts),
            // an exact linear form of samples reaches its extremes
            CondV::Data(op, V::D(x), V::D(y)) if y.is_const().is_some() && x.lin && x.clamp.is_none() && x.elo == 0.0 && x.ehi == 0.0 => {
                let k = y.is_const().unwrap();
                match op { BinOp::Lt if x.lo < k => Some(vec![("sample value reaching".into(), x.lo as i64)]), BinOp::Gt if x.hi > k => Some(vec![("sample value reaching".into(), x.hi as i64)]), _ => None }
            }
            _ => None,
        },
        CondV::Eq(p) => poly::witness_neg(p, facts).or_else(|| poly::witness_neg(&p.neg(), facts)),
        _ => None,
    }
}

/// number of iterations k = 0.. for which the (decreasing) condition holds
fn trip_count(stay: &CondV, k: u16, facts: &[Poly]) -> Option<Poly> {
    match stay {
        CondV::Ge(p) => {
            let (a, b) = p.linear_in(k)?;
            if let Some(a) = a.konst() {
                if a >= 0 { return None; }
                // b - |a| k >= 0  <=>  k <= floor(b/|a|)  => T = floor(b/|a|)+1
                if let Some((q, _)) = b.div_floor(-a) { return Some(q.addc(1)); }
                return poly::floor_div(&b.addc(-a), -a, facts);
            }
            // symbolic step: b = q * (-a) + r, 0 <= r < -a
            let na = a.neg();
            if let Some((q, r)) = b.addc(1).div_mono(&na) { // stay: b - na*k >= 0 ; b+1 > na*k
                // T = ceil((b+1)/na)
                if r == Poly::k(0) { return Some(q); }
                if poly::nonneg(&r.addc(-1), facts) && poly::nonneg(&na.sub(&r), facts) { return Some(q.addc(1)); }
            }
            None
        }
        CondV::Not(c) => match &**c {
            CondV::Ge(p) => trip_count(&CondV::Ge(p.neg().addc(-1)), k, facts),
            CondV::Eq(p) => { let (a, b) = p.linear_in(k)?; let a = a.konst()?; if a == 0 { return None; } let q = b.div_exact(-a)?; Some(q) }
            CondV::Not(c) => trip_count(c, k, facts),
            _ => None,
        },
        CondV::And(a, b) => {
            let (x, y) = (trip_count(a, k, facts)?, trip_count(b, k, facts)?);
            if poly::nonneg(&x.sub(&y), facts) { Some(y) } else if poly::nonneg(&y.sub(&x), facts) { Some(x) } else { None }
        }
        _ => None,
    }
}

fn decide_switch(p: &Poly, ts: &[(u128, u32)], other: u32, facts: &[Poly]) -> Option<u32> {
    for (v, b) in ts {
        let d = p.addc(-(*v as i64));
        match cond_poly(&CondV::Eq(d), facts) { Some(true) => return Some(*b), Some(false) => {} None => return None }
    }
    Some(other)
}

pub fn to_poly(v: &V, bits: u32, signed: bool) -> Option<Poly> {
    match v {
        V::C(c) => Some(Poly::k(if signed || bits == 64 { sext(*c & mask(bits), bits) as i64 } else { (*c & mask(bits)) as i64 })),
        V::P(p) => Some((**p).clone()),
        _ => None,
    }
}

pub fn short(v: &V) -> String { format!("{v:?}").chars().take(200).collect() }

/// closed form at iteration k, from the values at iterations 0 and 1
fn widen(a: &V, b: &V, k: u16) -> V {
    if a == b { return a.clone(); }
    let aff = |x: &Poly, y: &Poly| -> Option<Poly> { let d = y.sub(x); Some(x.add(&d.mul(&Poly::sym(k))?)) };
    match (a, b) {
        (V::Seq(x), V::Seq(y)) => {
            if x.k == y.k && x.end == y.end { if let Some(p) = aff(&x.pos, &y.pos) { return V::Seq(Rc::new(Seq { k: x.k.clone(), pos: p, end: x.end.clone() })); } }
            if x.k == y.k && x.pos == y.pos { if let Some(p) = aff(&x.end, &y.end) { return V::Seq(Rc::new(Seq { k: x.k.clone(), pos: x.pos.clone(), end: p })); } }
            V::Undef
        }
        (V::Ptr(x), V::Ptr(y)) => { if x.alloc == y.alloc { if let Some(p) = aff(&x.off, &y.off) { return V::Ptr(Rc::new(PtrV { alloc: x.alloc, off: p })); } } V::Undef }
        (V::C(_) | V::P(_), V::C(_) | V::P(_)) => {
            let (Some(x), Some(y)) = (to_poly(a, 64, true), to_poly(b, 64, true)) else { return V::Undef };
            match aff(&x, &y) { Some(p) => pv(p), None => V::Undef }
        }
        _ => V::Undef,
    }
}

pub fn mentions(v: &V, k: u16) -> bool {
    match v {
        V::P(p) => p.contains(k),
        V::Ptr(p) => p.off.contains(k),
        V::Seq(s) => seq_mentions(s, k),
        V::Cond(c) => cond_mentions(c, k),
        V::Opt(c, v) => cond_mentions(c, k) || mentions(v, k),
        V::D(d) => d.all_deps().iter().any(|s| src(*s).off.contains(k)),
        V::Cat(_) | V::Top(_) => deps_of(v).iter().any(|s| src(*s).off.contains(k)),
        _ => false,
    }
}
fn cond_mentions(c: &CondV, k: u16) -> bool { match c { CondV::Ge(p) | CondV::Eq(p) => p.contains(k), CondV::Not(c) => cond_mentions(c, k), CondV::And(a, b) => cond_mentions(a, k) || cond_mentions(b, k), CondV::Data(_, a, b) => mentions(a, k) || mentions(b, k), CondV::Unknown(d) => d.iter().any(|s| src(*s).off.contains(k)) } }
fn seq_mentions(s: &Seq, k: u16) -> bool {
    s.pos.contains(k) || s.end.contains(k) || match &s.k {
        SeqK::Iter { ptr, .. } => ptr.off.contains(k),
        SeqK::Chunks { ptr, n, total, .. } => ptr.off.contains(k) || n.contains(k) || total.contains(k),
        SeqK::Windows { ptr, n, .. } => ptr.off.contains(k) || n.contains(k),
        SeqK::Range { .. } => false,
        SeqK::Zip(a, b, _) => seq_mentions(a, k) || seq_mentions(b, k),
        SeqK::Enumerate(a, _) | SeqK::Rev(a) | SeqK::StepBy(a, _) => seq_mentions(a, k),
        SeqK::Map(a, _, v, _, _) => seq_mentions(a, k) || v.e.iter().any(|e| mentions(&e.v, k)),
    }
}
fn subst_seq(s: &Seq, k: u16, p: &Poly) -> Option<Seq> {
    let sp = |x: &PtrV| -> Option<PtrV> { Some(PtrV { alloc: x.alloc, off: x.off.subst(k, p)? }) };
    let kk = match &s.k {
        SeqK::Iter { ptr, esz, copied } => SeqK::Iter { ptr: sp(ptr)?, esz: *esz, copied: *copied },
        SeqK::Chunks { ptr, esz, n, total, exact } => SeqK::Chunks { ptr: sp(ptr)?, esz: *esz, n: n.subst(k, p)?, total: total.subst(k, p)?, exact: *exact },
        SeqK::Windows { ptr, esz, n } => SeqK::Windows { ptr: sp(ptr)?, esz: *esz, n: n.subst(k, p)? },
        SeqK::Range { bytes } => SeqK::Range { bytes: *bytes },
        SeqK::Zip(a, b, t) => SeqK::Zip(Rc::new(subst_seq(a, k, p)?), Rc::new(subst_seq(b, k, p)?), *t),
        SeqK::Enumerate(a, t) => SeqK::Enumerate(Rc::new(subst_seq(a, k, p)?), *t),
        SeqK::Rev(a) => SeqK::Rev(Rc::new(subst_seq(a, k, p)?)),
        SeqK::StepBy(a, n) => SeqK::StepBy(Rc::new(subst_seq(a, k, p)?), *n),
        SeqK::Map(a, i, v, t, r) => {
            let mut v2 = v.clone();
            for e in &mut v2.e { if mentions(&e.v, k) { e.v = subst_v(&e.v, k, p)?; } }
            SeqK::Map(Rc::new(subst_seq(a, k, p)?), *i, v2, *t, *r)
        }
    };
    Some(Seq { k: kk, pos: s.pos.subst(k, p)?, end: s.end.subst(k, p)? })
}
fn subst_cond(c: &CondV, k: u16, p: &Poly) -> Option<CondV> {
    Some(match c { CondV::Ge(q) => CondV::Ge(q.subst(k, p)?), CondV::Eq(q) => CondV::Eq(q.subst(k, p)?), CondV::Not(c) => CondV::Not(Rc::new(subst_cond(c, k, p)?)), CondV::And(a, b) => CondV::And(Rc::new(subst_cond(a, k, p)?), Rc::new(subst_cond(b, k, p)?)), x => { if cond_mentions(x, k) { return None; } x.clone() } })
}
pub fn subst_v(v: &V, k: u16, p: &Poly) -> Option<V> {
    if !mentions(v, k) { return Some(v.clone()); }
    Some(match v {
        V::P(q) => pv(q.subst(k, p)?),
        V::Ptr(q) => V::Ptr(Rc::new(PtrV { alloc: q.alloc, off: q.off.subst(k, p)? })),
        V::Seq(s) => V::Seq(Rc::new(subst_seq(s, k, p)?)),
        V::Cond(c) => V::Cond(Rc::new(subst_cond(c, k, p)?)),
        V::Opt(c, v) => V::Opt(Rc::new(subst_cond(c, k, p)?), Rc::new(subst_v(v, k, p)?)),
        _ => return None,
    })
}

/// control values that agree under the facts of one of the branches
fn join_ctl(a: &V, b: &V, fa: &[Poly], fb: &[Poly]) -> Option<V> {
    let eq = |d: &Poly, f: &[Poly]| poly::nonneg(d, f) && poly::nonneg(&d.neg(), f);
    match (a, b) {
        (V::C(_) | V::P(_), V::C(_) | V::P(_)) => {
            if !matches!(a, V::P(_)) && !matches!(b, V::P(_)) && fa.is_empty() { return None; }
            let (x, y) = (to_poly(a, 64, true)?, to_poly(b, 64, true)?);
            let d = x.sub(&y);
            if eq(&d, fb) { Some(a.clone()) } else if eq(&d, fa) { Some(b.clone()) } else { None }
        }
        (V::Ptr(x), V::Ptr(y)) if x.alloc == y.alloc => { let d = x.off.sub(&y.off); if eq(&d, fb) { Some(a.clone()) } else if eq(&d, fa) { Some(b.clone()) } else { None } }
        _ => None,
    }
}
pub fn join_v(a: &V, b: &V, c: Option<&CondV>, bits: u32) -> V {
    if a == b { return a.clone(); }
    if matches!(a, V::Undef) || matches!(b, V::Undef) { return V::Undef; }
    if let Some(c) = c { if let Some(v) = select(c, a, b, bits) { return v; } }
    let dc = c.map(cond_deps).unwrap_or_default();
    match (a, b) {
        (V::D(_) | V::Cat(_) | V::C(_), V::D(_) | V::Cat(_) | V::C(_)) => {
            let enc = match (a, b) { (V::D(d), _) => d.enc, (_, V::D(d)) => d.enc, _ => Enc::Int };
            let deps = merge_deps(&dc, &merge_deps(&deps_of(a), &deps_of(b)));
            if deps.is_empty() && matches!((a, b), (V::C(_), V::C(_))) { return top(vec![], "join of different constants"); }
            if enc != Enc::Int { return V::D(Rc::new(Data::unknown(bits, enc, deps))); }
            let (x, y) = (as_mod(a, bits), as_mod(b, bits));
            // constants: choose the unsigned view if the other side is non-negative
            let fix = |d: Data, o: &Data| if d.is_const().is_some() && d.lo < 0.0 && o.lo >= 0.0 { d_addc(&d, p2(bits)) } else { d };
            let (x2, y2) = (fix(x.clone(), &y), fix(y.clone(), &x));
            V::D(Rc::new(Data::nonlin(bits, Enc::Int, deps, x2.lo.min(y2.lo), x2.hi.max(y2.hi))))
        }
        _ => top(merge_deps(&dc, &merge_deps(&deps_of(a), &deps_of(b))), "join"),
    }
}

/// c ? a : b recognised as a clamp
pub fn select(c: &CondV, a: &V, b: &V, bits: u32) -> Option<V> {
    match c {
        CondV::Not(c) => select(c, b, a, bits),
        CondV::Data(op, x, y) => {
            let (xd, yd) = (match x { V::D(d) => d.clone(), _ => return None }, match y { V::D(d) => d.clone(), _ => return None });
            let (op, x, k) = if let Some(k) = yd.is_const() { (*op, xd, k) } else if let Some(k) = xd.is_const() {
                (match op { BinOp::Lt => BinOp::Gt, BinOp::Le => BinOp::Ge, BinOp::Gt => BinOp::Lt, BinOp::Ge => BinOp::Le, o => *o }, yd, k)
            } else { return None };
            let dv = |v: &V| -> Option<Data> { match v { V::C(_) => { let s = as_mod(v, bits); let cs = s.is_const()?; Some(if x.enc != Enc::Int { as_float(v, x.enc) } else if cs < 0.0 && x.lo >= 0.0 { d_addc(&s, p2(bits)) } else { s }) } V::D(d) => Some((**d).clone()), _ => None } };
            let (da, db) = (dv(a)?, dv(b)?);
            let same = |d: &Data| d.lin && x.lin && d.terms == x.terms && d.c == x.c && d.clamp == x.clamp && d.elo == x.elo && d.ehi == x.ehi && d.enc == x.enc;
            let near = |d: &Data| d.is_const().map(|v| (v - k).abs() <= 1.0).unwrap_or(false);
            let up = matches!(op, BinOp::Lt | BinOp::Le);
            let dn = matches!(op, BinOp::Gt | BinOp::Ge);
            if !up && !dn { return None; }
            let bits_fix = |d: Data| Data { bits, ..d };
            if near(&da) && same(&db) { let kk = da.is_const().unwrap(); return Some(data_to_v(bits_fix(if up { d_clamp(&db, kk, f64::INFINITY) } else { d_clamp(&db, f64::NEG_INFINITY, kk) }))); }
            if near(&db) && same(&da) { let kk = db.is_const().unwrap(); return Some(data_to_v(bits_fix(if up { d_clamp(&da, f64::NEG_INFINITY, kk) } else { d_clamp(&da, kk, f64::INFINITY) }))); }
            None
        }
        _ => None,
    }
}
