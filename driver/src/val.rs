//! Abstract values: control integers (polynomials), sample values (affine forms with error, range and clamp),
//! bit-field concatenations, pointers, conditions and iterator sequences.
use crate::ir::*;
use crate::poly::{self, Poly};
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

pub type SrcId = u32;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Src { pub region: u16, pub off: Poly, pub ch: u8 }

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Enc { Int, F16, F32, F64 }

/// value = clamp(sum terms + c + e) with e in [elo,ehi]; integer values are representatives modulo 2^bits.
#[derive(Clone, Debug, PartialEq)]
pub struct Data {
    pub bits: u32,
    pub enc: Enc,
    pub lin: bool,
    pub terms: Vec<(SrcId, f64)>,
    pub c: f64,
    pub elo: f64,
    pub ehi: f64,
    pub clamp: Option<(f64, f64)>,
    pub lo: f64,
    pub hi: f64,
    /// for non-linear values: everything the value depends on
    pub deps: Vec<SrcId>,
    /// number of low bits known to be zero
    pub tz: u32,
    /// 1: an attainable value was outside the integer it is read as; 2: and the result was then saturated;
    /// 4: the two bytes of a 16-bit sample were read in the wrong order; 5: bytes of two different numbers were read as one
    pub ovf: u8,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Field { pub w: u32, pub src: FSrc }
#[derive(Clone, Debug, PartialEq)]
pub enum FSrc { C(u128), Part(Rc<Data>, u32) }

#[derive(Clone, Debug, PartialEq)]
pub struct PtrV { pub alloc: u32, pub off: Poly }

#[derive(Clone, Debug, PartialEq)]
pub enum CondV {
    /// p >= 0
    Ge(Poly),
    /// p == 0
    Eq(Poly),
    /// data comparison (op, a, b)
    Data(BinOp, V, V),
    Not(Rc<CondV>),
    And(Rc<CondV>, Rc<CondV>),
    Unknown(Vec<SrcId>),
}

#[derive(Clone, Debug, PartialEq)]
pub enum V {
    Undef,
    C(u128),
    P(Rc<Poly>),
    D(Rc<Data>),
    Cat(Rc<Vec<Field>>),
    Ptr(Rc<PtrV>),
    Fn(InstId),
    VTab(TyId),
    Cond(Rc<CondV>),
    /// niche-encoded option payload: `v` if cond else the niche value
    Opt(Rc<CondV>, Rc<V>),
    Seq(Rc<Seq>),
    /// bit mask whose low n bits are set
    Mask(Rc<Poly>),
    /// 2^n
    Pow(Rc<Poly>),
    /// unknown, with dependencies; text says why
    Top(Rc<(Vec<SrcId>, String)>),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Ent { pub off: u64, pub size: u64, pub v: V }

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Val { pub size: u64, pub e: Vec<Ent> }

#[derive(Clone, Debug, PartialEq)]
pub struct Seq { pub k: SeqK, pub pos: Poly, pub end: Poly }

#[derive(Clone, Debug, PartialEq)]
pub enum SeqK {
    /// elements of a slice by reference: pointer, element size
    Iter { ptr: PtrV, esz: u64, copied: bool },
    /// exact chunks: pointer, element size, chunk length, total elements
    Chunks { ptr: PtrV, esz: u64, n: Poly, total: Poly, exact: bool },
    Windows { ptr: PtrV, esz: u64, n: Poly },
    Range { bytes: u64 },
    Zip(Rc<Seq>, Rc<Seq>, TyId),
    Enumerate(Rc<Seq>, TyId),
    Map(Rc<Seq>, InstId, Val, TyId, bool),
    Rev(Rc<Seq>),
    StepBy(Rc<Seq>, i64),
}

impl Val {
    pub fn scalar(size: u64, v: V) -> Val { Val { size, e: vec![Ent { off: 0, size, v }] } }
    pub fn unit() -> Val { Val { size: 0, e: vec![] } }
    pub fn pair(a: V, b: V) -> Val { Val { size: 16, e: vec![Ent { off: 0, size: 8, v: a }, Ent { off: 8, size: 8, v: b }] } }
}

thread_local! {
    static SRCS: RefCell<(Vec<(Src, f64, f64, u32)>, HashMap<Src, SrcId>)> = RefCell::new((vec![], HashMap::new()));
    pub static NOTES: RefCell<Vec<String>> = RefCell::new(vec![]);
}
pub fn reset_srcs() { SRCS.with(|s| { let mut s = s.borrow_mut(); s.0.clear(); s.1.clear(); }); NOTES.with(|n| n.borrow_mut().clear()); }
pub fn note(s: String) { NOTES.with(|n| { let mut n = n.borrow_mut(); if n.len() < 200 && !n.contains(&s) { n.push(s); } }) }
pub fn src_id(s: Src, lo: f64, hi: f64, bits: u32) -> SrcId {
    SRCS.with(|t| {
        let mut t = t.borrow_mut();
        if let Some(&i) = t.1.get(&s) { return i; }
        let i = t.0.len() as SrcId;
        t.0.push((s.clone(), lo, hi, bits));
        t.1.insert(s, i);
        i
    })
}
pub fn src(i: SrcId) -> Src { SRCS.with(|t| t.borrow().0[i as usize].0.clone()) }
pub fn src_range(i: SrcId) -> (f64, f64) { SRCS.with(|t| { let t = t.borrow(); let x = &t.0[i as usize]; (x.1, x.2) }) }
pub fn src_full(i: SrcId) -> (Src, f64, f64, u32) { SRCS.with(|t| t.borrow().0[i as usize].clone()) }

pub fn p2(b: u32) -> f64 { (2f64).powi(b as i32) }
pub fn mask(bits: u32) -> u128 { if bits >= 128 { u128::MAX } else { (1u128 << bits) - 1 } }
pub fn sext(v: u128, bits: u32) -> i128 { if bits >= 128 { v as i128 } else { let s = 128 - bits; ((v << s) as i128) >> s } }

pub fn merge_deps(a: &[SrcId], b: &[SrcId]) -> Vec<SrcId> { let mut v: Vec<SrcId> = a.iter().chain(b.iter()).copied().collect(); v.sort(); v.dedup(); v }

impl Data {
    pub fn konst(bits: u32, c: f64, enc: Enc) -> Data { Data { bits, enc, lin: true, terms: vec![], c, elo: 0.0, ehi: 0.0, clamp: None, lo: c, hi: c, deps: vec![], tz: if enc == Enc::Int { tz_of(c) } else { 0 }, ovf: 0 } }
    pub fn of_src(id: SrcId, bits: u32, enc: Enc) -> Data { let (lo, hi) = src_range(id); Data { bits, enc, lin: true, terms: vec![(id, 1.0)], c: 0.0, elo: 0.0, ehi: 0.0, clamp: None, lo, hi, deps: vec![], tz: 0, ovf: 0 } }
    pub fn nonlin(bits: u32, enc: Enc, deps: Vec<SrcId>, lo: f64, hi: f64) -> Data { Data { bits, enc, lin: false, terms: vec![], c: 0.0, elo: 0.0, ehi: 0.0, clamp: None, lo, hi, deps, tz: 0, ovf: 0 } }
    pub fn unknown(bits: u32, enc: Enc, deps: Vec<SrcId>) -> Data {
        if enc == Enc::Int { Data::nonlin(bits, enc, deps, f64::NEG_INFINITY, f64::INFINITY) } else { Data::nonlin(bits, enc, deps, f64::NEG_INFINITY, f64::INFINITY) }
    }
    pub fn all_deps(&self) -> Vec<SrcId> { if self.lin && self.deps.is_empty() { self.terms.iter().map(|t| t.0).collect() } else { let v: Vec<SrcId> = self.terms.iter().map(|t| t.0).collect(); merge_deps(&v, &self.deps) } }
    pub fn is_const(&self) -> Option<f64> { if self.lin && self.terms.is_empty() && self.elo == 0.0 && self.ehi == 0.0 { Some(match self.clamp { Some((a, b)) => self.c.max(a).min(b), None => self.c }) } else { None } }
    pub fn exact(&self) -> bool { self.lin && self.elo == 0.0 && self.ehi == 0.0 && self.clamp.is_none() }
    pub fn lin_range(&self) -> (f64, f64) {
        let (mut l, mut h) = (self.c, self.c);
        for &(s, k) in &self.terms { let (a, b) = src_range(s); if k >= 0.0 { l += k * a; h += k * b; } else { l += k * b; h += k * a; } }
        (l, h)
    }
    /// recompute range from the linear part, intersect with known one
    pub fn norm(mut self) -> Data {
        if self.lin {
            let (l, h) = self.lin_range();
            let (mut l, mut h) = (l + self.elo, h + self.ehi);
            if self.enc == Enc::Int { l = (l - 1e-6).ceil(); h = (h + 1e-6).floor(); }
            if let Some((a, b)) = self.clamp {
                if l >= a && h <= b { self.clamp = None; } else { l = l.max(a).min(b); h = h.min(b).max(a); }
            }
            if self.lo < l { self.lo = l; }
            if self.hi > h { self.hi = h; }
            if self.lo > self.hi { self.lo = l; self.hi = h; }
        }
        self
    }
    fn wide(mut self) -> Data { self.lo = f64::NEG_INFINITY; self.hi = f64::INFINITY; self.norm() }
    /// turn a clamp into error
    pub fn unclamp(&self) -> Data {
        let Some((a, b)) = self.clamp else { return self.clone() };
        let (l, h) = self.lin_range();
        let (l, h) = (l + self.elo, h + self.ehi);
        let mut d = self.clone();
        d.clamp = None;
        d.ehi += (a - l).max(0.0);
        d.elo -= (h - b).max(0.0);
        d
    }
}
fn tz_of(c: f64) -> u32 { if c == 0.0 { 64 } else { let mut n = 0; let mut x = c; while n < 63 && x % 2.0 == 0.0 { x /= 2.0; n += 1; } n } }

fn comb(a: &[(SrcId, f64)], ka: f64, b: &[(SrcId, f64)], kb: f64) -> Vec<(SrcId, f64)> {
    let mut t = Vec::with_capacity(a.len() + b.len());
    let (mut i, mut j) = (0, 0);
    while i < a.len() || j < b.len() {
        if j >= b.len() || (i < a.len() && a[i].0 < b[j].0) { t.push((a[i].0, a[i].1 * ka)); i += 1; }
        else if i >= a.len() || b[j].0 < a[i].0 { t.push((b[j].0, b[j].1 * kb)); j += 1; }
        else { let c = a[i].1 * ka + b[j].1 * kb; if c != 0.0 { t.push((a[i].0, c)); } i += 1; j += 1; }
    }
    t
}

/// the certain damage a result inherits from its operands
fn sticky(a: &Data, b: &Data) -> u8 { let f = |d: &Data| if d.ovf >= 2 { d.ovf } else { 0 }; f(a).max(f(b)) }

/// a + s*b (s = +1 / -1)
pub fn d_add(a: &Data, b: &Data, s: f64) -> Data {
    let bits = a.bits;
    if a.lin && b.lin {
        if let (Some(x), None) = (b.is_const(), a.is_const()) { return d_addc(a, s * x); }
        if let (Some(x), None) = (a.is_const(), b.is_const()) { let m = d_mulc(b, s); return d_addc(&Data { bits, ..m }, x); }
        if let Some(d) = add_share(a, b, s) { return d; }
        // e.g. x - x
        let (a, b) = (a.unclamp(), b.unclamp());
        let (elo, ehi) = if s > 0.0 { (a.elo + b.elo, a.ehi + b.ehi) } else { (a.elo - b.ehi, a.ehi - b.elo) };
        let mut d = Data { bits, enc: a.enc, lin: true, terms: comb(&a.terms, 1.0, &b.terms, s), c: a.c + s * b.c, elo, ehi, clamp: None, lo: f64::NEG_INFINITY, hi: f64::INFINITY, deps: merge_deps(&a.deps, &b.deps), tz: a.tz.min(b.tz), ovf: 0 };
        if s > 0.0 { d.lo = a.lo + b.lo; d.hi = a.hi + b.hi; } else { d.lo = a.lo - b.hi; d.hi = a.hi - b.lo; }
        return d_fperr(d.norm());
    }
    let (lo, hi) = if s > 0.0 { (a.lo + b.lo, a.hi + b.hi) } else { (a.lo - b.hi, a.hi - b.lo) };
    Data { tz: a.tz.min(b.tz), ovf: sticky(a, b), ..Data::nonlin(bits, a.enc, merge_deps(&a.all_deps(), &b.all_deps()), lo, hi) }
}
/// x + x/256 with both parts saturated at the same samples, as in a division by 255
fn add_share(a: &Data, b: &Data, s: f64) -> Option<Data> {
    if s != 1.0 || a.enc != Enc::Int || b.enc != Enc::Int { return None; }
    let (Some(ca), Some(cb)) = (a.clamp, b.clamp) else { return None };
    if a.terms.len() != b.terms.len() || a.terms.is_empty() { return None; }
    let (a, b, ca, cb) = if a.terms[0].1.abs() >= b.terms[0].1.abs() { (a, b, ca, cb) } else { (b, a, cb, ca) };
    let k = b.terms[0].1 / a.terms[0].1;
    if !(k > 0.0 && k <= 1.0 / 64.0) || !a.terms.iter().zip(&b.terms).all(|(x, y)| x.0 == y.0 && (y.1 - k * x.1).abs() < 1e-12) { return None; }
    // where the first part saturates, the second has the value of its own bound
    let c = b.c - k * a.c;
    let at = |x: f64, y: f64| k * x + c + b.elo.min(0.0) - k * a.elo.max(0.0) <= y + 1e-6 && y - 1e-6 <= k * x + c + b.ehi.max(0.0) - k * a.ehi.min(0.0);
    if !at(ca.0, cb.0) || !at(ca.1, cb.1) { return None; }
    let mut d = a.clone();
    for t in &mut d.terms { t.1 *= 1.0 + k; }
    d.c += b.c; d.elo += b.elo; d.ehi += b.ehi;
    d.clamp = Some((ca.0 + cb.0, ca.1 + cb.1));
    d.lo = a.lo + b.lo; d.hi = a.hi + b.hi;
    d.tz = 0; d.deps = merge_deps(&a.deps, &b.deps);
    Some(d.norm())
}
fn d_fperr(mut d: Data) -> Data {
    let u = match d.enc { Enc::Int | Enc::F64 => return d, Enc::F32 => 6.0e-8, Enc::F16 => 4.9e-4 };
    if !d.lin { return d; }
    let m = d.lo.abs().max(d.hi.abs());
    if m.is_finite() { if !(d.is_const().is_some()) { d.elo -= m * u; d.ehi += m * u; } }
    d
}
pub fn d_addc(a: &Data, c: f64) -> Data {
    let mut d = a.clone();
    if c == 0.0 { return d; }
    d.c += c; d.lo += c; d.hi += c;
    if let Some((x, y)) = d.clamp { d.clamp = Some((x + c, y + c)); }
    d.tz = d.tz.min(tz_of(c));
    if d.enc != Enc::Int && !d.terms.is_empty() { d = d_fperr(d); }
    d
}
pub fn d_mulc(a: &Data, k: f64) -> Data {
    if k == 0.0 { return Data::konst(a.bits, 0.0, a.enc); }
    let mut d = a.clone();
    for t in &mut d.terms { t.1 *= k; }
    d.c *= k;
    let (e1, e2) = (d.elo * k, d.ehi * k);
    d.elo = e1.min(e2); d.ehi = e1.max(e2);
    if let Some((x, y)) = d.clamp { let (x, y) = (x * k, y * k); d.clamp = Some((x.min(y), x.max(y))); }
    let (x, y) = (d.lo * k, d.hi * k);
    d.lo = x.min(y); d.hi = x.max(y);
    if d.enc == Enc::Int { d.tz = (d.tz + tz_of(k)).min(64); } else if !d.terms.is_empty() { d = d_fperr(d); }
    d
}
pub fn d_mul(a: &Data, b: &Data) -> Data {
    if let Some(k) = b.is_const() { return d_mulc(a, k); }
    if let Some(k) = a.is_const() { return Data { bits: a.bits, ..d_mulc(b, k) }; }
    let ps = [a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi];
    let lo = ps.iter().cloned().fold(f64::INFINITY, f64::min);
    let hi = ps.iter().cloned().fold(f64::NEG_INFINITY, f64::max);
    let (lo, hi) = if lo.is_nan() || hi.is_nan() { (f64::NEG_INFINITY, f64::INFINITY) } else { (lo, hi) };
    Data { tz: (a.tz + b.tz).min(64), ovf: sticky(a, b), ..Data::nonlin(a.bits, a.enc, merge_deps(&a.all_deps(), &b.all_deps()), lo, hi) }
}
/// floor(a / 2^k), a is the signed/unsigned value already
pub fn d_shr(a: &Data, k: u32) -> Data {
    if k == 0 { return a.clone(); }
    let s = p2(k);
    let fl = |x: f64| (x / s).floor();
    if !a.lin {
        return Data { lo: fl(a.lo), hi: fl(a.hi), tz: a.tz.saturating_sub(k), ..a.clone() };
    }
    if let Some(c) = a.is_const() { return Data::konst(a.bits, fl(c), Enc::Int); }
    let mut d = a.clone();
    for t in &mut d.terms { t.1 /= s; }
    d.c /= s; d.elo /= s; d.ehi /= s;
    if a.tz < k { d.elo -= (s - 1.0) / s; }
    if let Some((x, y)) = d.clamp { d.clamp = Some((fl(x), fl(y))); }
    d.lo = fl(a.lo); d.hi = fl(a.hi);
    d.tz = a.tz.saturating_sub(k);
    d.norm()
}
/// rounding right shift with offset folded: floor((a + r) / 2^k)
pub fn d_clamp(a: &Data, lo: f64, hi: f64) -> Data {
    let mut d = a.clone();
    if d.lo >= lo && d.hi <= hi { return d; }
    d.tz = d.tz.min(tz_of(lo)).min(if hi.is_finite() { tz_of(hi) } else { 64 });
    if !d.lin { d.lo = d.lo.max(lo).min(hi); d.hi = d.hi.min(hi).max(lo); return d; }
    let (x, y) = match d.clamp { Some((x, y)) => (x.max(lo).min(hi), y.min(hi).max(lo)), None => (lo, hi) };
    d.clamp = Some((x, y));
    d.lo = d.lo.max(lo).min(hi); d.hi = d.hi.min(hi).max(lo);
    let d = d.norm();
    if d.lo == d.hi && d.terms.is_empty() { return Data::konst(d.bits, d.lo, d.enc); }
    d
}
pub fn d_div(a: &Data, k: f64) -> Data {
    // integer truncating division by a positive constant, non-negative dividend
    if !a.lin { return Data { lo: (a.lo / k).floor(), hi: (a.hi / k).floor(), tz: 0, ..a.clone() }; }
    if let Some(c) = a.is_const() { return Data::konst(a.bits, (c / k).trunc(), Enc::Int); }
    let mut d = a.clone();
    for t in &mut d.terms { t.1 /= k; }
    d.c /= k; d.elo = d.elo / k - (k - 1.0) / k; d.ehi /= k;
    if let Some((x, y)) = d.clamp { d.clamp = Some(((x / k).trunc(), (y / k).trunc())); }
    d.lo = (a.lo / k).trunc(); d.hi = (a.hi / k).trunc(); d.tz = 0;
    d.norm()
}

/// representative in the signed / unsigned window of `bits`
pub fn repr(d: &Data, bits: u32, signed: bool) -> Option<Data> {
    let (wl, wh) = if signed { (-p2(bits - 1), p2(bits - 1) - 1.0) } else { (0.0, p2(bits) - 1.0) };
    if d.lo >= wl && d.hi <= wh { return Some(d.clone()); }
    let m = p2(bits);
    if !d.lo.is_finite() || !d.hi.is_finite() { return None; }
    // shift by a multiple of 2^bits
    let n = ((wl - d.lo) / m).ceil();
    let k = n * m;
    if d.lo + k >= wl && d.hi + k <= wh {
        let tz = d.tz;
        let mut x = d_addc(d, k);
        x.tz = tz.min(bits);
        return Some(x);
    }
    // slack of the error term only: the exact value cannot be there if the linear part is inside the window
    if d.lin {
        let (l, h) = d.lin_range();
        let (l, h) = match d.clamp { Some((a, b)) => (l.max(a), h.min(b)), None => (l, h) };
        if l >= wl - 0.51 && h <= wh + 0.51 && d.lo >= wl - 2.0 && d.hi <= wh + 2.0 && (d.elo != 0.0 || d.ehi != 0.0) {
            // within rounding slack: treat as saturating (documented tolerance)
            let mut x = d.clone();
            x.lo = x.lo.max(wl); x.hi = x.hi.min(wh);
            return Some(x);
        }
    }
    None
}

/// does some choice of samples certainly take d out of the integer it is read as?
pub fn overflows(d: &Data, bits: u32, signed: bool) -> bool {
    if !d.lin || d.clamp.is_some() || d.enc != Enc::Int { return false; }
    let (wl, wh) = if signed { (-p2(bits - 1), p2(bits - 1) - 1.0) } else { (0.0, p2(bits) - 1.0) };
    let (l, h) = d.lin_range();
    // some value is at most a, some value is at least b
    let (a, b) = (l + d.ehi, h + d.elo);
    if !a.is_finite() || !b.is_finite() || b < a { return false; }
    let k = ((wl - a) / p2(bits)).ceil() * p2(bits);
    b + k > wh && (a < wl || b > wh)
}

pub fn c_to_data(c: u128, bits: u32, signed: bool, enc: Enc) -> Data {
    match enc {
        Enc::Int => Data::konst(bits, if signed { sext(c, bits) as f64 } else { c as f64 }, enc),
        Enc::F32 => Data::konst(bits, f32::from_bits(c as u32) as f64, enc),
        Enc::F64 => Data::konst(bits, f64::from_bits(c as u64), enc),
        Enc::F16 => Data::konst(bits, f16_to_f64(c as u16), enc),
    }
}
pub fn f16_to_f64(h: u16) -> f64 {
    let s = if h >> 15 != 0 { -1.0 } else { 1.0 };
    let e = ((h >> 10) & 31) as i32; let m = (h & 1023) as f64;
    if e == 0 { s * m * (2f64).powi(-24) } else if e == 31 { if m == 0.0 { s * f64::INFINITY } else { f64::NAN } } else { s * (1.0 + m / 1024.0) * (2f64).powi(e - 15) }
}
pub fn data_to_v(d: Data) -> V {
    if let Some(c) = d.is_const() {
        match d.enc {
            Enc::Int => { if c.abs() < 9e18 { return V::C((c as i128 as u128) & mask(d.bits)); } }
            Enc::F32 => return V::C((c as f32).to_bits() as u128),
            Enc::F64 => return V::C(c.to_bits() as u128),
            Enc::F16 => {}
        }
    }
    V::D(Rc::new(d))
}

pub fn deps_of(v: &V) -> Vec<SrcId> {
    match v {
        V::D(d) => d.all_deps(),
        V::Cat(f) => { let mut r = vec![]; for x in f.iter() { if let FSrc::Part(d, _) = &x.src { r.extend(d.all_deps()); } } r.sort(); r.dedup(); r }
        V::Top(t) => t.0.clone(),
        V::Cond(c) => cond_deps(c),
        V::Opt(_, v) => deps_of(v),
        _ => vec![],
    }
}
pub fn cond_deps(c: &CondV) -> Vec<SrcId> {
    match c { CondV::Data(_, a, b) => merge_deps(&deps_of(a), &deps_of(b)), CondV::Not(c) => cond_deps(c), CondV::And(a, b) => merge_deps(&cond_deps(a), &cond_deps(b)), CondV::Unknown(d) => d.clone(), _ => vec![] }
}
pub fn top(deps: Vec<SrcId>, why: &str) -> V { V::Top(Rc::new((deps, why.to_string()))) }
pub fn vk(c: i64, bits: u32) -> V { V::C((c as i128 as u128) & mask(bits)) }
pub fn pv(p: Poly) -> V { match p.konst() { Some(c) => vk(c, 64), None => V::P(Rc::new(p)) } }

// ---------------------------------------------------------------- bit fields

/// fields (low to high) of a value of `bits` width
pub fn fields(v: &V, bits: u32) -> Option<Vec<Field>> {
    Some(match v {
        V::C(c) => vec![Field { w: bits, src: FSrc::C(*c & mask(bits)) }],
        V::D(d) => vec![Field { w: bits, src: FSrc::Part(d.clone(), 0) }],
        V::Cat(f) => f.to_vec(),
        _ => return None,
    })
}
/// the same integer, whatever the width it was last cut to
fn same_number(a: &Data, b: &Data) -> bool { a.enc == b.enc && (a.bits == b.bits || a.enc == Enc::Int) && (a.lin || a.bits == b.bits) && a.c == b.c && a.terms == b.terms && a == &Data { bits: a.bits, ..b.clone() } }
fn push_field(out: &mut Vec<Field>, f: Field) {
    if f.w == 0 { return; }
    if let Some(l) = out.last_mut() {
        match (&mut l.src, &f.src) {
            (FSrc::C(a), FSrc::C(b)) if l.w + f.w <= 128 => { *a |= b << l.w; l.w += f.w; return; }
            (FSrc::Part(a, o), FSrc::Part(b, p)) if *o + l.w == *p && (Rc::ptr_eq(a, b) || same_number(a, b)) => { if b.bits > a.bits { *a = b.clone(); } l.w += f.w; return; }
            _ => {}
        }
    }
    out.push(f);
}
/// simplify one field: known zero high bits etc.
fn simp(f: Field) -> Vec<Field> {
    if let FSrc::Part(d, o) = &f.src {
        if d.enc == Enc::Int {
            if let Some(c) = d.is_const() { let b = (c as i128 as u128 >> *o) & mask(f.w); return vec![Field { w: f.w, src: FSrc::C(b) }]; }
            // non-negative and bounded: high bits are zero
            if d.lo >= 0.0 && d.hi.is_finite() {
                let nb = { let mut n = 0u32; while p2(n) <= d.hi { n += 1; } n };
                if *o >= nb { return vec![Field { w: f.w, src: FSrc::C(0) }]; }
                if o + f.w > nb && *o + f.w > nb { let w1 = nb - o; return vec![Field { w: w1, src: f.src.clone() }, Field { w: f.w - w1, src: FSrc::C(0) }]; }
            }
            if d.tz > *o && d.tz < 64 {
                let z = (d.tz - o).min(f.w);
                if z == f.w { return vec![Field { w: f.w, src: FSrc::C(0) }]; }
                return vec![Field { w: z, src: FSrc::C(0) }, Field { w: f.w - z, src: FSrc::Part(d.clone(), o + z) }];
            }
        }
    }
    vec![f]
}
pub fn slice_fields(fs: &[Field], off: u32, w: u32) -> Vec<Field> {
    let mut out = vec![];
    let mut p = 0;
    for f in fs {
        let (a, b) = (p.max(off), (p + f.w).min(off + w));
        if a < b {
            let src = match &f.src { FSrc::C(c) => FSrc::C((c >> (a - p)) & mask(b - a)), FSrc::Part(d, o) => FSrc::Part(d.clone(), o + (a - p)) };
            for x in simp(Field { w: b - a, src }) { push_field(&mut out, x); }
        }
        p += f.w;
    }
    out
}
pub fn cat(parts: Vec<Field>) -> Vec<Field> { let mut o = vec![]; for f in parts { push_field(&mut o, f); } o }

/// build the simplest V for a field list of total width bits
pub fn from_fields(fs: Vec<Field>, bits: u32) -> V {
    let fs = cat(fs);
    if fs.len() == 1 {
        match &fs[0].src {
            FSrc::C(c) => return V::C(*c),
            FSrc::Part(d, 0) if d.bits == bits => return V::D(d.clone()),
            FSrc::Part(d, 0) if d.enc == Enc::Int => { // truncation
                return V::D(Rc::new(Data { bits, ..(**d).clone() }));
            }
            // some bits from the middle: the shifted value modulo 2^bits
            FSrc::Part(d, o) if d.enc == Enc::Int && d.lin && d.clamp.is_none() && *o + bits < d.bits && bits > 8 => {
                return V::D(Rc::new(Data { bits, ..d_shr(d, *o) }));
            }
            _ => {}
        }
    }
    // low part + zeros: zero extension
    if fs.len() == 2 {
        if let (FSrc::Part(d, 0), FSrc::C(0)) = (&fs[0].src, &fs[1].src) {
            if d.enc == Enc::Int {
                if let Some(x) = repr(d, fs[0].w, false) { return V::D(Rc::new(Data { bits, ..x })); }
            }
        }
        // shifted left by zeros
        if let (FSrc::C(0), FSrc::Part(d, o)) = (&fs[0].src, &fs[1].src) {
            if d.enc == Enc::Int && *o == fs[0].w && d.tz >= *o && d.tz < 64 && d.bits == bits { return V::D(d.clone()); }
        }
    }
    // a pure part that equals a right shift
    if fs.len() <= 2 {
        if let FSrc::Part(d, o) = &fs[0].src {
            let restz = fs.len() == 1 || matches!(fs[1].src, FSrc::C(0));
            if restz && bits > 8 && d.enc == Enc::Int && *o > 0 && d.lo >= 0.0 && d.hi < p2(o + fs[0].w) && *o + fs[0].w <= d.bits.max(64) && fs.len() == 2 {
                let x = d_shr(d, *o);
                return V::D(Rc::new(Data { bits, ..x }));
            }
        }
    }
    V::Cat(Rc::new(fs))
}

/// the high byte of a number followed by its low byte
fn swapped_bytes(fs: &[Field]) -> Option<(&Rc<Data>, &[Field])> {
    let FSrc::Part(a, 8) = &fs.first()?.src else { return None };
    let (w, rest) = match (fs[0].w, fs.get(1)) {
        (8, _) => (8, &fs[1..]),
        (w, Some(Field { w: z, src: FSrc::C(0) })) => (w + z, &fs[2..]),
        _ => return None,
    };
    match rest.first()? {
        Field { w: 8, src: FSrc::Part(b, 0) } if w == 8 && (a == b || same_number(a, b)) => Some((a, &rest[1..])),
        _ => None,
    }
}

/// one byte each of two different numbers, both wider than a byte
fn mixed_bytes(fs: &[Field]) -> bool {
    let part = |i: usize| match fs.get(i) { Some(Field { w: 8, src: FSrc::Part(d, o) }) if o % 8 == 0 && d.enc == Enc::Int && d.lin && d.is_const().is_none() && d.hi > 256.0 => Some(d), _ => None };
    match (part(0), part(1)) { (Some(a), Some(b)) => a != b && !same_number(a, b) && fs[2..].iter().all(|f| f.src == FSrc::C(0)), _ => false }
}

/// interpret as integer data of `bits`, signed or unsigned window
pub fn as_data(v: &V, bits: u32, signed: bool) -> Data {
    match v {
        V::C(c) => c_to_data(*c & mask(bits), bits, signed, Enc::Int),
        V::D(d) => {
            if d.enc != Enc::Int { return Data::unknown(bits, Enc::Int, d.all_deps()); }
            match repr(d, bits, signed) {
                Some(mut x) => { x.bits = bits; x }
                None => {
                    let (wl, wh) = if signed { (-p2(bits - 1), p2(bits - 1) - 1.0) } else { (0.0, p2(bits) - 1.0) };
                    Data { ovf: if overflows(d, bits, signed) { 1 } else { d.ovf }, ..Data::nonlin(bits, Enc::Int, d.all_deps(), wl, wh) }
                }
            }
        }
        V::Cat(fs) => {
            // the bytes of a sample in the wrong order, used as a number
            if let Some((a, rest)) = swapped_bytes(fs) {
                if a.lin && a.is_const().is_none() && rest.iter().all(|f| f.src == FSrc::C(0)) {
                    let sg = signed && rest.is_empty();
                    return Data { ovf: 4, ..Data::nonlin(bits, Enc::Int, deps_of(v), if sg { -p2(bits - 1) } else { 0.0 }, if sg { p2(bits - 1) - 1.0 } else { p2(16) - 1.0 }) };
                }
            }
            if mixed_bytes(fs) { return Data { ovf: 5, ..Data::nonlin(bits, Enc::Int, deps_of(v), if signed { -p2(bits - 1) } else { 0.0 }, p2(16) - 1.0) }; }
            // sum of disjoint parts
            let mut acc: Option<Data> = None;
            let mut p = 0;
            let mut ok = true;
            let mut ovf = 0;
            for f in fs.iter() {
                if let FSrc::Part(d, _) = &f.src { ovf = ovf.max(d.ovf); }
                let part = match &f.src {
                    FSrc::C(0) => None,
                    FSrc::C(c) => Some(Data::konst(bits, *c as f64 * p2(p), Enc::Int)),
                    FSrc::Part(d, o) if d.enc == Enc::Int => {
                        let top_part = p + f.w == bits && signed;
                        match repr(d, o + f.w, top_part) {
                            Some(x) => Some(d_mulc(&d_shr(&Data { bits, ..x }, *o), p2(p))),
                            None => {
                                // low bits of something larger, unknown
                                let (l, h) = if top_part { (-p2(f.w - 1), p2(f.w - 1) - 1.0) } else { (0.0, p2(f.w) - 1.0) };
                                Some(d_mulc(&Data::nonlin(bits, Enc::Int, d.all_deps(), l, h), p2(p)))
                            }
                        }
                    }
                    _ => { ok = false; None }
                };
                if let Some(x) = part { acc = Some(match acc { None => x, Some(a) => { let tz = a.tz.min(x.tz); let mut s = d_add(&a, &x, 1.0); s.tz = tz; s } }); }
                p += f.w;
            }
            if !ok { return Data::nonlin(bits, Enc::Int, deps_of(v), if signed { -p2(bits - 1) } else { 0.0 }, p2(bits) - 1.0); }
            let a = acc.unwrap_or_else(|| Data::konst(bits, 0.0, Enc::Int));
            if ovf > 0 { return Data { ovf, ..Data::nonlin(bits, Enc::Int, deps_of(v), a.lo, a.hi) }; }
            Data { bits, ..a }
        }
        _ => Data::nonlin(bits, Enc::Int, deps_of(v), if signed { -p2(bits - 1) } else { 0.0 }, if signed { p2(bits - 1) - 1.0 } else { p2(bits) - 1.0 }),
    }
}
/// modular view: keep the representative whatever its range
pub fn as_mod(v: &V, bits: u32) -> Data {
    match v {
        V::C(c) => { let s = sext(*c & mask(bits), bits); Data::konst(bits, s as f64, Enc::Int) }
        V::D(d) if d.enc == Enc::Int => Data { bits, ..(**d).clone() },
        _ => as_data(v, bits, false),
    }
}
pub fn as_float(v: &V, enc: Enc) -> Data {
    let bits = match enc { Enc::F16 => 16, Enc::F32 => 32, _ => 64 };
    match v {
        V::C(c) => c_to_data(*c, bits, false, enc),
        V::D(d) if d.enc == enc => (**d).clone(),
        V::D(d) => Data::unknown(bits, enc, d.all_deps()),
        _ => Data::unknown(bits, enc, deps_of(v)),
    }
}
pub fn cond_poly(c: &CondV, facts: &[Poly]) -> Option<bool> {
    match c {
        CondV::Ge(p) => poly::decide(p, facts),
        CondV::Eq(p) => {
            if let Some(k) = p.konst() { return Some(k == 0); }
            if poly::nonneg(&p.addc(-1), facts) || poly::nonneg(&p.neg().addc(-1), facts) { return Some(false); }
            if poly::nonneg(p, facts) && poly::nonneg(&p.neg(), facts) { return Some(true); }
            None
        }
        CondV::Not(c) => cond_poly(c, facts).map(|x| !x),
        CondV::And(a, b) => match (cond_poly(a, facts), cond_poly(b, facts)) { (Some(false), _) | (_, Some(false)) => Some(false), (Some(true), Some(true)) => Some(true), _ => None },
        CondV::Data(op, a, b) => data_cmp(*op, a, b),
        CondV::Unknown(_) => None,
    }
}
fn data_cmp(op: BinOp, a: &V, b: &V) -> Option<bool> {
    let r = |v: &V| -> Option<(f64, f64)> { match v { V::D(d) => Some((d.lo, d.hi)), _ => None } };
    let (al, ah) = r(a)?; let (bl, bh) = r(b)?;
    match op {
        BinOp::Lt => if ah < bl { Some(true) } else if al >= bh { Some(false) } else { None },
        BinOp::Le => if ah <= bl { Some(true) } else if al > bh { Some(false) } else { None },
        BinOp::Gt => if al > bh { Some(true) } else if ah <= bl { Some(false) } else { None },
        BinOp::Ge => if al >= bh { Some(true) } else if ah < bl { Some(false) } else { None },
        BinOp::Eq => if ah < bl || al > bh { Some(false) } else { None },
        BinOp::Ne => if ah < bl || al > bh { Some(true) } else { None },
        _ => None,
    }
}

thread_local! { static TABLES: std::cell::RefCell<Vec<Vec<f64>>> = const { std::cell::RefCell::new(vec![]) }; }
/// channels from here on are tabulated functions of the sample
pub const TABLE_CH: u8 = 200;
/// t[d]: a new kind of sample when d is a sample; where d averages such samples, the value on flat areas
pub fn tabulated(d: &Data, t: Vec<f64>, bits: u32) -> Option<Data> {
    let (a, b) = (t[d.lo as usize..].iter().cloned().fold(f64::MAX, f64::min), t[d.lo as usize..].iter().cloned().fold(f64::MIN, f64::max));
    if d.exact() && d.c == 0.0 && d.terms.len() == 1 && d.terms[0].1 == 1.0 && src(d.terms[0].0).ch == 0 {
        let s = src(d.terms[0].0);
        let i = TABLES.with(|x| { let mut x = x.borrow_mut(); match x.iter().position(|y| *y == t) { Some(i) => i, None => { x.push(t); x.len() - 1 } } });
        if i > 50 { return None; }
        return Some(Data::of_src(src_id(Src { ch: TABLE_CH + i as u8, ..s }, a, b, bits), bits, Enc::Int));
    }
    let chs: Vec<u8> = d.terms.iter().map(|x| src(x.0).ch).collect();
    let sum: f64 = d.terms.iter().map(|x| x.1).sum();
    if d.lin && d.clamp.is_none() && !chs.is_empty() && chs[0] >= TABLE_CH && chs.iter().all(|c| *c == chs[0]) && (sum - 1.0).abs() < 1e-6 && d.terms.iter().all(|x| x.1 >= 0.0) {
        let f = TABLES.with(|x| x.borrow()[(chs[0] - TABLE_CH) as usize].clone());
        let (mut lo, mut hi) = (f64::MAX, f64::MIN);
        for (v, x) in f.iter().enumerate() {
            let (p, q) = ((x + d.c + d.elo - 1e-9).ceil().max(0.0), (x + d.c + d.ehi + 1e-9).floor());
            let mut i = p as usize;
            while i as f64 <= q { let y = t.get(i)? - v as f64; lo = lo.min(y); hi = hi.max(y); i += 1; }
        }
        let terms = d.terms.iter().map(|x| { let s = src(x.0); let r = src_id(Src { ch: 0, ..s }, 0.0, f.len() as f64 - 1.0, 8); (r, x.1) }).collect();
        return Some(Data { bits, enc: Enc::Int, lin: true, terms, c: 0.0, elo: lo, ehi: hi, clamp: None, lo: a, hi: b, deps: vec![], tz: 0, ovf: 0 });
    }
    None
}
