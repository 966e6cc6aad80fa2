//! Polynomials over size symbols (width/height/stride parameters and loop counters) with a small, sound
//! entailment procedure (`nonneg`) based on interval substitution. All symbols range over non-negative integers.
use std::cell::RefCell;
use std::fmt;

/// up to four symbols packed, each slot = id+1 (16 bit), sorted descending, 0 = empty
pub type Mono = u64;

#[derive(Clone, PartialEq, Eq, Hash, Default, PartialOrd, Ord)]
pub struct Poly { pub c: i64, pub t: Vec<(Mono, i64)> }

#[derive(Clone, Debug)]
pub struct SymInfo {
    pub name: String,
    /// lower bound (inclusive); None = 0
    pub lower: Option<Poly>,
    /// shifted twin: sym = lower + twin
    pub twin: Option<u16>,
    /// upper bound (exclusive) for counters
    pub upper: Option<Poly>,
    pub comp: Option<u16>,
    /// constraints that define the symbol (always true)
    pub facts: Vec<Poly>,
    /// sym = floor(num / den)
    pub def: Option<(Poly, i64)>,
    pub max: Option<(Poly, Poly)>,
}

thread_local! { static MINS: RefCell<std::collections::HashMap<Poly, u16>> = RefCell::new(Default::default()); }
thread_local! { static SYMS: RefCell<Vec<SymInfo>> = RefCell::new(vec![]); }

pub fn reset_syms() { SYMS.with(|s| s.borrow_mut().clear()); FLOORS.with(|s| s.borrow_mut().clear()); MINS.with(|s| s.borrow_mut().clear()) }
pub fn sym_count() -> usize { SYMS.with(|s| s.borrow().len()) }
pub fn new_sym(name: &str) -> u16 {
    SYMS.with(|s| { let mut s = s.borrow_mut(); s.push(SymInfo { name: name.into(), lower: None, twin: None, upper: None, comp: None, facts: vec![], def: None, max: None }); (s.len() - 1) as u16 })
}
pub fn set_lower(id: u16, p: Poly) { let t = new_sym(&format!("{}'", name(id))); SYMS.with(|s| { let mut s = s.borrow_mut(); s[id as usize].lower = Some(p); s[id as usize].twin = Some(t); }) }
/// the symbol is equal to p (used only for decisions, the symbol stays visible in expressions)
pub fn set_equal(id: u16, p: Poly) { SYMS.with(|s| { let mut s = s.borrow_mut(); s[id as usize].lower = Some(p); s[id as usize].twin = None; }) }
/// min(a, b)
pub fn min_sym(a: &Poly, b: &Poly) -> Poly {
    let d = a.sub(b);
    if nonneg(&d, &[]) { return b.clone(); }
    let e = d.neg();
    if nonneg(&e, &[]) { return a.clone(); }
    // min(a, b) = b + min(a - b, 0); one canonical direction per pair; the symbol stands for -min(d, 0) >= 0
    let (base, d) = if d.t.first().map(|x| x.1).unwrap_or(0) > 0 { (b, d) } else { (a, e) };
    if let Some(s) = MINS.with(|m| m.borrow().get(&d).copied()) { return base.sub(&Poly::sym(s)); }
    // s = max(-d, 0)
    let s = new_sym(&format!("max(0,{:?})", d.neg()));
    add_fact(s, Poly::sym(s)); add_fact(s, Poly::sym(s).add(&d));
    SYMS.with(|t| t.borrow_mut()[s as usize].max = Some((d.neg(), Poly::k(0))));
    MINS.with(|m| m.borrow_mut().insert(d, s));
    base.sub(&Poly::sym(s))
}
/// if p is `rest - max(0, e)` for some max symbol: the two alternatives of the minimum
pub fn min_parts(p: &Poly) -> Option<(Poly, Poly)> {
    for s in p.syms() { if let Some((e, z)) = &info(s).max { if let Some((a, b)) = p.linear_in(s) { if let Some(k) = a.konst() { return Some((b.add(&e.scale(k)), b.add(&z.scale(k)))); } } } }
    None
}
pub fn set_upper(id: u16, p: Poly) {
    let has = SYMS.with(|s| s.borrow()[id as usize].comp);
    let t = match has { Some(t) => t, None => new_sym(&format!("{}~", name(id))) };
    SYMS.with(|s| { let mut s = s.borrow_mut(); s[id as usize].upper = Some(p); s[id as usize].comp = Some(t); })
}
pub fn add_fact(id: u16, p: Poly) { SYMS.with(|s| s.borrow_mut()[id as usize].facts.push(p)) }
pub fn name(id: u16) -> String { SYMS.with(|s| s.borrow()[id as usize].name.clone()) }
pub fn info(id: u16) -> SymInfo { SYMS.with(|s| s.borrow()[id as usize].clone()) }

pub fn mono_syms(m: Mono) -> impl Iterator<Item = u16> { (0..4).map(move |i| ((m >> (48 - 16 * i)) & 0xffff) as u16).filter(|x| *x != 0).map(|x| x - 1) }
fn mono_mul(a: Mono, b: Mono) -> Option<Mono> {
    let mut v: Vec<u16> = mono_syms(a).chain(mono_syms(b)).collect();
    if v.len() > 4 { return None; }
    v.sort_by(|x, y| y.cmp(x));
    let mut m = 0u64;
    for i in 0..4 { m = (m << 16) | v.get(i).map(|x| *x as u64 + 1).unwrap_or(0); }
    Some(m)
}
fn mono_of(s: u16) -> Mono { (s as u64 + 1) << 48 }

impl Poly {
    pub fn k(c: i64) -> Poly { Poly { c, t: vec![] } }
    pub fn sym(s: u16) -> Poly { Poly { c: 0, t: vec![(mono_of(s), 1)] } }
    pub fn konst(&self) -> Option<i64> { if self.t.is_empty() { Some(self.c) } else { None } }
    pub fn is_const(&self) -> bool { self.t.is_empty() }
    pub fn add(&self, o: &Poly) -> Poly {
        if o.t.is_empty() { let mut r = self.clone(); r.c = r.c.wrapping_add(o.c); return r; }
        if self.t.is_empty() { let mut r = o.clone(); r.c = r.c.wrapping_add(self.c); return r; }
        let mut t = Vec::with_capacity(self.t.len() + o.t.len());
        let (mut i, mut j) = (0, 0);
        while i < self.t.len() || j < o.t.len() {
            if j >= o.t.len() || (i < self.t.len() && self.t[i].0 < o.t[j].0) { t.push(self.t[i]); i += 1; }
            else if i >= self.t.len() || o.t[j].0 < self.t[i].0 { t.push(o.t[j]); j += 1; }
            else { let c = self.t[i].1.wrapping_add(o.t[j].1); if c != 0 { t.push((self.t[i].0, c)); } i += 1; j += 1; }
        }
        Poly { c: self.c.wrapping_add(o.c), t }
    }
    pub fn scale(&self, k: i64) -> Poly {
        if k == 0 { return Poly::k(0); }
        Poly { c: self.c.wrapping_mul(k), t: self.t.iter().map(|x| (x.0, x.1.wrapping_mul(k))).collect() }
    }
    pub fn neg(&self) -> Poly { self.scale(-1) }
    pub fn sub(&self, o: &Poly) -> Poly { self.add(&o.neg()) }
    pub fn addc(&self, c: i64) -> Poly { let mut r = self.clone(); r.c = r.c.wrapping_add(c); r }
    pub fn mul(&self, o: &Poly) -> Option<Poly> {
        if let Some(k) = o.konst() { return Some(self.scale(k)); }
        if let Some(k) = self.konst() { return Some(o.scale(k)); }
        let mut r = self.scale(o.c);
        for &(m, c) in &o.t {
            let mut part = Poly::k(0);
            if self.c != 0 { part = part.add(&Poly { c: 0, t: vec![(m, self.c.wrapping_mul(c))] }); }
            for &(m2, c2) in &self.t {
                part = part.add(&Poly { c: 0, t: vec![(mono_mul(m, m2)?, c.wrapping_mul(c2))] });
            }
            r = r.add(&part);
        }
        Some(r)
    }
    pub fn contains(&self, s: u16) -> bool { self.t.iter().any(|(m, _)| mono_syms(*m).any(|x| x == s)) }
    pub fn syms(&self) -> Vec<u16> { let mut v: Vec<u16> = self.t.iter().flat_map(|(m, _)| mono_syms(*m)).collect(); v.sort(); v.dedup(); v }
    pub fn subst(&self, s: u16, p: &Poly) -> Option<Poly> {
        if !self.contains(s) { return Some(self.clone()); }
        let mut r = Poly::k(self.c);
        for &(m, c) in &self.t {
            let mut term = Poly::k(c);
            for x in mono_syms(m) { term = if x == s { term.mul(p)? } else { term.mul(&Poly::sym(x))? }; }
            r = r.add(&term);
        }
        Some(r)
    }
    /// self = a*s + b with a, b free of s
    pub fn linear_in(&self, s: u16) -> Option<(Poly, Poly)> {
        let mut a = Poly::k(0);
        let mut b = Poly::k(self.c);
        for &(m, c) in &self.t {
            let v: Vec<u16> = mono_syms(m).collect();
            let n = v.iter().filter(|x| **x == s).count();
            match n {
                0 => b = b.add(&Poly { c: 0, t: vec![(m, c)] }),
                1 => { let mut t = Poly::k(c); for x in v { if x != s { t = t.mul(&Poly::sym(x))?; } } a = a.add(&t); }
                _ => return None,
            }
        }
        Some((a, b))
    }
    /// exact division by a constant
    pub fn div_exact(&self, k: i64) -> Option<Poly> {
        if k == 0 || self.c % k != 0 || self.t.iter().any(|x| x.1 % k != 0) { return None; }
        Some(Poly { c: self.c / k, t: self.t.iter().map(|x| (x.0, x.1 / k)).collect() })
    }
    /// floor division by positive constant: exact on the symbolic part
    pub fn div_floor(&self, k: i64) -> Option<(Poly, i64)> {
        if k <= 0 || self.t.iter().any(|x| x.1 % k != 0) { return None; }
        Some((Poly { c: self.c.div_euclid(k), t: self.t.iter().map(|x| (x.0, x.1 / k)).collect() }, self.c.rem_euclid(k)))
    }
    /// exact polynomial division self = q * d with remainder having no term divisible by d's single monomial
    pub fn div_mono(&self, d: &Poly) -> Option<(Poly, Poly)> {
        if d.c != 0 || d.t.len() != 1 { return None; }
        let (dm, dc) = d.t[0];
        let ds: Vec<u16> = mono_syms(dm).collect();
        let mut q = Poly::k(0);
        let mut r = Poly::k(self.c);
        for &(m, c) in &self.t {
            let mut v: Vec<u16> = mono_syms(m).collect();
            let mut ok = true;
            for s in &ds { if let Some(i) = v.iter().position(|x| x == s) { v.remove(i); } else { ok = false; } }
            if ok {
                let qc = c.div_euclid(dc);
                let rc = c.rem_euclid(dc);
                let mut t = Poly::k(1);
                for s in &v { t = t.mul(&Poly::sym(*s))?; }
                q = q.add(&t.scale(qc));
                if rc != 0 { r = r.add(&Poly { c: 0, t: vec![(m, rc)] }); }
            } else { r = r.add(&Poly { c: 0, t: vec![(m, c)] }); }
        }
        Some((q, r))
    }
    pub fn eval(&self, f: &dyn Fn(u16) -> i64) -> i64 {
        let mut r = self.c;
        for &(m, c) in &self.t { let mut x = c; for s in mono_syms(m) { x = x.wrapping_mul(f(s)); } r = r.wrapping_add(x); }
        r
    }
}

fn shift(p: &Poly) -> Option<Poly> {
    let mut p = p.clone();
    for _ in 0..4 {
        let mut ch = false;
        for s in p.syms() {
            let i = info(s);
            match (&i.lower, i.twin) { (Some(l), Some(t)) => { p = p.subst(s, &l.add(&Poly::sym(t)))?; ch = true; } (Some(l), None) => { p = p.subst(s, l)?; ch = true; } _ => {} }
        }
        if !ch { break; }
    }
    Some(p)
}

fn nn(p: &Poly, depth: u32, facts: &[Poly]) -> bool {
    if p.c >= 0 && p.t.iter().all(|x| x.1 >= 0) { return true; }
    if depth == 0 { return false; }
    // no negative monomials, negative constant: only facts can help
    let mut cand: Vec<u16> = p.t.iter().filter(|x| x.1 < 0).flat_map(|(m, _)| mono_syms(*m).collect::<Vec<_>>()).collect();
    cand.sort(); cand.dedup(); cand.reverse();
    // bounded counter with a negative coefficient: upper-1-comp (most recent first)
    for &s in &cand {
        let i = info(s);
        if let (Some(u), Some(cmp)) = (&i.upper, i.comp) {
            if let Some(q) = p.subst(s, &u.addc(-1).sub(&Poly::sym(cmp))) {
                if let Some(q) = shift(&q) { return nn(&q, depth - 1, facts); }
            }
        }
    }
    for s in p.syms() {
        let i = info(s);
        if let Some((x, y)) = &i.max {
            let Some((a, b)) = p.linear_in(s) else { continue };
            let Some(k) = a.konst() else { continue };
            let (Some(p1), Some(p2)) = (shift(&x.scale(k).add(&b)), shift(&y.scale(k).add(&b))) else { continue };
            let r = if k < 0 { nn(&p1, depth - 1, facts) && nn(&p2, depth - 1, facts) } else { nn(&p1, depth - 1, facts) || nn(&p2, depth - 1, facts) };
            if r { return true; }
        }
        if let Some((num, den)) = &i.def {
            let Some((a, b)) = p.linear_in(s) else { continue };
            let Some(k) = a.konst() else { continue };
            let den = *den;
            // exact integer form when the rest is divisible
            let m = k.abs();
            let mut tries: Vec<Poly> = vec![];
            if k < 0 {
                if let Some((bq, _)) = b.div_floor(m) { tries.push(bq.scale(den).addc(den - 1).sub(num)); } else { tries.push(b.scale(den).sub(&num.scale(m))); }
            } else {
                // m*s + b >= 0 ; with b = m*b' - r
                if let Some((bq, _)) = b.div_floor(m) { tries.push(num.add(&bq.scale(den))); } else { tries.push(b.scale(den).add(&num.addc(1 - den).scale(m))); }
            }
            for t in tries { if t.contains(s) { continue; } if let Some(t) = shift(&t) { if nn(&t, depth - 1, facts) { return true; } } }
        }
    }
    // linear combination with one of the facts, cancelling a negative monomial (or the constant)
    for (ix, f) in facts.iter().enumerate() {
        if f.t.is_empty() { continue; }
        let mut combos: Vec<(i64, i64)> = vec![];
        for &(m, c) in p.t.iter().filter(|x| x.1 < 0) {
            if let Some(&(_, d)) = f.t.iter().find(|x| x.0 == m) { if d < 0 { let g = gcd(c, d); let k = (-d / g, -c / g); if !combos.contains(&k) { combos.push(k); } } }
        }
        if p.c < 0 && f.c < 0 && combos.is_empty() && p.t.iter().all(|x| x.1 >= 0) { combos.push((1, 1)); }
        if combos.is_empty() { continue; }
        let rest: Vec<Poly> = facts.iter().enumerate().filter(|x| x.0 != ix).map(|x| x.1.clone()).collect();
        for (kp, kf) in combos {
            if kp > 4096 || kf > 4096 { continue; }
            let q = p.scale(kp).sub(&f.scale(kf));
            if nn(&q, depth.min(3) - 1, &rest) { return true; }
        }
    }
    false
}

/// p >= 0 over the integers, divided by the gcd of the symbolic coefficients
fn norm(p: Poly) -> Poly {
    let mut g = 0;
    for x in &p.t { g = gcd(g, x.1); if g == 1 { return p; } }
    if g <= 1 { return p; }
    Poly { c: p.c.div_euclid(g), t: p.t.iter().map(|x| (x.0, x.1 / g)).collect() }
}

/// definitional facts of all symbols reachable from p and the path facts
fn relevant(q: &Poly, facts: &[Poly]) -> Vec<Poly> {
    let mut sf: Vec<Poly> = facts.iter().filter_map(shift).map(norm).filter(|f| !f.t.is_empty()).collect();
    let mut seen: Vec<u16> = vec![];
    let mut todo: Vec<u16> = q.syms();
    while let Some(s) = todo.pop() {
        if seen.contains(&s) { continue; }
        seen.push(s);
        let i = info(s);
        if let Some(u) = &i.upper { if let Some(u) = shift(u) { todo.extend(u.syms()); } }
        if let Some((n, _)) = &i.def { if let Some(n) = shift(n) { todo.extend(n.syms()); } continue; }
        if let Some((a, b)) = &i.max { for x in [a, b] { if let Some(x) = shift(x) { todo.extend(x.syms()); } } continue; }
        for f in &i.facts { if let Some(f) = shift(f).map(norm) { todo.extend(f.syms()); if !sf.contains(&f) { sf.push(f); } } }
    }
    sf.retain(|f| f.syms().iter().any(|s| seen.contains(s)));
    sf
}

/// p >= 0 for every admissible valuation?
pub fn nonneg(p: &Poly, facts: &[Poly]) -> bool {
    if let Some(c) = p.konst() { return c >= 0; }
    let Some(q) = shift(p).map(norm) else { return false };
    if q.c >= 0 && q.t.iter().all(|x| x.1 >= 0) { return true; }
    let sf = relevant(&q, facts);
    nn(&q, 7, &sf)
}
/// decide p >= 0
pub fn decide(p: &Poly, facts: &[Poly]) -> Option<bool> {
    if let Some(c) = p.konst() { return Some(c >= 0); }
    if nonneg(p, facts) { return Some(true); }
    if nonneg(&p.neg().addc(-1), facts) { return Some(false); }
    None
}
thread_local! { static FLOORS: RefCell<std::collections::HashMap<(Poly, i64), u16>> = RefCell::new(Default::default()); }
pub fn gcd(a: i64, b: i64) -> i64 { if b == 0 { a.abs() } else { gcd(b, a % b) } }
/// floor(num/den) for den > 0 and num >= 0; introduces a defined symbol when the division is not exact
/// floor(len / n) where n is a multiple of a symbol that is known to be equal to a polynomial
pub fn div_equal(len: &Poly, n: &Poly, facts: &[Poly]) -> Option<Poly> {
    if n.c != 0 || n.t.len() != 1 { return None; }
    let q: Vec<u16> = n.syms();
    if q.len() != 1 { return None; }
    let i = info(q[0]);
    if i.twin.is_some() { return None; }
    let n = i.lower.as_ref()?.scale(n.t[0].1);
    for s in n.syms() {
        let (a, _) = n.linear_in(s)?;
        let (Some(a), Some((l, _))) = (a.konst(), len.linear_in(s)) else { continue };
        if a <= 0 { continue; }
        let q = Poly { c: l.c.div_euclid(a), t: l.t.iter().map(|x| (x.0, x.1.div_euclid(a))).filter(|x| x.1 != 0).collect() };
        let r = len.sub(&q.mul(&n)?);
        if nonneg(&r, facts) && nonneg(&n.sub(&r).addc(-1), facts) { return Some(q); }
    }
    None
}
pub fn floor_div(num: &Poly, den: i64, facts: &[Poly]) -> Option<Poly> {
    if den <= 0 { return None; }
    if let Some((q, _)) = num.div_floor(den) { return Some(q); }
    // pull out the part divisible by den, then reduce by the gcd
    let mut whole = Poly::k(0);
    let mut rest = Poly::k(0);
    for &(m, c) in &num.t {
        let (q, r) = (c.div_euclid(den), c.rem_euclid(den));
        if q != 0 { whole = whole.add(&Poly { c: 0, t: vec![(m, q)] }); }
        if r != 0 { rest = rest.add(&Poly { c: 0, t: vec![(m, r)] }); }
    }
    let (q, r) = (num.c.div_euclid(den), num.c.rem_euclid(den));
    let _ = facts;
    let (whole, rest) = (whole.addc(q), rest.addc(r));
    let mut g = den;
    for x in &rest.t { g = gcd(g, x.1); }
    let (rest, den) = if g > 1 { (Poly { c: rest.c.div_euclid(g), t: rest.t.iter().map(|x| (x.0, x.1 / g)).collect() }, den / g) } else { (rest, den) };
    if den == 1 { return Some(whole.add(&rest)); }
    let key = (rest.clone(), den);
    let s = match FLOORS.with(|f| f.borrow().get(&key).copied()) {
        Some(s) => s,
        None => {
            let s = new_sym(&format!("({rest:?}/{den})"));
            let v = Poly::sym(s).scale(den);
            add_fact(s, rest.sub(&v));
            add_fact(s, v.addc(den - 1).sub(&rest));
            SYMS.with(|t| t.borrow_mut()[s as usize].def = Some((rest.clone(), den)));
            FLOORS.with(|f| f.borrow_mut().insert(key, s));
            s
        }
    };
    Some(whole.add(&Poly::sym(s)))
}

fn value(s: u16, m: &mut std::collections::HashMap<u16, i64>, top: &std::collections::HashMap<u16, bool>) -> Option<i64> {
    if let Some(v) = m.get(&s) { return Some(*v); }
    let i = info(s);
    let mut ev = |p: &Poly, m: &mut std::collections::HashMap<u16, i64>| -> Option<i64> { for x in p.syms() { value(x, m, top)?; } Some(p.eval(&|x| m[&x])) };
    let v = if let Some((n, d)) = &i.def { let n = ev(&shift(n)?, m)?; n.div_euclid(*d) }
        else if let Some((a, b)) = &i.max { ev(&shift(a)?, m)?.max(ev(&shift(b)?, m)?) }
        else if let Some(u) = &i.upper { let u = ev(&shift(u)?, m)?; if u <= 0 { return None; } if *top.get(&s).unwrap_or(&false) { u - 1 } else { 0 } }
        else { 0 };
    if v < 0 { return None; }
    m.insert(s, v);
    Some(v)
}

/// look for an admissible valuation with p < 0 (constructive witness: extremes of counters, small values of others)
pub fn witness_neg(p: &Poly, facts: &[Poly]) -> Option<Vec<(String, i64)>> {
    let p = shift(p)?;
    let facts: Vec<Poly> = relevant(&p, facts);
    let mut all: Vec<u16> = p.syms();
    for f in &facts { all.extend(f.syms()); }
    let mut i = 0;
    all.sort(); all.dedup();
    while i < all.len() {
        let inf = info(all[i]);
        let mut add = |q: &Poly| { if let Some(q) = shift(q) { for s in q.syms() { if !all.contains(&s) { all.push(s); } } } };
        if let Some(u) = &inf.upper { add(u); }
        if let Some((n, _)) = &inf.def { add(n); }
        if let Some((a, b)) = &inf.max { add(a); add(b); }
        i += 1;
    }
    all.sort();
    let plain: Vec<u16> = all.iter().copied().filter(|s| { let i = info(*s); i.upper.is_none() && i.def.is_none() && i.max.is_none() && !name(*s).ends_with('~') }).collect();
    let cnt: Vec<u16> = all.iter().copied().filter(|s| info(*s).upper.is_some()).collect();
    let vals = [0i64, 1, 2, 5, 15, 16, 37, 64];
    let nv: usize = if plain.len() <= 3 { 8 } else { 4 };
    let vals: &[i64] = if nv == 8 { &vals } else { &[0, 1, 15, 37] };
    let np = plain.len().min(6);
    let nc = cnt.len().min(4);
    let total = nv.pow(np as u32) << nc;
    for code in 0..total {
        let mut c = code;
        let mut m: std::collections::HashMap<u16, i64> = Default::default();
        for (j, s) in plain.iter().enumerate() { if j < np { m.insert(*s, vals[c % nv]); c /= nv; } else { m.insert(*s, 0); } }
        let mut topm: std::collections::HashMap<u16, bool> = Default::default();
        for (j, s) in cnt.iter().enumerate() { if j < nc { topm.insert(*s, c & 1 == 1); c >>= 1; } }
        if !all.iter().all(|s| name(*s).ends_with('~') || value(*s, &mut m, &topm).is_some()) { continue; }
        let ev = |q: &Poly| q.eval(&|x| *m.get(&x).unwrap_or(&0));
        if facts.iter().any(|f| ev(f) < 0) { continue; }
        if ev(&p) < 0 { return Some(m.iter().map(|(s, v)| (name(*s), *v)).collect()); }
    }
    None
}

impl fmt::Debug for Poly {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        let mut first = true;
        for (m, c) in self.t.iter().rev() {
            let n: Vec<String> = mono_syms(*m).map(name).collect();
            let s = n.join("*");
            if first { if *c == 1 { write!(f, "{s}")? } else if *c == -1 { write!(f, "-{s}")? } else { write!(f, "{c}{s}")? } }
            else if *c == 1 { write!(f, "+{s}")? } else if *c == -1 { write!(f, "-{s}")? } else if *c > 0 { write!(f, "+{c}{s}")? } else { write!(f, "{c}{s}")? }
            first = false;
        }
        if first { write!(f, "{}", self.c) } else if self.c > 0 { write!(f, "+{}", self.c) } else if self.c < 0 { write!(f, "{}", self.c) } else { Ok(()) }
    }
}

/// concrete sizes for evaluating summaries: `w`, `h` and the slack of every stride; counters are set by the caller
pub struct Env { m: std::collections::HashMap<u16, i64>, w: i64, h: i64, slack: i64 }
impl Env {
    pub fn new(w: i64, h: i64, slack: i64) -> Env { Env { m: Default::default(), w, h, slack } }
    pub fn set(&mut self, s: u16, v: i64) { self.m.insert(s, v); }
    pub fn unset(&mut self, s: u16) { self.m.remove(&s); }
    pub fn eval(&self, p: &Poly) -> Option<i64> {
        let mut r = p.c;
        for (m, c) in &p.t { let mut x = *c; for s in mono_syms(*m) { x = x.checked_mul(self.sym(s)?)?; } r = r.checked_add(x)?; }
        Some(r)
    }
    fn sym(&self, s: u16) -> Option<i64> {
        if let Some(v) = self.m.get(&s) { return Some(*v); }
        let i = info(s);
        if let Some((n, d)) = &i.def { return Some(self.eval(n)?.div_euclid(*d)); }
        if let Some((a, b)) = &i.max { return Some(self.eval(a)?.max(self.eval(b)?)); }
        if i.upper.is_some() { return None; }
        match i.name.as_str() { "w" => return Some(self.w), "h" => return Some(self.h), _ => {} }
        if let Some(l) = &i.lower { let l = self.eval(l)?; return Some(if i.twin.is_some() { l + self.slack } else { l }); }
        None
    }
}
