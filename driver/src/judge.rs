//! Compares the effect summary of one conversion with what its name promises.
use crate::entry::*;
use crate::interp::*;
use crate::poly::{self, Poly};
use crate::spec::*;
use crate::val::*;
use std::collections::BTreeMap;
use std::rc::Rc;

pub struct Rep { pub prop: &'static str, pub definite: bool, pub key: String, pub msg: String }

pub struct Judge<'a, 'b, 'tcx> {
    pub it: &'a Interp<'b, 'tcx>,
    pub st: &'a State,
    pub s: &'a Setup,
    pub spec: &'a Spec,
    pub cfg: &'a Cfg,
    pub reps: Vec<Rep>,
    /// property -> (obligations, discharged)
    pub ob: BTreeMap<&'static str, (u64, u64)>,
    pub dev: BTreeMap<String, f64>,
    /// notes on undecided obligations (first few)
    pub und: BTreeMap<String, u64>,
    /// collect coefficients and biases
    pub consts: bool,
    pub cf: std::collections::BTreeSet<String>,
    memo: std::cell::RefCell<std::collections::HashMap<(Poly, Vec<Poly>), Option<bool>>>,
}

#[derive(Clone, Debug)]
pub struct Exp {
    pub comp: char,
    pub class: &'static str,
    pub terms: Vec<(u16, Poly, u8, f64)>,
    pub c: f64,
    pub max: f64,
    /// only the set of sources is promised, not the weights
    pub siting_only: bool,
    /// bit exact copy promised
    pub exact: bool,
    pub tol: f64,
}

pub const KRKB: [(f64, f64); 7] = [(0.299, 0.114), (0.2126, 0.0722), (0.2627, 0.0593), (0.212, 0.087), (0.2220, 0.0713), (0.30, 0.11), (0.28, 0.09)];

fn fname(loc: &str) -> String {
    // innermost function, without the line
    let f = loc.split(" < ").next().unwrap_or("");
    f.split('@').next().unwrap_or(f).to_string()
}

impl<'a, 'b, 'tcx> Judge<'a, 'b, 'tcx> {
    pub fn new(it: &'a Interp<'b, 'tcx>, st: &'a State, s: &'a Setup, spec: &'a Spec, cfg: &'a Cfg) -> Self {
        Judge { it, st, s, spec, cfg, reps: vec![], ob: BTreeMap::new(), dev: BTreeMap::new(), und: BTreeMap::new(), consts: false, cf: Default::default(), memo: Default::default() }
    }
    fn count(&mut self, p: &'static str, ok: bool) { let e = self.ob.entry(p).or_default(); e.0 += 1; if ok { e.1 += 1; } }
    fn undec(&mut self, p: &'static str, why: &str) { self.count(p, false); let k = format!("{p} {why}"); *self.und.entry(k).or_default() += 1; }
    fn report(&mut self, prop: &'static str, definite: bool, key: String, msg: String) {
        self.count(prop, false);
        let definite = definite && self.st.unsure == 0;
        if self.reps.iter().any(|r| r.prop == prop && r.key == key && r.definite == definite) { return; }
        if self.reps.len() < 300 { self.reps.push(Rep { prop, definite, key, msg }); }
    }

    pub fn model(&self) -> Model {
        let m = |f: &Fmt| f.model;
        if m(&self.spec.src) != Model::None { m(&self.spec.src) } else { m(&self.spec.dst) }
    }
    fn is_yuv(f: &Fmt) -> bool { f.model != Model::None }

    /// where component `c` of pixel (x, y) lives in the source: plane, element offset, field
    fn src_at(&self, c: char, x: &Poly, y: &Poly, facts: &[Poly]) -> Option<(u16, Poly, u8)> {
        let f = &self.spec.src;
        for p in self.s.planes.iter().filter(|p| !p.out) {
            let s = Poly::sym(p.stride);
            let (hs, vs) = (f.sub != Sub::S444, f.sub == Sub::S420);
            let cx = || if hs { poly::floor_div(x, 2, facts) } else { Some(x.clone()) };
            let cy = || if vs { poly::floor_div(y, 2, facts) } else { Some(y.clone()) };
            let at = |row: &Poly, col: Poly| row.mul(&s).map(|r| r.add(&col));
            match p.role.as_str() {
                "y" => {
                    let want = if f.kind == Kind::Gbr { 'g' } else { 'y' };
                    if c == want { return Some((p.region, at(y, x.clone())?, 0)); }
                }
                "a" => if c == 'a' { return Some((p.region, at(y, x.clone())?, 0)); },
                "u" | "v" => {
                    let want = if f.kind == Kind::Gbr { if p.role == "u" { 'b' } else { 'r' } } else { p.role.chars().next().unwrap() };
                    if c == want {
                        if f.kind == Kind::Gbr { return Some((p.region, at(y, x.clone())?, 0)); }
                        return Some((p.region, at(&cy()?, cx()?)?, 0));
                    }
                }
                "uv" => if let Some(i) = f.order.find(c) { return Some((p.region, at(&cy()?, cx()?.scale(2).addc(i as i64))?, 0)); },
                "yuy" => {
                    if f.kind == Kind::Ayuv { let i = f.order.find(c)?; return Some((p.region, at(y, x.scale(4).addc(i as i64))?, 0)); }
                    let q = poly::floor_div(x, 2, facts)?;
                    if c == 'y' {
                        let m = x.sub(&q.scale(2)).konst()?;
                        let pos: Vec<usize> = f.order.char_indices().filter(|z| z.1 == 'y').map(|z| z.0).collect();
                        return Some((p.region, at(y, q.scale(4).addc(*pos.get(m as usize)? as i64))?, 0));
                    }
                    let i = f.order.find(c)?;
                    return Some((p.region, at(y, q.scale(4).addc(i as i64))?, 0));
                }
                "px" => {
                    if f.kind == Kind::Rgb30 { let i = f.rgb30_channels().iter().position(|z| z.0 == c)?; return Some((p.region, at(y, x.scale(4))?, i as u8)); }
                    let n = f.order.len() as i64;
                    if let Some(i) = f.order.find(c) { return Some((p.region, at(y, x.scale(n).addc(i as i64))?, 0)); }
                }
                _ => {}
            }
        }
        None
    }

    fn ranges(&self, f: &Fmt) -> (f64, f64, f64, f64) {
        // bias_y, range_y, bias_uv, range_uv
        let d = f.bits;
        if self.cfg.range == 0 { (16.0 * p2(d - 8), 219.0 * p2(d - 8), p2(d - 1), 224.0 * p2(d - 8)) } else { (0.0, p2(d) - 1.0, p2(d - 1), p2(d) - 1.0) }
    }
    fn maxv(f: &Fmt) -> f64 { if f.float { 1.0 } else { p2(f.bits) - 1.0 } }

    /// the sample promised for component c at (x, y) of the destination (chroma: at chroma coordinates)
    fn expect(&self, c: char, x: &Poly, y: &Poly, facts: &[Poly]) -> Option<Exp> {
        let (sf, df) = (&self.spec.src, &self.spec.dst);
        let m = self.model();
        let mut e = Exp { comp: c, class: "", terms: vec![], c: 0.0, max: Self::maxv(df), siting_only: false, exact: false, tol: 0.0 };
        let smax = Self::maxv(sf);
        let get = |c: char, x: &Poly, y: &Poly| self.src_at(c, x, y, facts);
        if c == 'a' {
            e.class = "alpha";
            e.max = if df.kind == Kind::Rgb30 { 3.0 } else { Self::maxv(df) };
            let (gx, gy) = if self.spec.geometry { self.geometry_src(x, y)? } else { (x.clone(), y.clone()) };
            if let (Some(a), true) = (self.s.alpha, sf.alpha) { e.c = a; e.exact = true; e.tol = 1.01; return Some(e); }
            match get('a', &gx, &gy) {
                Some((r, o, ch)) if sf.alpha => { let sm = if sf.kind == Kind::Rgb30 { 3.0 } else { smax }; let k = e.max / sm; e.terms.push((r, o, ch, k)); e.exact = k == 1.0; if df.kind == Kind::Rgb30 || sf.kind == Kind::Rgb30 { e.siting_only = true; } }
                _ => { e.c = e.max; e.exact = true; }
            }
            e.tol = e.max / (smax.min(e.max * 1e9).max(255.0)) * 1.01;
            return Some(e);
        }
        match (Self::is_yuv(sf), Self::is_yuv(df)) {
            (true, false) => {
                // decode
                e.class = "decode";
                let luma = |e: &mut Exp, k: f64| -> Option<()> { let (r, o, ch) = get('y', x, y)?; e.terms.push((r, o, ch, k)); Some(()) };
                let (by, ry, buv, ruv) = self.ranges(sf);
                match m {
                    Model::Identity => {
                        let (r, o, ch) = get(c, x, y)?;
                        let k = e.max / if self.cfg.range == 0 { ry } else { smax };
                        e.terms.push((r, o, ch, k)); e.c = -by * k;
                        e.exact = self.cfg.range == 1 && sf.bits == df.bits && !df.float;
                    }
                    Model::YCgCo => {
                        let k0 = e.max / ry; luma(&mut e, k0)?;
                        e.c = -by * e.max / ry;
                        let k = e.max / ruv;
                        // u = Cg, v = Co
                        let (cg, co) = match c { 'r' => (-1.0, 1.0), 'g' => (1.0, 0.0), _ => (-1.0, -1.0) };
                        for (n, q) in [('u', cg), ('v', co)] { if q != 0.0 { let (r, o, ch) = get(n, x, y)?; e.terms.push((r, o, ch, q * k)); e.c -= q * k * buv; } }
                    }
                    Model::Rdp => {
                        luma(&mut e, 1.0 / 32.0)?; e.c = 128.0;
                        let (cb, cr) = match c { 'r' => (0.0, 1.402525), 'g' => (-0.343730, -0.714401), _ => (1.769905, 0.0) };
                        for (n, q) in [('u', cb), ('v', cr)] { if q != 0.0 { let (r, o, ch) = get(n, x, y)?; e.terms.push((r, o, ch, q / 32.0)); } }
                    }
                    _ => {
                        let k = e.max / ry;
                        luma(&mut e, k)?; e.c = -by * k;
                        if sf.kind != Kind::Gray {
                            let (kr, kb) = KRKB[self.cfg.matrix];
                            let kg = 1.0 - kr - kb;
                            let k = e.max / ruv;
                            let (cb, cr) = match c { 'r' => (0.0, 2.0 * (1.0 - kr)), 'g' => (-2.0 * (1.0 - kb) * kb / kg, -2.0 * (1.0 - kr) * kr / kg), _ => (2.0 * (1.0 - kb), 0.0) };
                            for (n, q) in [('u', cb), ('v', cr)] { if q != 0.0 {
                                let (r, o, ch) = get(n, x, y)?;
                                let mut qk = q * k;
                                // the six-bit fast mode may limit a coefficient to 127/64: either value is accepted
                                let lim = 127.0 / 64.0;
                                if self.cfg.mode == 0 && df.bits == 8 && qk.abs() > lim && !self.consts { let half = (qk.abs() - lim) / 2.0; qk -= half * qk.signum(); e.tol += half * ruv / 2.0; }
                                e.terms.push((r, o, ch, qk)); e.c -= qk * buv;
                            } }
                        }
                    }
                }
            }
            (false, true) => {
                e.class = "encode";
                let (by, ry, buv, ruv) = self.ranges(df);
                if df.kind == Kind::Gbr {
                    let (r, o, ch) = get(c, x, y)?;
                    let k = if self.cfg.range == 0 { ry } else { e.max } / smax;
                    e.terms.push((r, o, ch, k)); e.c = by;
                    e.exact = self.cfg.range == 1 && sf.bits == df.bits && !df.float;
                } else if c == 'y' {
                    let (kr, kg, kb, k, b) = match m { Model::YCgCo => (0.25, 0.5, 0.25, ry / smax, by), Model::Rdp => (0.299, 0.587, 0.114, 32.0, -4096.0), _ => { let (r, b) = KRKB[self.cfg.matrix]; (r, 1.0 - r - b, b, ry / smax, by) } };
                    for (n, q) in [('r', kr), ('g', kg), ('b', kb)] { let (r, o, ch) = get(n, x, y)?; e.terms.push((r, o, ch, q * k)); }
                    e.c = b;
                } else {
                    e.class = "encode-chroma";
                    let one = Poly::k(1);
                    let (w1, h1) = (self.s.w.sub(&one), self.s.h.sub(&one));
                    let xs = if df.sub == Sub::S444 { vec![x.clone()] } else { vec![x.scale(2), poly::min_sym(&x.scale(2).addc(1), &w1)] };
                    let ys = if df.sub == Sub::S420 { vec![y.scale(2), poly::min_sym(&y.scale(2).addc(1), &h1)] } else { vec![y.clone()] };
                    let n = (xs.len() * ys.len()) as f64;
                    let (k, b) = if m == Model::Rdp { (32.0, 0.0) } else { (ruv / smax, buv) };
                    let q = match m {
                        Model::YCgCo => if c == 'u' { [-0.25, 0.5, -0.25] } else { [0.5, 0.0, -0.5] },
                        Model::Rdp => if c == 'u' { [-0.168935, -0.331665, 0.50059] } else { [0.499813, -0.418531, -0.081282] },
                        _ => { let (kr, kb) = KRKB[self.cfg.matrix]; let kg = 1.0 - kr - kb; if c == 'u' { [-0.5 * kr / (1.0 - kb), -0.5 * kg / (1.0 - kb), 0.5] } else { [0.5, -0.5 * kg / (1.0 - kr), -0.5 * kb / (1.0 - kr)] } }
                    };
                    for yy in &ys { for xx in &xs { for (ch, q) in ['r', 'g', 'b'].iter().zip(q) {
                        if q == 0.0 { continue; }
                        let (r, o, f) = get(*ch, xx, yy)?; e.terms.push((r, o, f, q * k / n));
                    } } }
                    e.c = b;
                }
            }
            (true, true) => {
                // packed <-> planar: same samples
                e.class = "repack";
                if c == 'y' { let (r, o, ch) = get('y', x, y)?; e.terms.push((r, o, ch, 1.0)); e.exact = true; return Some(e); }
                let one = Poly::k(1);
                let (w1, h1) = (self.s.w.sub(&one), self.s.h.sub(&one));
                let xs = if df.sub == Sub::S444 { vec![x.clone()] } else if sf.sub == Sub::S444 { vec![x.scale(2), poly::min_sym(&x.scale(2).addc(1), &w1)] } else { vec![x.scale(2)] };
                let ys = if df.sub == Sub::S420 { if sf.sub == Sub::S420 { vec![y.scale(2)] } else { vec![y.scale(2), poly::min_sym(&y.scale(2).addc(1), &h1)] } } else { vec![y.clone()] };
                let n = (xs.len() * ys.len()) as f64;
                for yy in &ys { for xx in &xs { let (r, o, f) = get(c, xx, yy)?; e.terms.push((r, o, f, 1.0 / n)); } }
                e.exact = n == 1.0;
                e.siting_only = n > 1.0;
            }
            (false, false) => {
                e.class = "copy";
                if self.spec.geometry {
                    // mirroring: horizontal or vertical is a runtime flag
                    e.exact = true;
                    let (xx, yy) = self.geometry_src(x, y)?;
                    let (r, o, ch) = get(c, &xx, &yy)?;
                    e.terms.push((r, o, ch, 1.0));
                } else {
                    let (r, o, ch) = get(c, x, y)?;
                    let k = e.max / smax;
                    e.terms.push((r, o, ch, k));
                    e.exact = k == 1.0 && !df.float;
                }
            }
        }
        if e.class == "decode" && self.premul() {
            match self.s.alpha {
                Some(a) => { let k = a / 255.0; for t in &mut e.terms { t.3 *= k; } e.c *= k; e.max = a; e.tol += 0.7; }
                None => if let Some((r, o, ch)) = get('a', x, y) { e.terms.push((r, o, ch, 1.0)); }
            }
        }
        Some(e)
    }
    fn geometry_src(&self, x: &Poly, y: &Poly) -> Option<(Poly, Poly)> {
        let one = Poly::k(1);
        let mode = self.s.consts.iter().find(|c| c.0.contains("::")).map(|c| c.0.clone()).unwrap_or_default();
        if mode.contains("Horizontal") { return Some((self.s.w.sub(&one).sub(x), y.clone())); }
        if mode.contains("Vertical") { return Some((x.clone(), self.s.h.sub(&one).sub(y))); }
        // the direction of a quarter turn is the one the library has always had: anticlockwise for Rotate90
        if mode.contains("Rotate90") { return Some((self.s.w.sub(&one).sub(y), x.clone())); }
        if mode.contains("Rotate180") { return Some((self.s.w.sub(&one).sub(x), self.s.h.sub(&one).sub(y))); }
        if mode.contains("Rotate270") { return Some((y.clone(), self.s.h.sub(&one).sub(x))); }
        None
    }

    /// the value as an integer/float sample of the destination format
    fn sample(&self, v: &V, esz: u64) -> Result<Data, &'static str> {
        let bits = (esz * 8) as u32;
        let df = &self.spec.dst;
        if matches!(v, V::Undef) { return Err("undef"); }
        if matches!(v, V::Top(_)) { return Err("top"); }
        if df.float {
            return match v { V::D(d) if d.enc == Enc::F16 => Ok((**d).clone()), V::C(c) => Ok(c_to_data(*c, 16, false, Enc::F16)), V::D(_) => Err("enc"), _ => Err("top") };
        }
        let v = if df.be && esz == 2 {
            let Some(fs) = fields(v, bits) else { return Err("top") };
            let mut p = slice_fields(&fs, 8, 8); p.extend(slice_fields(&fs, 0, 8));
            from_fields(p, bits)
        } else { v.clone() };
        match &v {
            V::C(c) => Ok(c_to_data(*c, bits, df.model == Model::Rdp, Enc::Int)),
            V::D(d) => if d.enc == Enc::Int { Ok((**d).clone()) } else if df.raw { Ok((**d).clone()) } else { Err("enc") },
            V::Cat(_) => Ok(as_data(&v, bits, df.model == Model::Rdp)),
            _ => Err("top"),
        }
    }

    /// is the poly equality a == b refutable / provable under the facts
    fn same(&self, a: &Poly, b: &Poly, facts: &[Poly]) -> Option<bool> {
        let d = a.sub(b);
        if let Some(k) = d.konst() { if k == 0 { return Some(true); } if facts.is_empty() { return Some(false); } }
        let key = (d.clone(), facts.to_vec());
        if let Some(r) = self.memo.borrow().get(&key) { return *r; }
        let r = self.same0(&d, facts);
        self.memo.borrow_mut().insert(key, r);
        r
    }
    fn same0(&self, d: &Poly, facts: &[Poly]) -> Option<bool> {
        let (n1, n2) = (poly::nonneg(&d, facts), poly::nonneg(&d.neg(), facts));
        if n1 && n2 { return Some(true); }
        if poly::witness_neg(&d, facts).is_some() || poly::witness_neg(&d.neg(), facts).is_some() { return Some(false); }
        None
    }

    pub fn run(&mut self) {
        self.layout();
        if self.cfg.bad.is_some() { return; }
        let t = std::time::Instant::now();
        for k in 0..self.st.effects.len() {
            // a run that takes this long has reported its defects many times over
            if t.elapsed().as_millis() > 6000 { let p = self.sit_prop(); self.undec(p, "time"); break; }
            self.values(k);
        }
    }

    /// row and column of an effect in its plane
    fn rc(&self, e: &Effect) -> Option<(usize, Poly, Poly)> {
        let pi = self.s.planes.iter().position(|p| p.region == e.region)?;
        let p = &self.s.planes[pi];
        let (a, b) = e.off.linear_in(p.stride)?;
        Some((pi, a, b))
    }

    fn values(&mut self, k: usize) {
        let st = self.st;
        let e = &st.effects[k];
        let Some((pi, row, col)) = self.rc(e) else { self.undec("C07", "effect offset"); return };
        let p = self.s.planes[pi].clone();
        let df = self.spec.dst.clone();
        let esz = self.it.regions[p.region as usize].esz;
        let group = if df.kind == Kind::Rgb30 { 4 } else { 1 };
        let mut i = 0;
        while i < e.vals.len() {
            let mut facts: Vec<Poly> = vec![];
            if let Some(c) = &e.count {
                // lanes the count can never reach are not stored
                if poly::nonneg(&c.neg().addc(i as i64 + group as i64 - 1), &[]) { break; }
                facts.push(c.addc(-(i as i64) - group as i64));
            }
            let c = col.addc(i as i64);
            if group == 4 {
                if i + 4 > e.vals.len() { break; }
                self.pixel30(e, &row, &c, i, &facts);
                i += 4; continue;
            }
            let step = i; i += 1;
            // component and coordinates
            let place = (|| -> Option<(char, Poly, Poly)> {
                Some(match p.role.as_str() {
                    "y" => (if df.kind == Kind::Gbr { 'g' } else { 'y' }, c.clone(), row.clone()),
                    "u" => (if df.kind == Kind::Gbr { 'b' } else { 'u' }, c.clone(), row.clone()),
                    "v" => (if df.kind == Kind::Gbr { 'r' } else { 'v' }, c.clone(), row.clone()),
                    "a" => ('a', c.clone(), row.clone()),
                    "uv" => { let (q, r) = c.div_floor(2)?; (df.order.chars().nth(r as usize)?, q, row.clone()) }
                    "yuy" => {
                        let (q, r) = c.div_floor(4)?;
                        let l = df.order.chars().nth(r as usize)?;
                        if l == 'y' { let n = df.order[..r as usize].matches('y').count() as i64; ('y', q.scale(2).addc(n), row.clone()) } else { (l, q, row.clone()) }
                    }
                    "px" => { let n = df.order.len() as i64; let (q, r) = c.div_floor(n)?; (df.order.chars().nth(r as usize)?, q, row.clone()) }
                    _ => return None,
                })
            })();
            let sit = self.sit_prop();
            let Some((comp, x, y)) = place else {
                match self.same_place(&p.role, &c, &row) {
                    Some(ex) => { let v = e.vals[step].clone(); self.value(&ex, &v, esz, &facts, e); }
                    None => self.undec(sit, "channel of a store"),
                }
                continue
            };
            // the second luma of the last pair of an odd width is outside the image
            if p.role == "yuy" && comp == 'y' && self.s.wp == 1 {
                let last = self.s.w.sub(&x).addc(-1);
                if poly::nonneg(&last.neg().addc(-1), &facts) { continue; }
                facts.push(last);
            }
            let Some(ex) = self.expect(comp, &x, &y, &facts) else { self.undec(sit, "no expectation"); continue };
            let v = e.vals[step].clone();
            self.value(&ex, &v, esz, &facts, e);
        }
    }

    /// a store whose channel depends on a loop index, between two images of the same layout: the sample at the same place
    fn same_place(&self, role: &str, col: &Poly, row: &Poly) -> Option<Exp> {
        let (sf, df) = (&self.spec.src, &self.spec.dst);
        if role != "px" || self.spec.geometry || Self::is_yuv(sf) || Self::is_yuv(df) || sf.order != df.order || sf.alpha != df.alpha || sf.kind == Kind::Rgb30 || df.kind == Kind::Rgb30 { return None; }
        let q = self.s.planes.iter().find(|q| !q.out && q.role == "px")?;
        let max = Self::maxv(df);
        let k = max / Self::maxv(sf);
        let off = row.mul(&Poly::sym(q.stride))?.add(col);
        Some(Exp { comp: 'x', class: "copy", terms: vec![(q.region, off, 0, k)], c: 0.0, max, siting_only: false, exact: k == 1.0 && !df.float, tol: 0.0 })
    }

    fn pixel30(&mut self, e: &Effect, row: &Poly, col: &Poly, i: usize, facts: &[Poly]) {
        let sit = self.sit_prop();
        let Some((x, 0)) = col.div_floor(4) else { self.undec(sit, "phase of a 30-bit pixel"); return };
        let mut fs = vec![];
        let net = self.s.consts.iter().any(|c| c.0.contains("Network"));
        for j in 0..4 {
            let j = if net { 3 - j } else { j };
            match fields(&e.vals[i + j], 8) { Some(f) => fs.extend(slice_fields(&f, 0, 8)), None => { if matches!(e.vals[i + j], V::Undef) { self.report("C05", true, format!("uninit {}", fname(&e.loc)), format!("uninitialised data stored at {}", e.loc)); } else { self.undec(sit, "30-bit pixel"); } return } }
        }
        let fs = cat(fs);
        let mut o = 0;
        for (c, w) in self.spec.dst.rgb30_channels() {
            let part = slice_fields(&fs, o, w);
            o += w;
            let v = from_fields(part, w);
            let Some(mut ex) = self.expect(c, &x, row, facts) else { self.undec(sit, "no expectation"); continue };
            if c != 'a' { ex.max = 1023.0; }
            match &v {
                V::D(d) => { let d = (**d).clone(); self.data(&ex, &d, w, facts, e); }
                V::C(k) => { let d = Data::konst(w, *k as f64, Enc::Int); self.data(&ex, &d, w, facts, e); }
                V::Cat(_) => { let d = as_data(&v, w, false); self.data(&ex, &d, w, facts, e); }
                _ => self.undec(sit, "30-bit field"),
            }
        }
    }

    pub fn sit_prop(&self) -> &'static str {
        match (Self::is_yuv(&self.spec.src), Self::is_yuv(&self.spec.dst)) { (true, false) => "C07", (false, true) => "C09", (true, true) => "C11", _ => "C12" }
    }
    fn arith_prop(&self) -> &'static str {
        match (Self::is_yuv(&self.spec.src), Self::is_yuv(&self.spec.dst)) { (true, false) => "C08", (false, true) => "C10", (true, true) => "C11", _ => "C14" }
    }

    fn value(&mut self, ex: &Exp, v: &V, esz: u64, facts: &[Poly], e: &Effect) {
        let prop = if ex.comp == 'a' { "C13" } else { self.sit_prop() };
        match self.sample(v, esz) {
            Err("undef") => { let w = !e.may && (facts.is_empty() || poly::witness_neg(&Poly::k(-1), facts).is_some()); self.report("C05", w, format!("uninit {}", fname(&e.loc)), format!("uninitialised data can be stored into the image at {}", e.loc)); }
            Err("enc") => self.report("C14", false, format!("encoding {}", fname(&e.loc)), format!("value {} stored at {}", short(v), e.loc)),
            Err(_) => self.undec(prop, "opaque value"),
            Ok(d) => self.data(ex, &d, (esz * 8) as u32, facts, e),
        }
    }

    fn data(&mut self, ex: &Exp, d0: &Data, cbits: u32, facts: &[Poly], e: &Effect) {
        let df = self.spec.dst.clone();
        let prop = if ex.comp == 'a' { "C13" } else { self.sit_prop() };
        let arith = if ex.comp == 'a' { "C13" } else if ex.exact { self.sit_prop() } else { self.arith_prop() };
        let live = !e.may;
        // ---- packing and depth
        let mut d = d0.clone();
        if d.enc == Enc::Int && !df.raw && df.model != Model::Rdp {
            if df.shift > 0 && ex.comp != 'a' {
                if d.tz < df.shift && d.is_const().is_none() { 
                    let low = d.lin && d.elo == 0.0 && d.ehi == 0.0 && d.clamp.is_none() && d.terms.iter().any(|t| (t.1 / p2(df.shift)).fract() != 0.0);
                    self.report("C14", live && low, format!("packing {}", fname(&e.loc)), format!("{}-bit sample of {} is not stored in the high bits at {} ({:?})", df.bits, self.spec.name, e.loc, d));
                } else { self.count("C14", true); }
                d = d_shr(&d, df.shift);
            }
            let maxv = if df.kind == Kind::Rgb30 { p2(cbits) - 1.0 } else if ex.comp == 'a' { ex.max } else { p2(df.bits) - 1.0 };
            if df.bits % 8 != 0 || df.kind == Kind::Rgb30 || df.be {
                if d.lo >= -0.01 && d.hi <= maxv + 0.01 { self.count("C14", true); }
                else {
                    let (l, h) = d.lin_range();
                    let over = d.lin && d.clamp.map(|c| c.1 > maxv + 0.5).unwrap_or(true) && h + d.elo > maxv + 0.6;
                    let under = d.lin && d.clamp.map(|c| c.0 < -0.5).unwrap_or(true) && l + d.ehi < -0.6;
                    self.report("C14", live && (over || under), format!("depth {}", fname(&e.loc)), format!("sample of {} can leave its {} bits (range {}..{}) at {}", self.spec.name, df.bits, d.lo, d.hi, e.loc));
                }
            }
            // wrap-around of the container
            let wmax = if df.shift > 0 { maxv } else { p2(cbits) - 1.0 };
            if !(d.lo >= -0.51 && d.hi <= wmax + 0.51) {
                let (l, h) = d.lin_range();
                let wraps = d.lin && d.clamp.is_none() && (h + d.elo > wmax + 0.6 || l + d.ehi < -0.6);
                if d.lin { self.report(arith, live && wraps, format!("wrap {}", fname(&e.loc)), format!("{} component of {} can wrap around (range {}..{}) at {}", ex.comp, self.spec.name, d.lo, d.hi, e.loc)); }
            } else { self.count(arith, true); }
        }
        // ---- sources
        let nominal = self.cfg.nominal;
        let scale_tol = ex.max / 255.0;
        if !d.lin {
            let deps = d.all_deps();
            // over-approximated dependencies: a missing one is a certain defect
            let mut missing = None; let mut ok = true;
            for t in &ex.terms {
                let mut m = Some(false);
                for s in &deps { let s = src(*s); if s.region == t.0 && s.ch == t.2 { match self.same(&s.off, &t.1, facts) { Some(true) => { m = Some(true); break; } None => m = None, _ => {} } } }
                match m { Some(false) => missing = Some(t.clone()), None => ok = false, _ => {} }
            }
            if let Some(t) = missing {
                let prop = if self.premul() && ex.class == "decode" && t.3 == 1.0 && ex.terms.last() == Some(&t) { "C13" } else { prop };
                self.report(prop, live, format!("{} missing {}", ex.comp, fname(&e.loc)), format!("{} component of {} does not depend on {}[{:?}] at {}", ex.comp, self.spec.name, self.it.regions[t.0 as usize].name, t.1, e.loc));
                return;
            }
            for s in &deps {
                let s = src(*s);
                if !ex.terms.iter().any(|t| t.0 == s.region && t.2 == s.ch && self.same(&s.off, &t.1, facts) == Some(true)) { ok = false; }
            }
            if ok { self.count(prop, true); } else { self.undec(prop, "non-linear dependency"); }
            if ok && self.premul() && ex.class == "decode" {
                // white stays white where alpha is opaque
                if d.hi < ex.max - 0.51 { self.report("C13", live, format!("premultiplied {}", fname(&e.loc)), format!("{} component of {}: multiplied by an opaque alpha the largest value stored is {} instead of {}; stored at {}", ex.comp, self.spec.name, d.hi, ex.max, e.loc)); return; }
                self.count("C13", true);
            }
            if d.ovf == 4 { self.report("C14", live, format!("byte order {}", fname(&e.loc)), format!("{} component of {} is computed from samples whose two bytes are read in the wrong order; stored at {}", ex.comp, self.spec.name, e.loc)); return; }
            if d.ovf == 5 { self.report("C14", live, format!("byte order {}", fname(&e.loc)), format!("{} component of {} is made of bytes of two different 16-bit values; stored at {}", ex.comp, self.spec.name, e.loc)); return; }
            if d.ovf == 2 { self.report(arith, live, format!("overflow {}", fname(&e.loc)), format!("{} component of {}: the weighted sum overflows its integer for some samples before it is saturated at {}", ex.comp, self.spec.name, e.loc)); return; }
            self.undec(arith, if d.ovf == 1 { "overflow" } else { "non-linear" });
            return;
        }
        // match every actual source with an expected one
        let mut coef: Vec<(f64, f64, SrcId)> = vec![]; // actual, expected, id
        let mut used = vec![false; ex.terms.len()];
        // merge expected terms that coincide
        let mut et: Vec<(u16, Poly, u8, f64)> = vec![];
        for t in &ex.terms { if let Some(q) = et.iter_mut().find(|q| q.0 == t.0 && q.2 == t.2 && (q.1 == t.1 || ex.terms.len() > 3 && !facts.is_empty() && self.same(&q.1, &t.1, facts) == Some(true))) { q.3 += t.3; } else { et.push(t.clone()); } }
        let mut bad = false;
        for &(id, k) in &d.terms {
            let s = src(id);
            let (lo, hi) = src_range(id);
            let mut hit = None; let mut und = false;
            for (j, t) in et.iter().enumerate() {
                if t.0 == s.region && t.2 == s.ch {
                    match self.same(&s.off, &t.1, facts) { Some(true) => { hit = Some(j); break; } None => und = true, _ => {} }
                }
            }
            match hit {
                Some(j) => {
                    if used[j] { if let Some(x) = coef.iter_mut().find(|x| x.2 == id || (x.1 == et[j].3)) { x.0 += k; } }
                    else { used[j] = true; coef.push((k, et[j].3, id)); }
                }
                None => {
                    let eff = (k * (hi - lo)).abs();
                    if eff < 0.51 * scale_tol.max(1e-6) { continue; }
                    bad = true;
                    if und { self.undec(prop, "source offset"); }
                    else {
                        let wit = live;
                        self.report(prop, wit, format!("{} source {}", ex.comp, fname(&e.loc)), format!("{} component of {} at destination offset {:?} takes {:.4} of {}[{:?}]{} but should use {}; stored at {}", ex.comp, self.spec.name, e.off, k, self.it.regions[s.region as usize].name, s.off, if s.ch > 0 { format!(".{}", s.ch) } else { String::new() }, et.iter().map(|t| format!("{}[{:?}]", self.it.regions[t.0 as usize].name, t.1)).collect::<Vec<_>>().join(", "), e.loc));
                    }
                }
            }
        }
        if bad { return; }
        if ex.siting_only {
            // weights must be positive and add up to one for averages
            let sum: f64 = d.terms.iter().map(|t| t.1).sum();
            if ex.comp != 'a' {
                let okw = d.terms.iter().all(|t| t.1 > -0.001) && (sum - 1.0).abs() < 0.01;
                if okw { self.count(prop, true); } else { self.report(prop, live, format!("{} weights {}", ex.comp, fname(&e.loc)), format!("{} component of {} is not an average of its samples ({:?}) at {}", ex.comp, self.spec.name, d.terms.iter().map(|t| t.1).collect::<Vec<_>>(), e.loc)); }
            } else { self.count(prop, true); }
            return;
        }
        for (j, t) in et.iter().enumerate() {
            if used[j] { continue; }
            if std::env::var("YV_EDGE").is_ok() { eprintln!("EDGE {} {} off {:?} miss {:?} facts {:?} has {} at {}", ex.class, ex.comp, e.off, t.1, facts, d.terms.iter().map(|q| format!("{:.4}*{:?}", q.1, src(q.0).off)).collect::<Vec<_>>().join(" + "), e.loc); }
            // a missing source that carries weight
            let (lo, hi) = self.src_nominal(t.0, t.2);
            if (t.3 * (hi - lo)).abs() > 1.6 * scale_tol {
                // the even/odd representation of an edge block may have merged the source with another one
                if d.terms.iter().any(|q| { let s = src(q.0); s.region == t.0 && s.ch == t.2 && self.same(&s.off, &t.1, facts) == None }) { self.undec(prop, "source offset"); }
                else if ex.class == "encode-chroma" && coef.iter().any(|c| c.0.abs() > 1.5 * c.1.abs()) && self.edge_merge(&et, j, facts) { self.undec(arith, "edge block"); return; }
                else { let prop = if self.premul() && self.s.alpha.is_none() && ex.class == "decode" && j + 1 == et.len() { "C13" } else { prop }; self.report(prop, live, format!("{} missing {}", ex.comp, fname(&e.loc)), format!("{} component of {} at destination offset {:?} does not use {}[{:?}] (uses {}); stored at {}", ex.comp, self.spec.name, e.off, self.it.regions[t.0 as usize].name, t.1, d.terms.iter().map(|q| { let s = src(q.0); format!("{:.4}*{}[{:?}]", q.1, self.it.regions[s.region as usize].name, s.off) }).collect::<Vec<_>>().join(" + "), e.loc)); }
                return;
            }
        }
        self.count(prop, true);
        if ex.exact {
            let ok = d.elo == 0.0 && d.ehi == 0.0 && d.c == ex.c && coef.iter().all(|c| c.0 == c.1) && (d.clamp.is_none());
            if ok { self.count(arith, true); }
            else {
                let cert = self.certain(&coef, &et, &used, &d, ex, 0.45);
                self.report(arith, live && cert.is_some(), format!("{} exact {}", ex.comp, fname(&e.loc)), format!("{} component of {} is not an exact copy: {} at {}", ex.comp, self.spec.name, cert.unwrap_or_else(|| format!("{d:?}")), e.loc));
            }
            return;
        }
        // ---- arithmetic
        if !nominal { return; }
        let tol = self.tolerance(ex);
        if self.premul() && ex.class == "decode" && d.hi < ex.max - 0.51 { self.report("C08", live, format!("{} premultiplied {}", ex.comp, fname(&e.loc)), format!("{} component of {}: multiplied by an alpha of {} the largest value stored is {}; stored at {}", ex.comp, self.spec.name, ex.max, d.hi, e.loc)); return; }
        if !self.premul() && matches!(ex.class, "decode" | "encode" | "encode-chroma") && !df.float && !self.spec.src.float {
            let mut bias = ex.c;
            if ex.class == "decode" && self.model() != Model::Rdp {
                let (by, _, buv, _) = self.ranges(&self.spec.src);
                for (a, b, id) in &coef {
                    let s = src(*id);
                    let luma = ex.terms.first().map(|t| t.0 == s.region && t.2 == s.ch && self.same(&s.off, &t.1, facts) == Some(true)).unwrap_or(false);
                    bias -= (a - b) * if luma { by } else { buv };
                }
            }
            let mid = d.c - bias + (d.elo + d.ehi) / 2.0;
            let (lo, hi) = self.rounding(ex);
            if mid.is_finite() && mid >= lo && mid <= hi { self.count(arith, true); }
            else { self.report(arith, live && mid.is_finite() && used.iter().all(|u| *u), format!("{} rounding {}", ex.comp, fname(&e.loc)), format!("{} component of {} ({}) is not rounded: its mean error at the centre of the range is {mid:.3}; stored at {}", ex.comp, self.spec.name, self.cfg_text(), e.loc)); }
        }
        if self.consts {
            // coefficients of one sample of each kind, without the weight of an average and the change of depth
            let fl = self.spec.dst.float || self.spec.src.float;
            let shift = if self.spec.dst.float { Self::maxv(&self.spec.src) } else if fl { 1.0 / ex.max } else { p2(self.spec.src.bits) / p2(df.bits) };
            let depth = if fl { 1.0 } else { ex.max / Self::maxv(&self.spec.src) * shift };
            let mut bias = ex.c;
            for (a, b, id) in &coef {
                let s = src(*id);
                let dup = ex.terms.iter().filter(|t| t.0 == s.region && t.2 == s.ch && self.same(&s.off, &t.1, facts) == Some(true)).count().max(1);
                let n = (if ex.class == "encode-chroma" { (ex.terms.len() / 3).max(1) } else { 1 }) as f64 / dup as f64;
                let luma = ex.terms.first().map(|t| t.0 == s.region && t.2 == s.ch && self.same(&s.off, &t.1, facts) == Some(true)).unwrap_or(false);
                if ex.class == "decode" { let (by, _, buv, _) = self.ranges(&self.spec.src); bias -= (a - b) * if luma { by } else { buv }; if self.model() == Model::Rdp { bias = ex.c; } }
                self.cf.insert(format!("C\t{}\t{}\t{:.12e}\t{:.12e}\t{depth:.9}\t{}", ex.class, ex.comp, a * n * shift, b * n * shift, self.spec.src.bits));
            }
            self.cf.insert(format!("B\t{}\t{}\t{:.9}\t{:.6}\t{:.6}\t{}", ex.class, ex.comp, d.c - bias, d.elo, d.ehi, fname(&e.loc)));
        }
        // worst case over the whole box
        let mut dev = (d.c - ex.c, d.c - ex.c);
        let acc = |k: f64, lo: f64, hi: f64, dev: &mut (f64, f64)| { let (a, b) = (k * lo, k * hi); dev.0 += a.min(b); dev.1 += a.max(b); };
        for (a, b, id) in &coef { let (lo, hi) = src_range(*id); acc(a - b, lo, hi, &mut dev); }
        for (j, t) in et.iter().enumerate() { if !used[j] { let (lo, hi) = self.src_nominal(t.0, t.2); acc(-t.3, lo, hi, &mut dev); } }
        let worst = (dev.0 + d.elo).abs().max((dev.1 + d.ehi).abs());
        let clamp_ok = match d.clamp { None => true, Some((a, b)) => {
            // a bound that is not there does not matter where the value cannot pass it
            let (l, h) = d.lin_range();
            (a.abs() <= tol || a < 0.0 && l + d.elo >= -tol.max(1.0)) && ((b - ex.max).abs() <= tol || b > ex.max && h + d.ehi <= ex.max + tol.max(1.0))
        } };
        let key = format!("{} {}", ex.class, self.cfg.mode);
        let gap = (dev.1 + d.elo).max(-(dev.0 + d.ehi)).max(0.0);
        let gk = format!("gap-{}", key);
        let w = self.dev.entry(gk).or_insert(0.0); if gap > *w { *w = gap; }
        let w = self.dev.entry(key).or_insert(0.0); if worst / scale_tol > *w { *w = worst / scale_tol; }
        let dt = self.definite_tol(ex);
        if worst <= dt && clamp_ok { self.count(arith, true); return; }
        match self.certain(&coef, &et, &used, &d, ex, self.definite_tol(ex)) {
            Some(m) => self.report(arith, live, format!("{} value {}", ex.comp, fname(&e.loc)), format!("{} component of {} ({}): {m}; stored at {}", ex.comp, self.spec.name, self.cfg_text(), e.loc)),
            None if worst <= tol && clamp_ok => self.count(arith, true),
            None => self.undec(arith, &format!("deviation {}", if worst.is_finite() { format!("{:.0}", worst / scale_tol) } else { "inf".into() })),
        }
    }
    /// colours are to be multiplied by the alpha of their pixel
    fn premul(&self) -> bool { self.spec.src.alpha && self.spec.src.bits == 8 && self.s.consts.iter().any(|c| c.0 == "flag" && c.1 == 1) && Self::is_yuv(&self.spec.src) && !Self::is_yuv(&self.spec.dst) }
    pub fn cfg_text(&self) -> String { format!("matrix {}, range {}, mode {}", self.cfg.matrix, self.cfg.range, self.cfg.mode) }
    fn edge_merge(&self, et: &[(u16, Poly, u8, f64)], j: usize, facts: &[Poly]) -> bool {
        // some valuation makes the missing source equal to another expected one
        et.iter().enumerate().any(|(i, t)| i != j && t.0 == et[j].0 && t.2 == et[j].2 && { let d = t.1.sub(&et[j].1); !poly::nonneg(&d.addc(-1), facts) && !poly::nonneg(&d.neg().addc(-1), facts) })
    }
    fn src_nominal(&self, region: u16, ch: u8) -> (f64, f64) {
        match &self.it.regions[region as usize].rv { RegVal::Int { lo, hi, .. } | RegVal::F16 { lo, hi } => (*lo, *hi), RegVal::Opaque { bits } => (0.0, p2(*bits) - 1.0), RegVal::Cycle(_) => (0.0, 255.0), RegVal::Fields { fs, .. } => fs.iter().find(|f| f.1 == ch).map(|f| (f.2, f.3)).unwrap_or((0.0, 0.0)) }
    }
    fn tolerance(&self, ex: &Exp) -> f64 {
        // in units of one 8-bit step of the destination
        let unit = ex.max / 255.0;
        let t8 = match (ex.class, self.cfg.mode) { ("decode", 0) => 4.5, ("decode", _) => 3.6, ("encode-chroma", 0) => 3.5, ("encode-chroma", _) => 2.6, ("encode", 0) => 3.0, _ => 2.1 };
        t8 * unit + if ex.comp == 'a' { 0.0 } else { ex.tol }
    }
    /// how far the exact value may lie outside the range of possible stored values, in units of the destination sample
    fn definite_tol(&self, ex: &Exp) -> f64 {
        let (sf, df) = (&self.spec.src, &self.spec.dst);
        let lsb = if df.float { 1.0 / Self::maxv(sf).max(255.0) } else { 1.0 };
        let t = match (ex.class, self.cfg.mode) {
            ("decode", 0) => return self.tolerance(ex),
            // the packed 4:2:2 kernels work with six fraction bits
            ("decode", _) if sf.kind == Kind::Packed422 && df.bits == 8 => 3.0,
            ("decode", _) if sf.bits > df.bits && !df.float => 1.6,
            ("decode", _) => match df.bits { 16 => 4.0, 14 => 1.3, _ => 0.6 },
            (_, 0) => 2.0,
            ("encode", _) | ("encode-chroma", _) => match df.bits { 16 => 2.0, 14 => 0.9, 8 if self.model() == Model::Rdp => 0.8, _ => 0.6 },
            _ => 1.1,
        };
        (t * lsb + if ex.comp == 'a' { 0.0 } else { ex.tol }).min(self.tolerance(ex))
    }
    /// the mean rounding error, in units of the destination sample, that the conversion may have
    fn rounding(&self, ex: &Exp) -> (f64, f64) {
        let scalar = self.it.features.is_empty();
        let lo = match (ex.class, self.cfg.mode) {
            _ if self.model() == Model::Rdp => -0.55,
            ("decode", 0) if !scalar => -0.55,
            ("decode", 1) if !scalar && self.spec.dst.bits == 8 => -0.55,
            ("encode", 1) if !scalar && self.spec.dst.bits == 8 => -0.45,
            ("decode", 1) if !scalar && self.spec.dst.bits <= 12 => -0.2,
            ("encode-chroma", 1) if !scalar && self.spec.dst.bits == 8 => -0.2,
            _ => -0.06,
        };
        (lo, 0.05)
    }
    /// a concrete sample assignment for which the stored value certainly misses the formula by more than tol
    fn certain(&self, coef: &[(f64, f64, SrcId)], et: &[(u16, Poly, u8, f64)], used: &[bool], d: &Data, ex: &Exp, tol: f64) -> Option<String> {
        struct T { lo: f64, hi: f64, a: f64, b: f64, grp: usize }
        let mut ts: Vec<T> = vec![];
        let mut groups: Vec<(u16, u8)> = vec![];
        let nch = self.spec.src.order.len().max(1) as i64;
        let mut gi = |r: u16, ch: u8, off: &Poly| -> usize { let px = self.it.regions[r as usize].name.contains("px") && self.spec.src.kind == Kind::Rgb; let k = (r, if px { off.c.rem_euclid(nch) as u8 } else { ch }); match groups.iter().position(|g| *g == k) { Some(i) => i, None => { groups.push(k); groups.len() - 1 } } };
        for (a, b, id) in coef { let s = src(*id); let (lo, hi) = src_range(*id); ts.push(T { lo, hi, a: *a, b: *b, grp: gi(s.region, s.ch, &s.off) }); }
        for (j, t) in et.iter().enumerate() { if !used[j] { let (lo, hi) = self.src_nominal(t.0, t.2); ts.push(T { lo, hi, a: 0.0, b: t.3, grp: gi(t.0, t.2, &t.1) }); } }
        let ng = groups.len().min(4);
        let mut pts: Vec<Vec<f64>> = vec![];
        for code in 0..4usize.pow(ng as u32) {
            pts.push(ts.iter().map(|t| { let q = if t.grp < ng { (code / 4usize.pow(t.grp as u32)) % 4 } else { 1 }; match q { 0 => t.lo, 1 => ((t.lo + t.hi) / 2.0).ceil(), 2 => t.hi, _ => (t.lo + (t.hi - t.lo) / 4.0).floor() } }).collect());
        }
        for i in 0..ts.len().min(16) { for base in 0..2 { pts.push(ts.iter().enumerate().map(|(j, t)| { let hi = (i == j) != (base == 1); if hi { t.hi } else { t.lo } }).collect()); } }
        let isf = self.spec.dst.float || self.spec.src.float;
        for p in pts {
            let p: Vec<f64> = if isf { p } else { p.iter().map(|x| x.round()).collect() };
            let (mut l, mut x) = (d.c, ex.c);
            for (t, v) in ts.iter().zip(&p) { l += t.a * v; x += t.b * v; }
            let cl = |z: f64| match d.clamp { Some((a, b)) => z.max(a).min(b), None => z };
            let (a, b) = (cl(l + d.elo), cl(l + d.ehi));
            let xc = if self.spec.dst.model == Model::Rdp { x } else { x.max(0.0).min(ex.max) };
            if a > xc + tol || b < xc - tol { return Some(format!("for samples {:?} the stored value lies in {:.2}..{:.2}, the formula gives {:.2} (tolerance {:.2})", p, a, b, xc, tol)); }
        }
        None
    }

    // ------------------------------------------------------------------ layout: padding and coverage
    fn layout(&mut self) {
        let planes = self.s.planes.clone();
        for (pi, p) in planes.iter().enumerate() {
            if !p.out { continue; }
            let mut eff: Vec<(usize, Poly, Poly)> = vec![];
            let mut undecomposed = false;
            for (k, e) in self.st.effects.iter().enumerate() {
                if e.region != p.region { continue; }
                match self.rc(e) { Some((_, a, b)) => eff.push((k, a, b)), None => undecomposed = true }
            }
            // ---- padding
            for (k, a, b) in &eff {
                let e = &self.st.effects[*k];
                if self.s.extra_rows.is_some() {
                    let room = p.rows.addc(-1).sub(a);
                    if poly::nonneg(&room, &[]) { self.count("C06", true); }
                    else if let (Some(w), false) = (poly::witness_neg(&room, &[]), e.may) { self.report("C06", true, format!("rows {} {}", p.role, fname(&e.loc)), format!("{} writes row {:?} of the {} plane of an image of {:?} rows, e.g. {:?}; at {}", self.spec.name, a, p.role, p.rows, w, e.loc)); }
                    else { self.undec("C06", "row"); }
                    continue;
                }
                let n = match &e.count { Some(c) => c.clone(), None => Poly::k(e.vals.len() as i64) };
                let mut facts = vec![];
                if e.count.is_some() { facts.push(n.addc(-1)); }
                let room = p.row.sub(b).sub(&n);
                let (ok1, ok2) = (poly::nonneg(b, &facts), poly::nonneg(&room, &facts));
                if ok1 && ok2 { self.count("C06", true); continue; }
                // a witness must also respect the stride: take any slack
                let mut ff = facts.clone(); ff.push(Poly::sym(p.stride).sub(&p.row).addc(-64));
                let w = if !ok2 { poly::witness_neg(&room, &ff).or_else(|| poly::witness_neg(&room, &facts)) } else { poly::witness_neg(b, &facts) };
                let loc = e.loc.clone(); let def = w.is_some() && !e.may;
                if w.is_some() { self.report("C06", def, format!("padding {} {}", p.role, fname(&loc)), format!("{} writes {:?} element(s) at column {:?} of a {:?}-element row of the {} plane, e.g. {:?}; at {}", self.spec.name, n, b, p.row, p.role, w, loc)); }
                else { self.undec("C06", "column"); }
            }
            if undecomposed { self.undec("C06", "offset"); }
            // ---- coverage
            if self.covered(&eff, p) { self.count("C05", true); continue; }
            match self.gap(&eff, p, undecomposed) {
                Some(m) => self.report("C05", true, format!("gap {pi} {}", p.role), format!("{} leaves {m} of the {} plane unwritten", self.spec.name, p.role)),
                None => self.undec("C05", "coverage"),
            }
        }
    }

    /// symbolic proof that the union of the effects covers the plane
    fn covered(&self, eff: &[(usize, Poly, Poly)], p: &PlaneInfo) -> bool {
        // row progressions: (step, first, count) -> column pieces
        type Key = (i64, Poly, Poly);
        let mut rows: Vec<(Key, Vec<usize>)> = vec![];
        for (i, (k, a, _)) in eff.iter().enumerate() {
            let e = &self.st.effects[*k];
            if e.may { continue; }
            let rq: Vec<&(u16, Poly)> = e.quants.iter().filter(|q| a.contains(q.0)).collect();
            let key = match rq.len() {
                0 => (0, a.clone(), Poly::k(1)),
                1 => { let Some((c, r)) = a.linear_in(rq[0].0) else { continue }; let Some(c) = c.konst() else { continue };
                    if c < 0 { (-c, r.add(&rq[0].1.addc(-1).scale(c)), rq[0].1.clone()) } else { (c, r, rq[0].1.clone()) } }
                _ => continue,
            };
            match rows.iter_mut().find(|r| r.0 == key) { Some(r) => r.1.push(i), None => rows.push((key, vec![i])) }
        }
        // pieces valid for every row of a progression
        let mut full: Vec<Key> = vec![];
        for (key, ix) in &rows {
            let mut iv: Vec<(Poly, Poly)> = vec![];
            // blocks: (quants, base, len)
            let mut blocks: Vec<(Vec<(u16, Poly)>, Poly, Poly)> = vec![];
            for i in ix {
                let (k, a, b) = &eff[*i];
                let e = &self.st.effects[*k];
                let q: Vec<(u16, Poly)> = e.quants.iter().filter(|q| b.contains(q.0) && !a.contains(q.0)).cloned().collect();
                if e.quants.iter().any(|q| b.contains(q.0) && a.contains(q.0)) { continue; }
                let n = match &e.count { Some(c) => c.clone(), None => Poly::k(e.vals.len() as i64) };
                blocks.push((q, b.clone(), n));
            }
            for _ in 0..6 {
                // merge adjacent constant blocks with equal quantifiers
                let mut changed = true;
                while changed {
                    changed = false;
                    'o: for i in 0..blocks.len() { for j in 0..blocks.len() {
                        if i == j || blocks[i].0 != blocks[j].0 { continue; }
                        if blocks[i].1.add(&blocks[i].2) == blocks[j].1 { let n = blocks[j].2.clone(); blocks[i].2 = blocks[i].2.add(&n); blocks.remove(j); changed = true; break 'o; }
                        if let (Some(d), Some(n), Some(m)) = (blocks[j].1.sub(&blocks[i].1).konst(), blocks[i].2.konst(), blocks[j].2.konst()) {
                            if d >= 0 && d <= n { blocks[i].2 = Poly::k(n.max(d + m)); blocks.remove(j); changed = true; break 'o; }
                        }
                    } }
                }
                // eliminate the quantifier with the smallest stride
                let mut next = vec![];
                let mut any = false;
                for (q, b, n) in blocks.drain(..) {
                    if q.is_empty() { next.push((q, b, n)); continue; }
                    let best = q.iter().enumerate().filter_map(|(i, x)| b.linear_in(x.0).and_then(|l| l.0.konst()).map(|c| (c.abs(), i, c))).min();
                    let Some((_, i, c)) = best else { continue };
                    let (s, t) = q[i].clone();
                    let (_, r) = b.linear_in(s).unwrap();
                    let mut q2 = q.clone(); q2.remove(i);
                    let Some(len) = n.konst() else { continue };
                    if len < c.abs() { next.push((q, b, n)); continue; }
                    any = true;
                    let base = if c < 0 { r.add(&t.addc(-1).scale(c)) } else { r };
                    next.push((q2, base, t.scale(c.abs())));
                }
                blocks = next;
                if !any { break; }
            }
            for (q, b, n) in blocks { if q.is_empty() { iv.push((b.clone(), b.add(&n))); } }
            if self.chain(&mut iv, &p.row) { full.push(key.clone()); }
        }
        // rows
        let mut iv: Vec<(Poly, Poly)> = vec![];
        for (c, f, t) in &full {
            match c { 0 => iv.push((f.clone(), f.addc(1))), 1 => iv.push((f.clone(), f.add(t))),
                c => { // all residues present?
                    if (0..*c).all(|i| full.iter().any(|g| g.0 == *c && g.2 == *t && g.1 == f.addc(i))) { iv.push((f.clone(), f.add(&t.scale(*c)))); } } }
        }
        self.chain(&mut iv, &p.rows)
    }
    fn chain(&self, iv: &mut Vec<(Poly, Poly)>, end: &Poly) -> bool {
        let mut cur = Poly::k(0);
        loop {
            if poly::nonneg(&cur.sub(end), &[]) { return true; }
            let Some(i) = iv.iter().position(|(a, b)| *b != cur && poly::nonneg(&cur.sub(a), &[]) && poly::nonneg(&b.sub(&cur), &[])) else { return false };
            cur = iv.remove(i).1;
        }
    }
    /// a concrete size for which some sample is certainly not written
    fn gap(&self, eff: &[(usize, Poly, Poly)], p: &PlaneInfo, undecomposed: bool) -> Option<String> {
        if undecomposed || self.st.unsure > 0 { return None; }
        for w in [0i64, 1, 2, 3, 4, 7, 8, 15, 16, 20, 33, 66, 70] { for h in [0i64, 1, 2] { for slack in [0i64, 5] {
            let mut env = poly::Env::new(w, h, slack);
            let (Some(row), Some(rows)) = (env.eval(&p.row), env.eval(&p.rows)) else { continue };
            if row <= 0 || rows <= 0 || row > 4000 { continue; }
            let mut hit = vec![false; (row * rows) as usize];
            let mut bad = false;
            for (k, a, b) in eff {
                let e = &self.st.effects[*k];
                // anything that may be written counts as written here
                if !self.mark(e, a, b, &mut env, 0, row, rows, &mut hit) { bad = true; break; }
            }
            if bad { continue; }
            if let Some(i) = hit.iter().position(|x| !x) {
                let n = hit.iter().filter(|x| !**x).count();
                let (iw, ih) = (env.eval(&self.s.w), env.eval(&self.s.h));
                return Some(format!("{n} sample(s), e.g. row {} column {} (width {iw:?}, height {ih:?}, stride slack {slack}),", i as i64 / row, i as i64 % row));
            }
        } } }
        None
    }
    fn mark(&self, e: &Effect, a: &Poly, b: &Poly, env: &mut poly::Env, qi: usize, row: i64, rows: i64, hit: &mut [bool]) -> bool {
        if qi == e.quants.len() {
            let (Some(y), Some(x)) = (env.eval(a), env.eval(b)) else { return false };
            let n = match &e.count { Some(c) => match env.eval(c) { Some(n) => n.min(e.vals.len() as i64), None => return false }, None => e.vals.len() as i64 };
            for i in 0..n { let x = x + i; if y >= 0 && y < rows && x >= 0 && x < row { hit[(y * row + x) as usize] = true; } }
            return true;
        }
        let (s, t) = &e.quants[qi];
        let Some(t) = env.eval(t) else { return false };
        if t > 5000 { return false; }
        for i in 0..t { env.set(*s, i); if !self.mark(e, a, b, env, qi + 1, row, rows, hit) { return false; } }
        env.unset(*s);
        true
    }
}
#[allow(unused)] fn _u(_: Rc<u8>) {}
