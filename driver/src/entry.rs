//! Abstract arguments for a public conversion function.
use crate::interp::*;
use crate::ir::*;
use crate::lower::Cx;
use crate::poly::{self, Poly};
use crate::spec::*;
use crate::val::*;
use std::rc::Rc;

#[derive(Clone, Debug)]
pub struct PlaneInfo {
    pub role: String,
    pub region: u16,
    pub stride: u16,
    /// elements per row that belong to the image
    pub row: Poly,
    pub rows: Poly,
    pub out: bool,
}

/// the alpha samples of a run for premultiplied colours
pub fn premultiplied(extra: usize) -> Option<f64> { match extra { 5 => Some(255.0), 9 => Some(100.0), _ => None } }

pub struct Setup {
    pub planes: Vec<PlaneInfo>,
    pub w: Poly,
    pub h: Poly,
    pub wp: i64,
    pub hp: i64,
    pub args: Vec<Val>,
    pub tys: Vec<TyId>,
    pub consts: Vec<(String, i64)>,
    /// limited-range samples only take nominal values
    pub nominal: bool,
    /// network byte order of 30-bit pixels
    pub net: bool,
    /// number of image arguments with their own size
    pub images: usize,
    pub extra_rows: Option<u16>, /// a rotation by 90 or 270 degrees
    pub turned: bool, pub strides: usize, /// every alpha sample, when colours are multiplied by it
    pub alpha: Option<f64>,
}

#[derive(Clone, Debug)]
pub struct Cfg { pub wp: i64, pub hp: i64, pub matrix: usize, pub range: usize, pub mode: usize, pub extra: usize, pub feat: usize, pub nominal: bool, pub bad: Option<Bad> }

/// one way in which the arguments are invalid
#[derive(Clone, Debug, PartialEq)]
pub enum Bad { Short(usize), /// the other planes have no padding
    ShortT(usize), /// in an ample buffer, the other planes have no padding
    StrideL(usize), /// in a buffer of the size a proper stride needs
    StrideT(usize), /// half a row, in such a buffer
    StrideH(usize), /// two rows, in such a buffer
    StrideD(usize), Short1(usize), Stride(usize), Stride1(usize), Stride0(usize), ZeroW, /// the width and all strides
    ZeroWS, ZeroH, Dim { w: i64, h: i64 }, /// (valid) the last row of every plane has no padding
    TightEnd, /// (valid) every plane holds more rows than the image
    ExtraRows }
impl Bad { pub fn valid(&self) -> bool { matches!(self, Bad::TightEnd | Bad::ExtraRows) } }

pub fn int_of(cx: &Cx, t: TyId) -> u64 { cx.tyinfo(t).size }

/// build arguments
pub fn setup(it: &mut Interp, st: &mut State, spec: &Spec, inst: InstId, cfg: &Cfg) -> R<Setup> {
    poly::reset_syms();
    reset_srcs();
    let wh = poly::new_sym("w");
    let hh = poly::new_sym("h");
    let bad = cfg.bad.clone();
    // every even (odd) size is 2w+2 (2w+1) for some w >= 0
    if matches!(cfg.bad, Some(Bad::StrideL(_))) { poly::set_lower(wh, Poly::k(1)); }
    if matches!(cfg.bad, Some(Bad::StrideD(_))) { poly::set_lower(wh, Poly::k(1)); poly::set_lower(hh, Poly::k(1)); }
    let w = Poly::sym(wh).scale(2).addc(2 - cfg.wp);
    let h = Poly::sym(hh).scale(2).addc(2 - cfg.hp);
    let cw = Poly::sym(wh).addc(1);
    let chh = Poly::sym(hh).addc(1);
    let (w, cw) = if matches!(bad, Some(Bad::ZeroW) | Some(Bad::ZeroWS)) { (Poly::k(0), Poly::k(0)) } else { (w, cw) };
    let (h, chh) = if bad == Some(Bad::ZeroH) { (Poly::k(0), Poly::k(0)) } else { (h, chh) };
    // the second image of a call with mismatched sizes: (difference in elements, then its own sizes)
    let (mut w2, mut h2, mut cw2, mut chh2) = (w.clone(), h.clone(), cw.clone(), chh.clone());
    if let Some(Bad::Dim { w: dw, h: dh }) = &bad {
        let grow = |x: &Poly, cx: &Poly, par: i64, d: i64| -> (Poly, Poly) {
            // d = 1: exactly one more; d = 2: any larger size of the same parity
            if d == 1 { (x.addc(1), if par == 1 { cx.clone() } else { cx.addc(1) }) }
            else { let t = Poly::sym(poly::new_sym("d")).addc(1); (x.add(&t.scale(2)), cx.add(&t)) }
        };
        if *dw != 0 { let (a, b) = grow(&w, &cw, cfg.wp, *dw); w2 = a; cw2 = b; }
        if *dh != 0 { let (a, b) = grow(&h, &chh, cfg.hp, *dh); h2 = a; chh2 = b; }
    }
    let mut images = 0;
    let body = match it.cx.body(inst) { Some(b) => b, None => return abort("entry has no body") };
    let tys: Vec<TyId> = (1..=body.nargs).map(|i| body.locals[i]).collect();
    let names = it.cx.arg_names(inst);
    let mut s = Setup { planes: vec![], w: w.clone(), h: h.clone(), wp: cfg.wp, hp: cfg.hp, args: vec![], tys: tys.clone(), consts: vec![], nominal: cfg.nominal && cfg.range == 0, net: cfg.extra & 1 == 1, images: 0, extra_rows: None, turned: cfg.extra & 3 != 1, strides: cfg.extra >> 2, alpha: if cfg.nominal { premultiplied(cfg.extra) } else { None } };
    it.max_narrow = vec![w.clone(), h.clone()];
    let mut slice_no = 0;
    let mut pending_stride: Option<usize> = None;
    let mut ints = 0;
    let n_slices = tys.iter().filter(|t| matches!(it.cx.tyinfo(**t).kind, TyK::Ptr { fat: true, .. })).count();
    for (ix, &t) in tys.iter().enumerate() {
        let ti = it.cx.tyinfo(t);
        match &ti.kind {
            TyK::Ptr { pointee, fat: true } => {
                // packed pixel slice
                let TyK::Slice { elem } = it.cx.tyinfo(*pointee).kind.clone() else { return abort("slice argument") };
                let is_mut = it.cx.is_mut_ref(t);
                let esz = it.cx.tyinfo(elem).size;
                let side = if is_mut { &spec.dst } else { &spec.src };
                let p = add_plane(it, &mut s, spec, side, "px", esz, is_mut, &w, &h, &cw, &chh, &bad)?;
                slice_no += 1;
                pending_stride = Some(p);
                let pi = &s.planes[p];
                let len = it.regions[pi.region as usize].len.clone();
                s.args.push(Val::pair(V::Ptr(Rc::new(PtrV { alloc: EXT_BASE + pi.region as u32, off: Poly::k(0) })), pv(len)));
            }
            TyK::Ptr { pointee, .. } => {
                let ii = it.cx.tyinfo(*pointee);
                let TyK::Struct { fields, names: fnames, adt } = ii.kind.clone() else { return abort(format!("argument type {}", ti.name)) };
                if !adt.contains("Image") { return abort(format!("argument type {}", ti.name)); }
                let is_mut = adt.contains("Mut");
                let side = if is_mut { &spec.dst } else { &spec.src };
                let mut e: Vec<Ent> = vec![];
                let mut last = None;
                images += 1;
                let second = images == 2 && matches!(bad, Some(Bad::Dim { .. }));
                let (w, h, cw, chh) = if second { (&w2, &h2, &cw2, &chh2) } else { (&w, &h, &cw, &chh) };
                s.images = images;
                for ((off, ft), fname) in fields.iter().zip(&fnames) {
                    let fi = it.cx.tyinfo(*ft);
                    if fname.ends_with("_plane") || fname == "yuy" {
                        let role = fname.trim_end_matches("_plane").to_string();
                        let elem = it.cx.slice_elem_ty(*ft);
                        let esz = elem.map(|t| it.cx.tyinfo(t).size).unwrap_or(1);
                        let p = add_plane(it, &mut s, spec, side, &role, esz, is_mut, w, h, cw, chh, &bad)?;
                        last = Some(p);
                        let pi = s.planes[p].clone();
                        let len = it.regions[pi.region as usize].len.clone();
                        let sl = Val::pair(V::Ptr(Rc::new(PtrV { alloc: EXT_BASE + pi.region as u32, off: Poly::k(0) })), pv(len));
                        match &fi.kind {
                            TyK::Ptr { .. } => write_ents(&mut e, *off, 16, &sl.e),
                            TyK::Enum { layout, .. } => {
                                // BufferStoreMut::Borrowed
                                let lay = layout.clone();
                                let v = lay.variants.iter().position(|v| v.0 == "Borrowed").unwrap_or(0);
                                let foff = lay.variants[v].1[0].0;
                                let mut ee = vec![];
                                write_ents(&mut ee, foff, 16, &sl.e);
                                let a = st.alloc_val(Val { size: fi.size, e: ee });
                                it.write_tag(st, &PtrV { alloc: a, off: Poly::k(0) }, &lay, v)?;
                                let m = it.mem(st, a)?.e.clone();
                                st.slots.pop();
                                write_ents(&mut e, *off, fi.size, &m);
                            }
                            _ => return abort("plane field"),
                        }
                    } else if fname.ends_with("_stride") {
                        let pi = &s.planes[last.unwrap()];
                        write_ents(&mut e, *off, 4, &Val::scalar(4, V::P(Rc::new(Poly::sym(pi.stride)))).e);
                    } else if fname == "width" { write_ents(&mut e, *off, fi.size, &Val::scalar(fi.size, V::P(Rc::new(w.clone()))).e); }
                    else if fname == "height" { write_ents(&mut e, *off, fi.size, &Val::scalar(fi.size, V::P(Rc::new(h.clone()))).e); }
                    else { return abort(format!("image field {fname}")); }
                }
                let a = st.alloc_val(Val { size: ii.size, e });
                s.args.push(Val::scalar(8, V::Ptr(Rc::new(PtrV { alloc: a, off: Poly::k(0) }))));
            }
            TyK::Int { .. } => {
                let nm = names.get(ix).cloned().unwrap_or_default();
                if let Some(p) = pending_stride.take() {
                    let st_ = s.planes[p].stride;
                    s.args.push(Val::scalar(ti.size, V::P(Rc::new(Poly::sym(st_)))));
                } else if nm.contains("bit_depth") || (spec.has_bit_depth && ints >= 2) {
                    s.args.push(Val::scalar(ti.size, V::C(spec.bit_depth as u128)));
                } else {
                    let v = if nm.contains("width") { &w } else if nm.contains("height") { &h } else if n_slices < 2 { return abort(format!("integer argument {nm}")) } else if ints == 0 { &w } else { &h };
                    ints += 1;
                    s.args.push(Val::scalar(ti.size, V::P(Rc::new(v.clone()))));
                }
            }
            TyK::Bool => { s.args.push(Val::scalar(1, V::C(cfg.extra as u128 & 1))); s.consts.push(("flag".into(), (cfg.extra & 1) as i64)); }
            TyK::Enum { layout, adt } => {
                let want = if adt.ends_with("YuvRange") { cfg.range } else if adt.ends_with("YuvStandardMatrix") { cfg.matrix } else if adt.ends_with("YuvConversionMode") { cfg.mode } else { cfg.extra & 3 };
                let n = layout.variants.len();
                let v = want.min(n - 1);
                s.consts.push((format!("{}::{}", adt.rsplit("::").next().unwrap(), layout.variants[v].0), v as i64));
                let a = st.alloc_val(Val { size: ti.size, e: vec![] });
                let lay = layout.clone();
                it.write_tag(st, &PtrV { alloc: a, off: Poly::k(0) }, &lay, v)?;
                // the custom matrix carries its kr and kb
                let pay = layout.variants[v].1.clone();
                if !pay.is_empty() {
                    if !adt.ends_with("YuvStandardMatrix") || pay.len() != 2 { return abort(format!("enum payload {adt}")); }
                    let k = crate::judge::KRKB[6];
                    for ((o, t), f) in pay.iter().zip([k.0, k.1]) {
                        let sz = it.cx.tyinfo(*t).size;
                        it.write(st, &PtrV { alloc: a, off: Poly::k(*o as i64) }, &Val::scalar(sz, V::C((f as f32).to_bits() as u128)))?;
                    }
                }
                let m = it.mem(st, a)?;
                let val = Val { size: ti.size, e: m.e.clone() };
                st.slots.pop();
                s.args.push(val);
            }
            _ => return abort(format!("argument type {}", ti.name)),
        }
    }
    let _ = slice_no;
    Ok(s)
}

fn add_plane(it: &mut Interp, s: &mut Setup, spec: &Spec, f: &Fmt, role: &str, esz: u64, out: bool, w: &Poly, h: &Poly, cw: &Poly, chh: &Poly, bad: &Option<Bad>) -> R<usize> {
    let is_chroma = matches!(role, "u" | "v" | "uv");
    let (hs, vs) = (is_chroma && f.sub != Sub::S444, is_chroma && f.sub == Sub::S420);
    let pw = if hs { cw.clone() } else { w.clone() };
    let rows = if vs { chh.clone() } else { h.clone() };
    let mut rows = rows;
    let row = match role {
        "uv" => pw.scale(2),
        "yuy" => if f.kind == Kind::Ayuv { w.scale(4) } else { cw.scale(4) },
        "px" => w.scale(f.px_elems(esz) as i64),
        _ => pw,
    };
    let mut row = row;
    if out && spec.transposed && s.turned { row = h.scale(f.px_elems(esz) as i64); rows = w.clone(); }
    let sid = poly::new_sym(&format!("S_{}{}", if out { "d" } else { "s" }, role));
    // formats whose validation demands exactly tight planes
    let me = s.planes.len();
    let small = match bad { Some(Bad::Stride(i)) | Some(Bad::StrideL(i)) | Some(Bad::StrideT(i)) | Some(Bad::StrideH(i)) | Some(Bad::StrideD(i)) | Some(Bad::Stride1(i)) | Some(Bad::Stride0(i)) => *i == me, _ => false };
    if small { match bad {
        Some(Bad::Stride(_)) | Some(Bad::StrideT(_)) => poly::set_upper(sid, row.addc(-1)),
        Some(Bad::StrideD(_)) => poly::set_equal(sid, row.scale(2)),
        Some(Bad::StrideH(_)) => poly::set_equal(sid, row.div_exact(2).unwrap_or_else(|| row.addc(-1))),
        Some(Bad::Stride1(_)) | Some(Bad::StrideL(_)) => poly::set_equal(sid, row.addc(-1)),
        _ => poly::set_equal(sid, Poly::k(0)),
    } }
    else if *bad == Some(Bad::ZeroWS) { poly::set_equal(sid, Poly::k(0)) }
    else if *bad == Some(Bad::TightEnd) && !(role == "uv" && !spec.geometry) { poly::set_lower(sid, row.addc(1)) }
    else if matches!(bad, Some(Bad::ShortT(_)) | Some(Bad::StrideL(_))) { poly::set_equal(sid, row.clone()) }
    else if role == "uv" && !spec.geometry { poly::set_equal(sid, row.clone()); } else { poly::set_lower(sid, row.clone()); }
    // rotations by 180 degrees: equal strides, then either one larger
    if out && spec.transposed { if let Some(p) = s.planes.first() { match s.strides {
        1 => poly::set_equal(sid, Poly::sym(p.stride)),
        2 => poly::set_lower(sid, Poly::sym(p.stride).addc(1)),
        3 => poly::set_lower(p.stride, Poly::sym(sid).addc(1)),
        _ => {}
    } } }
    let mut rv = f.regval(role, esz, s.nominal, s.net);
    // the alpha of a premultiplied image
    if let (Some(a), false) = (s.alpha, out) {
        if f.kind == Kind::Ayuv { rv = RegVal::Cycle(f.order.chars().map(|c| match c { 'a' => (a, a), _ if !s.nominal => (0.0, 255.0), 'y' => (16.0, 235.0), _ => (16.0, 240.0) }).collect()); }
        else if role == "a" { if let RegVal::Int { lo, hi, .. } = &mut rv { *lo = a; *hi = a; } }
    }
    let len = match Poly::sym(sid).mul(&rows) { Some(l) => l, None => return abort("plane length") };
    let need = len.sub(&Poly::sym(sid)).add(&row);
    let len = match bad {
        Some(Bad::Short(i)) | Some(Bad::ShortT(i)) if *i == me => { let l = poly::new_sym(&format!("L_{}{}", if out { "d" } else { "s" }, role)); poly::set_upper(l, need.addc(-1)); Poly::sym(l) }
        Some(Bad::Short1(i)) if *i == me => need.addc(-1),
        Some(Bad::StrideL(i)) if *i == me => match Poly::sym(sid).mul(&rows) { Some(l) => l.scale(8), None => return abort("plane length") },
        Some(Bad::StrideT(i)) | Some(Bad::StrideH(i)) | Some(Bad::StrideD(i)) if *i == me => match row.mul(&rows) { Some(l) => l, None => return abort("plane length") },
        Some(Bad::TightEnd) => need,
        Some(Bad::ExtraRows) => {
            let t = match s.extra_rows { Some(t) => t, None => { let t = poly::new_sym("extra"); s.extra_rows = Some(t); t } };
            let t = Poly::sym(t).addc(1);
            match Poly::sym(sid).mul(&if vs { t } else { t.scale(2) }) { Some(x) => len.add(&x), None => return abort("plane length") }
        }
        _ => len,
    };
    it.regions.push(Region { name: format!("{} {role} plane", if out { "destination" } else { "source" }), esz, len, out, rv });
    s.planes.push(PlaneInfo { role: role.to_string(), region: (it.regions.len() - 1) as u16, stride: sid, row, rows, out });
    Ok(s.planes.len() - 1)
}
