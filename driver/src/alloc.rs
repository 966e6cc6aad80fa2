//! Images made by the library: what `alloc` returns passes the library's checks and holds every sample, and the
//! read-only view of a mutable image is that image.
use crate::interp::*;
use crate::ir::*;
use crate::lower::Cx;
use crate::poly::{self, Poly};
use crate::val::*;
use std::rc::Rc;

struct Img { val: Val, ty: TyId }
fn field(cx: &Cx, t: TyId, n: &str) -> Option<(u64, TyId)> { match &cx.tyinfo(t).kind { TyK::Struct { fields, names, .. } => names.iter().position(|x| x == n).map(|i| fields[i]), _ => None } }

/// (pointer, length) of a plane field: a slice, or a buffer store holding a slice or a vector
fn plane(it: &mut Interp, st: &mut State, img: &Img, n: &str) -> R<(PtrV, Poly)> {
    let cx = it.cx;
    let Some((off, ft)) = field(cx, img.ty, n) else { return abort(format!("no field {n}")) };
    let fi = cx.tyinfo(ft);
    let slice = |v: &[Ent], o: u64| -> R<(PtrV, Poly)> { match (read_scalar(v, o, 8), to_poly(&read_scalar(v, o + 8, 8), 64, false)) { (V::Ptr(p), Some(l)) => Ok(((*p).clone(), l)), (a, _) => abort(format!("plane pointer {}", short(&a))) } };
    match &fi.kind {
        TyK::Ptr { .. } => slice(&img.val.e, off),
        TyK::Enum { layout, .. } => {
            let lay = layout.clone();
            let a = st.alloc_val(Val { size: fi.size, e: slice_ents(&img.val.e, off, fi.size) });
            let d = it.read_discr(st, &PtrV { alloc: a, off: Poly::k(0) }, &lay)?;
            let m = it.mem(st, a)?.e.clone();
            let V::C(d) = d else { return abort("buffer store kind") };
            let Some(v) = lay.discrs.iter().position(|x| *x == d) else { return abort("buffer store kind") };
            let (fo, vt) = lay.variants[v].1[0];
            if lay.variants[v].0 == "Borrowed" { slice(&m, fo) } else {
                let (po, lo) = match (vec_ptr(cx, vt), field(cx, vt, "len")) { (Some(p), Some(l)) => (p, l.0), _ => return abort("vector layout") };
                match (read_scalar(&m, fo + po, 8), to_poly(&read_scalar(&m, fo + lo, 8), 64, false)) { (V::Ptr(p), Some(l)) => Ok(((*p).clone(), l)), (a, _) => abort(format!("vector {}", short(&a))) }
            }
        }
        _ => abort("plane field"),
    }
}
/// offset of the data pointer inside a Vec
pub fn vec_ptr(cx: &Cx, t: TyId) -> Option<u64> {
    let (o1, t1) = field(cx, t, "buf")?;
    let (o2, t2) = field(cx, t1, "inner")?;
    let (o3, _) = field(cx, t2, "ptr")?;
    Some(o1 + o2 + o3)
}
pub fn vec_cap(cx: &Cx, t: TyId) -> Option<u64> {
    let (o1, t1) = field(cx, t, "buf")?;
    let (o2, t2) = field(cx, t1, "inner")?;
    let (o3, _) = field(cx, t2, "cap")?;
    Some(o1 + o2 + o3)
}

fn scalar(it: &Interp, img: &Img, n: &str) -> R<Poly> {
    let Some((o, t)) = field(it.cx, img.ty, n) else { return abort(format!("no field {n}")) };
    let sz = it.cx.tyinfo(t).size;
    match to_poly(&read_scalar(&img.val.e, o, sz), sz as u32 * 8, false) { Some(p) => Ok(p), None => abort(format!("field {n} unknown")) }
}
fn roles(cx: &Cx, t: TyId) -> Vec<String> { match &cx.tyinfo(t).kind { TyK::Struct { names, .. } => names.iter().filter(|n| n.ends_with("_stride")).map(|n| n.trim_end_matches("_stride").to_string()).collect(), _ => vec![] } }
fn plane_name(cx: &Cx, t: TyId, r: &str) -> String { let n = format!("{r}_plane"); if field(cx, t, &n).is_some() { n } else { r.to_string() } }

/// Ok(0) / Err / unknown
fn outcome(it: &mut Interp, st: &mut State, inst: InstId, args: Vec<Val>) -> String {
    let cx = it.cx;
    let Some(b) = cx.body(inst) else { return "unknown no body".into() };
    let tys: Vec<TyId> = (1..=b.nargs).map(|i| b.locals[i]).collect();
    let n0 = it.findings.len();
    match it.call(st, inst, args, &tys, false, cx.tyinfo(b.locals[0]).size) {
        Err(Abort(m)) => format!("unknown {m}"),
        Ok(None) => "panic".into(),
        Ok(Some(v)) => {
            if it.findings[n0..].iter().any(|f| f.kind == "panic") { return "unknown may panic".into(); }
            let TyK::Enum { layout, .. } = cx.tyinfo(b.locals[0]).kind.clone() else { return "unknown result".into() };
            let a = st.alloc_val(v);
            match it.read_discr(st, &PtrV { alloc: a, off: Poly::k(0) }, &layout) { Ok(V::C(0)) => "ok".into(), Ok(V::C(_)) => "err".into(), Ok(v) => format!("unknown result {}", short(&v)), Err(Abort(m)) => format!("unknown {m}") }
        }
    }
}
fn ref_arg(st: &mut State, v: &Val) -> Val { let a = st.alloc_val(v.clone()); Val::scalar(8, V::Ptr(Rc::new(PtrV { alloc: a, off: Poly::k(0) }))) }

/// an argument of an integer or fieldless enum type
fn enum_arg(it: &mut Interp, st: &mut State, t: TyId, v: usize) -> R<Val> {
    let ti = it.cx.tyinfo(t);
    let TyK::Enum { layout, .. } = &ti.kind else { return abort("enum argument") };
    let lay = layout.clone();
    let a = st.alloc_val(Val { size: ti.size, e: vec![] });
    it.write_tag(st, &PtrV { alloc: a, off: Poly::k(0) }, &lay, v)?;
    Ok(Val { size: ti.size, e: it.mem(st, a)?.e.clone() })
}

pub fn run(cx: &Cx) {
    let adts = cx.image_types();
    let subs = ["4:2:0", "4:2:2", "4:4:4"];
    let say = |name: &str, cfg: &str, what: &str, outcome: &str, detail: &str| println!("IMG\t{name}\t{cfg}\t{what}\t{outcome}\t{detail}");
    for (name, t, ms) in &adts {
        let m = |n: &str| ms.iter().find(|x| x.0 == n).map(|x| x.1);
        for wp in 0..2i64 { for hp in 0..2i64 { for sub in 0..3usize {
            let fresh = |it: &mut Interp| -> (Poly, Poly, Poly, Poly) {
                poly::reset_syms(); reset_srcs();
                let (ws, hs) = (poly::new_sym("w"), poly::new_sym("h"));
                let (w, h) = (Poly::sym(ws).scale(2).addc(2 - wp), Poly::sym(hs).scale(2).addc(2 - hp));
                it.max_narrow = vec![w.clone(), h.clone()];
                (w, h, Poly::sym(ws).addc(1), Poly::sym(hs).addc(1))
            };
            let parity = format!("w{} h{}", if wp == 1 { "odd" } else { "even" }, if hp == 1 { "odd" } else { "even" });
            // ---- alloc
            if let Some(al) = m("alloc") {
                let takes_sub = cx.body(al).map(|b| b.nargs).unwrap_or(0) > 2;
                if takes_sub || sub == 2 {
                    let cfg = if takes_sub { format!("{} {parity}", subs[sub]) } else { parity.clone() };
                    let mut it = Interp::new(cx);
                    let mut st = State::new();
                    let (w, h, cw, ch) = fresh(&mut it);
                    let r: R<()> = (|| {
                        let b = cx.body(al).unwrap();
                        let tys: Vec<TyId> = (1..=b.nargs).map(|i| b.locals[i]).collect();
                        let mut args = vec![Val::scalar(4, V::P(Rc::new(w.clone()))), Val::scalar(4, V::P(Rc::new(h.clone())))];
                        if takes_sub { args.push(enum_arg(&mut it, &mut st, tys[2], sub)?); }
                        let Some(v) = it.call(&mut st, al, args, &tys, false, cx.tyinfo(*t).size)? else { return abort("alloc diverges") };
                        for f in it.findings.clone() { if f.kind != "uninit" { say(name, &cfg, "alloc", if f.definite { "bad" } else { "unknown" }, &format!("{}: {} at {}", f.kind, f.msg, f.loc)); } }
                        let img = Img { val: v, ty: *t };
                        if scalar(&it, &img, "width")? != w || scalar(&it, &img, "height")? != h { say(name, &cfg, "alloc size", "bad", "the image does not have the requested size"); } else { say(name, &cfg, "alloc size", "ok", ""); }
                        let mut seen: Vec<u32> = vec![];
                        for r in roles(cx, *t) {
                            let chroma = r != "y";
                            let (rw, rr) = if chroma { (if sub < 2 { cw.clone() } else { w.clone() }, if sub == 0 { ch.clone() } else { h.clone() }) } else { (w.clone(), h.clone()) };
                            let rw = if r == "uv" { rw.scale(2) } else { rw };
                            let s = scalar(&it, &img, &format!("{r}_stride"))?;
                            let (p, l) = plane(&mut it, &mut st, &img, &plane_name(cx, *t, &r))?;
                            let what = format!("alloc {r} plane");
                            if seen.contains(&p.alloc) { say(name, &cfg, &what, "bad", "shares its memory with another plane"); }
                            seen.push(p.alloc);
                            let Some(need) = s.mul(&rr) else { return abort("plane size") };
                            let (a, b) = (s.sub(&rw), l.sub(&need));
                            let neg = |p: &Poly| poly::witness_neg(p, &[]);
                            if poly::nonneg(&a, &[]) && poly::nonneg(&b, &[]) { say(name, &cfg, &what, "ok", &format!("stride {s:?}, {l:?} elements")); }
                            else if let Some(x) = neg(&a) { say(name, &cfg, &what, "bad", &format!("stride {s:?} is less than a row of {rw:?}, e.g. {x:?}")); }
                            else if let Some(x) = neg(&b) { say(name, &cfg, &what, "bad", &format!("{l:?} elements are less than {rr:?} rows of {s:?}, e.g. {x:?}")); }
                            else { say(name, &cfg, &what, "unknown", "size not decided"); }
                        }
                        // the library's own checks, on the image and on its view
                        let mut views = vec![(Img { val: img.val.clone(), ty: *t }, "alloc check".to_string(), ms.clone())];
                        for vm in ["to_fixed", "from_mut"] { if let Some((vi, vt, vms)) = view(cx, &adts, name, ms, vm) {
                            let a = ref_arg(&mut st, &img.val);
                            let bt = cx.body(vi).map(|b| b.locals[1]).unwrap_or(0);
                            match it.call(&mut st, vi, vec![a], &[bt], false, cx.tyinfo(vt).size)? { Some(v) => {
                                let vimg = Img { val: v, ty: vt };
                                same(&mut it, &mut st, name, &cfg, vm, &img, &vimg, &say)?;
                                views.push((vimg, format!("alloc {vm} check"), vms));
                            } None => say(name, &cfg, vm, "bad", "panics") }
                        } }
                        for (v, what, vms) in views { if let Some(cm) = vms.iter().find(|x| x.0 == "check_constraints").map(|x| x.1) {
                            let a = ref_arg(&mut st, &v.val);
                            let mut args = vec![a];
                            if let Some(b) = cx.body(cm) { if b.nargs > 1 { let e = enum_arg(&mut it, &mut st, b.locals[2], sub)?; args.push(e); } }
                            let o = outcome(&mut it, &mut st, cm, args);
                            match o.split(' ').next().unwrap() { "ok" => say(name, &cfg, &what, "ok", ""), "unknown" => say(name, &cfg, &what, "unknown", &o), _ => say(name, &cfg, &what, "bad", &format!("the library's own check of an image it allocated: {o}")) }
                        } }
                        Ok(())
                    })();
                    if let Err(Abort(e)) = r { say(name, &cfg, "alloc", "unknown", &e); }
                }
            }
            // ---- views of an image over borrowed memory with any strides
            if sub == 2 && wp == 1 && hp == 1 { for vm in ["to_fixed", "from_mut"] { if let Some((vi, vt, _)) = view(cx, &adts, name, ms, vm) {
                let mut it = Interp::new(cx);
                let mut st = State::new();
                let (w, h, _, _) = fresh(&mut it);
                let cfg = "borrowed".to_string();
                let r: R<()> = (|| {
                    let TyK::Struct { fields, names, .. } = cx.tyinfo(*t).kind.clone() else { return abort("image type") };
                    let mut e: Vec<Ent> = vec![];
                    for r in roles(cx, *t) {
                        let s = poly::new_sym(&format!("S_{r}")); let l = poly::new_sym(&format!("L_{r}"));
                        it.regions.push(Region { name: r.clone(), esz: 1, len: Poly::sym(l), out: true, rv: RegVal::Opaque { bits: 8 } });
                        let (so, _) = field(cx, *t, &format!("{r}_stride")).unwrap();
                        write_ents(&mut e, so, 4, &Val::scalar(4, V::P(Rc::new(Poly::sym(s)))).e);
                        let (po, pt) = match field(cx, *t, &plane_name(cx, *t, &r)) { Some(x) => x, None => return abort("plane field") };
                        let fi = cx.tyinfo(pt);
                        let TyK::Enum { layout, .. } = &fi.kind else { return abort("buffer store") };
                        let lay = layout.clone();
                        let v = lay.variants.iter().position(|v| v.0 == "Borrowed").unwrap_or(0);
                        let sl = Val::pair(V::Ptr(Rc::new(PtrV { alloc: EXT_BASE + it.regions.len() as u32 - 1, off: Poly::k(0) })), pv(Poly::sym(l)));
                        let mut ee = vec![];
                        write_ents(&mut ee, lay.variants[v].1[0].0, 16, &sl.e);
                        let a = st.alloc_val(Val { size: fi.size, e: ee });
                        it.write_tag(&mut st, &PtrV { alloc: a, off: Poly::k(0) }, &lay, v)?;
                        let m = it.mem(&st, a)?.e.clone();
                        write_ents(&mut e, po, fi.size, &m);
                    }
                    for ((o, ft), n) in fields.iter().zip(&names) { let sz = cx.tyinfo(*ft).size; if n == "width" { write_ents(&mut e, *o, sz, &Val::scalar(sz, V::P(Rc::new(w.clone()))).e); } if n == "height" { write_ents(&mut e, *o, sz, &Val::scalar(sz, V::P(Rc::new(h.clone()))).e); } }
                    let img = Img { val: Val { size: cx.tyinfo(*t).size, e }, ty: *t };
                    let a = ref_arg(&mut st, &img.val);
                    let bt = cx.body(vi).map(|b| b.locals[1]).unwrap_or(0);
                    match it.call(&mut st, vi, vec![a], &[bt], false, cx.tyinfo(vt).size)? { Some(v) => same(&mut it, &mut st, name, &cfg, vm, &img, &Img { val: v, ty: vt }, &say)?, None => say(name, &cfg, vm, "bad", "panics") }
                    Ok(())
                })();
                if let Err(Abort(e)) = r { say(name, &cfg, vm, "unknown", &e); }
            } } }
        } } }
    }
}

type Methods = Vec<(String, InstId)>;
/// the function `vm` that turns image type `name` into a view: a method of it, or an associated function of the view taking it
fn view(cx: &Cx, adts: &[(String, TyId, Methods)], name: &str, ms: &Methods, vm: &str) -> Option<(InstId, TyId, Methods)> {
    let find = |ms: &Methods| ms.iter().find(|x| x.0 == vm).map(|x| x.1);
    let me = adts.iter().find(|a| a.0 == name)?.1;
    let i = match find(ms) { Some(i) => i, None => adts.iter().filter_map(|a| find(&a.2)).find(|i| cx.body(*i).map(|b| b.nargs == 1 && matches!(cx.tyinfo(b.locals[1]).kind, TyK::Ptr { pointee, .. } if pointee == me)).unwrap_or(false))? };
    let vt = cx.body(i)?.locals[0];
    if vt == me { return None; }
    let a = adts.iter().find(|a| a.1 == vt)?;
    Some((i, vt, a.2.clone()))
}

/// the view has the size, the strides and the memory of the image
fn same(it: &mut Interp, st: &mut State, name: &str, cfg: &str, vm: &str, img: &Img, v: &Img, say: &dyn Fn(&str, &str, &str, &str, &str)) -> R<()> {
    let cx = it.cx;
    for n in ["width", "height"] { let ok = scalar(it, img, n)? == scalar(it, v, n)?; say(name, cfg, &format!("{vm} {n}"), if ok { "ok" } else { "bad" }, if ok { "" } else { "differs from the image's" }); }
    for r in roles(cx, img.ty) {
        let sn = format!("{r}_stride");
        let ok = scalar(it, img, &sn)? == scalar(it, v, &sn)?;
        say(name, cfg, &format!("{vm} {sn}"), if ok { "ok" } else { "bad" }, if ok { "" } else { "differs from the image's" });
        let (a, b) = (plane(it, st, img, &plane_name(cx, img.ty, &r))?, plane(it, st, v, &plane_name(cx, v.ty, &r))?);
        let ok = a.0.alloc == b.0.alloc && a.0.off == b.0.off && a.1 == b.1;
        say(name, cfg, &format!("{vm} {r} plane"), if ok { "ok" } else { "bad" }, if ok { "" } else { "is not the image's plane" });
    }
    Ok(())
}
