//! Driver of the per-entry analysis.
use crate::entry::*;
use crate::interp::*;
use crate::ir::*;
use crate::lower::Cx;
use crate::spec::*;
use crate::val::*;
use std::collections::BTreeMap;

pub fn feature_sets() -> Vec<(&'static str, Vec<&'static str>)> {
    vec![
        ("scalar", vec![]),
        ("sse4.1", vec!["sse", "sse2", "sse3", "ssse3", "sse4_1"]),
        ("avx2", vec!["sse", "sse2", "sse3", "ssse3", "sse4_1", "sse4_2", "avx", "avx2", "fma", "f16c"]),
        ("avx2vnni", vec!["sse", "sse2", "sse3", "ssse3", "sse4_1", "sse4_2", "avx", "avx2", "fma", "f16c", "avxvnni"]),
        ("avx512", vec!["sse", "sse2", "sse3", "ssse3", "sse4_1", "sse4_2", "avx", "avx2", "fma", "f16c", "avx512f", "avx512bw", "avx512vl", "avx512dq", "avx512cd"]),
        ("avx2nof16", vec!["sse", "sse2", "sse3", "ssse3", "sse4_1", "sse4_2", "avx", "avx2"]),
        ("avx512vnni", vec!["sse", "sse2", "sse3", "ssse3", "sse4_1", "sse4_2", "avx", "avx2", "fma", "f16c", "avx512f", "avx512bw", "avx512vl", "avx512dq", "avx512cd", "avx512vnni"]),
        ("avx512cnl", vec!["sse", "sse2", "sse3", "ssse3", "sse4_1", "sse4_2", "avx", "avx2", "fma", "f16c", "avx512f", "avx512bw", "avx512vl", "avx512dq", "avx512cd", "avx512vbmi"]),
        ("avx512vbmi", vec!["sse", "sse2", "sse3", "ssse3", "sse4_1", "sse4_2", "avx", "avx2", "fma", "f16c", "avxvnni", "avx512f", "avx512bw", "avx512vl", "avx512dq", "avx512cd", "avx512vbmi", "avx512vnni", "avx512fp16"]),
    ]
}

pub fn run(cx: &Cx) {
    let filter = std::env::var("YV_ENTRY").unwrap_or_default();
    let fsel = std::env::var("YV_FEAT").unwrap_or_default();
    let fs = feature_sets();
    let list = cx.public_fns();
    let nw: usize = std::env::var("YV_JOBS").ok().and_then(|x| x.parse().ok()).unwrap_or(8);
    let ctr = fork_workers(nw);
    let mut ntask = 0usize;
    let mut mine = usize::MAX;
    let mut work = |n: &mut usize| -> bool { if mine == usize::MAX { mine = ctr.fetch_add(1, std::sync::atomic::Ordering::SeqCst); } let r = *n == mine; if r { mine = ctr.fetch_add(1, std::sync::atomic::Ordering::SeqCst); } *n += 1; r };
    let kinds = std::env::var("YV_KIND").unwrap_or("LA".into());
    let deep = std::env::var("YV_DEEP").is_ok();
    let featured = kinds.contains('F');
    if work(&mut ntask) && featured { for f in cx.feature_fns() { println!("FEATFN\t{f}"); } }
    let dumping = std::env::var("YV_DUMP").is_ok();
    for (name, inst) in list {
        if !filter.is_empty() && !filter.split(',').any(|f| f == name) { continue; }
        if inst == u32::MAX { if ntask == usize::MAX { println!("generic {name}"); } continue; }
        let Some(spec) = spec_of(&name) else { if work(&mut ntask) { println!("NOSPEC\t{name}"); } continue; };
        // the bodies of these are out of reach, their validation is not
        let only_v = spec.sharp && std::env::var("YV_SHARP").is_err();
        let rotation = name.starts_with("rotate_");
        if only_v && !kinds.contains('V') { continue; }
        let yuv = |f: &Fmt| f.model != Model::None;
        let class = match (yuv(&spec.src), yuv(&spec.dst)) { (true, false) => "decode", (false, true) => "encode", (true, true) => "repack", _ => "copy" };
        if let Ok(c) = std::env::var("YV_CLASS") { if c != "all" && c != class { continue; } }
        if std::env::var("YV_ALPHA").is_ok() && !spec.src.alpha && !spec.dst.alpha { continue; }
        let (has_mode, has_range, has_matrix, has_extra) = params(cx, inst);
        let modes: Vec<usize> = if has_mode { vec![0, 1, 2] } else { vec![1] };
        let extras: Vec<usize> = if rotation { vec![0, 5, 9, 13, 2] } else if has_extra { vec![0, 1] } else { vec![0] };
        let mut cfgs: Vec<Cfg> = vec![];
        for &mode in &modes { for &extra in &extras {
            if kinds.contains('L') || featured { for wp in 0..2 { for hp in 0..2 {
                cfgs.push(Cfg { wp, hp, matrix: 1, range: 0, mode, extra, feat: 0, nominal: false, bad: None });
            } } }
            if featured && has_range { cfgs.push(Cfg { wp: 1, hp: 1, matrix: 1, range: 1, mode, extra, feat: 0, nominal: false, bad: None }); }
            if (kinds.contains('A') || kinds.contains('K')) && extra == 0 {
                let rs: Vec<usize> = if has_range { vec![0, 1] } else { vec![1] };
                let ms: Vec<usize> = if has_matrix { if kinds.contains('K') { (0..7).collect() } else if deep { (0..6).collect() } else { vec![0, 2, 3] } } else { vec![1] };
                for &range in &rs { for &matrix in &ms { cfgs.push(Cfg { wp: 1, hp: 1, matrix, range, mode, extra, feat: 0, nominal: true, bad: None }); } }
            }
            // premultiplied colours of opaque and of half transparent pixels
            if kinds.contains('A') && extra == 1 && spec.src.alpha && spec.src.bits == 8 && class == "decode" && has_flag(cx, inst) {
                for range in 0..2 { for x in [5, 9] { cfgs.push(Cfg { wp: 1, hp: 1, matrix: 0, range, mode, extra: x, feat: 0, nominal: true, bad: None }); } }
            }
        } }
        if kinds.contains('V') {
            let base = Cfg { wp: 1, hp: 1, matrix: 1, range: 0, mode: 1, extra: 0, feat: 0, nominal: false, bad: None };
            // how many planes and sized images the function takes
            let (np, ni) = { let mut it = Interp::new(cx); let mut st = State::new(); match setup(&mut it, &mut st, &spec, inst, &base) { Ok(s) => (s.planes.len(), s.images), Err(_) => (0, 0) } };
            let mut bads = vec![Bad::ZeroW, Bad::ZeroH, Bad::ZeroWS];
            for i in 0..np { bads.extend([Bad::Short(i), Bad::Short1(i), Bad::Stride(i), Bad::Stride1(i), Bad::Stride0(i), Bad::ShortT(i), Bad::StrideL(i), Bad::StrideT(i), Bad::StrideH(i), Bad::StrideD(i)]); }
            if ni >= 2 { for d in [1, 2] { bads.push(Bad::Dim { w: d, h: 0 }); bads.push(Bad::Dim { w: 0, h: d }); } }
            for b in bads { for par in 0..2 { cfgs.push(Cfg { wp: par, hp: par, bad: Some(b.clone()), ..base.clone() }); } }
        }
        for (k, b) in [('T', Bad::TightEnd), ('X', Bad::ExtraRows)] { if kinds.contains(k) && !rotation { for hp in 0..2 {
            cfgs.push(Cfg { wp: 1, hp, matrix: 1, range: 0, mode: 1, extra: 0, feat: 0, nominal: false, bad: Some(b.clone()) });
        } } }
        if only_v { cfgs.retain(|c| c.bad.as_ref().map(|b| !b.valid()).unwrap_or(false)); }

        for cfg in &cfgs {
            if let Ok(p) = std::env::var("YV_PAR") { if !cfg.nominal && cfg.bad.is_none() && !p.split(',').any(|p| p == format!("{}{}", cfg.wp, cfg.hp)) { continue; } }
            if !work(&mut ntask) { continue; }
            // a feature set that answers every detection query of an earlier run the same way takes the same path
            let mut seen: Vec<BTreeMap<String, bool>> = vec![];
            for (fi, (fname, fl)) in fs.iter().enumerate() {
                if !fsel.is_empty() && !fsel.split(',').any(|f| f == *fname) { continue; }
                if fi > 0 && cfg.bad.as_ref().map(|b| b.valid()).unwrap_or(false) { continue; }
                if seen.iter().any(|q| q.iter().all(|(f, on)| fl.contains(&f.as_str()) == *on)) { continue; }
                let mut cfg = cfg.clone(); cfg.feat = fi;
                let t0 = std::time::Instant::now();
                let mut it = Interp::new(cx);
                it.features = fl.iter().map(|x| x.to_string()).collect();
                it.trust_rotation = cfg.bad.is_none();
                // a call that is refused is refused early
                if cfg.bad.as_ref().map(|b| !b.valid()).unwrap_or(false) { it.max_steps = if name.starts_with("rotate_") { 60_000 } else { 2_000_000 }; }
                let mut st = State::new();
                let bad = cfg.bad.as_ref().map(|b| format!("{b:?}")).unwrap_or_default();
                let tag = if cfg.bad.is_some() { format!("{name}\t{fname}\t{}w{}h{} {bad}", if cfg.bad.as_ref().unwrap().valid() { &bad[..1] } else { "V" }, cfg.wp, cfg.hp) } else { String::new() };
                let tag = if cfg.bad.is_some() { tag } else { format!("{name}\t{fname}\t{}w{}h{}r{}m{}o{}x{}", if cfg.nominal { 'A' } else { 'L' }, cfg.wp, cfg.hp, cfg.range, cfg.matrix, cfg.mode, cfg.extra) };
                let r = (|| { let s = setup(&mut it, &mut st, &spec, inst, &cfg)?; let a = s.args.clone(); let tys = s.tys.clone(); let r = it.call(&mut st, inst, a, &tys, false, 0)?; Ok::<_, Abort>((s, r)) })();
                if let (Ok((_, Some(v))), Some(b)) = (&r, &cfg.bad) { if b.valid() {
                    // an accepted image only
                    if let TyK::Enum { layout, .. } = &cx.tyinfo(cx.body(inst).unwrap().locals[0]).kind {
                        let l = layout.clone();
                        let a = st.alloc_val(v.clone());
                        if !matches!(it.read_discr(&st, &PtrV { alloc: a, off: crate::poly::Poly::k(0) }, &l), Ok(V::C(0))) { seen.push(it.queried.clone()); continue; }
                    }
                } }
                let dt = t0.elapsed().as_millis();
                seen.push(it.queried.clone());
                let mut o = String::new();
                use std::fmt::Write as _;
                for m in &it.missing { let _ = writeln!(o, "MISSING\t{tag}\t{m}"); }
                for f in &it.findings { let _ = writeln!(o, "FIND\t{tag}\t{}\t{}\t{}\t{}", f.kind, f.definite, f.loc, f.msg); }
                if cfg.bad.as_ref().map(|b| !b.valid()).unwrap_or(false) {
                    // outcome of a call with invalid arguments: it must return an error, without a panic and with nothing written
                    let panic = it.findings.iter().find(|f| f.kind == "panic" || f.kind == "bounds").cloned();
                    let wrote = st.effects.iter().find(|e| it.regions[e.region as usize].out).cloned();
                    let planes: Vec<String> = match &r { Ok((s, _)) => s.planes.iter().map(|p| format!("{}{}", if p.out { "d" } else { "s" }, p.role)).collect(), _ => vec![] };
                    let mut what = match &r {
                        Err(Abort(m)) if !m.starts_with("chunk size zero") => format!("unknown\tgiven up: {m}"),
                        Err(_) => match &panic { Some(p) => format!("panic\t{} at {}", p.msg, p.loc), _ => "panic\tdiverges".to_string() },
                        Ok((_, None)) => match &panic { Some(p) if p.definite => format!("panic\t{} at {}", p.msg, p.loc), _ => "panic\tdiverges".to_string() },
                        Ok((_, Some(v))) => {
                            let b = cx.body(inst).unwrap();
                            match &cx.tyinfo(b.locals[0]).kind {
                                TyK::Enum { layout, .. } => {
                                    let l = layout.clone();
                                    let a = st.alloc_val(v.clone());
                                    match it.read_discr(&st, &PtrV { alloc: a, off: crate::poly::Poly::k(0) }, &l) { Ok(V::C(0)) => "ok\treturns Ok".to_string(), Ok(V::C(_)) => "err\t".to_string(), Ok(v) => format!("unknown\tresult {}", short(&v)), Err(Abort(m)) => format!("unknown\t{m}") }
                                }
                                _ => "unknown\tno result".into(),
                            }
                        }
                    };
                    if let Some(e) = wrote { if what.starts_with("err") { what = if e.may { format!("unknown\tmay write {} at {}", it.regions[e.region as usize].name, e.loc) } else { format!("wrote\twrites {} at {}", it.regions[e.region as usize].name, e.loc) }; } }
                    if what.starts_with("err") { if let Some(p) = panic { what = if p.definite { format!("panic\t{} at {}", p.msg, p.loc) } else { format!("unknown\tmay panic: {} at {}", p.msg, p.loc) }; } }
                    let _ = writeln!(o, "BAD\t{tag}\t{what}\t{}\t{dt}", planes.join(","));
                    print!("{o}");
                    continue;
                }
                match r {
                    Ok((s, r)) => {
                        if dumping { dump(&it, &st); }
                        let mut j = crate::judge::Judge::new(&it, &st, &s, &spec, &cfg);
                        j.consts = kinds.contains('K');
                        j.run();
                        for l in &j.cf { let _ = writeln!(o, "CF\t{tag}\t{l}"); }
                        for r in &j.reps { let _ = writeln!(o, "REP\t{tag}\t{}\t{}\t{}\t{}", r.prop, r.definite, r.key, r.msg); }
                        for (p, (a, b)) in &j.ob { let _ = writeln!(o, "OB\t{tag}\t{p}\t{a}\t{b}"); }
                        for (p, n) in &j.und { let _ = writeln!(o, "UND\t{tag}\t{n}\t{p}"); }
                        for (p, n) in &j.dev { let _ = writeln!(o, "DEV\t{tag}\t{p}\t{n:.3}"); }
                        let _ = r;
                        if kinds.contains('D') { let (h, n) = digest(&it, &st); let _ = writeln!(o, "DIG\t{tag}\t{h:016x}\t{n}\t{}", it.par); }
                        if featured { let _ = writeln!(o, "FEAT\t{tag}\t{}\t{}", it.feature_calls, it.feature_fns.iter().cloned().collect::<Vec<_>>().join(";")); }
                        let dt = format!("{dt}+{}", t0.elapsed().as_millis() - dt);
                        let _ = writeln!(o, "OK\t{tag}\t{dt}\t{}\t{}\t{}\t{}\t{}", it.accesses_proved, it.accesses, st.effects.len(), it.kernels.len(), it.kernels.iter().map(|k| k.split('<').next().unwrap_or("").to_string()).collect::<Vec<_>>().join(","));
                    }
                    Err(Abort(m)) => { let _ = writeln!(o, "ABORT\t{tag}\t{dt}\t{m}"); }
                }
                if dumping { for k in &it.kernels { println!("  kernel {k}"); } }
                print!("{o}");
            }
        }
    }
    use std::io::Write;
    std::io::stdout().flush().ok();
    if nw > 1 { unsafe { _exit(0) } }
}

/// which optional parameters the function has: conversion mode, range, matrix, another enum or flag
/// the function takes a boolean
fn has_flag(cx: &Cx, inst: u32) -> bool { cx.body(inst).map(|b| (1..=b.nargs).any(|i| matches!(cx.tyinfo(b.locals[i]).kind, TyK::Bool))).unwrap_or(false) }

pub fn params(cx: &Cx, inst: InstId) -> (bool, bool, bool, bool) {
    let Some(b) = cx.body(inst) else { return (false, false, false, false) };
    let (mut mode, mut range, mut matrix, mut extra) = (false, false, false, false);
    for i in 1..=b.nargs { match &cx.tyinfo(b.locals[i]).kind {
        TyK::Bool => extra = true,
        TyK::Enum { adt, .. } => if adt.ends_with("YuvConversionMode") { mode = true } else if adt.ends_with("YuvRange") { range = true } else if adt.ends_with("YuvStandardMatrix") { matrix = true } else { extra = true },
        _ => {}
    } }
    (mode, range, matrix, extra)
}

/// the store summary of a run as an order-free canonical hash, without source locations
pub fn digest(it: &Interp, st: &State) -> (u64, usize) {
    let mut v: Vec<String> = st.effects.iter().filter(|e| it.regions[e.region as usize].out).map(|e| {
        let mut s = format!("{} {:?} {:?} {} {:?}", it.regions[e.region as usize].name, e.off, e.count, e.may, e.quants.iter().map(|q| format!("{}<{:?}", crate::poly::name(q.0), q.1)).collect::<Vec<_>>());
        for v in &e.vals { s.push('|'); s.push_str(&show(it, v)); }
        s
    }).collect();
    v.sort();
    let mut h = 0xcbf29ce484222325u64;
    for s in &v { for b in s.bytes().chain([0]) { h = (h ^ b as u64).wrapping_mul(0x100000001b3); } }
    (h, v.len())
}

pub fn dump(it: &Interp, st: &State) {
    for e in st.effects.iter() {
        println!("  EFF {} off {:?} n {} q {:?} cnt {:?} may {} @ {}", it.regions[e.region as usize].name, e.off, e.vals.len(), e.quants.iter().map(|q| format!("{}<{:?}", crate::poly::name(q.0), q.1)).collect::<Vec<_>>(), e.count, e.may, e.loc);
        for (i, v) in e.vals.iter().enumerate().take(6) { println!("      [{i}] {}", show(it, v)); }
    }
}
pub fn show(it: &Interp, v: &V) -> String {
    let sn = |s: SrcId| { let x = src(s); format!("{}[{:?}]{}", it.regions[x.region as usize].name.replace(" plane", "").replace("source ", ""), x.off, if x.ch > 0 { format!(".{}", x.ch) } else { String::new() }) };
    match v {
        V::D(d) => if d.lin { format!("{}bit {}{:.4} e[{:.3},{:.3}] cl {:?} r[{},{}] {:?}", d.bits, d.terms.iter().map(|t| format!("{:.5}*{} + ", t.1, sn(t.0))).collect::<String>(), d.c, d.elo, d.ehi, d.clamp, d.lo, d.hi, d.enc) } else { format!("nonlin({}) [{},{}]", d.deps.iter().map(|s| sn(*s)).collect::<Vec<_>>().join(","), d.lo, d.hi) },
        V::Cat(f) => format!("cat{:?}", f.iter().map(|x| match &x.src { FSrc::C(c) => format!("{}:{c:#x}", x.w), FSrc::Part(d, o) => format!("{}:({})>>{o}", x.w, show(it, &V::D(d.clone()))) }).collect::<Vec<_>>()),
        v => short(v),
    }
}
#[allow(unused)]
fn _x(_: InstId) {}

extern "C" { fn fork() -> i32; fn waitpid(p: i32, s: *mut i32, o: i32) -> i32; fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8; fn _exit(c: i32) -> !; }
/// forks `n` workers that share a task counter; the parent waits for them and exits the analysis in each child on its own
pub fn fork_workers(n: usize) -> &'static std::sync::atomic::AtomicUsize {
    use std::io::Write;
    let c: &'static std::sync::atomic::AtomicUsize = unsafe { &*(mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0) as *const std::sync::atomic::AtomicUsize) };
    if n <= 1 { return c; }
    std::io::stdout().flush().ok();
    let mut kids = vec![];
    for _ in 0..n { let p = unsafe { fork() }; if p == 0 { return c; } kids.push(p); }
    let mut bad = 0;
    for k in kids { let mut s = 0; unsafe { waitpid(k, &mut s, 0); } if s != 0 { bad += 1; } }
    if bad > 0 { eprintln!("{bad} worker(s) failed"); }
    unsafe { _exit(if bad > 0 { 4 } else { 0 }) }
}
