#!/usr/bin/env python3
"""Decides one property of /repo from its current source and writes evidence/<id>.json.

usage: check.py ID [quick|thorough]
"""
import collections, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("YV_REPO", "/repo")
CACHE = os.path.join(VERIF, "driver", "target", "yv")
FEATURES = "rdp,geometry,fast_mode,professional_mode,nightly_f16,big_endian,nightly_avx512"
KNOWN = os.path.join(VERIF, "known_findings.txt")

# property -> (kinds of runs, which conversions, kinds of findings, minimum share of decided obligations)
FLOW = {
    "C03": ("LT", "all"), "C04": ("L", "all"), "C05": ("LT", "all"), "C06": ("LX", "all"),
    "C07": ("L", "decode"), "C08": ("LA", "decode"), "C09": ("L", "encode"), "C10": ("A", "encode"),
    "C11": ("L", "repack"), "C12": ("L", "copy"), "C13": ("L", "all"), "C14": ("LA", "all"),
    "C16": ("L", "all"),
}
C03_KINDS = {"panic", "reject", "narrow-overflow", "bounds", "overflow"}
VALUE_PROPS = {"C05", "C07", "C09", "C11", "C12", "C13", "C14"}


def sh(cmd, **kw):
    return subprocess.run(cmd, **kw)


def env():
    e = dict(os.environ)
    root = subprocess.check_output(["rustc", "+nightly", "--print", "sysroot"], text=True, cwd=VERIF).strip()
    e["LD_LIBRARY_PATH"] = root + "/lib"
    e["CARGO_NET_OFFLINE"] = "true"
    for k in ("RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_TARGET_DIR", "RUSTUP_TOOLCHAIN"):
        e.pop(k, None)
    return e


def build_driver():
    r = sh(["cargo", "+nightly", "build", "--release", "--offline", "-q"], cwd=os.path.join(VERIF, "driver"), env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        print(r.stdout[-4000:])
        print("the analysis driver does not build")
        sys.exit(2)


def driver(mode, extra=None, features=FEATURES):
    """runs the driver over the crate and returns its output lines"""
    e = env()
    tgt = os.path.join(CACHE, "t_" + re.sub(r"\W+", "_", features.replace(FEATURES, "std") or "none")[:60])
    os.makedirs(tgt, exist_ok=True)
    # cargo must call the driver again even when it believes nothing changed
    fp = os.path.join(tgt, "debug", ".fingerprint")
    if os.path.isdir(fp):
        for d in os.listdir(fp):
            if d.startswith("yuv-"):
                shutil.rmtree(os.path.join(fp, d))
    if not os.path.exists(os.path.join(REPO, "Cargo.lock")) and os.path.exists("/opt/vp/Cargo.lock"):
        shutil.copy("/opt/vp/Cargo.lock", os.path.join(REPO, "Cargo.lock"))
    e.update(RUSTC_WORKSPACE_WRAPPER=os.path.join(VERIF, "driver/target/release/yvdriver"), RUSTFLAGS="-Zalways-encode-mir", CARGO_TARGET_DIR=tgt, YV_MODE=mode)
    e.update(extra or {})
    out = os.path.join(tgt, "out.%d.txt" % os.getpid())
    with open(out, "w") as f:
        cmd = ["cargo", "+nightly", "check", "--lib", "--offline"]
        if features.startswith("-"):
            features = features[1:]
            cmd += ["--no-default-features"]
        if features:
            cmd += ["--features", features]
        r = sh(cmd, cwd=REPO, env=e, stdout=f, stderr=subprocess.PIPE, text=True)
    with open(out, errors="replace") as f:
        lines = f.read().split("\n")
    os.remove(out)
    if r.returncode != 0:
        print(r.stderr[-3000:])
        print("the crate could not be analysed")
        sys.exit(2)
    return lines


def known(pid):
    ks = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r"known: property=(\w+) key=(.*?) :: (.*)", l)
            if m and m.group(1) == pid:
                ks[m.group(2)] = m.group(3).strip()
    return ks


class Report:
    def __init__(self, pid, tier):
        self.pid, self.tier, self.t0 = pid, tier, time.time()
        self.viol = collections.OrderedDict()  # key -> [message, count, tags]
        self.coverage = {}
        self.level = "other"

    def add(self, key, msg, tag=""):
        v = self.viol.setdefault(key, [msg, 0, []])
        v[1] += 1
        if tag and len(v[2]) < 20:
            v[2].append(tag)

    def finish(self):
        ks = known(self.pid)
        new = [(k, v) for k, v in self.viol.items() if k not in ks]
        old = [(k, v) for k, v in self.viol.items() if k in ks]
        ev = {
            "property": self.pid, "tier": self.tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": self.level,
            "coverage": self.coverage, "wall_s": round(time.time() - self.t0, 1),
            "violations": [{"key": k, "what": v[0], "occurrences": v[1], "where": v[2]} for k, v in new],
            "known_findings": [{"key": k, "occurrences": v[1]} for k, v in old],
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        path = os.path.join(VERIF, "evidence", self.pid + ".json")
        json.dump(ev, open(path, "w"), indent=1)
        for k, v in old:
            print("KNOWN-FINDING: property=%s %s: %s" % (self.pid, k, ks[k]))
        for k, v in new[:40]:
            print("  %s\n      %s" % (k, v[0]))
        if len(new) > 40:
            print("  ... %d more" % (len(new) - 40))
        if new:
            rep = os.path.join(VERIF, "evidence", self.pid + ".violation.txt")
            with open(rep, "w") as f:
                for k, v in new:
                    f.write("%s\n  %s\n  %d occurrence(s): %s\n" % (k, v[0], v[1], "; ".join(v[2])))
            print("VIOLATION property=%s replay=%s" % (self.pid, rep))
            sys.exit(1)
        print("%s: no violation; %s" % (self.pid, self.coverage.get("explanation", "")[:400]))
        sys.exit(0)


def nofn(key):
    """the part of a report key that survives moving code between functions"""
    w = key.split(" ")
    return " ".join(w[:-1]) if "::" in w[-1] else key


def flow(pid, tier):
    rep = Report(pid, tier)
    kinds, cls = FLOW[pid]
    ex = {"YV_KIND": kinds, "YV_CLASS": cls}
    if tier == "quick":
        ex["YV_PAR"] = "11,00"
    else:
        ex["YV_DEEP"] = "1"
    if pid == "C16":
        ex["YV_FEAT"] = "scalar"
    if pid == "C13":
        ex["YV_ALPHA"] = "1"
    lines = driver("1", ex)
    ob = dis = acc = accp = runs = aborts = eff = 0
    entries, kernels, missing, feats = set(), set(), set(), collections.Counter()
    und = collections.Counter()
    unproved = collections.Counter()
    samples = []
    doubt = set()
    shape = collections.Counter()
    for l in lines:
        f = l.split("\t")
        # runs with planes that end with the last sample (T) or that hold more rows than the image (E): one aspect each
        odd = f[3][:1] if len(f) > 3 and f[3][:1] in ("T", "E") else ""
        if odd:
            shape["conversions with tight planes" if odd == "T" else "conversions with extra rows"] += f[0] == "OK"
            if f[0] == "FIND" and pid == "C03" and odd == "T" and f[4] == "panic" and f[5] == "true":
                rep.add("tight planes: panic", "%s: %s in %s" % (f[1], f[7], f[6]), "%s %s" % (f[1], f[3]))
            if f[0] == "REP" and f[5] == "true" and (pid, odd, f[4]) in (("C05", "T", "C05"), ("C06", "E", "C06")):
                rep.add("tight planes: last row not converted" if odd == "T" else "extra rows: rows after the last one are written", f[7], "%s %s" % (f[1], f[3]))
            continue
        if f[0] == "OK":
            runs += 1; entries.add(f[1]); feats[f[2]] += 1; accp += int(f[5]); acc += int(f[6]); eff += int(f[7]); kernels.update(f[9].split(",") if len(f) > 9 and f[9] else [])
        elif f[0] == "ABORT":
            aborts += 1
            und["run given up: " + f[5][:80]] += 1
        elif f[0] == "MISSING":
            missing.add(f[4])
        elif f[0] == "FIND":
            kind, definite, loc, msg = f[4], f[5] == "true", f[6], f[7]
            mine = (pid == "C03" and kind in C03_KINDS) or (pid == "C04" and kind.startswith("oob")) or (pid == "C05" and (kind.startswith("uninit") or kind == "stride-dst")) \
                or (pid in ("C07", "C09", "C11", "C12") and kind.startswith("stride-"))
            if not mine:
                continue
            fn = loc.split("@")[0].split(" < ")[0]
            if definite:
                rep.add("%s %s" % (f[1], kind), "%s: %s in %s" % (f[1], msg, loc), "%s %s" % (f[2], f[3]))
            else:
                unproved["%s in %s" % (kind, fn)] += 1
                doubt.add((f[1], f[2], f[3]))
        elif f[0] == "REP":
            prop, definite, key, msg = f[4], f[5] == "true", f[6], f[7]
            if prop == pid or (pid == "C16" and prop in VALUE_PROPS):
                if definite:
                    k = nofn(key)
                    rep.add("%s %s" % (f[1], k if pid != "C16" else prop + " " + k), msg, "%s %s" % (f[2], f[3]))
                else:
                    und["not certain: " + nofn(key)] += 1
        elif f[0] == "OB":
            if f[4] == pid or (pid == "C16" and f[4] in VALUE_PROPS):
                ob += int(f[5]); dis += int(f[6])
                if len(samples) < 5:
                    samples.append("%s [%s, %s]: %s obligations, %s discharged" % (f[1], f[2], f[3], f[5], f[6]))
        elif f[0] == "UND":
            if f[5].startswith(pid):
                und[f[5][4:]] += int(f[4])
    if pid == "C04":
        ob, dis = acc, accp
    elif pid == "C03":
        # one obligation per run: every path returns Ok, and no assertion or size computation can fail
        ob, dis = runs + aborts, runs - len(doubt)
    what = {
        "C03": "no path of a well-formed call reaches a panic, a rejection or an arithmetic overflow of a size computation",
        "C04": "every memory access of every function reachable from the conversion stays inside its buffer",
    }.get(pid, "every sample stored by the conversion, against the sample its name promises")
    rep.coverage = {
        "explanation": "abstract interpretation of the monomorphised MIR of %d conversions (%d runs over CPU feature sets, size parities, ranges, matrices and modes); rule: %s. %d of %d obligations proved, %d left undecided; a report needs a concrete witness." % (len(entries), runs, what, dis, ob, ob - dis),
        "conversions": len(entries), "runs": runs, "runs_given_up": aborts, "runs_by_feature_set": dict(feats),
        "obligations": ob, "discharged": dis, "stores_summarised": eff,
        "vector_kernels": len(kernels), "unmodelled_intrinsics": sorted(missing),
        "undecided": dict(und.most_common(30)), "unproved_sites": dict(unproved.most_common(30)), "samples": samples,
    }
    if pid != "C04":
        rep.coverage["memory_accesses"] = acc
    if shape:
        rep.coverage["other_plane_shapes"] = dict(shape)
    print("%s: %d conversions, %d runs (%d given up), %d obligations, %d discharged" % (pid, len(entries), runs, aborts, ob, dis))
    floors(rep, pid, tier, len(entries), dis)
    rep.finish()


# an image without rows or columns: mirroring or rotating it is a no-op that may also succeed
NOOP = re.compile(r"mirror_|rotate_")


def invalid(pid, tier):
    """C02: every conversion is interpreted with one defect in its arguments at a time"""
    rep = Report(pid, tier)
    lines = driver("1", {"YV_KIND": "V"})
    n = dis = 0
    entries, kinds, und, samples = set(), collections.Counter(), collections.Counter(), []
    for l in lines:
        f = l.split("\t")
        if f[0] != "BAD":
            continue
        name, feat, tag, outcome, detail = f[1], f[2], f[3], f[4], f[5]
        bad = tag.split(" ", 1)[1]
        planes = f[6].split(",") if len(f) > 6 else []
        m = re.match(r"(\w+)\((\d+)\)", bad)
        what = {"ZeroW": "a width of zero", "ZeroWS": "a width and strides of zero", "ZeroH": "a height of zero"}.get(bad, bad)
        if m:
            i = int(m.group(2))
            pl = planes[i] if i < len(planes) else m.group(2)
            pl = {"s": "source ", "d": "destination "}.get(pl[:1], "") + pl[1:]
            what = {"Short": "a %s plane that is too short by any amount", "Short1": "a %s plane one element too short", "Stride": "a %s stride shorter than a row", "Stride1": "a %s stride one less than a row", "Stride0": "a %s stride of zero", "ShortT": "a %s plane that is too short by any amount, no padding elsewhere,", "StrideH": "a %s stride of half a row in a buffer of the size a proper stride needs", "StrideD": "a %s stride of two rows in a buffer of the size a stride of one row needs", "StrideT": "a %s stride shorter than a row in a buffer of the size a proper stride needs", "StrideL": "a %s stride shorter than a row in an ample buffer"}[m.group(1)] % pl
        n += 1
        entries.add(name)
        kinds[bad.split("(")[0].split(" ")[0]] += 1
        if len(samples) < 6 and n % 997 == 1:
            samples.append("%s [%s] with %s: %s" % (name, feat, what, outcome))
        if outcome == "err" or (NOOP.match(name) and bad in ("ZeroW", "ZeroH", "ZeroWS") and outcome == "ok"):
            dis += 1
        elif outcome == "unknown":
            und["%s with %s: %s" % (name, what, re.sub(r"@src/\S+", "", detail)[:100])] += 1
        else:
            rep.add("%s %s %s" % (name, bad, outcome), "%s given %s: %s" % (name, what, {"ok": "returns Ok", "panic": "panics: " + detail, "wrote": "returns an error after it " + detail}[outcome]), "%s %s" % (feat, tag))
    rep.coverage = {
        "explanation": "abstract interpretation of %d functions with one defect in the arguments at a time and symbolic sizes; rule: the call returns an error on every path, without a panic and without a store to a destination plane. %d of %d combinations proved, %d undecided." % (len(entries), dis, n, n - dis),
        "conversions": len(entries), "obligations": n, "discharged": dis, "combinations_by_defect": dict(kinds), "undecided": dict(und.most_common(40)), "samples": samples,
    }
    print("%s: %d functions, %d combinations, %d discharged" % (pid, len(entries), n, dis))
    floors(rep, pid, tier, len(entries), dis)
    rep.finish()


def dispatch(pid, tier):
    """C01: every function compiled for a CPU extension is reached only after a detection query for it said yes"""
    rep = Report(pid, tier)
    combos = [FEATURES, "-" + FEATURES.replace(",nightly_avx512", "") + ",sse"]
    if tier != "quick":
        base = FEATURES.replace(",nightly_avx512", "")
        combos = [FEATURES] + ["-" + ",".join([base] + c) for c in ([], ["sse"], ["avx"], ["avx", "sse"], ["nightly_avx512"], ["nightly_avx512", "sse"], ["nightly_avx512", "avx"])]
    runs = calls = aborts = 0
    entries, reached, fns, samples, und = set(), set(), set(), [], collections.Counter()
    feats = collections.Counter()
    for c in combos:
        for l in driver("1", {"YV_KIND": "F", "YV_PAR": "11" if tier == "quick" else "11,10,01,00"}, c):
            f = l.split("\t")
            if f[0] == "FEATFN":
                fns.add(f[1])
            elif f[0] == "FEAT":
                runs += 1; calls += int(f[4]); entries.add(f[1]); feats[f[2]] += 1
                reached.update(x for x in f[5].split(";") if x)
                if len(samples) < 6 and runs % 501 == 7:
                    samples.append("%s [%s]: %s extension-specific functions called (%s)" % (f[1], f[2], f[4], f[5][:150]))
            elif f[0] == "ABORT":
                aborts += 1
                und["run given up: " + f[5][:80]] += 1
            elif f[0] == "FIND" and f[4] == "feature":
                if f[5] == "true":
                    # one report per function entered without its extensions, not per caller
                    rep.add(f[7].split(" is compiled")[0] + " " + f[7].split("compiled for ")[1].split(" but")[0], "%s on a CPU with [%s]: %s; at %s" % (f[1], f[2], f[7], f[6]), "%s %s" % (f[1], f[2]))
                else:
                    und["not certain: " + f[7][:120]] += 1
    rep.coverage = {
        "explanation": "abstract interpretation of %d conversions over %d CPU extension sets and %d Cargo feature sets; rule: at each first call of a function compiled with target_feature (the crate's own or core::arch's) every such extension is implied by the detection queries that returned true on this path. %d such calls, %d of the crate's %d extension-specific functions reached." % (len(entries), len(feats), len(combos), calls, len(reached & fns), len(fns)),
        "conversions": len(entries), "runs": runs, "runs_given_up": aborts, "runs_by_feature_set": dict(feats), "obligations": calls, "discharged": calls - sum(v[1] for v in rep.viol.values()) - sum(v for k, v in und.items() if k.startswith("not")),
        "extension_specific_functions": len(fns), "not_reached": sorted(fns - reached), "undecided": dict(und.most_common(20)), "cargo_feature_sets": combos, "samples": samples,
    }
    print("%s: %d conversions, %d runs, %d calls, %d of %d functions reached" % (pid, len(entries), runs, calls, len(reached & fns), len(fns)))
    floors(rep, pid, tier, len(entries), rep.coverage["discharged"])
    rep.finish()


def purity(pid, tier):
    """C17: no global state, clock, environment or foreign code; no store through a shared reference"""
    rep = Report(pid, tier)
    runs = aborts = bodies = calls = consts = shared = 0
    stats, notes, entries, effects, und = [], [], set(), 0, collections.Counter()
    feats = collections.Counter()
    ex = {"YV_KIND": "LP", "YV_PAR": "11,00" if tier == "quick" else "11,10,01,00"}
    for l in driver("1", ex):
        f = l.split("\t")
        if f[0] == "PURE":
            bodies, calls, consts, shared, stats = int(f[1]), int(f[2]), int(f[3]), int(f[4]), [x for x in f[5].split(";") if x]
        elif f[0] == "IMPURE":
            rep.add("%s %s" % (f[1], f[2]), "%s, used in %s" % (f[2], f[3]), f[3])
        elif f[0] == "NOTE":
            notes.append("%s (%s)" % (f[2], f[1]))
        elif f[0] == "OK":
            runs += 1; entries.add(f[1]); feats[f[2]] += 1; effects += int(f[7])
        elif f[0] == "ABORT":
            aborts += 1; und["run given up: " + f[5][:80]] += 1
        elif f[0] == "FIND" and f[4] in ("source-write", "static-write"):
            if f[5] == "true":
                rep.add("%s %s" % (f[1], f[4]), "%s: %s in %s" % (f[1], f[7], f[6]), "%s %s" % (f[2], f[3]))
            else:
                und["not certain: %s in %s" % (f[7], f[6].split("@")[0])] += 1
    rep.coverage = {
        "explanation": "scan of the MIR of all %d functions of the crate (%d callees, %d constants) for statics with interior mutability, thread-local state, one-time cells filled from arguments, clocks, environment, randomness, files, sockets and foreign code, and abstract interpretation of %d conversions (%d runs, %d stores) for stores through source planes or statics; %d read-only statics are used." % (bodies, calls, consts, len(entries), runs, effects, len(stats)),
        "functions_scanned": bodies, "callees": calls, "constants": consts, "read_only_statics": stats, "notes": notes,
        "conversions": len(entries), "runs": runs, "runs_given_up": aborts, "runs_by_feature_set": dict(feats), "obligations": bodies + runs + aborts, "discharged": bodies + runs - len(und),
        "stores": effects, "undecided": dict(und.most_common(20)),
        "samples": ["static %s: read-only" % s for s in stats[:3]] + ["%s: no store to a source plane" % e for e in sorted(entries)[:3]],
    }
    print("%s: %d functions scanned, %d conversions, %d runs" % (pid, bodies, len(entries), runs))
    floors(rep, pid, tier, len(entries), rep.coverage["discharged"])
    rep.finish()


def parallel(pid, tier):
    """C18: the crate is analysed twice, with sequential and with parallel row iteration, and the store summaries compared"""
    rep = Report(pid, tier)
    res = []
    ex = {"YV_KIND": "LDP", "YV_PAR": "11,00" if tier == "quick" else "11,10,01,00"}
    if tier == "quick":
        ex["YV_FEAT"] = "scalar,avx2"
    for feats in (FEATURES, FEATURES + ",rayon"):
        r = {"dig": {}, "bad": {}, "ab": set(), "shared": 0, "par": 0}
        for l in driver("1", ex, feats):
            f = l.split("\t")
            if f[0] == "DIG":
                r["dig"][(f[1], f[2], f[3])] = (f[4], f[5]); r["par"] += int(f[6])
            elif f[0] == "ABORT":
                r["ab"].add((f[1], f[2], f[3]))
            elif f[0] == "PURE":
                r["shared"] = int(f[4])
            elif f[0] == "FIND" and f[5] == "true":
                r["bad"].setdefault((f[1], f[4]), ("%s: %s in %s" % (f[1], f[7], f[6]), "%s %s" % (f[2], f[3])))
            elif f[0] == "REP" and f[5] == "true":
                r["bad"].setdefault((f[1], f[4] + " " + nofn(f[6])), (f[7], "%s %s" % (f[2], f[3])))
        res.append(r)
    seq, par = res
    same, diff = 0, []
    for k, d in par["dig"].items():
        if seq["dig"].get(k) == d:
            same += 1
        else:
            diff.append(k)
    # what goes wrong in one of the two builds only
    for here, there, how in ((par, seq, "with parallel iteration only"), (seq, par, "without parallel iteration only")):
        for k, (m, tag) in here["bad"].items():
            if k not in there["bad"] and k[0] in {x[0] for x in there["dig"]}:
                rep.add("%s %s" % k, how + ": " + m, tag)
    n = len(set(par["dig"]) | set(seq["dig"]) | par["ab"] | seq["ab"])
    entries = {k[0] for k in par["dig"]}
    rep.coverage = {
        "explanation": "the crate is compiled and abstractly interpreted with and without its rayon feature; rule: the summaries of all stores (place, extent, quantified rows and blocks, value) of a conversion are equal, or, where they are not, the parallel one breaks none of the rules that the sequential one keeps. %d of %d summaries are identical (%d conversions, %d parallel iterators met); %d hand-written Send/Sync promises, so that tasks cannot share a destination sample follows from the borrow checker." % (same, n, len(entries), par["par"], par["shared"]),
        "conversions": len(entries), "obligations": n, "discharged": same, "parallel_iterators": par["par"], "runs_given_up": len(par["ab"] | seq["ab"]), "unsafe_send_or_sync_impls": par["shared"],
        "undecided": {"summaries differ: %s [%s, %s]" % k: 1 for k in diff[:40]},
        "samples": ["%s [%s, %s]: %s stores, digest %s in both" % (k + (d[1], d[0])) for k, d in list(par["dig"].items())[:5]],
    }
    print("%s: %d conversions, %d of %d summaries identical, %d parallel iterators" % (pid, len(entries), same, n, par["par"]))
    if not par["par"]:
        print("no parallel iterator was met")
        sys.exit(2)
    floors(rep, pid, tier, len(entries), same)
    rep.finish()


def images(pid, tier):
    """C19: every image type the library allocates, and the views taken of it, with symbolic sizes"""
    rep = Report(pid, tier)
    n = dis = 0
    types, facts, und, samples = set(), collections.Counter(), collections.Counter(), []
    for l in driver("1", {"YV_KIND": "M"}):
        f = l.split("\t")
        if f[0] != "IMG":
            continue
        ty, cfg, what, outcome, detail = f[1], f[2], f[3], f[4], f[5] if len(f) > 5 else ""
        n += 1
        types.add(ty); facts[what] += 1
        if n % 149 == 1 and len(samples) < 6:
            samples.append("%s, %s: %s %s" % (ty, cfg, what, outcome))
        if outcome == "ok":
            dis += 1
        elif outcome == "bad":
            rep.add("%s %s" % (ty, what), "%s: %s does not hold (%s): %s" % (ty, what, cfg, detail), cfg)
        else:
            und["%s %s: %s" % (ty, what, detail[:100])] += 1
    rep.coverage = {
        "explanation": "abstract interpretation of the constructors and views of %d image types with symbolic width and height (every parity and subsampling); rule: what alloc returns passes the validity checks and holds every sample of the image, and to_fixed / from_mut give views of the same planes, strides and size that pass them too. %d of %d facts proved, %d undecided." % (len(types), dis, n, n - dis),
        "conversions": len(types), "obligations": n, "discharged": dis, "image_types": sorted(types), "facts": dict(facts.most_common(60)), "undecided": dict(und.most_common(40)), "samples": samples,
    }
    print("%s: %d image types, %d facts, %d proved" % (pid, len(types), n, dis))
    floors(rep, pid, tier, len(types), dis)
    rep.finish()


# models whose fixed-point constants are truncated, or halved and quartered after rounding
COARSE = re.compile(r"ycgco|^rdp_")
FAST_LIMIT = 127 / 64  # the six-bit decoder keeps its coefficients in a signed byte
MATRIX = ["Bt601", "Bt709", "Bt2020", "Smpte240", "Bt470_6", "Fcc", "Custom(0.28, 0.09)"]


def fixed_point(vals, scale):
    """(fraction bits, pre-expansion factor): the smallest format in which all coefficients are exact"""
    for p in range(0, 16):
        ok = True
        for a in vals:
            if not any(abs(a / s * 2 ** p - round(a / s * 2 ** p)) < 2e-3 for s in scale):
                ok = False
                break
        if ok:
            return p
    return None


def constants(pid, tier):
    """C15: the coefficients and biases that reach the stored samples against the ones derived from Kr and Kb"""
    rep = Report(pid, tier)
    ex = {"YV_KIND": "K"}
    if tier == "quick":
        ex["YV_FEAT"] = "scalar,avx2"
    coefs, biases = collections.defaultdict(list), collections.defaultdict(set)
    runs = aborts = 0
    entries, feats, und, samples, formats = set(), collections.Counter(), collections.Counter(), [], collections.Counter()
    cfg = re.compile(r"r(\d)m(\d)o(\d)")
    for l in driver("1", ex):
        f = l.split("\t")
        if f[0] == "CF":
            r, m, o = map(int, cfg.search(f[3]).groups())
            if f[4] == "C":
                coefs[(f[1], f[2], o, f[5])].append((r, m, f[6], float(f[7]), float(f[8]), float(f[9]), int(f[10])))
            else:
                biases[(f[1], f[2], o, f[5])].add((r, m, f[6], float(f[7]), float(f[8]), float(f[9]), f[10]))
        elif f[0] == "OK":
            runs += 1; entries.add(f[1]); feats[f[2]] += 1
        elif f[0] == "ABORT":
            aborts += 1; und["run given up: " + f[5][:80]] += 1
        elif f[0] == "UND" and "non-linear" in f[5]:
            und["no coefficient: " + f[5]] += int(f[4])
    n = dis = 0

    def conf(r, m, o):
        return "%s, %s range, %s mode" % (MATRIX[m], ["limited", "full"][r], ["fast", "balanced", "professional"][o])

    for (name, feat, o, cls), cs in sorted(coefs.items()):
        bits = cs[0][6]
        scale = (1.0, 1 + 2.0 ** -bits) if feat != "scalar" else (1.0,)
        p = fixed_point([c[3] for c in cs], scale)
        formats["%s: %s fraction bits" % (cls, p)] += 1
        ulp = 2.0 ** -(p if p is not None else 13)
        tol = (1.01 if COARSE.search(name) else 0.53) * ulp
        # luma weights which, rounded one by one, would sum to more than one: the largest gives up the excess
        luma = collections.defaultdict(set)
        for r, m, ch, a, b, d, _ in cs:
            if ch == "y" and cls == "encode":
                luma[(r, m)].add(b)
        kept = {}
        for k, w in luma.items():
            total = sum(round(x / ulp) for x in w) * ulp
            if len(w) == 3 and abs(sum(w) - 1) < 1e-6 and total > 1:
                kept[k] = (max(w), round(max(w) / ulp) * ulp - (total - 1))
        for r, m, ch, a, b, d, _ in cs:
            n += 1
            # a change of depth may be a division by 2^n; a sample may be widened by repeating its high bits
            want = [b * s for s in scale] + [b / d * s for s in scale]
            if o == 0 and cls == "decode" and abs(b) > FAST_LIMIT:
                want += [FAST_LIMIT, -FAST_LIMIT]
            if ch == "y" and (r, m) in kept and b == kept[(r, m)][0]:
                want += [kept[(r, m)][1] * s for s in scale]
            e = min(abs(a - w) for w in want)
            if e <= tol * (1 + 1e-6):
                dis += 1
                if n % 9973 == 1 and len(samples) < 6:
                    samples.append("%s [%s] %s: %.6f for %s, exact %.6f, %s fraction bits" % (name, feat, conf(r, m, o), a, ch, b, p))
            else:
                rep.add("%s %s coefficient" % (name, cls), "%s uses %.6f in component %s where %s gives %.6f (%.2f units of 2^-%s)" % (name, a, ch, conf(r, m, o), min(want, key=lambda w: abs(a - w)), e / ulp, p if p is not None else 13), "%s %s" % (feat, conf(r, m, o)))
    for (name, feat, o, cls), bs in sorted(biases.items()):
        for r, m, ch, c, lo, hi, loc in bs:
            n += 1
            # rounding to nearest centres the error, truncation moves it by half a step
            mid = c + (lo + hi) / 2
            if -0.52 <= mid <= 0.02:
                dis += 1
            else:
                rep.add("%s %s bias" % (name, cls), "%s: the bias of component %s is off by %.3f (%s); stored in %s" % (name, ch, mid, conf(r, m, o), loc), "%s %s" % (feat, conf(r, m, o)))
    rep.coverage = {
        "explanation": "abstract interpretation of %d conversions for seven matrices (one of them custom), both ranges and all modes yields the exact linear form of every stored sample; rule: each coefficient is the one derived from Kr, Kb and the quantisation ranges within half a unit of the fixed-point format (found as the smallest that holds all coefficients of the conversion), and each bias is exact up to rounding or truncation. %d of %d constants agree." % (len(entries), dis, n),
        "conversions": len(entries), "runs": runs, "runs_given_up": aborts, "runs_by_feature_set": dict(feats), "obligations": n, "discharged": dis, "formats": dict(formats.most_common(40)), "undecided": dict(und.most_common(20)), "samples": samples,
    }
    print("%s: %d conversions, %d runs, %d constants, %d agree" % (pid, len(entries), runs, n, dis))
    floors(rep, pid, tier, len(entries), dis)
    rep.finish()


def floors(rep, pid, tier, conv, dis):
    floor = json.load(open(os.path.join(VERIF, "tools", "floors.json"))).get(pid, {}).get(tier, {})
    if not rep.viol and (conv < floor.get("conversions", 1) or dis < floor.get("discharged", 1)):
        print("the analysis decided too little: %d functions (at least %s), %d obligations (at least %s)" % (conv, floor.get("conversions"), dis, floor.get("discharged")))
        rep.coverage["explanation"] += " FLOOR NOT REACHED"
        json.dump({"property": pid, "tier": tier, "seed": 1, "level": "other", "coverage": rep.coverage, "wall_s": time.time() - rep.t0}, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"))
        sys.exit(2)


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else "quick"
    build_driver()
    if pid in FLOW:
        flow(pid, tier)
    elif pid == "C01":
        dispatch(pid, tier)
    elif pid == "C17":
        purity(pid, tier)
    elif pid == "C18":
        parallel(pid, tier)
    elif pid == "C02":
        invalid(pid, tier)
    elif pid == "C15":
        constants(pid, tier)
    elif pid == "C19":
        images(pid, tier)
    else:
        sys.path.insert(0, os.path.join(VERIF, "tools"))
        import structural
        structural.run(pid, tier, sys.modules[__name__])


if __name__ == "__main__":
    sys.modules.setdefault("check", sys.modules[__name__])
    main()
