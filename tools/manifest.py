#!/usr/bin/env python3
"""regenerates MANIFEST.json"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
AI = "abstract interpretation of MIR"
CL = {
 "C01": (AI + ": detection queries dominating every extension-specific call", "all"),
 "C02": (AI + ": outcome of calls with invalid arguments", "all"),
 "C03": (AI + ": panic and rejection reachability", "all"),
 "C04": (AI + ": symbolic bounds of every access", "all"),
 "C05": (AI + ": coverage of the store summary", "all"),
 "C06": (AI + ": store summary stays inside the image", "all"),
 "C07": (AI + ": provenance of every stored sample", "all"),
 "C08": (AI + ": affine value forms with error intervals", "all"),
 "C09": (AI + ": provenance of every stored sample", "all"),
 "C10": (AI + ": affine value forms with error intervals", "all"),
 "C11": (AI + ": provenance and value of every stored sample", "all"),
 "C12": (AI + ": exact value of every stored sample", "all"),
 "C13": (AI + ": provenance and value of alpha samples", "all"),
 "C14": (AI + ": value range, shift and byte order of stored samples", "all"),
 "C15": (AI + ": coefficients and biases of the affine value forms against the derived constants", "all"),
 "C16": (AI + ": store summary against the function's name", "all"),
 "C17": ("effect analysis of MIR (global state, impure callees) and " + AI + " for stores through shared references", "all"),
 "C19": (AI + ": constructors and views of images against the validity checks", "all"),
 "C18": (AI + ": store summaries of the sequential and the parallel build compared", "all"),
}
NOTE = ("Every exported conversion is analysed for every dispatched CPU feature set with symbolic sizes, strides and contents; undecided obligations are counted in the "
        "evidence and never reported, a report needs a definite witness. Trusted: rustc's MIR, the transfer functions for x86 intrinsics in driver/src/x86.rs, the "
        "reading of names in driver/src/spec.rs. x86-64 only.")
EXTRA = {}
try:
    from structural_meta import META  # id -> (technique, note)
    EXTRA = META
except ImportError:
    pass
NA = {
 "C20": "Execution time is not decidable from the source by static analysis; nothing in the code states a bound to check.",
 "C21": "A perceptual/numerical quality goal over whole images (iterative gamma-aware downsampling); no static rule in reach bounds it.",
}
LATER = {k: "not built yet" for k in ("C01", "C02", "C15", "C17", "C18", "C19") if k not in EXTRA and k not in CL}
checks = []
for k in sorted(set(CL) | set(EXTRA)):
    tech, note = (CL[k][0], NOTE) if k in CL else EXTRA[k]
    checks.append({"property": k, "quick_cmd": "python3 tools/check.py %s quick" % k, "thorough_cmd": "python3 tools/check.py %s thorough" % k,
                   "technique": "static analysis: " + tech, "level": "other", "level_note": note})
m = {"version": 1, "setup_cmd": "cd driver && LD_LIBRARY_PATH=$(rustc +nightly --print sysroot)/lib cargo +nightly build --release --offline",
     "checks": checks, "not_applicable": [{"property": k, "reason": r} for k, r in sorted({**NA, **LATER}.items())],
     "notes": "No hooks in /repo. Repairs are listed in known_findings.txt."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks")
