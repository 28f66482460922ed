#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the one table below."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SB = "spgemm-blocks/"
KERNEL_FILES = [SB + "msa/MSAAlgorithm.h", SB + "msa/MaskedSparseAccumulator1A.h", SB + "msa/MaskedSparseAccumulator2A.h",
                SB + "hash/MaskedHashAlgorithm.h", SB + "hash/HashAccumulator.h", SB + "mca/MCAAlgorithm.h",
                SB + "mca/MaskCompressedAccumulator.h", SB + "heap/MaskedHeapAlgorithmInspect.h", SB + "heap/Heap.h"]
KA = "abstract interpretation of LLVM IR (own domain: one arbitrary column, one arbitrary inner index)"
KN = ("Fixpoint over all abstract states of every instantiated kernel; complete for the stated input contract. Trusts the clang front end, "
      "the compiler passes used, the contracts of std:: algorithms and of the heap comparator, and the abstraction; index overflow is excluded.")
P = []


def prop(id, title, statement, over, quant, why, files, mechanism, technique=None, level="proof", note="", na=None, state=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mechanism=mechanism,
                  technique=technique, level=level, note=note, na=na, state=state))


exec(open(os.path.join(HERE, "tools", "table.py")).read())

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        d = {"id": p["id"], "title": p["title"], "statement": p["statement"],
             "quantifier": {"over": p["over"], "text": p["quant"]}, "why_tests_cant": p["why"],
             "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]]}}
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(d) + "\n")
m = {"version": 1, "setup_cmd": "python3 -c \"import ctypes; ctypes.CDLL('libLLVM-18.so')\" || ls /usr/lib/llvm-18/lib/libLLVM*.so*",
     "checks": [], "not_applicable": [],
     "notes": "All checks are static: they compile analysis translation units against /repo's headers to LLVM IR and interpret that IR abstractly; no code of /repo is executed. No hooks in /repo."}
for p in P:
    if p["na"]:
        m["not_applicable"].append({"property": p["id"], "reason": p["na"]})
    else:
        m["checks"].append({"property": p["id"], "quick_cmd": "python3 check.py %s quick" % p["id"],
                            "thorough_cmd": "python3 check.py %s thorough" % p["id"], "technique": p["technique"],
                            "level": p["level"], "level_note": p["note"]})
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
