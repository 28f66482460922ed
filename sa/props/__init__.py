"""property id -> (module, arguments)"""
PUSH = ["MSA1A", "MSA2A", "Hash", "MCA", "Heap0", "Heap1", "Heap2", "HeapDot"]
COMPL = ["MSA1Ac", "MSA1Acs", "MSA2Ac", "MSA2Acs", "Hashc", "Hashcs", "Heapc"]
ROW = ("missing", "dup", "value", "mask", "spurious", "align", "uninit", "assert", "noresult")

REGISTRY = {
    "C01": ("kernels", dict(roots=["num_" + x for x in PUSH], kinds=ROW, table=True)),
    "C02": ("kernels", dict(roots=["num_" + x for x in COMPL], kinds=ROW, table=True)),
    "C03": ("kernels", dict(roots=["num_Inner"], kinds=ROW)),
    "C04": ("kernels", dict(roots=["sym_" + x for x in PUSH + COMPL + ["Inner"]],
                                       kinds=("count", "uninit", "assert", "noresult"), table=True)),
    "C05": ("kernels", dict(roots=["num_" + x for x in PUSH + ["MSA1Acs", "MSA2Acs", "Hashcs", "Heapc", "Inner"]],
                                  kinds=("order",))),
    "C07": ("hashtab", dict()),
    "C06": ("kernels", dict(roots=[p + x for p in ("num_", "sym_") for x in PUSH + COMPL + ["Inner"]],
                                        kinds=("oob", "foreign", "inputwrite", "rowslot"))),
    "C08": ("drivers", dict(which="assembly", kinds=("result", "uninit", "twice", "row", "argument", "hint", "ctor", "estimate", "oob", "bufcap",
                                                      "overlap", "assert", "null", "div"))),
    "C09": ("drivers", dict(which="schedule", kinds=())),
    "C10": ("drivers", dict(which="memory", kinds=("leak", "doublefree", "badfree", "uaf", "scratch", "inputfree", "inputwrite"))),
    "C11": ("drivers", dict(which="alias", kinds=())),
}
