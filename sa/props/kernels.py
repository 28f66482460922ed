"""Row-kernel properties, decided by the abstract interpreter in kernel_ai.py."""
import gc
import multiprocessing as mp
import os
import time
import build
import harness
from props import hashtab
from llvmir import Module
from kernel_ai import Interp

POLICIES = [("M", "B", "key", "heap"), ("heap", "key"), ("B", "key", "heap"), ("M",)]
TU = os.path.join(build.HERE, "tu", "kernels.cpp")
MODS = {}
# slowest first, so that the pool is balanced
COST = ["Hashcs", "Hashc", "Hash", "Heap2", "HeapDot", "Heapc", "Heap0", "Heap1"]


def variant(name):
    base = name.split("_", 1)[1]
    compl = base.rstrip("s").endswith("c")
    sorted_out = not (compl and not base.endswith("s") and "Heap" not in base)
    return compl, sorted_out, "Inner" in base


def job(a):
    path, name, kinds, deadline, max_states = a
    gc.disable()
    t0 = time.time()
    m = MODS.get(path)
    if m is None:
        m = MODS[path] = Module(path)
    f = m.fns.get(name)
    if f is None or f.decl:
        return name, None
    compl, srt, csc = variant(name)
    mode = name[:3]
    r = None
    for pol in (POLICIES if mode == "sym" else POLICIES[:1]):
        I = Interp(m, f, mode, complemented=compl, sorted_out=srt, csc=csc, max_states=max_states, repo=build.REPO,
                   focus_src=pol, kinds=kinds, deadline=deadline)
        try:
            I.run()
        except (RecursionError, MemoryError) as e:
            I.undecided[("engine", type(e).__name__)] = "analysis gave up"
        except Exception as e:  # an unmodelled construct is never a verdict
            I.undecided[("engine", type(e).__name__)] = "analysis gave up: %s" % (e,)
        cur = dict(root=name, violations=list(I.violations.values()), undecided=[repr(k) + " " + str(v) for k, v in I.undecided.items()],
                   states=I.n_states, steps=I.n_steps, rows=I.rows_checked, outcomes=sorted(map(repr, I.row_outcomes)),
                   other=[list(k) + [v] for k, v in I.other.items()], fns=len(I.fns), policy=pol, wall=0, compl=compl)
        # which kinds of input reached the end of a row
        cur["inputs"] = sorted({(bool(o[0][0]), bool(o[2])) for o in I.row_outcomes})
        miscount = any(v["kind"] == "count" for v in cur["violations"]) or any(k[0] == "count" for k in I.other)
        if r is None or not miscount:
            r = cur
        if not miscount:
            break
    r["wall"] = round(time.time() - t0, 1)
    gc.collect()
    return name, r


def run(pid, tier, roots, kinds, table=False):
    res = harness.Result()
    extra_types = [("i32", [])]
    if tier == "thorough":
        extra_types += [("u64", ["-DVP_IT=unsigned long", "-DVP_NT=float"]), ("i64", ["-DVP_IT=long", "-DVP_NT=double"])]
    jobs = []
    budget = 780 if tier == "quick" else 3300
    deadline = time.time() + budget
    for tag, extra in extra_types:
        try:
            p = build.compile_ir(TU, "kernels_" + tag, extra)
        except build.BuildError as e:
            raise harness.Broken("kernel translation unit does not compile: " + str(e)[-1500:])
        for r in roots:
            jobs.append((p, r, tuple(kinds), deadline, 600000))

    def cost(j):
        b = j[1].split("_", 1)[1]
        return (COST.index(b) if b in COST else 99, j[1])
    jobs.sort(key=cost)
    with mp.get_context("fork").Pool(min(8, os.cpu_count() or 1, len(jobs)), maxtasksperchild=2) as pool:
        out = pool.map(job, jobs, chunksize=1)
    tot = dict(states=0, steps=0, rows=0)
    per = []
    for name, r in out:
        res.obligations += 1
        if r is None:
            raise harness.Broken("root %s is missing" % name)
        for k in tot:
            tot[k] += r[k]
        bad = False
        for v in r["violations"]:
            bad = True
            res.viol(v["kind"], "%s:%s" % (v["file"], v["line"]), "%s <- %s" % (v["function"], name), v["msg"],
                     ["root: " + name, "input: " + v["input"]] + ["path: " + x for x in v["path"]])
        for u in r["undecided"]:
            res.undec("%s: %s" % (name, u))
        clean = not r["undecided"] and not bad and not r["other"]
        if clean:
            # every kind of row must be able to complete
            need = {(m, p) for m in (False, True) for p in (False, True)}
            lost = need - {tuple(x) for x in r["inputs"]}
            if lost and "noresult" in kinds:
                bad = True
                for m, p in sorted(lost):
                    res.viol("noresult", "spgemm-blocks", name,
                             "no path completes the row when the mask %s the tracked column and a product %s" % (
                                 "contains" if m else "lacks", "exists" if p else "does not exist"), [])
        if not bad and not r["undecided"] and not (r["other"]):
            res.discharged += 1
        per.append({"root": name, "states": r["states"], "row_ends": r["rows"], "distinct_outcomes": len(r["outcomes"]),
                    "functions": r["fns"], "seconds": r["wall"], "outside_property": r["other"][:3]})
        res.samples += ["%s: (mask row has c, cursor), A has k*, product, entries, other products -> %s" % (name, o) for o in r["outcomes"][:1]]
    if tot["rows"] == 0 and not res.violations and not res.undecided:
        raise harness.Broken("no row end was reached: the analysis explored nothing")
    res.coverage = dict(abstract_states=tot["states"], instructions_interpreted=tot["steps"], row_ends_checked=tot["rows"], roots=per,
                        rule="abstract interpretation to fixpoint; violation kinds decided: " + ", ".join(kinds))
    res.assumptions = [
        "inputs are valid CSR/CSC: row pointers monotone, column ids in range, sorted and duplicate free per row",
        "index arithmetic does not overflow the index type; values are opaque (addop commutative and associative)",
        "the heap of Heap.h is the minimum queue its comparator defines; std:: algorithms meet their specifications",
    ]
    if table:
        # the kernel analysis treats the hash table's probing abstractly: decide the table itself, too
        hashtab.run(pid, tier, max(deadline, time.time() + 120), res)
    return res
