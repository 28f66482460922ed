"""The open-addressing hash table used by the hash algorithms (hash_ai.py)."""
import multiprocessing as mp
import os
import time
import build
import harness
from llvmir import Module
from hash_ai import HashAI

TU = os.path.join(build.HERE, "tu", "hash.cpp")
OPS = [("find", "find"), ("findIdx", "findIdx"), ("force", "force"), ("erase", "erase")]


def plan(kind):
    ins = ["insert_untracked", "insert_tracked"] + (["insert_mask"] if kind == "map" else [])
    return [(kind + "_" + r, o) for r, o in OPS] + [(kind + "_" + r, "insert") for r in ins]


MODS = {}


def job(a):
    path, name, op, who, pres, es, shape, maskoff, pay, deadline = a
    m = MODS.get(path)
    if m is None:
        m = MODS[path] = Module(path)
    I = HashAI(m, m.fns[name], op, who, pres, es, shape=shape, payload=pay, repo=build.REPO, deadline=deadline)
    I.maskoff = maskoff
    try:
        I.run(I.start())
    except Exception as e:   # an unmodelled construct is never a verdict
        I.undecided[("engine", type(e).__name__)] = str(e)
    return dict(name=name, who=who, pres=pres, viol=list(I.violations.values()), und=[(repr(k), v) for k, v in I.undecided.items()],
                states=I.n_states, steps=I.n_steps, paths=I.finished, shape=I.shape, maskoff=I.maskoff)


def run(pid, tier, deadline=None, res=None):
    res = res or harness.Result()
    variants = [("i32", [])] + ([("u64", ["-DVP_K=unsigned long"]), ("i64", ["-DVP_K=long"])] if tier == "thorough" else [])
    deadline = deadline or time.time() + (600 if tier == "quick" else 3000)
    jobs = []
    for tag, extra in variants:
        try:
            path = build.compile_ir(TU, "hash_" + tag, extra)
        except build.BuildError as e:
            raise harness.Broken("hash translation unit does not compile: " + str(e)[-1500:])
        m = MODS[path] = Module(path)
        sizes = [c.val for c in m.globals["vp_entry_size"].init.ops]
        offs = [c.val for c in m.globals["vp_entry_offs"].init.ops]
        for kind, es in zip(("set", "map"), sizes):
            # the home function is the one lookups use
            r0 = job((path, kind + "_find", "find", "c", True, es, None, None, None, deadline))
            for name, op in plan(kind) + [(kind + "_resize", "resize")]:
                f = m.fns.get(name)
                if f is None or f.decl:
                    raise harness.Broken("root %s vanished" % name)
                for who, pres in (("c", True), ("c", False), ("d", True)):
                    if op == "force" and (who == "d" or not pres):
                        continue        # only ever called for stored keys
                    if op == "resize" and not (who == "c" and not pres):
                        continue
                    pay = None
                    if kind == "map" and op == "insert":
                        pay = [(offs[0], ("arg", 1)), (offs[1], ("c", 1))] if name != "map_insert_mask" else [(offs[1], ("c", 0))]
                    jobs.append((path, name, op, who, pres, es, r0["shape"], r0["maskoff"], pay, deadline))
    jobs.sort(key=lambda j: (j[2] != "erase", j[3] != "d"))
    with mp.get_context("fork").Pool(8) as pool:
        outs = pool.map(job, jobs, chunksize=1)
    for r in outs:
        res.obligations += 1
        for v in r["viol"]:
            res.viol(v["kind"], v["where"], v["function"], v["msg"],
                     ["operation %s on %s" % (r["name"], "the followed key" if r["who"] == "c" else "another key")] + v["path"])
        for k, v in r["und"]:
            res.undec("%s: %s %s" % (r["name"], k, v))
        if not r["viol"] and not r["und"]:
            if r["paths"]:
                res.discharged += 1
            else:
                res.undec("%s: no path returns" % r["name"])
        res.samples.append(dict(root=r["name"], key=r["who"], stored=r["pres"], states=r["states"], paths=r["paths"]))
    res.coverage.update(hash_operations=len(outs), hash_states=sum(r["states"] for r in outs), hash_instructions=sum(r["steps"] for r in outs))
    res.assumptions += ["the hash table keeps at least one empty slot (checked for resize)", "the requested capacity is not exceeded",
                        "keys differ from the reserved empty key"]
    return res
