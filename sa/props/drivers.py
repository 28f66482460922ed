"""The multiplication drivers around the row algorithms (driver_ai.py)."""
import multiprocessing as mp
import os
import time
import build
import harness
from llvmir import Module
from driver_ai import ProductAI

TU = os.path.join(build.HERE, "tu", "drivers.cpp")
MODS = {}
PUSH = ["one_push", "two_push", "one_compl", "two_compl"]
INNER = ["one_inner", "two_inner"]
ALL = PUSH + INNER + ["one_poly"]
COST = {"one_poly": 220, "two_inner": 91, "one_push": 59, "one_compl": 59, "two_push": 32, "two_compl": 32, "one_inner": 7}

ASSEMBLY = ("result", "uninit", "twice", "row", "argument", "hint", "ctor", "estimate", "oob", "bufcap", "overlap", "assert", "null", "div")
RACE = ("race", "barrier", "threads")
MEMORY = ("leak", "doublefree", "badfree", "uaf", "scratch", "inputfree", "inputwrite")


def scenario(root, nt, alias, team, var):
    return dict(r=False, alias=list(alias), nt=nt, team=team, csc="inner" in root, compl="compl" in root, deflt=2,
                itsize=8 if var == "u64f" else 4, ntsize=4 if var == "u64f" else 8)


def job(a):
    path, root, nt, alias, team, var, deadline = a
    t = time.time()
    m = MODS.get(path)
    if m is None:
        m = MODS[path] = Module(path)
    I = ProductAI(m, root, scenario(root, nt, alias, team, var), max_states=4000000, deadline=deadline)
    I.repo = build.REPO
    try:
        I.run(I.start())
    except Exception as e:   # an unmodelled construct is never a verdict
        I.undecided[("engine", type(e).__name__)] = str(e)
    return dict(root=root, nt=nt, alias=alias, team=team, var=var, viol=list(I.violations.values()),
                und=[(repr(k), v) for k, v in I.undecided.items()], states=I.n_states, steps=I.n_steps, paths=I.finished,
                fns=sorted(getattr(I, "fns", ())), wall=time.time() - t)


def tasks(which, tier):
    """(root, threads, alias, team, types)"""
    th = tier == "thorough"
    t = []
    if which in ("assembly", "memory"):
        t += [(r, 1, "", None, "i32d") for r in ALL] + [(r, 2, "", None, "i32d") for r in PUSH + INNER]
        if which == "assembly":
            t += [(r, 1, "", None, "u64f") for r in ALL]
        if th:
            t += [("one_poly", 2, "", None, "i32d"), ("one_inner", 3, "", None, "i32d"), ("two_push", 3, "", None, "i32d"),
                  ("two_compl", 3, "", None, "i32d")]
    elif which == "schedule":
        t += [(r, 1, "", None, "i32d") for r in ALL] + [(r, 2, "", None, "i32d") for r in ALL]
        t += [(r, 2, "", 1, "i32d") for r in ALL] + [("one_inner", 3, "", None, "i32d"), ("one_inner", 3, "", 2, "i32d")]
        if th:
            t += [(r, 3, "", None, "i32d") for r in ("two_push", "two_compl", "one_push", "one_compl", "two_inner")]
            t += [(r, 3, "", 2, "i32d") for r in ("two_push", "one_push", "two_inner")]
    elif which == "alias":
        for r in ALL:
            for al in ("A", "B", "M"):
                if "inner" in r and al == "B":
                    continue
                t.append((r, 1, al, None, "i32d"))
        t += [("one_push", 2, "B", None, "i32d"), ("two_push", 2, "A", None, "i32d"), ("one_inner", 2, "A", None, "i32d"),
              ("one_inner", 2, "M", None, "i32d")]
        if th:
            t += [(r, 2, al, None, "i32d") for r in PUSH + ["two_inner"] for al in ("A", "M")]
    return t


def run(pid, tier, which, kinds, deadline=None, res=None):
    res = res or harness.Result()
    deadline = deadline or time.time() + (700 if tier == "quick" else 6000)
    paths = {}
    T = tasks(which, tier)
    for var, extra in (("i32d", []), ("u64f", ["-DVP_IT=unsigned long", "-DVP_NT=float"])):
        if any(t[4] == var for t in T):
            try:
                paths[var] = build.compile_ir(TU, "drivers_" + var, extra)
            except build.BuildError as e:
                raise harness.Broken("driver translation unit does not compile: " + str(e)[-1500:])
            m = MODS[paths[var]] = Module(paths[var])
            for r in ALL:
                if r not in m.fns or m.fns[r].decl:
                    raise harness.Broken("root %s vanished" % r)
    T.sort(key=lambda t: -COST[t[0]] * (1 if t[1] == 1 else 60 if t[1] == 2 else 600) * (1 if t[3] is None else 0.3))
    jobs = [(paths[t[4]],) + t + (deadline,) for t in T]
    with mp.get_context("fork").Pool(8) as pool:
        outs = pool.map(job, jobs, chunksize=1)
    one = set()
    if which == "schedule":       # what also fails with one thread is not about the schedule
        for r in outs:
            if r["nt"] == 1:
                one |= {(r["root"], v["kind"], v["where"], v["msg"]) for v in r["viol"]}
    fns = set()
    for r in outs:
        if which == "schedule" and r["nt"] == 1:
            continue
        res.obligations += 1
        fns.update(r["fns"])
        bad = [v for v in r["viol"] if (not kinds or v["kind"] in kinds) and (r["root"], v["kind"], v["where"], v["msg"]) not in one]
        cfg = "%s, %d thread(s) requested%s%s" % (r["root"], r["nt"], "" if not r["team"] else ", %d granted" % r["team"],
                                                 "" if not r["alias"] else ", result is also %s" % r["alias"])
        for v in bad:
            res.viol(v["kind"], v["where"], v["function"], v["msg"], [cfg, v["input"]] + v["path"])
        for k, v in r["und"]:
            res.undec("%s: %s %s" % (cfg, k, v))
        if not bad and not r["und"]:
            if r["paths"]:
                res.discharged += 1
            else:
                res.undec("%s: no path returns" % cfg)
        res.samples.append(dict(config=cfg, types=r["var"], states=r["states"], paths=r["paths"], wall=round(r["wall"], 1)))
    res.coverage.update(driver_configurations=res.obligations, driver_states=sum(r["states"] for r in outs),
                        driver_instructions=sum(r["steps"] for r in outs), functions=sorted(fns)[:60],
                        rule="one followed row q with symbolic sizes; every thread phase between barriers; violation kinds " + ", ".join(kinds or ("all",)))
    res.assumptions += ["the row algorithm keeps its contract (decided by C01-C06)", "matrices have an inner dimension of at least one",
                        "work estimates bound the row's result (contract of calculateFlops)", "sizes do not overflow the index type"]
    return res
