"""A small forking abstract interpreter over llvmir objects.

Subclasses give the value domain: how instructions evaluate, what calls mean, what a state's
canonical key is.  Values are tuples.  Non-determinism is expressed with State.choose(n).
"""
import time
from collections import OrderedDict
from llvmir import Const, Global, Arg, Ins, BB, Fn
from kernel_ai import fn_liveness, NeedChoice, Prune, Violation

UNK = ("unk",)


class Undecided(Exception):
    pass


class Frame:
    __slots__ = ("fn", "bb", "prev", "pos", "env", "ret_to", "uid")

    def __init__(self, fn, uid=0):
        self.fn = fn
        self.bb = fn.bbs[0]
        self.prev = None
        self.pos = 0
        self.env = {}
        self.ret_to = None
        self.uid = uid

    def copy(self):
        f = Frame.__new__(Frame)
        f.fn, f.bb, f.prev, f.pos, f.ret_to, f.uid = self.fn, self.bb, self.prev, self.pos, self.ret_to, self.uid
        f.env = dict(self.env)
        return f


class State:
    __slots__ = ("frames", "d", "choices", "cp", "trail")

    def __init__(self, d):
        self.frames = []
        self.d = d
        self.choices = []
        self.cp = 0
        self.trail = ()

    def copy(self):
        s = State.__new__(State)
        s.frames = [f.copy() for f in self.frames]
        s.d = self.d.copy()
        s.choices = list(self.choices)
        s.cp = 0
        s.trail = self.trail
        return s

    def choose(self, n):
        if n <= 1:
            return 0
        if self.cp < len(self.choices):
            r = self.choices[self.cp]
            self.cp += 1
            return r
        raise NeedChoice(n)


class Machine:
    def __init__(self, mod, repo="/repo", max_states=200000, deadline=None):
        self.m = mod
        self.repo = repo
        self.max_states = max_states
        self.deadline = deadline
        self.violations = OrderedDict()
        self.undecided = OrderedDict()
        self.visited = set()
        self.n_states = self.n_steps = 0
        self.fns = set()
        self.finished = 0
        self.max_depth = 60

    snap_store = True

    def snaps(self, st, i):
        """may evaluating this change the domain state (only) before it forks"""
        return False

    # ---- to override
    def const(self, c):
        ck = c.ck
        if ck == "int":
            return ("c", c.val)
        if ck in ("null",):
            return ("c", 0)
        return UNK

    def glob(self, st, g):
        return ("p", ("glob", g.name), 0)

    def ins(self, st, i):
        raise Undecided("instruction %s" % i.op)

    def call(self, st, i, cal, args):
        return None

    def truth(self, st, v, i):
        if v[0] == "c":
            return bool(v[1] & 1)
        raise Undecided("branch on %r" % (v,))

    def key(self, st):
        raise NotImplementedError

    def finish(self, st, rv):
        """the root function returned"""

    def describe(self, st):
        return ""

    # ---- engine
    def val(self, st, o):
        if isinstance(o, (Ins, Arg)):
            v = st.frames[-1].env.get(o)
            if v is None:
                return UNK
            return v
        if isinstance(o, Const):
            return self.const(o)
        if isinstance(o, Fn):
            return ("fn", o.name)
        if isinstance(o, Global):
            return self.glob(st, o)
        return UNK

    def jump(self, st, target):
        f = st.frames[-1]
        prev = f.bb
        phis = []
        livein, after, headers = fn_liveness(f.fn)
        for i in target.ins:
            if i.op != "phi":
                break
            for v, pb in i.incoming:
                if pb is prev:
                    phis.append((i, self.phi(st, i, self.val(st, v), target in headers and prev in headers[target])))
                    break
        f.prev = prev
        f.bb = target
        f.pos = len(phis)
        keep = livein[target]
        env = {k: v for k, v in f.env.items() if k in keep}
        for i, x in phis:
            env[i] = x
        f.env = env

    def phi(self, st, i, v, back):
        return v

    def merge_at(self, fn, b):
        """is this join worth a look-up among the visited states"""
        return True

    def enter(self, st, cal, args, ret_to):
        if len(st.frames) > self.max_depth:
            raise Undecided("call depth")
        f = st.frames[-1] if st.frames else None
        if f is not None and ret_to is not None:
            _, after, _h = fn_liveness(f.fn)
            keep = after.get(ret_to)
            if keep is not None:
                f.env = {k: v for k, v in f.env.items() if k in keep}
        nf = Frame(cal, self.frame_uid(st))
        for a, v in zip(cal.args, args):
            nf.env[a] = v
        nf.ret_to = ret_to
        st.frames.append(nf)
        self.fns.add(cal.name)

    def frame_uid(self, st):
        return len(st.frames)

    def leave(self, st, frame):
        """a frame was popped"""

    def step(self, st):
        while True:
            f = st.frames[-1]
            i = f.bb.ins[f.pos]
            self.n_steps += 1
            st.cp = 0
            snap = None
            snapd = None
            try:
                op = i.op
                if self.snaps(st, i):
                    snapd = st.d.copy()
                if op in ("br", "switch"):
                    if op == "br":
                        if len(i.succs) == 1:
                            t = i.succs[0]
                        else:
                            t = i.succs[0] if self.truth(st, self.val(st, i.ops[0]), i) else i.succs[1]
                    else:
                        t = self.switch(st, i)
                    self.jump(st, t)
                    st.choices = []
                    if len(i.succs) > 1 and i.line:
                        st.trail = (st.trail + ((i.file, i.line, i.succs.index(t)),))[-60:]
                    if len(t.preds) > 1 and self.merge_at(f.fn, t):
                        return [st]
                    continue
                if op == "ret":
                    rv = self.val(st, i.ops[0]) if i.ops else None
                    if len(st.frames) == 1:
                        self.finish(st, rv)
                        st.choices = []
                        self.finished += 1
                        r = self.after_root(st)
                        if r is None:
                            return []
                        return r
                    r = self.before_ret(st, i, rv)
                    if r is not None:
                        st.choices = []
                        return r
                    fr = st.frames.pop()
                    self.leave(st, fr)
                    caller = st.frames[-1]
                    ci = fr.ret_to
                    if rv is not None and ci.ty.kind != "void":
                        caller.env[ci] = rv
                    st.choices = []
                    if ci.op == "invoke":
                        self.jump(st, ci.succs[0])
                        return [st]
                    caller.pos += 1
                    continue
                if op == "unreachable":
                    self.unreachable(st, i)
                    return []
                if op in ("call", "invoke"):
                    cal = i.callee
                    if not isinstance(cal, Fn):
                        v = self.val(st, cal) if isinstance(cal, (Ins, Arg)) else UNK
                        cal = self.m.fns.get(v[1]) if v[0] == "fn" else None
                    args = [self.val(st, o) for o in i.ops]
                    if snapd is None and self.snap_store:
                        snap = st.copy()
                    r = self.call(st, i, cal, args)
                    if r is None:
                        if cal is None or cal.decl:
                            raise Undecided("call to %s" % (cal.dem[:90] if cal else "unknown function"))
                        self.enter(st, cal, args, i)
                        st.choices = []
                        continue
                    if r == "switch":            # the callee changed the running stack
                        st.choices = []
                        return [st]
                    if r != ("void",) and i.ty.kind != "void":
                        f.env[i] = r
                    st.choices = []
                    if op == "invoke":
                        self.jump(st, i.succs[0])
                        return [st]
                    f.pos += 1
                    continue
                if op == "store" and self.snap_store:
                    snap = st.copy()
                v = self.ins(st, i)
                st.choices = []
                if v is not None:
                    f.env[i] = v
                f.pos += 1
            except NeedChoice as nc:
                base = snap if snap is not None else st
                if snapd is not None:
                    base.d = snapd
                out = []
                ch = base.choices
                for k in range(nc.n):
                    s = base.copy() if k + 1 < nc.n else base
                    s.choices = ch + [k]
                    s.cp = 0
                    out.append(s)
                return ("fork", out)
            except Prune:
                return []
            except Undecided as u:
                self.undecided.setdefault((str(u), i.fn.dem[:90], i.line), self.where(st, i)[0])
                return []
            except Violation as vi:
                self.report(st, vi, i)
                return []

    def after_root(self, st):
        return None

    def before_ret(self, st, i, rv):
        return None

    def unreachable(self, st, i):
        pass

    def switch(self, st, i):
        v = self.val(st, i.ops[0])
        if v[0] == "c":
            for cv, b in i.cases:
                if cv == v[1]:
                    return b
            return i.succs[0]
        return i.succs[st.choose(len(i.succs))]

    def where(self, st, i):
        c = []
        if i.line:
            c.append((i.file, i.line, i.fn.dem))
        for f in reversed(st.frames[:-1]):
            j = f.bb.ins[min(f.pos, len(f.bb.ins) - 1)]
            c.append((j.file, j.line, f.fn.dem))
        for x in c:
            if x[0] and x[0].startswith(self.repo + "/"):
                return "%s:%d" % (x[0][len(self.repo) + 1:], x[1]), x[2]
        for t in reversed(st.trail):
            if t[0].startswith(self.repo + "/"):
                return "%s:%d" % (t[0][len(self.repo) + 1:], t[1]), c[0][2] if c else "?"
        return ("%s:%d" % c[0][:2], c[0][2]) if c else ("?", "?")

    def report(self, st, vi, i):
        w, fn = self.where(st, i)
        key = (vi.kind, vi.msg, w)
        if key in self.violations:
            return
        trail = []
        for t in st.trail:
            if t[0].startswith(self.repo + "/"):
                e = "%s:%d branch %d" % (t[0][len(self.repo) + 1:], t[1], t[2])
                if not trail or trail[-1] != e:
                    trail.append(e)
        self.violations[key] = dict(kind=vi.kind, msg=vi.msg, where=w, function=fn[:160], input=self.describe(st), path=trail[-40:])

    def run(self, st):
        work = st if isinstance(st, list) else [st]
        while work:
            st = work.pop()
            r = self.step(st)
            if isinstance(r, tuple):
                work.extend(r[1])
                continue
            for s in r:
                k = self.key(s)
                if k in self.visited:
                    continue
                self.visited.add(k)
                self.n_states += 1
                if self.n_states > self.max_states or (self.deadline and self.n_states % 128 == 0 and time.time() > self.deadline):
                    self.undecided[("budget",)] = "state/time budget exhausted"
                    return
                work.append(s)
