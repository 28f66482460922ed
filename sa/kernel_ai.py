"""Abstract interpretation of the masked row kernels over LLVM IR.

The analysis follows ONE arbitrary column c and ONE arbitrary inner index k* through a row
kernel, for all inputs at once: every sorted row segment is abstracted to the position of a
cursor relative to the tracked key (before '<', at '=', after '>', end 'E'); the accumulator
is abstracted to the cell of c; a value is abstracted to how many times the product
A(i,k*)*B(k*,c) is in it, whether other legitimate products for c are, and whether anything
else is ("junk").  The domain is finite, the interpreter runs to a fixpoint over all abstract
states.  Nothing is executed and no solver is involved.
"""
import time
from collections import OrderedDict
from llvmir import Const, Global, Arg, Ins, BB, Fn

UNK = ("unk",)
HV = ("hv",)
UNDEF = ("undef",)
SZ = ("sz", None)
JUNK = ("sum", 0, 0, 1)
COMPOSITE = frozenset(("p", "k", "av", "bv", "cur", "probe", "probe+", "off", "len", "agg", "sz", "pi", "bytes", "swp", "scaled", "B"))
CLS_ORD = {"<": 0, "=": 1, ">": 2, "E": 3}


class NeedChoice(Exception):
    def __init__(self, n):
        self.n = n


class Prune(Exception):
    pass


class Violation(Exception):
    def __init__(self, kind, msg):
        self.kind = kind
        self.msg = msg


class Frame:
    __slots__ = ("fn", "bb", "prev", "pos", "env", "ret_to")

    def __init__(self, fn):
        self.fn = fn
        self.bb = fn.bbs[0]
        self.prev = None
        self.pos = 0
        self.env = {}
        self.ret_to = None

    def copy(self):
        f = Frame.__new__(Frame)
        f.fn = self.fn
        f.bb = self.bb
        f.prev = self.prev
        f.pos = self.pos
        f.env = dict(self.env)
        f.ret_to = self.ret_to
        return f


class St:
    __slots__ = ("frames", "mem", "g", "seg", "kcls", "slots", "ix", "choices", "cp", "trail", "havoc_last", "depth", "nid")

    def __init__(self):
        self.frames = []
        self.mem = {}
        self.g = {}
        self.seg = {}
        self.kcls = {}
        self.slots = {}
        self.ix = {}
        self.choices = []
        self.cp = 0
        self.trail = ()
        self.havoc_last = False
        self.depth = 0
        self.nid = 0

    def copy(self):
        s = St.__new__(St)
        s.frames = [f.copy() for f in self.frames]
        s.mem = {k: (dict(v) if isinstance(v, dict) else v) for k, v in self.mem.items()}
        for k, v in s.mem.items():
            if isinstance(v, dict) and isinstance(v.get("c"), dict):
                v["c"] = dict(v["c"])
        s.g = dict(self.g)
        s.seg = dict(self.seg)
        s.kcls = dict(self.kcls)
        s.slots = dict(self.slots)
        s.ix = dict(self.ix)
        s.choices = list(self.choices)
        s.cp = 0
        s.trail = self.trail
        s.havoc_last = self.havoc_last
        s.depth = self.depth
        s.nid = self.nid
        return s

    def choose(self, n):
        if n == 1:
            return 0
        if self.cp < len(self.choices):
            r = self.choices[self.cp]
            self.cp += 1
            return r
        raise NeedChoice(n)


def fn_liveness(fn):
    if "live" in fn.cache:
        return fn.cache["live"]
    use = {}
    deff = {}
    for b in fn.bbs:
        u = set()
        d = set()
        for i in b.ins:
            if i.op == "phi":
                d.add(i)
                continue
            for o in i.ops:
                if isinstance(o, (Ins, Arg)) and o not in d:
                    u.add(o)
            d.add(i)
        use[b] = u
        deff[b] = d
    livein = {b: set() for b in fn.bbs}
    liveout = {b: set() for b in fn.bbs}
    ch = True
    while ch:
        ch = False
        for b in reversed(fn.bbs):
            lo = set()
            for s in b.succs:
                lo |= livein[s]
                for i in s.ins:
                    if i.op != "phi":
                        break
                    for v, pb in i.incoming:
                        if pb is b and isinstance(v, (Ins, Arg)):
                            lo.add(v)
            li = use[b] | (lo - deff[b])
            if li != livein[b] or lo != liveout[b]:
                livein[b] = li
                liveout[b] = lo
                ch = True
    # live after each call
    after = {}
    for b in fn.bbs:
        live = set(liveout[b])
        for i in reversed(b.ins):
            if i.op in ("call", "invoke"):
                after[i] = frozenset(live - {i})
            live.discard(i)
            if i.op != "phi":
                for o in i.ops:
                    if isinstance(o, (Ins, Arg)):
                        live.add(o)
    # loop headers: targets of back edges (dfs)
    headers = {}
    color = {}
    stack = [(fn.bbs[0], iter(fn.bbs[0].succs))]
    color[fn.bbs[0]] = 1
    while stack:
        b, it = stack[-1]
        for s in it:
            if color.get(s, 0) == 0:
                color[s] = 1
                stack.append((s, iter(s.succs)))
                break
            elif color[s] == 1:
                headers.setdefault(s, set()).add(b)
        else:
            color[b] = 2
            stack.pop()
    fn.cache["live"] = (livein, after, headers)
    return fn.cache["live"]


PURE = frozenset(("add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or", "xor", "icmp", "phi", "br",
                  "switch", "select", "ret", "zext", "sext", "trunc", "freeze"))


def pure_int(fn):
    """integer in, integer out, touches no memory: a size computation"""
    r = fn.cache.get("pure")
    if r is None:
        r = not fn.decl and all(a.ty.kind == "int" for a in fn.args) and any(
            i.op == "ret" and i.ops and i.ops[0].ty.kind == "int" for b in fn.bbs for i in b.ins)
        if r:
            for b in fn.bbs:
                for i in b.ins:
                    if i.op in PURE:
                        continue
                    if i.op == "call" and isinstance(i.callee, Fn) and i.callee.name.startswith("llvm."):
                        continue
                    r = False
        fn.cache["pure"] = r
    return r


class Interp:
    def __init__(self, mod, root, mode, complemented=False, sorted_out=True, csc=False, max_states=400000,
                 repo="/repo", fn_ptr=None, focus_src=("M", "B", "key", "heap"),
                 kinds=None, deadline=None):
        self.m = mod
        self.root = root
        self.mode = mode            # 'num' | 'sym'
        self.compl = complemented
        self.sorted_out = sorted_out
        self.csc = csc
        self.max_states = max_states
        self.repo = repo
        self.violations = OrderedDict()
        self.undecided = OrderedDict()
        self.visited = {}           # state key -> node number
        self.preds = {}             # node -> predecessor nodes
        self.exits = {0}            # nodes from which a row ends, or whose path is closed for another reason
        self.node_loc = {}
        self.n_states = 0
        self.n_steps = 0
        self.fns = set()
        self.rows_checked = 0
        self.row_outcomes = set()
        self.notes = set()
        self.assumed_asserts = set()
        self.taints = {}
        self.focus_src = focus_src
        self.kinds = kinds          # only these kinds of violation belong to the property under check
        self.deadline = deadline
        self.other = OrderedDict()

    # ---------------------------------------------------------------- values
    def const(self, c):
        k = c.ck
        if k == "int":
            return ("c", c.val)
        if k == "fp":
            return ("fc", c.val)
        if k == "null":
            return ("null",)
        if k in ("undef",):
            return UNDEF
        if k == "zero":
            if c.ty.kind == "struct":
                return ("agg", tuple(("c", 0) for _ in c.ty.elems))
            return ("c", 0)
        if k == "ce":
            if c.op == "getelementptr" and isinstance(c.ops[0], Global):
                off = 0
                # only constant offsets
                try:
                    off = self.const_gep_off(c)
                except Exception:
                    return UNK
                return ("p", ("glob", c.ops[0].name), ("c", 0), off)
            return UNK
        if k == "agg":
            return ("agg", tuple(self.const(x) if isinstance(x, Const) else UNK for x in c.ops))
        return UNDEF if k.startswith("other") else UNK

    def const_gep_off(self, c):
        t = c.gty
        off = c.ops[1].val * t.size
        for o in c.ops[2:]:
            if t.kind == "struct":
                off += t.offs[o.val]
                t = t.elems[o.val]
            else:
                t = t.elem
                off += o.val * t.size
        return off

    def val(self, st, o):
        if isinstance(o, (Ins, Arg)):
            v = st.frames[-1].env.get(o)
            return UNK if v is None else v
        if isinstance(o, Const):
            return self.const(o)
        if isinstance(o, Global):
            return ("p", ("glob", o.name), ("c", 0), 0)
        if isinstance(o, Fn):
            return ("fn", o.name)
        return UNK

    def set_focus(self, st, cls, src):
        """The column the counting pass is looking at: each counter step is attributed to it.
        Any attribution that gives every column its exact count proves the total, so several
        policies (which loads move the focus) may be tried; see counting_policies."""
        if self.mode == "sym" and src in self.focus_src:
            st.g["focus"] = cls

    def taint(self, st):
        """From here on this path is outside the model: nothing it shows is reported."""
        if not st.g.get("taint"):
            st.g["taint"] = 1
            f = st.frames[-1]
            i = f.bb.ins[min(f.pos, len(f.bb.ins) - 1)]
            self.taints.setdefault((i.file, i.line, i.op, f.fn.dem[:80]), 0)
            self.taints[(i.file, i.line, i.op, f.fn.dem[:80])] += 1

    # --------------------------------------------------------------- symbols
    def live_ids(self, st):
        kids = set()
        sids = set()

        def walk(v):
            t = v[0]
            if t == "p":
                x = v[2]
                if x[0] in COMPOSITE:
                    walk(x)
            elif t == "k" or t == "av":
                kids.add(v[1])
            elif t == "cur":
                if v[1] == "A":
                    kids.add(v[2])
                elif v[1][0] == "B":
                    kids.add(v[1][1])
            elif t == "probe":
                sids.add(v[3])
            elif t == "B":
                kids.add(v[1])
            elif t in ("agg",):
                for x in v[1]:
                    if x[0] in COMPOSITE:
                        walk(x)
            else:
                for x in v[1:]:
                    if isinstance(x, tuple) and x and x[0] in COMPOSITE:
                        walk(x)
        for f in st.frames:
            for v in f.env.values():
                if v[0] in COMPOSITE:
                    walk(v)
        for o in st.mem.values():
            if isinstance(o, dict):
                for v in o.values():
                    if isinstance(v, tuple):
                        if v and isinstance(v[0], tuple):
                            for x in v:
                                self._walk_heap(x, walk)
                        elif v and v[0] in COMPOSITE:
                            walk(v)
                    elif isinstance(v, dict):
                        for x in v.values():
                            if x[0] in COMPOSITE:
                                walk(x)
        return kids, sids

    def _walk_heap(self, x, walk):
        """heap entries are tuples of (offset, value) pairs, possibly nested once"""
        if len(x) == 2 and isinstance(x[0], int):
            if x[1][0] in COMPOSITE:
                walk(x[1])
        else:
            for y in x:
                if isinstance(y, tuple):
                    self._walk_heap(y, walk)

    def new_kid(self, st, cls):
        kids, _ = self.live_ids(st)
        i = 0
        while i in kids:
            i += 1
        st.kcls[i] = cls
        st.seg.pop(("B", i), None)
        return i

    def new_sid(self, st):
        _, sids = self.live_ids(st)
        i = 0
        while i in sids:
            i += 1
        st.slots[i] = None
        return i

    def rename_kid(self, st, a, b):
        memo = {}

        def rn(v):
            r = memo.get(v)
            if r is None:
                r = memo[v] = rn_(v)
            return r

        def rn_(v):
            t = v[0] if v else None
            if t == "k" or t == "av":
                return (t, b) + v[2:] if v[1] == a and not isinstance(v[1], bool) else v
            if t == "cur":
                if v[1] == "A":
                    return ("cur", "A", b, v[3]) if v[2] == a else v
                return ("cur", rn(v[1]), v[2], v[3]) if isinstance(v[1], tuple) else v
            if t == "B":
                return ("B", b) if v[1] == a else v
            if t in ("c", "fc", "sum", "sym", "cnt", "row", "o", "probe", "col"):
                return v
            return tuple([rn(x) if isinstance(x, tuple) and x else x for x in v])
        for f in st.frames:
            f.env = {k: (rn(v) if v[0] in COMPOSITE else v) for k, v in f.env.items()}
        for k, o in st.mem.items():
            if isinstance(o, dict):
                for kk, v in list(o.items()):
                    if isinstance(v, tuple) and v:
                        o[kk] = rn(v)
                    elif isinstance(v, dict):
                        o[kk] = {x: rn(y) for x, y in v.items()}
        st.seg = {(rn(k) if isinstance(k, tuple) else k): v for k, v in st.seg.items() if k != ("B", b)}
        c = st.kcls.pop(a, "<")
        st.kcls[b] = c
        st.ix = {k: (rn(v) if v is not None else None) for k, v in st.ix.items()}

    # cursor helpers
    def acls(self, st, kid):
        if kid == "*":
            return "="
        if kid == "E":
            return "E"
        return st.kcls.get(kid, "<")

    def cur_cls(self, st, v):
        return self.acls(st, v[2]) if v[1] == "A" else v[2]

    def seg_has(self, st, seg):
        if seg == ("BC", "o"):
            return None
        return st.seg.get(seg, (None, None))[0]

    def succ_cls(self, st, seg, cls):
        """choices of class after a one step advance"""
        has = self.seg_has(st, seg)
        if cls == "<":
            if has is None:
                return ["<", "=", ">", "E"]
            return ["<", "="] if has else ["<", ">", "E"]
        if cls in ("=", ">"):
            return [">", "E"]
        if cls == "?":
            return ["?", "E"]
        return ["X"]

    def pred_cls(self, st, seg, cls):
        has = self.seg_has(st, seg)
        if cls == "E":
            return [">", "=", "<"] if has or has is None else [">", "<"]
        if cls == ">":
            return [">", "="] if has else [">", "<"]
        if cls == "?":
            return ["?"]
        return ["<"]

    def advance(self, st, v, d):
        """cursor/off/vi plus a constant"""
        if d == 0:
            return v
        if abs(d) > 1 and v[0] in ("cur", "off"):
            # a jump of several positions: only meaningful after a min() with the segment end
            return ("jmp", v[1]) if d > 0 and not (v[0] == "cur" and self.cur_cls(st, v) == "E") else UNK
        if abs(d) > 4:
            return UNK
        step = 1 if d > 0 else -1
        for _ in range(abs(d)):
            if v[0] == "cur" and v[1] == "A":
                c = self.acls(st, v[2])
                opts = self.succ_cls(st, "A", c) if step > 0 else self.pred_cls(st, "A", c)
                n = opts[st.choose(len(opts))]
                if n == "X":
                    return ("past", "A")
                v = ("cur", "A", "*" if n == "=" else ("E" if n == "E" else self.new_kid(st, n)), False)
            elif v[0] == "cur":
                opts = self.succ_cls(st, v[1], v[2]) if step > 0 else self.pred_cls(st, v[1], v[2])
                n = opts[st.choose(len(opts))]
                if n == "X":
                    return ("past", v[1])
                v = ("cur", v[1], n, False)
            elif v[0] == "off":
                opts = self.succ_cls(st, v[1], v[2]) if step > 0 else self.pred_cls(st, v[1], v[2])
                n = opts[st.choose(len(opts))]
                if n == "X":
                    return SZ
                v = ("off", v[1], n)
            elif v[0] == "vi":
                if step < 0 or v[2] == "E":
                    return UNK
                v = self.vec_next(st, v[1], v[2], v[3])
            elif v[0] == "swp":
                if step < 0:
                    return UNK
                opts = self.sweep_next(st, v)
                n, t = opts[st.choose(len(opts))]
                if t:
                    self.taint(st)
                v = ("swp", v[1], n, v[3])
            else:
                return UNK
        return v

    def sweep_next(self, st, v):
        _, S, cls, full = v
        if cls == "<":
            r = [("<", 0), ("=", 0)]
            if full == 0:
                r.append(("E", 0))
            elif full is None:
                r.append(("E", 1))
            return r
        if cls in ("=", ">"):
            return [(">", 0), ("E", 0)]
        return [("E", 1)]

    # ------------------------------------------------------------- int arith
    def res(self, st, v):
        if v[0] == "ix":
            b = st.ix.get(v[1])
            return ("c", 0) if b is None else b
        return v

    def sizeish(self, v):
        return v[0] in ("sz", "len", "cnt", "off", "c", "pi", "bytes", "sym", "hv", "swp")

    def term(self, op, a, b):
        def depth(x):
            return 1 + max([depth(y) for y in x if isinstance(y, tuple)] or [0]) if isinstance(x, tuple) else 0
        for x in (a, b):
            if x == SZ or x[0] in ("hv", "cnt", "off", "pi", "swp", "bytes"):
                return SZ
        t = (op, a, b)
        if depth(t) > 6:
            return SZ
        return ("sz", t)

    def add(self, st, x, y, ins=None):
        rx, ry = x, y
        if x[0] == "ix" and y[0] == "c":
            b = st.ix.get(x[1])
            if b is None:
                if abs(y[1]) == 1:
                    return ("cnt", y[1] if st.g.get("focus") == "=" else 0)
                return y
            rx = b
        x = self.res(st, rx)
        y = self.res(st, ry)
        if x[0] == "c" and y[0] != "c":
            x, y = y, x
        if x[0] == "unk" or y[0] == "unk":
            return UNK
        if x[0] == "undef" or y[0] == "undef":
            return UNDEF
        if y[0] == "c":
            d = y[1]
            t = x[0]
            if d == 0:
                return x
            if t == "c":
                if abs(d) == 1 and x[1] >= 0 and ins is not None:
                    # a counter: attribute the step to the column in focus
                    s = x[1] + d
                    if x[1] == 0:
                        return ("cnt", d if st.g.get("focus") == "=" else 0)
                    return ("c", s)
                return ("c", x[1] + d)
            if t == "cnt":
                if abs(d) == 1:
                    nc = x[1] + (d if st.g.get("focus") == "=" else 0)
                    return ("cnt", max(-1, min(2, nc)))
                return SZ
            if t in ("cur", "off", "swp", "vi"):
                return self.advance(st, x, d)
            if t == "row":
                return ("row", x[1] + d) if abs(x[1] + d) < 4 else UNK
            if t == "k":
                return ("k", x[1], x[2] + d) if abs(x[2] + d) < 4 else UNK
            if t == "col":
                return ("col", x[1], x[2] + d) if abs(x[2] + d) < 4 else ("hash", x[1], ("add", x[2] + d))
            if t == "hash":
                return ("hash", x[1], ("add", x[2], d))
            if t == "probe":
                # stepping off the tracked key's slot: the table is never full, so a scan cannot come back to it
                return ("probe+", "p" if x[1] == "p" or st.slots.get(x[3]) == "c" else x[1], x[2], d)
            if t == "o":
                return ("o", x[1] + d) if x[1] != "base" else UNK
            if t == "past":
                return x
            if t in ("sz", "len", "sym"):
                return self.term("add", x, y)
            if t in ("hv", "pi", "bytes"):
                return x if t == "hv" else SZ
            return UNK
        # two non constants
        for a, b in ((x, y), (y, x)):
            if a[0] == "off" and b[0] == "cur" and b[1] == a[1]:
                if b[3]:
                    return ("cur", a[1], a[2], False)
                return UNK
            if a[0] == "len" and b[0] == "cur" and b[1] == a[1] and b[3]:
                if a[1] == "A":
                    return ("cur", "A", "E", False)
                return ("cur", a[1], "E", False)
        if x[0] == "hv" or y[0] == "hv":
            return HV
        if self.sizeish(x) and self.sizeish(y):
            return self.term("add", x, y)
        return UNK

    def sub(self, st, x, y, ins=None):
        x = self.res(st, x)
        y = self.res(st, y)
        if y[0] == "c":
            return self.add(st, x, ("c", -y[1]), ins)
        if x[0] == "unk" or y[0] == "unk":
            return UNK
        if x[0] == "undef" or y[0] == "undef":
            return UNDEF
        if x[0] == "pi" and y[0] == "pi":
            p, q = x[1], y[1]
            if p[0] == "p" and q[0] == "p" and p[1] == q[1]:
                return ("bytes", self.sub(st, p[2], q[2]))
            return SZ
        if x[0] == "cur" and y[0] == "cur" and x[1] == y[1]:
            seg = x[1]
            cx, cy = self.cur_cls(st, x), self.cur_cls(st, y)
            if y[3]:
                if cx == "E":
                    return ("len", seg)
                return ("off", seg, cx)
            if cx == "E" and cy == "E":
                return ("c", 0)
            return SZ
        if x[0] == "o" and y[0] == "o":
            if y[1] == "base" and x[1] != "base":
                return ("cnt", min(2, self.out_count_c(st, x[1])))
            if x[1] == "base" or y[1] == "base":
                return ("c", 0) if x == y else SZ
            return ("c", x[1] - y[1])
        if x[0] == "hv" or y[0] == "hv":
            return HV
        if x[0] == "cnt" and y[0] == "cnt":
            return ("cnt", max(-1, min(2, x[1] - y[1])))
        if self.sizeish(x) and self.sizeish(y):
            return self.term("sub", x, y)
        return UNK

    def out_count_c(self, st, rel):
        n = st.g.get("seal", (0, None, None))[0]
        cells = st.mem.get("outc", {})
        for r, v in cells.items():
            if isinstance(r, int) and r < rel and v[0] == "col" and v[1] == "=":
                n += 1
        return n

    def arith(self, st, op, x, y, ins):
        x = self.res(st, x)
        y = self.res(st, y)
        if x[0] == "c" and y[0] == "c":
            a, b = x[1], y[1]
            w = ins.ty.width or 64
            M = (1 << w) - 1
            ua, ub = a & M, b & M
            try:
                if op == "mul":
                    r = a * b
                elif op == "sdiv":
                    r = int(a / b) if b else 0
                elif op == "udiv":
                    r = ua // ub
                elif op == "srem":
                    r = a - b * int(a / b)
                elif op == "urem":
                    r = ua % ub
                elif op == "shl":
                    r = a << b
                elif op == "lshr":
                    r = ua >> b
                elif op == "ashr":
                    r = a >> b
                elif op == "and":
                    r = a & b
                elif op == "or":
                    r = a | b
                elif op == "xor":
                    r = a ^ b
                else:
                    return UNK
            except Exception:
                return UNK
            r &= M
            if w > 1 and r >> (w - 1):
                r -= 1 << w
            if w == 1:
                r = r & 1
            return ("c", r)
        if x[0] == "unk" or y[0] == "unk":
            return UNK
        if x[0] == "undef" or y[0] == "undef":
            return UNDEF
        if x[0] == "hv" or y[0] == "hv":
            return HV
        if op in ("and", "or", "xor") and (x[0] == "b" or y[0] == "b"):
            return UNK
        if op == "xor" and y == ("c", -1):
            return SZ if self.sizeish(x) else UNK
        if op in ("sdiv", "ashr", "udiv", "lshr") and x[0] == "bytes" and y[0] == "c":
            return x[1]
        if x[0] == "bytes":
            x = SZ
        if y[0] == "bytes":
            y = SZ
        # masking a hashed key gives a table position
        for a, b in ((x, y), (y, x)):
            if op in ("and", "urem", "srem") and a[0] in ("hash", "probe+", "col"):
                if op != "and" and a is y:
                    continue
                if a[0] == "probe+":
                    tag = a[2]
                    if tag[1] != (op, b) and not (op == "and"):
                        return UNK
                    if tag[1] != (op, b):
                        return UNK
                    return ("probe", a[1], tag, self.new_sid(st))
                tag = (a[2], (op, b))
                return ("probe", a[1], tag, self.new_sid(st))
            if op == "and" and a[0] == "probe":
                return a if a[2][1] == (op, b) else UNK
        if op in ("mul", "xor", "shl", "lshr", "ashr", "and", "or", "udiv", "urem", "srem", "sdiv"):
            for a, b in ((x, y), (y, x)):
                if a[0] in ("col", "hash") and b[0] in ("c", "sz"):
                    return ("hash", a[1], (op, a[2], b))
        if op == "mul" and x[0] == "c":
            x, y = y, x
        if op == "mul" and y == ("c", 1):
            return x
        if op in ("shl", "sdiv", "udiv", "ashr", "lshr") and y == ("c", 0):
            return x
        if op == "mul" and y[0] == "c" and x[0] == "off":
            return ("scaled", x, y[1])
        if self.sizeish(x) and self.sizeish(y):
            return self.term(op, x, y)
        return UNK

    # ------------------------------------------------------------ comparison
    def cmp(self, st, pred, x, y):
        """returns True/False or ('?',) benign-unknown / ('!',) hard-unknown"""
        if x[0] == "ix" or y[0] == "ix":
            self.bind_ix(st, x, y)
        x = self.res(st, x)
        y = self.res(st, y)
        p = pred.lstrip("us") if pred not in ("eq", "ne") else pred

        def by_order(a, b):
            if p == "eq":
                return a == b
            if p == "ne":
                return a != b
            return {"lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[p]

        def flip(q):
            return {"lt": "gt", "gt": "lt", "le": "ge", "ge": "le", "eq": "eq", "ne": "ne"}[q]
        if x[0] == "undef" or y[0] == "undef":
            return ("u",)
        if x[0] == "c" and y[0] == "c":
            a, b = x[1], y[1]
            if pred[0] == "u" and pred not in ("eq", "ne"):
                a &= (1 << 64) - 1
                b &= (1 << 64) - 1
            return by_order(a, b)
        if x[0] == "unk" or y[0] == "unk":
            return ("!",)
        if x[0] == "hv" or y[0] == "hv":
            return ("?",)
        t = (x[0], y[0])
        if t == ("null", "null"):
            return by_order(0, 0)
        if "null" in t:
            o = x if y[0] == "null" else y
            if o[0] in ("p", "fn"):
                return by_order(1, 0) if y[0] == "null" else by_order(0, 1)
            return ("!",)
        if t == ("p", "p"):
            if x[1] != y[1]:
                return p == "ne" if p in ("eq", "ne") else ("!",)
            if x[2] == y[2]:
                if x[2][0] == "cur" and x[2][1] == "M" and self.cur_cls(st, x[2]) in ("<", ">") and not (x[2][3] and y[2][3]):
                    if x is not y:
                        return ("?",)
                return by_order(x[3], y[3])
            return self.cmp(st, pred, x[2], y[2])
        if t in (("cur", "lim"), ("lim", "cur")):
            u, w = (x, y) if x[0] == "cur" else (y, x)
            if u[1] != w[1]:
                return ("!",)
            if self.cur_cls(st, u) == "E":
                # positions are visited one by one, the limit is at most the end
                if w is y:
                    return by_order(0, 0) if p in ("eq", "ne") else by_order(1, 0) if p in ("lt", "ge") else ("?",)
                return by_order(0, 0) if p in ("eq", "ne") else by_order(0, 1) if p in ("gt", "le") else ("?",)
            return ("?",)
        if t == ("cur", "cur"):
            if x[1] != y[1]:
                return ("!",)
            cx, cy = self.cur_cls(st, x), self.cur_cls(st, y)
            if "?" in (cx, cy):
                if "E" in (cx, cy) :
                    return by_order(0, 1) if cy == "E" else by_order(1, 0)
                return ("?",)
            if cx == cy:
                if cx in ("=", "E"):
                    return by_order(0, 0)
                if x[1] == "A" and x[2] == y[2]:
                    return by_order(0, 0)
                if x[3] and y[3]:
                    return by_order(0, 0)
                return ("?",)
            return by_order(CLS_ORD[cx], CLS_ORD[cy])
        if t == ("off", "off") and x[1] == y[1]:
            if x[2] == y[2]:
                return by_order(0, 0) if x[2] in ("=", "E") else ("?",)
            return by_order(CLS_ORD[x[2]], CLS_ORD[y[2]])
        if t == ("off", "len") and x[1] == y[1]:
            return by_order(CLS_ORD[x[2]], CLS_ORD["E"])
        if t == ("len", "off") and x[1] == y[1]:
            return by_order(CLS_ORD["E"], CLS_ORD[y[2]])
        if x[0] == "swp" and x[1] == y:
            return by_order(CLS_ORD[x[2]], CLS_ORD["E"])
        if y[0] == "swp" and y[1] == x:
            return by_order(CLS_ORD["E"], CLS_ORD[y[2]])
        if t == ("vi", "vi"):
            if x[1] != y[1]:
                return ("!",)
            if x[2] == "E" or y[2] == "E":
                return by_order(0 if x[2] != "E" else 1, 0 if y[2] != "E" else 1)
            return ("?",)
        if t == ("col", "col"):
            cx, cy = x[1], y[1]
            if x[2] or y[2]:
                return ("?",)
            if cx == cy and cx == "=":
                return by_order(0, 0)
            if cx == cy or "o" in (cx, cy):
                if "=" in (cx, cy) and p in ("eq", "ne"):
                    return p == "ne"
                return ("?",)
            return by_order(CLS_ORD[cx], CLS_ORD[cy])
        if "col" in t and "c" in t:
            c = x[1] if x[0] == "c" else y[1]
            if c < 0 or c >= 0x7fffffff:      # EMPTY / numeric_limits sentinels
                big = c >= 0 or pred[0] == "u"
                if p in ("eq", "ne"):
                    return p == "ne"
                a, b = (0, 1) if big else (1, 0)
                return by_order(a, b) if x[0] == "col" else by_order(b, a)
            if c == 0 and p in ("ge", "lt") and x[0] == "col":
                return p == "ge"
            if c == 0 and p in ("le", "gt") and y[0] == "col":
                return p == "le"
            return ("?",)
        if "col" in t and "sym" in t:
            # column index against the number of columns: always smaller
            return by_order(0, 1) if x[0] == "col" else by_order(1, 0)
        if t[0] in ("k", "kk") and t[1] in ("k", "kk"):
            cx = x[1] if x[0] == "kk" else self.acls(st, x[1])
            cy = y[1] if y[0] == "kk" else self.acls(st, y[1])
            if (x[0] == "k" and x[2]) or (y[0] == "k" and y[2]):
                return ("?",)
            if "?" in (cx, cy):
                if "=" in (cx, cy) and p in ("eq", "ne"):
                    return p == "ne"
                return ("?",)
            if cx == cy:
                if cx == "=" or (x[0] == "k" and y[0] == "k" and x[1] == y[1]):
                    return by_order(0, 0)
                return ("?",)
            return by_order(CLS_ORD[cx], CLS_ORD[cy])
        if "probe" in t:
            if t == ("probe", "probe"):
                if x[3] == y[3]:
                    return by_order(0, 0)
                return ("?",)
            o = y if x[0] == "probe" else x
            if o[0] == "c" and o[1] < 0 or o[0] == "c" and o[1] > 0x7ffffff0:
                if p in ("eq", "ne"):
                    return p == "ne"
            return ("?",)
        if "len" in t:
            seg = x[1] if x[0] == "len" else y[1]
            o = y if x[0] == "len" else x
            beg = self.seg_begin(st, seg)
            if o == ("c", 0):
                a, b = (0 if beg == "E" else 1), 0
                return by_order(a, b) if x[0] == "len" else by_order(b, a)
            if o[0] == "c" and o[1] < 0 and pred[0] != "u":
                return by_order(1, 0) if x[0] == "len" else by_order(0, 1)
            return ("?",)
        if t == ("o", "o"):
            if "base" in (x[1], y[1]):
                if x == y:
                    return by_order(0, 0)
                return by_order(-1 if x[1] == "base" else 0, -1 if y[1] == "base" else 0)
            return by_order(x[1], y[1])
        if "cnt" in t:
            o = y if x[0] == "cnt" else x
            n = x[1] if x[0] == "cnt" else y[1]
            if o == ("c", 0) and n > 0:
                return by_order(1, 0) if x[0] == "cnt" else by_order(0, 1)
            return ("?",)
        if self.sizeish(x) and self.sizeish(y):
            if x == y and x != SZ and x[0] in ("sz", "sym"):
                return by_order(0, 0)
            return ("?",)
        if ("row" in t or "k" in t or "past" in t) and ("sym" in t or "c" in t or "sz" in t):
            return ("?",)
        if "fn" in t:
            return by_order(0, 0) if x == y else p == "ne"
        return ("!",)

    def seg_begin(self, st, seg):
        r = st.seg.get(seg)
        return r[1] if r else None

    def bind_ix(self, st, x, y):
        for a, b in ((x, y), (y, x)):
            if a[0] == "ix" and st.ix.get(a[1]) is None:
                b = self.res(st, b)
                if b[0] == "len":
                    beg = self.seg_begin(st, b[1])
                    st.ix[a[1]] = ("off", b[1], beg) if beg else None
                elif (b[0] in ("sz", "sym") and b != SZ) or (b[0] == "c" and b[1] > 4):
                    full = self.sweep_full(st, b)
                    i = st.choose(2)
                    st.ix[a[1]] = ("swp", b, "<=" [i], full)

    def sweep_full(self, st, b):
        """Does a sweep over [0,b) cover the tracked cell?  1 yes, 0 no, None unknown."""
        if b == ("sym", "cols"):
            return 1
        for k, v in st.mem.items():
            if isinstance(v, dict) and v.get("zone") and v.get("S"):
                S = v["S"]
                if S == b:
                    return 1
                if b[0] == "c":
                    return 0 if S[0] == "c" and b[1] < S[1] else None
                if b[0] == "sz" and b[1] and b[1][0] in ("sub", "add") and b[1][1] == S:
                    c = b[1][2]
                    if c[0] == "c":
                        neg = (c[1] < 0) if b[1][0] == "add" else (c[1] > 0)
                        return 0 if neg else 1
        return None

    # ---------------------------------------------------------------- vectors
    def vec_first(self, st, key):
        nc, oth, srt = st.mem[key]
        return self.vec_pick(st, key, nc, oth, srt, None)

    def vec_pick(self, st, key, rem, oth, srt, last):
        opts = []
        if srt:
            if last in (None, "<") and oth:
                opts.append("<")
            if rem > 0 and last in (None, "<", "="):
                opts.append("=")
            if rem == 0:
                if oth:
                    opts.append(">")
                opts.append("E")
        else:
            if oth:
                opts += ["<", ">"]
            if rem > 0:
                opts.append("=")
            if rem == 0:
                opts.append("E")
        c = opts[st.choose(len(opts))]
        return ("vi", key, c, rem - 1 if c == "=" else rem)

    def vec_next(self, st, key, cls, rem):
        nc, oth, srt = st.mem.get(key, (0, 0, 0))
        return self.vec_pick(st, key, rem, oth, srt, cls)

    # ----------------------------------------------------------------- memory
    def load(self, st, p, ty, ins):
        if p[0] == "unk":
            return UNK
        if p[0] == "hv":
            return HV
        if p[0] != "p":
            return UNK
        _, obj, idx, bo = p
        idx = self.res(st, idx)
        if isinstance(obj, str):
            return self.load_arr(st, obj, idx, bo, ins)
        kind = obj[0]
        if kind == "glob":
            g = self.m.globals.get(obj[1])
            if g is not None and g.init is not None and g.const:
                return self.read_const(g.init, bo, ty)
            return UNK
        if kind == "vec":
            if idx[0] == "vi":
                if idx[2] == "E":
                    raise Violation("oob", "reads past the end of a key list")
                self.set_focus(st, idx[2], 'key')
                return ("col", idx[2], 0)
            return UNK
        if kind == "z":
            return self.load_zone(st, obj, idx, bo, ty, ins)
        if kind == "heap":
            h = st.mem.get(obj)
            if h is None or idx != ("c", 0):
                return UNK
            r = h.get("root")
            if r is None:
                return UNK
            d = dict(r)
            v = d.get(bo, UNK)
            if v[0] == "col":
                self.set_focus(st, v[1], "heap")
            return v
        if kind in ("al", "obj"):
            if idx != ("c", 0):
                return UNK
            cells = st.mem.get(obj)
            if cells is None:
                return UNK
            v = cells.get(bo)
            if v is None:
                return UNDEF if kind == "al" else UNK
            return v
        return UNK

    def read_const(self, c, bo, ty):
        try:
            while True:
                if c.ck in ("agg",):
                    t = c.ty
                    if t.kind == "struct":
                        for k in range(len(t.elems) - 1, -1, -1):
                            if t.offs[k] <= bo:
                                bo -= t.offs[k]
                                c = c.ops[k]
                                break
                    else:
                        k = bo // t.elem.size
                        bo -= k * t.elem.size
                        c = c.ops[k]
                elif c.ck == "data":
                    k = bo // c.ty.elem.size
                    return self.const(c.ops[k])
                else:
                    return self.const(c)
        except Exception:
            return UNK

    def oob(self, st, what):
        raise Violation("oob", what)

    def load_arr(self, st, obj, idx, bo, ins):
        if obj in ("outc", "outv"):
            if idx[0] != "o" or idx[1] == "base":
                return UNK
            return st.mem[obj].get(idx[1], UNDEF)
        if obj == "nvals":
            return st.mem["nvals"].get(idx, UNK)
        nm, fld = obj.split(".")
        if fld in ("rowptr", "colptr"):
            if nm in ("A", "M"):
                if idx[0] == "row":
                    if idx[1] == 0:
                        return self.begin(st, nm)
                    if idx[1] == 1:
                        return ("cur", "A", "E", False) if nm == "A" else ("cur", "M", "E", False)
                raise Violation("foreign", "%s is indexed with something other than the current row" % obj)
            if self.csc:
                if idx[0] == "col" and idx[2] in (0, 1):
                    seg = ("BC", "c" if idx[1] == "=" else "o")
                    if idx[2] == 1:
                        return ("cur", seg, "E", False)
                    return self.begin(st, seg)
            else:
                if idx[0] == "k" and idx[2] in (0, 1):
                    seg = ("B", idx[1])
                    if idx[2] == 1:
                        return ("cur", seg, "E", False)
                    return self.begin(st, seg)
            if idx[0] in ("hv", "unk"):
                return UNK
            raise Violation("foreign", "%s is indexed with a value that is not a row/column selector of that matrix" % obj)
        if idx[0] == "unk":
            return UNK
        if idx[0] == "hv":
            return HV
        if idx[0] == "past":
            raise Violation("oob", "%s is read past the end of its row segment" % obj)
        if idx[0] != "cur":
            raise Violation("foreign", "%s is indexed with a value that is not a position inside that matrix" % obj)
        seg = idx[1]
        own = (seg == nm) or (isinstance(seg, tuple) and nm == "B")
        if not own:
            raise Violation("foreign", "%s is indexed with a position of another matrix" % obj)
        cls = self.cur_cls(st, idx)
        if cls == "E":
            raise Violation("oob", "%s is read at the end of the row segment (one past the last entry)" % obj)
        if nm == "A":
            if fld == "colids":
                return ("k", idx[2], 0)
            return ("av", idx[2])
        if nm == "M":
            if fld == "colids":
                self.set_focus(st, cls, 'M')
                return ("col", cls, 0)
            return HV
        if fld == "values":
            return ("bv", seg, cls)
        if self.csc:
            return ("kk", cls)
        self.set_focus(st, cls, 'B')
        if cls == "=" and seg[1] != "*":
            st.g["oth"] = 1
        return ("col", cls, 0)

    def begin(self, st, seg):
        if seg == "A":
            c = st.seg["A"][1]
            if c == "=":
                return ("cur", "A", "*", True)
            if c == "E":
                return ("cur", "A", "E", True)
            return ("cur", "A", self.new_kid(st, c), True)
        if seg == ("BC", "o"):
            c = ["<", "=", ">", "E"][st.choose(4)]
            return ("cur", seg, c, True)
        f = st.seg.get(seg)
        if f is None:
            # a row of B other than k*: choose its shape relative to c
            opts = [(None, "<"), (True, "="), (False, ">"), (False, "E")]
            f = opts[st.choose(len(opts))]
            st.seg[seg] = f
        return ("cur", seg, f[1], True)

    def zone(self, st, obj):
        return st.mem[obj]

    def tracked(self, st, z, idx, write=False):
        """True if idx designates the tracked cell, False if another cell, None if unknown."""
        if idx[0] == "col" and idx[2] == 0:
            z["key"] = "col"
            return idx[1] == "="
        if idx[0] == "off":
            if idx[2] == "E":
                raise Violation("oob", "accumulator cell one past the last mask entry is used")
            z["key"] = "off"
            return idx[2] == "="
        if idx[0] == "swp":
            if idx[2] == "E":
                raise Violation("oob", "accumulator is used one past its end")
            return idx[2] == "="
        return None

    def default_cell(self, z, ty):
        if z["init"] == "clean":
            if ty.kind == "int":
                return ("c", -1)
            if ty.kind == "ptr":
                return UNK
            return JUNK
        return UNDEF if ty.kind == "int" else JUNK

    def load_zone(self, st, obj, idx, bo, ty, ins):
        z = st.mem[obj]
        if idx[0] == "probe":
            return self.load_slot(st, obj, z, idx, bo, ty)
        if idx[0] == "swp" and z.get("hash"):
            if idx[2] == "=" and z.get("c") is not None:
                return z["c"].get(bo, UNDEF if ty.kind == "int" else JUNK)
            return HV
        if idx[0] in ("unk", "past"):
            return UNK
        if idx[0] == "hv":
            return HV
        t = self.tracked(st, z, idx)
        if t is None:
            return UNK
        if not t:
            return HV
        c = z["c"]
        v = c.get(bo)
        if v is None:
            for o, w in c.items():
                if w[0] == "clean" and o <= bo < o + w[1]:
                    return ("c", -1) if ty.kind == "int" else JUNK
            return self.default_cell(z, ty)
        if v[0] == "clean":
            return ("c", -1) if ty.kind == "int" else JUNK
        return v

    def resolve_slot(self, st, z, idx):
        if not z.get("hash"):
            z["hash"] = 1
            if not z["c"] and z["init"] == "clean":
                z["c"] = None
        sid = idx[3]
        cur = st.slots.get(sid)
        if cur is not None:
            return cur
        present = z.get("c") is not None
        S = idx[2][1][1]
        if S[0] == "sz" and S[1] and S[1][0] in ("add", "sub"):
            z["S"] = S[1][1]
        elif S[0] == "c":
            z["S"] = ("c", S[1] + 1)
        if idx[1] == "=":
            if present:
                if z.get("ctag") == idx[2]:
                    opts = ["c", "other"]
                else:
                    opts = ["c", "other", "empty"]
            else:
                opts = ["empty", "other"]
        else:
            opts = ["empty", "other"] + (["c"] if present and idx[1] != "p" else [])
        r = opts[st.choose(len(opts))]
        st.slots[sid] = r
        return r

    def load_slot(self, st, obj, z, idx, bo, ty):
        r = self.resolve_slot(st, z, idx)
        if r == "c":
            return z["c"].get(bo, UNDEF if ty.kind == "int" else JUNK)
        if r == "empty":
            return ("c", -1) if bo == 0 else (UNDEF if ty.kind == "int" else JUNK)
        return ("col", "o", 0) if bo == 0 else HV

    def store(self, st, p, v, ty, ins):
        if p[0] != "p":
            if p[0] == "hv":
                return
            self.taint(st)
            return
        _, obj, idx, bo = p
        idx = self.res(st, idx)
        if v[0] == "ix":
            v = self.res(st, v)
        if isinstance(obj, str):
            if obj in ("outc", "outv"):
                if idx[0] != "o" or idx[1] == "base":
                    self.taint(st)
                    return
                st.mem[obj][idx[1]] = v
                return
            if obj == "nvals":
                if idx == ("row", 0):
                    st.mem["nvals"][idx] = v
                    return
                raise Violation("rowslot", "the row count is stored for a different row than the one being computed")
            raise Violation("inputwrite", "an input matrix (%s) is written" % obj)
        kind = obj[0]
        if kind == "z":
            z = st.mem[obj]
            if idx[0] == "probe":
                r = self.resolve_slot(st, z, idx)
                if bo == 0 and ty.kind == "int":
                    if v[0] == "col" and v[1] == "=":
                        if r == "empty":
                            z["c"] = {0: v}
                            z["ctag"] = idx[2]
                            st.slots[idx[3]] = "c"
                        elif r == "other":
                            z["c"] = {0: v}
                            z["ctag"] = idx[2]
                            st.slots[idx[3]] = "c"
                    elif v[0] == "c" and v[1] == -1:
                        if r == "c":
                            z["c"] = None
                            for s in list(st.slots):
                                if st.slots[s] == "c":
                                    st.slots[s] = "empty"
                        st.slots[idx[3]] = "empty"
                    elif v[0] in ("col", "hv"):
                        if r == "c":
                            z["c"] = None
                            for s in list(st.slots):
                                if st.slots[s] == "c":
                                    st.slots[s] = None
                        st.slots[idx[3]] = "other"
                    else:
                        self.taint(st)
                    return
                if r == "c":
                    z["c"][bo] = v
                return
            if idx[0] == "swp" and z.get("hash"):
                if idx[2] == "=" and z.get("c") is not None:
                    if bo == 0 and v == ("c", -1):
                        z["c"] = None
                    elif bo == 0:
                        self.taint(st)
                    else:
                        z["c"][bo] = v
                return
            if idx[0] in ("unk", "past", "hv"):
                self.taint(st)
                return
            t = self.tracked(st, z, idx, True)
            if t is None:
                self.taint(st)
                return
            if t:
                z["c"][bo] = v
            return
        if kind == "heap":
            h = st.mem.get(obj)
            if h is None or idx != ("c", 0) or h.get("root") is None:
                self.taint(st)
                return
            d = dict(h["root"])
            d[bo] = v
            h["root"] = tuple(sorted(d.items()))
            return
        if kind in ("al", "obj"):
            if idx != ("c", 0):
                self.taint(st)
                return
            if obj[0] == "obj" and obj[1] in ("A", "B", "M"):
                raise Violation("inputwrite", "a field of input matrix %s is written" % obj[1])
            st.mem.setdefault(obj, {})[bo] = v
            return
        if kind == "glob":
            self.taint(st)
            return
        self.taint(st)

    def short_len(self, t, z):
        """the term is the whole length of the zone minus a positive constant"""
        d = 0
        if t and t[0] == "sz":
            t = t[1]
        while t and t[0] in ("add", "sub") and t[2][0] == "c":
            d += t[2][1] if t[0] == "add" else -t[2][1]
            t = t[1]
            if t[0] == "sz":
                t = t[1]
        return d < 0 and ((t == ("len", "M") and z.get("key") in ("off", None)) or (t == ("sym", "cols") and z.get("key") in ("col", None)))

    def memset(self, st, p, v, n, ins):
        n = self.res(st, n)
        if p[0] != "p":
            self.taint(st)
            return
        _, obj, idx, bo = p
        idx = self.res(st, idx)
        if isinstance(obj, str):
            self.taint(st)
            return
        if obj[0] in ("al", "obj"):
            cells = st.mem.setdefault(obj, {})
            if n[0] == "c" and v[0] == "c":
                for k in list(cells):
                    if isinstance(k, int) and bo <= k < bo + n[1]:
                        cells[k] = ("c", 0) if v[1] == 0 else ("c", -1)
                if v[1] == 0:
                    for k in range(bo, bo + min(n[1], 64), 4):
                        cells.setdefault(k, ("c", 0))
                return
            self.taint(st)
            return
        if obj[0] != "z":
            self.taint(st)
            return
        z = st.mem[obj]
        clean = v in (("c", -1), ("c", 255))
        if idx[0] == "probe" and n[0] == "c":
            r = self.resolve_slot(st, z, idx)
            if r == "c":
                if bo == 0 and clean:
                    z["c"] = None
                    st.slots[idx[3]] = "empty"
                else:
                    for k in list(z["c"]):
                        if bo <= k < bo + n[1]:
                            del z["c"][k]
            return
        if z.get("hash") and idx[0] in ("c", "swp"):
            if idx == ("c", 0) and n[0] == "sz" and z.get("S") is not None and n[1] and n[1][0] == "mul" and z["S"] in n[1][1:] and clean:
                z["c"] = None
                st.slots.clear()
                return
            if idx[0] == "swp" and n[0] == "c":
                if idx[2] == "=" and z.get("c") is not None:
                    for k in list(z["c"]):
                        if bo <= k < bo + n[1]:
                            del z["c"][k]
                return
            self.taint(st)
            return
        if n[0] == "c":
            t = self.tracked(st, z, idx)
            if t is None:
                self.taint(st)
                return
            if t:
                for k in list(z["c"]):
                    if bo <= k < bo + n[1]:
                        del z["c"][k]
                if clean:
                    if z["init"] != "clean":
                        z["c"][bo] = ("clean", n[1])
                else:
                    z["c"][bo] = UNK if v[0] != "c" else ("c", v[1])
            return
        # whole-array memset
        whole = None
        if idx == ("c", 0) and bo == 0 and n[0] == "sz" and n[1] and n[1][0] == "mul" and n[1][2][0] == "c":
            cnt, es = n[1][1], n[1][2][1]
            esz = z.get("esz")
            if esz is None or esz == es:
                if cnt == ("len", "M") and z.get("key") in ("off", None):
                    whole = True
                elif cnt == ("sym", "cols") and z.get("key") in ("col", None):
                    whole = True
        elif idx == ("c", 0) and bo == 0 and n[0] in ("len", "sym") and z.get("esz") in (1, None):
            if n == ("len", "M") and z.get("key") in ("off", None):
                whole = True
            elif n == ("sym", "cols"):
                whole = True
        if whole and clean:
            z["c"] = {}
            if z["init"] != "clean":
                z["c"][0] = ("clean", z.get("esz") or 64)
            return
        if clean and idx == ("c", 0) and bo == 0 and n[0] == "sz" and n[1] and n[1][0] == "mul" and n[1][2][0] == "c" \
                and z.get("esz") in (None, n[1][2][1]) and self.short_len(n[1][1], z):
            # at least the last element is left out: the tracked cell may be it
            if st.choose(2) == 0:
                z["c"] = {}
                if z["init"] != "clean":
                    z["c"][0] = ("clean", z.get("esz") or 64)
            return
        # cannot tell whether the tracked cell is covered
        if st.choose(2) == 0:
            z["c"] = {}
        self.taint(st)

    # ------------------------------------------------------------ normalise
    def map_values(self, st, f):
        for fr in st.frames:
            for k, v in fr.env.items():
                fr.env[k] = f(v)
        for k, o in st.mem.items():
            if isinstance(o, dict) and isinstance(k, tuple) and k[0] in ("al", "obj"):
                for kk, v in o.items():
                    if isinstance(v, tuple):
                        o[kk] = f(v)

    def norm_out(self, st):
        rels = []

        def coll(v):
            if v[0] == "o":
                rels.append(v[1])
            elif v[0] == "p" and isinstance(v[1], str) and v[2][0] == "o":
                rels.append(v[2][1])
            elif v[0] == "agg":
                for x in v[1]:
                    coll(x)
            return v
        self.map_values(st, coll)
        nums = [r for r in rels if r != "base"]
        if not nums:
            return
        mx = max(nums)
        if mx <= 0:
            return
        far = [r for r in nums if r < mx - 2]

        def sh(v):
            if v[0] == "o":
                r = v[1]
                return v if r == "base" else ("o", "base" if r - mx < -1 else r - mx)
            if v[0] == "p" and isinstance(v[1], str) and v[2][0] == "o":
                return ("p", v[1], sh(v[2]), v[3])
            if v[0] == "agg":
                return ("agg", tuple(sh(x) for x in v[1]))
            return v
        self.map_values(st, sh)
        oc = st.mem["outc"] = {r - mx: v for r, v in st.mem["outc"].items()}
        ov = st.mem["outv"] = {r - mx: v for r, v in st.mem["outv"].items()}
        self.seal(st, -1)

    def seal(self, st, upto):
        """Commit all output entries at positions < upto."""
        oc, ov = st.mem["outc"], st.mem["outv"]
        n, val, last = st.g.get("seal", (0, None, None))
        pos = sorted(set(list(oc) + list(ov)))
        for r in pos:
            if r >= upto:
                continue
            c = oc.pop(r, None)
            v = ov.pop(r, None)
            if r < -50:
                continue
            if c is None or c[0] not in ("col",):
                if c is not None and c[0] in ("hv",):
                    continue
                if c is None and v is not None:
                    raise Violation("align", "a value is written to the result with no column index at the same position")
                if c is not None and c[0] in ("unk",):
                    self.taint(st)
                    continue
                raise Violation("align", "the result receives a column index that is not a column of the row")
            cls = c[1]
            if c[2]:
                raise Violation("align", "the result receives a shifted column index")
            if cls == "=":
                n = min(2, n + 1)
                val = v if n == 1 else val
                if v is None:
                    val = ("missing",)
            if self.sorted_out and last is not None and cls in CLS_ORD and CLS_ORD[last] > CLS_ORD[cls] :
                raise Violation("order", "result columns of a row are not produced in increasing order")
            if cls in CLS_ORD:
                last = cls
        st.g["seal"] = (n, val, last)

    # -------------------------------------------------------------- contracts
    def row_begin(self, st, ins):
        # choices: mask, A row, B row of k*
        mopts = [(True, "<"), (True, "="), (False, "<"), (False, ">")]
        if self.compl:
            mopts.append((False, "E"))
        aopts = [(True, "<"), (True, "="), (False, "<")]
        bopts = [(True, "<"), (True, "="), (False, "<"), (False, ">"), (False, "E")]
        mm = mopts[st.choose(len(mopts))]
        aa = aopts[st.choose(len(aopts))]
        bb = bopts[st.choose(len(bopts))] if aa[0] else (False, "E")
        self.row_reset(st)
        st.seg["M"] = mm
        st.seg["A"] = aa
        if self.csc:
            # column c of B: contains k* or not
            if aa[0]:
                b2 = bb
            else:
                o = [(False, "<"), (False, ">"), (False, "E")]
                b2 = o[st.choose(3)]
            st.seg[("BC", "c")] = b2
        else:
            st.seg[("B", "*")] = bb
        return ("row", 0)

    def row_reset(self, st):
        """Forget everything that was relative to the row just finished: scratch contents and
        object fields survive, but as stale data of an unrelated row."""
        st.seg.clear()
        st.kcls.clear()
        st.slots.clear()
        st.ix.clear()
        st.g["focus"] = None
        st.g["oth"] = 0
        st.g["seal"] = (0, None, None)
        st.mem["outc"] = {}
        st.mem["outv"] = {}
        st.mem["nvals"] = {}

        def rst(v):
            t = v[0]
            if t == "p" and isinstance(v[1], str) and v[2][0] == "o":
                return ("p", v[1], ("o", 0), v[3])
            if t in ("sum", "av", "bv"):
                return JUNK
            if t in ("k", "cur", "off", "len", "cnt", "probe", "probe+", "swp", "ix", "vi", "kk", "hash"):
                return HV
            if t == "p" and v[2][0] in ("cur", "off", "vi", "probe", "swp", "ix"):
                return HV
            if t == "row":
                return HV
            if t == "sz" and "'w'" in repr(v):
                return SZ
            return v
        for fr in st.frames:
            for k, v in fr.env.items():
                fr.env[k] = rst(v)
        for k, o in st.mem.items():
            if isinstance(o, dict) and isinstance(k, tuple):
                if k[0] in ("al", "obj"):
                    for kk, v in list(o.items()):
                        if isinstance(v, tuple) and v:
                            o[kk] = rst(v)
                if k[0] == "z":
                    o.pop("ctag", None)
                    o.pop("S", None)
                    if o.get("c"):
                        for kk, v in list(o["c"].items()):
                            o["c"][kk] = rst(v)

    def describe(self, st):
        m = st.seg.get("M")
        a = st.seg.get("A")
        b = st.seg.get(("B", "*")) or st.seg.get(("BC", "c"))
        return "mask row %s c (first entry %s c); A row %s k*; B(k*,c) %s" % (
            "contains" if m and m[0] else "does not contain", {"<": "before", "=": "at", ">": "after", "E": "none: empty row,"}[m[1]] if m else "?",
            "contains" if a and a[0] else "does not contain", "present" if b and b[0] and a and a[0] else "absent")

    def expect(self, st):
        inmask = st.seg["M"][0]
        allowed = inmask != self.compl
        b = st.seg.get(("BC", "c")) if self.csc else st.seg.get(("B", "*"))
        prod = bool(st.seg["A"][0] and b and b[0])
        return allowed, prod

    def row_end_num(self, st, args):
        c, v = args
        self.rows_checked += 1
        if st.g.get("taint"):
            self.undecided.setdefault(("tainted", "row"), "row outcome depends on a construct outside the model")
            raise Prune()
        if not (c[0] == "p" and c[1] == "outc" and c[2][0] == "o" and v[0] == "p" and v[1] == "outv" and v[2][0] == "o"):
            self.undecided.setdefault(("outptr", "row"), "output cursor not tracked")
            raise Prune()
        if c[2] != v[2]:
            raise Violation("align", "column cursor and value cursor end at different positions")
        if c[2][1] == "base":
            raise Prune()
        self.seal(st, c[2][1])
        n, val, last = st.g["seal"]
        allowed, prod = self.expect(st)
        self.row_outcomes.add((st.seg["M"], st.seg["A"][0], prod, n, st.g.get("oth", 0)))
        if not allowed:
            if n:
                raise Violation("mask", "an entry is produced at a column the mask excludes")
            return
        if prod:
            if n == 0:
                raise Violation("missing", "no entry is produced although the mask admits the column and a product exists")
        if n > 1:
            raise Violation("dup", "the same column is produced more than once in a row")
        if n == 1:
            if val is None or val[0] in ("undef", "missing", "c", "fc", "hv", "clean"):
                raise Violation("value", "the entry's value is not the sum of products (value never computed)")
            if val[0] in ("unk",):
                self.undecided.setdefault(("value", "row"), "value not tracked")
                raise Prune()
            if val[0] in ("av", "bv"):
                raise Violation("value", "the entry's value is a bare input value, not a product")
            if val[0] != "sum":
                raise Violation("value", "the entry's value is not the sum of products")
            _, p, oth, junk = val
            if junk:
                raise Violation("value", "the entry's value contains something that is not a product A(i,k)*B(k,c) of this row")
            if prod and p == 0:
                raise Violation("value", "a product A(i,k)*B(k,c) is lost from the entry's value")
            if prod and p > 1:
                raise Violation("value", "a product A(i,k)*B(k,c) is counted more than once in the entry's value")
            if not prod and not oth:
                raise Violation("spurious", "an entry is produced for a column that has no product")

    def row_end_sym(self, st, args):
        self.rows_checked += 1
        if st.g.get("taint"):
            self.undecided.setdefault(("tainted", "row"), "row outcome depends on a construct outside the model")
            raise Prune()
        v = st.mem["nvals"].get(("row", 0))
        if v is None:
            raise Violation("count", "the row's entry count is never stored")
        if v[0] == "undef":
            raise Violation("count", "the row's entry count is uninitialised")
        if v == ("c", 0):
            nc = 0
        elif v[0] == "cnt":
            nc = v[1]
        else:
            self.undecided.setdefault(("count", "row"), "row count not tracked: %r" % (v,))
            raise Prune()
        allowed, prod = self.expect(st)
        self.row_outcomes.add((st.seg["M"], st.seg["A"][0], prod, nc, st.g.get("oth", 0)))
        if not allowed and nc != 0:
            raise Violation("count", "the counting pass counts a column the mask excludes" if nc > 0 else "the counting pass subtracts a column that was never counted")
        if allowed and prod and nc != 1:
            raise Violation("count", "the counting pass counts an admitted column with a product %s" % ("zero times" if nc <= 0 else "more than once"))
        if allowed and not prod:
            if nc not in (0, 1):
                raise Violation("count", "the counting pass counts a column %s" % ("negatively" if nc < 0 else "more than once"))
            if nc == 1 and not st.g.get("oth") and not self.csc:
                raise Violation("count", "the counting pass counts a column that has no product")

    def mul_vals(self, x, y):
        if UNK in (x, y):
            return UNK
        if x[0] == "hv" or y[0] == "hv":
            return HV
        if x[0] == "av" and y[0] == "bv":
            seg, cls = y[1], y[2]
            if seg[0] == "B":
                same = seg[1] == x[1]
                if cls != "=":
                    return JUNK
                if not same:
                    return JUNK
                return ("sum", 1, 0, 0) if x[1] == "*" else ("sum", 0, 1, 0)
            # CSC
            if seg[1] != "c":
                return JUNK
            ac = "*" == x[1]
            bc = cls == "="
            if ac and bc:
                return ("sum", 1, 0, 0)
            if ac != bc:
                return JUNK
            return ("sum", 0, 1, 0)
        return JUNK

    def add_vals(self, x, y):
        if UNK in (x, y):
            return UNK

        def lift(v):
            if v[0] == "sum":
                return v
            if v[0] == "hv":
                return None
            return JUNK
        a, b = lift(x), lift(y)
        if a is None or b is None:
            return HV
        return ("sum", min(2, a[1] + b[1]), a[2] | b[2], a[3] | b[3])

    # heap contract ----------------------------------------------------------
    def heap_obj(self, this):
        return ("heap", this[1], this[3])

    def heap_is_min(self):
        """Evaluate EntryT::operator< on the two orders to see which end the std heap keeps on top."""
        r = getattr(self, "_hm", None)
        if r is not None:
            return r
        self._hm = "min"
        for f in self.m.fns.values():
            if f.dem.startswith("Heap<") and "::EntryT::operator<(" in f.dem and not f.decl:
                for i in [i for b in f.bbs for i in b.ins]:
                    if i.op == "icmp":
                        # which side is 'this' (arg 0)?
                        def root(o, d=0):
                            while isinstance(o, Ins) and d < 10:
                                if o.op in ("load", "getelementptr"):
                                    o = o.ops[0]
                                else:
                                    break
                                d += 1
                            return o
                        l = root(i.ops[0])
                        pr = i.pred.lstrip("us") if i.pred not in ("eq", "ne") else i.pred
                        isthis = isinstance(l, Arg) and l.idx == 0
                        greater = (pr in ("gt", "ge")) == isthis
                        self._hm = "min" if greater else "max"
        return self._hm

    def heap_rebuild(self, st, h):
        """choose the new top among the tracked iterator and the others"""
        trk = list(h["trk"])
        mx = self.heap_is_min() == "max"
        opts = []
        lb = h["lb"]

        def kc(e):
            return dict(e).get(0, UNK)
        for i, e in enumerate(trk):
            k = kc(e)
            ok = True
            if k[0] == "col":
                for e2 in trk:
                    k2 = kc(e2)
                    if k2[0] == "col" and CLS_ORD[k2[1]] < CLS_ORD[k[1]] and not mx:
                        ok = False
                    if k2[0] == "col" and CLS_ORD[k2[1]] > CLS_ORD[k[1]] and mx:
                        ok = False
            if ok:
                opts.append(("t", i))
        if h["oth"]:
            for c in ("<", "=", ">"):
                if not mx:
                    if CLS_ORD[c] < CLS_ORD[lb]:
                        continue
                    if any(kc(e)[0] == "col" and CLS_ORD[kc(e)[1]] < CLS_ORD[c] for e in trk):
                        continue
                else:
                    if any(kc(e)[0] == "col" and CLS_ORD[kc(e)[1]] > CLS_ORD[c] for e in trk):
                        continue
                opts.append(("o", c))
        if not trk:
            opts.append(("e", None))
        w, x = opts[st.choose(len(opts))]
        if w == "e":
            h["root"] = None
            h["oth"] = 0
            return
        if w == "t":
            e = trk.pop(x)
            h["trk"] = tuple(trk)
            h["root"] = e
            k = kc(e)
            if k[0] == "col":
                h["lb"] = k[1]
            return
        # other iterator
        has = True if x == "=" else (False if x == ">" else None)
        kc_ = "?"
        if x == "=":
            st.g["oth"] = 1
        h["root"] = None
        kid = self.new_kid(st, kc_)
        st.seg[("B", kid)] = (has, x)
        h["root"] = ((0, ("col", x, 0)), (h["o1"], ("cur", "A", kid, False)), (h["o2"], ("cur", ("B", kid), x, False)))
        h["lb"] = x

    def heap_putback(self, st, h):
        r = h["root"]
        if r is None:
            return
        d = dict(r)
        rr = d.get(h["o1"], UNK)
        if rr[0] == "cur" and rr[1] == "A" and rr[2] == "*":
            h["trk"] = tuple(sorted(h["trk"] + (r,), key=repr))[:3]
        elif rr[0] == "cur":
            h["oth"] = 1
        else:
            self.taint(st)
            h["oth"] = 1
        k = d.get(0, UNK)
        if k[0] == "col" and k[1] in CLS_ORD and CLS_ORD[k[1]] < CLS_ORD[h["lb"]]:
            h["lb"] = k[1]
        h["root"] = None

    def heap_call(self, st, meth, args, ins):
        this = args[0]
        if this[0] != "p":
            return None
        key = self.heap_obj(this)
        h = st.mem.get(key)
        if h is None:
            h = st.mem[key] = {"root": None, "trk": (), "oth": 0, "lb": "<", "o1": 4, "o2": 8, "made": 0}
            if ins is not None and self.m.globals.get("vp_it_size") is not None:
                s = self.m.globals["vp_it_size"].init.val
                h["o1"], h["o2"] = s, 2 * s
        if meth == "append":
            key_, runr, loc = [self.res(st, a) for a in args[1:4]]
            e = tuple(sorted({0: key_, h["o1"]: runr, h["o2"]: loc}.items()))
            if runr[0] == "cur" and runr[1] == "A" and runr[2] == "*":
                h["trk"] = tuple(sorted(h["trk"] + (e,), key=repr))[:3]
            elif runr[0] == "cur" and runr[1] == "A":
                h["oth"] = 1
            else:
                self.taint(st)
            h["made"] = 0
            return ("void",)
        if meth == "make":
            h["made"] = 1
            h["lb"] = "<"
            self.heap_putback(st, h)
            self.heap_rebuild(st, h)
            return ("void",)
        if meth == "isEmpty":
            if not h["made"]:
                if h["trk"]:
                    return ("c", 0)
                if not h["oth"] and h["root"] is None:
                    return ("c", 1)
                return HV
            return ("c", 0 if h["root"] is not None else 1)
        if meth == "top":
            if not h["made"]:
                self.taint(st)
            if h["root"] is None:
                raise Violation("oob", "the top of an empty heap is used")
            return ("p", key, ("c", 0), 0)
        if meth == "pop":
            h["root"] = None
            self.heap_rebuild(st, h)
            return ("void",)
        if meth == "sinkRoot":
            self.heap_putback(st, h)
            self.heap_rebuild(st, h)
            return ("void",)
        if meth == "clear":
            h["root"] = None
            h["trk"] = ()
            h["oth"] = 0
            h["lb"] = "<"
            h["made"] = 1
            return ("void",)
        if meth in ("setBuffer",):
            h["root"] = None
            h["trk"] = ()
            h["oth"] = 0
            h["made"] = 1
            return ("void",)
        return None

    def contract(self, st, name, dem, args, ins):
        """Model of functions that are not interpreted. Returns a value, ('void',) or None (no contract)."""
        g = st.g
        if name == "vp_more":
            return ("c", st.choose(2))
        if name == "vp_row_begin":
            return self.row_begin(st, ins)
        if name == "vp_row_end_numeric":
            self.exits.add(st.nid)
            self.row_end_num(st, args)
            self.row_reset(st)
            return ("void",)
        if name == "vp_row_end_symbolic":
            self.exits.add(st.nid)
            self.row_end_sym(st, args)
            self.row_reset(st)
            return ("void",)
        if name == "vp_mul":
            return self.mul_vals(args[0], args[1])
        if name == "vp_add":
            return self.add_vals(args[0], args[1])
        if name == "vp_size":
            return SZ
        if name == "vp_buffer":
            return ("p", ("buf",), ("c", 0), 0)
        if name.startswith("llvm."):
            if name.startswith("llvm.memset"):
                self.memset(st, args[0], args[1], args[2], ins)
                return ("void",)
            if name.startswith("llvm.memcpy") or name.startswith("llvm.memmove"):
                self.memcpy(st, args[0], args[1], args[2])
                return ("void",)
            if name.startswith(("llvm.lifetime", "llvm.dbg", "llvm.assume", "llvm.prefetch", "llvm.experimental.noalias")):
                return ("void",)
            if name.startswith("llvm.expect"):
                return args[0]
            if name.startswith("llvm.umul.with.overflow"):
                return ("agg", (self.arith_mul(st, args[0], args[1]), ("c", 0)))
            if name.startswith(("llvm.smax", "llvm.umax", "llvm.smin", "llvm.umin", "llvm.ctlz", "llvm.cttz", "llvm.ctpop")):
                return SZ
            return None
        if name == "__assert_fail":
            if st.havoc_last:
                self.assumed_asserts.add((ins.file, ins.line))
                raise Prune()
            if g.get("taint"):
                raise Prune()
            raise Violation("assert", "an assertion fails")
        if "__throw_" in name or name in ("abort", "exit", "_ZSt9terminatev", "__cxa_throw", "__clang_call_terminate"):
            raise Prune()
        base = dem.split("<")[0].split("(")[0]
        if base.startswith("void getCleanMemory") or base.startswith("void splitMemory"):
            def zone(dst, init):
                if dst[0] != "p":
                    return
                zid = ("z", dst[1], dst[3])
                st.mem[zid] = {"zone": 1, "init": init, "c": {}, "key": None, "esz": None}
                self.store(st, dst, ("p", zid, ("c", 0), 0), None, ins)
                # hash tables start with c absent
            if "getCleanMemory" in base:
                zone(args[3], "clean")
                self.store(st, args[2], SZ, None, ins)
            else:
                zone(args[3], "dirty")
                zone(args[5], "clean")
                self.store(st, args[2], SZ, None, ins)
            return ("void",)
        if dem.startswith("std::vector<") or dem.startswith("void std::vector<") or "& std::vector<" in dem.split("(")[0]:
            r = self.vec_call(st, dem, args, ins)
            if r is not None:
                return r
            return None
        if dem.startswith("void std::sort<") or dem.startswith("void std::__sort<") or dem.startswith("void std::stable_sort<"):
            a, b = args[0], args[1]
            if a[0] == "p" and b[0] == "p" and a[1] == b[1] and isinstance(a[1], tuple) and a[1][0] == "vec":
                nc, oth, srt = st.mem[a[1]]
                full = b[2][0] == "vi" and b[2][2] == "E" and a[2][0] == "vi"
                st.mem[a[1]] = (nc, oth, 1 if full else srt)
                return ("void",)
            self.taint(st)
            return ("void",)
        if dem.startswith("Heap<") and "::EntryT::" not in dem:
            meth = dem.split("(")[0].split("::")[-1]
            if meth in ("append", "make", "isEmpty", "top", "pop", "sinkRoot", "clear", "setBuffer"):
                return self.heap_call(st, meth, args, ins)
            if meth == "releaseBuffer":
                return SZ
            return None
        if " std::min<" in dem.split("(")[0] and len(args) == 2:
            a, b = [self.res(st, self.load(st, x, ins.ty, ins)) if x[0] == "p" else UNK for x in args]
            for x, y in ((a, b), (b, a)):
                if x[0] == "jmp" and y[0] == "cur" and y[1] == x[1] and self.cur_cls(st, y) == "E":
                    o = ("al", len(st.frames), "min", ins.uid)
                    st.mem[o] = {0: ("lim", x[1])}
                    return ("p", o, ("c", 0), 0)
            return None
        if base in ("int const* std::lower_bound", "int const* std::upper_bound") or " std::lower_bound" in base or " std::upper_bound" in base:
            return self.bound_call(st, "lower" in base, args)
        if name in ("_Znwm", "_Znam", "malloc", "_ZdlPv", "_ZdlPvm", "free", "_ZdaPv"):
            return SZ if name in ("_Znwm", "_Znam", "malloc") else ("void",)
        return None

    def bound_call(self, st, lower, args):
        a, b = args[0], args[1]
        if not (a[0] == "p" and b[0] == "p" and a[1] == b[1] and a[2][0] == "cur" and b[2][0] == "cur" and a[2][1] == b[2][1]):
            return None
        if a[2][1] == "A":
            return None
        key = args[2]
        if key[0] == "p":
            key = self.load(st, key, None, None)
        key = self.res(st, key)
        seg = a[2][1]
        if key[0] != "col" or key[2]:
            return None
        ca, cb = a[2][2], b[2][2]
        if cb != "E":
            return None
        has = self.seg_has(st, seg)
        if has is None:
            has = bool(st.choose(2))
        kcls = key[1]
        opts = []
        for c in ("<", "=", ">", "E"):
            if CLS_ORD[c] < CLS_ORD[ca]:
                continue
            if c == "=" and not has:
                continue
            # does position class c satisfy: all before are < key (lower) / <= key (upper)
            if kcls == "=":
                if lower:
                    if has and CLS_ORD[ca] <= 1:
                        if c != "=":
                            continue
                    elif c not in (">", "E"):
                        continue
                else:
                    if c not in (">", "E"):
                        continue
            elif kcls == "<":
                if has and CLS_ORD[ca] <= 1 and CLS_ORD[c] > 1:
                    continue
            elif kcls == ">":
                if c in ("<", "="):
                    continue
            opts.append(c)
        if not opts:
            return None
        c = opts[st.choose(len(opts))]
        return ("p", a[1], ("cur", seg, c, a[2][3] and c == ca and c in "=E"), 0)

    def arith_mul(self, st, x, y):
        class _I:
            pass
        i = _I()
        i.ty = _I()
        i.ty.width = 64
        return self.arith(st, "mul", x, y, i)

    def vec_call(self, st, dem, args, ins):
        head = dem.split("(")[0]
        meth = head.split("::")[-1]
        if "emplace_back" in head:
            meth = "emplace_back"
        this = args[0] if args else None
        if this is None or this[0] != "p":
            return None
        key = ("vec", this[1], this[3])
        if meth == "vector":
            st.mem[key] = (0, 0, 0)
            return ("void",)
        if key not in st.mem:
            return None
        nc, oth, srt = st.mem[key]
        if meth.startswith("~"):
            return ("void",)
        if meth in ("push_back", "emplace_back"):
            v = args[1]
            if v[0] == "p":
                v = self.load(st, v, None, ins)
            v = self.res(st, v)
            if v[0] == "col" and not v[2]:
                if v[1] == "=":
                    st.mem[key] = (min(2, nc + 1), oth, 0)
                else:
                    st.mem[key] = (nc, 1, 0)
            elif v[0] == "hv":
                st.mem[key] = (nc, 1, 0)
            else:
                self.taint(st)
            return ("void",)
        if meth in ("begin", "cbegin", "data"):
            return ("p", key, self.vec_first(st, key), 0)
        if meth in ("end", "cend"):
            return ("p", key, ("vi", key, "E", 0), 0)
        if meth == "clear":
            st.mem[key] = (0, 0, 0)
            return ("void",)
        if meth == "reserve":
            return ("void",)
        if meth == "empty":
            if nc:
                return ("c", 0)
            if not oth:
                return ("c", 1)
            return HV
        if meth == "size":
            return ("cnt", nc)
        return None

    def memcpy(self, st, d, s, n):
        n = self.res(st, n)
        if d[0] != "p" or s[0] != "p" or n[0] != "c":
            self.taint(st)
            return
        n = n[1]
        didx, sidx = self.res(st, d[2]), self.res(st, s[2])
        dz = isinstance(d[1], tuple) and d[1][0] == "z"
        sz = isinstance(s[1], tuple) and s[1][0] == "z"
        if dz and sz and didx[0] == "probe" and sidx[0] == "probe":
            z = st.mem[d[1]]
            rs = self.resolve_slot(st, z, sidx)
            rd = self.resolve_slot(st, z, didx)
            if rs == "c":
                cells = dict(z["c"])
                for k in list(st.slots):
                    if st.slots[k] == "c":
                        st.slots[k] = "other"
                st.slots[didx[3]] = "c"
                z["c"] = cells
            elif rd == "c":
                z["c"] = None
                for k in list(st.slots):
                    if st.slots[k] == "c":
                        st.slots[k] = rs
                st.slots[didx[3]] = rs
            else:
                st.slots[didx[3]] = rs
            return
        if isinstance(s[1], tuple) and s[1][0] in ("al", "obj") and isinstance(d[1], tuple) and d[1][0] in ("al", "obj"):
            src = st.mem.get(s[1], {})
            dst = st.mem.setdefault(d[1], {})
            for k, v in list(src.items()):
                if isinstance(k, int) and s[3] <= k < s[3] + n:
                    dst[d[3] + k - s[3]] = v
            return
        # element copies between an alloca and a zone/heap cell: field-wise through loads is not possible here
        if isinstance(s[1], tuple) and s[1][0] == "heap" and isinstance(d[1], tuple) and d[1][0] in ("al", "obj"):
            h = st.mem.get(s[1])
            if h and h.get("root") is not None:
                dst = st.mem.setdefault(d[1], {})
                for k, v in dict(h["root"]).items():
                    dst[d[3] + k - s[3]] = v
                return
        if sz and isinstance(d[1], tuple) and d[1][0] in ("al", "obj"):
            z = st.mem[s[1]]
            dst = st.mem.setdefault(d[1], {})
            t = None
            if sidx[0] == "probe":
                t = self.resolve_slot(st, z, sidx) == "c"
            else:
                t = self.tracked(st, z, sidx)
            if t and z.get("c") is not None:
                for k, v in z["c"].items():
                    if s[3] <= k < s[3] + n:
                        dst[d[3] + k - s[3]] = v if v[0] != "clean" else HV
                return
            for k in range(0, n, 4):
                dst[d[3] + k] = HV
            for k in range(0, n, 1):
                dst.setdefault(d[3] + k, HV)
            return
        if dz and isinstance(s[1], tuple) and s[1][0] in ("al", "obj"):
            z = st.mem[d[1]]
            src = st.mem.get(s[1], {})
            if didx[0] == "probe":
                for k, v in sorted(src.items()):
                    if s[3] <= k < s[3] + n:
                        class _T:
                            kind = "int"
                        self.store(st, ("p", d[1], didx, d[3] + k - s[3]), v, _T, None)
                return
            t = self.tracked(st, z, didx)
            if t is None:
                self.taint(st)
                return
            if t:
                for k, v in src.items():
                    if s[3] <= k < s[3] + n:
                        z["c"][d[3] + k - s[3]] = v
            return
        self.taint(st)

    # ------------------------------------------------------------------ steps
    def gep(self, st, i):
        base = self.val(st, i.ops[0])
        if base[0] in ("unk", "hv", "undef"):
            return base
        if base[0] != "p":
            return UNK
        _, obj, idx, bo = base
        t = i.gty
        first = self.res(st, self.val(st, i.ops[1]))
        raw_first = self.val(st, i.ops[1])
        elemwise = isinstance(obj, str) or obj[0] in ("z", "vec", "heap", "buf")
        if first == ("c", 0) and raw_first[0] != "ix":
            pass
        elif not elemwise:
            if first[0] == "c":
                bo += first[1] * t.size
            else:
                return UNK
        else:
            # index of element size t.size
            if isinstance(obj, tuple) and obj[0] == "z":
                z = st.mem[obj]
                if t.size > 1 or z.get("esz") in (None, 1):
                    if z.get("esz") is None and bo == 0:
                        z["esz"] = t.size
                if z.get("esz") not in (None, t.size) and first[0] == "c" :
                    bo += first[1] * t.size
                    first = None
                elif z.get("esz") not in (None, t.size):
                    return UNK
            if first is not None:
                if obj == ("buf",) or (isinstance(obj, tuple) and obj[0] == "buf"):
                    return ("p", obj, SZ, 0)
                if first[0] == "scaled" and t.size == 1:
                    first = first[1]
                if isinstance(obj, tuple) and obj[0] == "vec" and idx[0] == "vi":
                    if first[0] == "c":
                        idx = self.advance(st, idx, first[1])
                    else:
                        return UNK
                elif idx == ("c", 0):
                    idx = raw_first if raw_first[0] == "ix" else first
                elif isinstance(idx, tuple) and idx[0] == "o":
                    if first[0] == "c" and idx[1] != "base":
                        idx = ("o", idx[1] + first[1])
                    else:
                        return UNK
                else:
                    idx = self.add(st, idx, first)
        for o in i.ops[2:]:
            v = self.val(st, o)
            if t.kind == "struct":
                k = v[1]
                bo += t.offs[k]
                t = t.elems[k]
            else:
                t = t.elem
                v = self.res(st, v)
                if v[0] == "c":
                    bo += v[1] * t.size
                else:
                    return UNK
        return ("p", obj, idx, bo)

    def truth(self, st, v, ins):
        """decide a branch condition -> bool (may choose)"""
        v = self.res(st, v)
        if v[0] == "c":
            st.havoc_last = False
            return v[1] != 0
        if v[0] == "undef":
            raise Violation("uninit", "a decision is taken on uninitialised scratch memory")
        if v[0] in ("unk",):
            r = st.choose(2)
            self.taint(st)
            st.havoc_last = True
            return bool(r)
        r = st.choose(2)
        st.havoc_last = True
        return bool(r)

    def exec_ins(self, st, i):
        """Execute one non-terminator, non-call instruction. Returns the value."""
        op = i.op
        if op == "load":
            v = self.load(st, self.val(st, i.ops[0]), i.ty, i)
            return v
        if op == "store":
            self.store(st, self.val(st, i.ops[1]), self.val(st, i.ops[0]), i.ops[0].ty if not isinstance(i.ops[0], Fn) else None, i)
            return None
        if op == "getelementptr":
            return self.gep(st, i)
        if op == "alloca":
            obj = ("al", len(st.frames), i.fn.name, i.uid)
            st.mem[obj] = {}
            return ("p", obj, ("c", 0), 0)
        if op in ("add", "sub"):
            x, y = self.val(st, i.ops[0]), self.val(st, i.ops[1])
            return self.add(st, x, y, i) if op == "add" else self.sub(st, x, y, i)
        if op in ("mul", "sdiv", "udiv", "srem", "urem", "shl", "lshr", "ashr", "and", "or", "xor"):
            x, y = self.val(st, i.ops[0]), self.val(st, i.ops[1])
            if i.ty.kind == "int" and i.ty.width == 1:
                return self.bool_op(st, op, x, y)
            return self.arith(st, op, x, y, i)
        if op == "icmp":
            x, y = self.val(st, i.ops[0]), self.val(st, i.ops[1])
            r = self.cmp(st, i.pred, x, y)
            if r is True:
                return ("c", 1)
            if r is False:
                return ("c", 0)
            if r == ("u",):
                return UNDEF
            return HV if r == ("?",) else UNK
        if op in ("zext", "sext", "trunc", "freeze", "bitcast"):
            v = self.val(st, i.ops[0])
            if v[0] == "c" and op != "bitcast":
                n = v[1]
                sw = i.ops[0].ty.width
                if op == "zext" and n < 0:
                    n &= (1 << sw) - 1
                if op == "sext" and sw == 1 and n == 1:
                    n = -1
                if op == "trunc":
                    w = i.ty.width
                    n &= (1 << w) - 1
                    if w > 1 and n >> (w - 1):
                        n -= 1 << w
                return ("c", n)
            return v
        if op == "ptrtoint":
            return ("pi", self.val(st, i.ops[0]))
        if op == "inttoptr":
            v = self.val(st, i.ops[0])
            return v[1] if v[0] == "pi" else UNK
        if op == "select":
            c = self.val(st, i.ops[0])
            t = self.truth(st, c, i)
            return self.val(st, i.ops[1] if t else i.ops[2])
        if op == "extractvalue":
            v = self.val(st, i.ops[0])
            for k in i.idxs:
                if v[0] == "agg":
                    v = v[1][k]
                else:
                    return UNK
            return v
        if op == "insertvalue":
            v = self.val(st, i.ops[0])
            if len(i.idxs) != 1:
                return UNK
            n = len(i.ty.elems)
            a = list(v[1]) if v[0] == "agg" else [UNDEF] * n
            a[i.idxs[0]] = self.val(st, i.ops[1])
            return ("agg", tuple(a))
        if op in ("fadd", "fsub", "fmul", "fdiv", "fneg", "fcmp", "sitofp", "uitofp", "fptosi", "fptoui", "fpext", "fptrunc", "frem"):
            vs = [self.val(st, o) for o in i.ops]
            if any(v[0] in ("unk",) for v in vs):
                return UNK
            if op == "fadd":
                return self.add_vals(vs[0], vs[1])
            if op == "fmul":
                return self.mul_vals(vs[0], vs[1])
            if op in ("fpext", "fptrunc"):
                return vs[0]
            if op == "fcmp":
                return HV
            if any(v[0] in ("sum", "av", "bv") for v in vs):
                return JUNK
            return SZ
        if op == "atomicrmw":
            self.taint(st)
            return UNK
        return UNK

    def bool_op(self, st, op, x, y):
        if x[0] == "c" and y[0] == "c":
            a, b = x[1] & 1, y[1] & 1
            return ("c", {"and": a & b, "or": a | b, "xor": a ^ b}.get(op, 0))
        for a, b in ((x, y), (y, x)):
            if a[0] == "c":
                if op == "and" and not a[1] & 1:
                    return ("c", 0)
                if op == "or" and a[1] & 1:
                    return ("c", 1)
                if op in ("and", "or") or (op == "xor"):
                    return b
        if UNK in (x, y):
            return UNK
        if UNDEF in (x, y):
            return UNDEF
        return HV

    # ------------------------------------------------------------------- run
    def jump(self, st, target):
        f = st.frames[-1]
        prev = f.bb
        phis = []
        livein, after, headers = fn_liveness(f.fn)
        back = prev in headers.get(target, ())
        for i in target.ins:
            if i.op != "phi":
                break
            for v, pb in i.incoming:
                if pb is prev:
                    x = self.val(st, v)
                    if x[0] == "ix" and x[1] == (f.fn.name, i.uid) and st.ix.get(x[1]) is not None and back:
                        x = st.ix[x[1]]
                    if target in headers and i.ty.kind == "int" and i.ty.width > 8:
                        if not back and x == ("c", 0):
                            st.ix[(f.fn.name, i.uid)] = None
                            x = ("ix", (f.fn.name, i.uid))
                        elif back and x[0] == "c" and not (-2 < x[1] < 2) and isinstance(v, Ins) and v.op not in ("phi", "load", "select"):
                            x = ("sz", ("w", f.fn.name, i.uid))
                        elif back and x[0] == "sz" and x[1] is not None:
                            x = ("sz", ("w", f.fn.name, i.uid))
                    if target in headers and x[0] == "cur" and x[3]:
                        x = ("cur", x[1], x[2], False)
                    elif target in headers and x[0] == "p" and x[2][0] == "cur" and x[2][3]:
                        x = ("p", x[1], ("cur", x[2][1], x[2][2], False), x[3])
                    phis.append((i, x))
                    break
        f.prev = prev
        f.bb = target
        f.pos = len(phis)
        keep = livein[target]
        env = {k: v for k, v in f.env.items() if k in keep}
        for i, x in phis:
            env[i] = x
        f.env = env
        # forget unused index bindings
        if st.ix:
            used = set()
            for fr in st.frames:
                for v in fr.env.values():
                    if v[0] == "ix":
                        used.add(v[1])
                    elif v[0] == "p" and v[2][0] == "ix":
                        used.add(v[2][1])
            st.ix = {k: v for k, v in st.ix.items() if k in used}

    def fid(self, fn):
        return fn.name

    def key(self, st):
        self.norm_out(st)
        kids, sids = self.live_ids(st)
        nk = [k for k in kids if isinstance(k, int)]
        if len(nk) == 1 and nk[0] != 0:
            self.rename_kid(st, nk[0], 0)
            kids = {0 if k == nk[0] else k for k in kids}
        st.seg = {k: v for k, v in st.seg.items() if not (isinstance(k, tuple) and k[0] == "B" and k[1] != "*" and k[1] not in kids)}
        st.kcls = {k: v for k, v in st.kcls.items() if k in kids}
        st.slots = {k: v for k, v in st.slots.items() if k in sids}

        def fz(x):
            if isinstance(x, dict):
                return frozenset([(k, fz(v) if isinstance(v, dict) else v) for k, v in x.items()])
            return x
        fr = tuple([(f.fn, f.bb, f.pos, frozenset(f.env.items())) for f in st.frames])
        return (fr, frozenset([(k, fz(v)) for k, v in st.mem.items()]), frozenset(st.g.items()), frozenset(st.seg.items()),
                frozenset(st.kcls.items()), frozenset(st.slots.items()), frozenset(st.ix.items()))

    def step_block(self, st):
        """run until a fork/jump to a join point; returns list of successor states"""
        while True:
            f = st.frames[-1]
            i = f.bb.ins[f.pos]
            self.n_steps += 1
            snapshot = None
            st.cp = 0
            try:
                if i.op in ("br", "switch"):
                    if i.op == "br":
                        if len(i.succs) == 1:
                            t = i.succs[0]
                        else:
                            c = self.val(st, i.ops[0])
                            r = self.truth(st, c, i)
                            t = i.succs[0] if r else i.succs[1]
                    else:
                        v = self.res(st, self.val(st, i.ops[0]))
                        if v[0] == "c":
                            t = i.succs[0]
                            for cv, b in i.cases:
                                if cv == v[1]:
                                    t = b
                        else:
                            if v[0] == "undef":
                                raise Violation("uninit", "a decision is taken on uninitialised scratch memory")
                            k = st.choose(len(i.succs))
                            if v[0] == "unk":
                                self.taint(st)
                            st.havoc_last = True
                            t = i.succs[k]
                    st.choices = []
                    if len(i.succs) > 1:
                        st.trail = (st.trail + ((i.file, i.line, i.succs.index(t)),))[-80:]
                    self.jump(st, t)
                    if len(t.preds) > 1:
                        return [st]
                    continue
                if i.op == "ret":
                    rv = self.val(st, i.ops[0]) if i.ops else None
                    fr = st.frames.pop()
                    d = len(st.frames) + 1
                    for k in [k for k in st.mem if isinstance(k, tuple) and k[0] == "al" and k[1] == d]:
                        del st.mem[k]
                    for k in [k for k in st.mem if isinstance(k, tuple) and k[0] in ("vec", "z", "heap") and isinstance(k[1], tuple) and k[1][0] == "al" and k[1][1] == d]:
                        del st.mem[k]
                    if not st.frames:
                        return []
                    if rv is not None and rv[0] == "ix":
                        rv = self.res(st, rv)
                    caller = st.frames[-1]
                    ci = fr.ret_to
                    if rv is not None and ci.ty.kind != "void":
                        caller.env[ci] = rv
                    st.choices = []
                    if ci.op == "invoke":
                        self.jump(st, ci.succs[0])
                        return [st]
                    caller.pos += 1
                    continue
                if i.op == "unreachable":
                    return []
                if i.op in ("call", "invoke"):
                    cal = i.callee
                    if not isinstance(cal, Fn):
                        v = self.val(st, cal) if isinstance(cal, (Ins, Arg)) else UNK
                        cal = self.m.fns.get(v[1]) if v[0] == "fn" else None
                    args = [self.val(st, o) for o in i.ops]
                    if cal is None:
                        self.taint(st)
                        f.env[i] = UNK
                    else:
                        if cal.name.startswith(("llvm.memcpy", "llvm.memmove")):
                            snapshot = st.copy()
                        args2 = [self.res(st, a) if a[0] == "ix" else a for a in args]
                        r = self.contract(st, cal.name, cal.dem, args2, i)
                        if r is None and pure_int(cal) and args2 and all(self.sizeish(a) and a[0] != "hv" for a in args2):
                            r = ("sz", ("w", f.fn.name, i.uid))
                        if r is None and not cal.decl:
                            if len(st.frames) > 40:
                                raise Prune()
                            _, after, _h = fn_liveness(f.fn)
                            keep = after[i]
                            f.env = {k: v for k, v in f.env.items() if k in keep}
                            nf = Frame(cal)
                            for a, v in zip(cal.args, args):
                                nf.env[a] = v
                            nf.ret_to = i
                            st.frames.append(nf)
                            self.fns.add(cal.name)
                            st.choices = []
                            continue
                        if r is None:
                            self.notes.add("unmodelled call: " + cal.dem[:120])
                            self.taint(st)
                            r = UNK
                        if r != ("void",) and i.ty.kind != "void":
                            f.env[i] = r
                    st.choices = []
                    if i.op == "invoke":
                        self.jump(st, i.succs[0])
                        return [st]
                    f.pos += 1
                    continue
                v = self.exec_ins(st, i)
                st.choices = []
                if v is not None:
                    f.env[i] = v
                f.pos += 1
            except NeedChoice as nc:
                base = snapshot if snapshot is not None else st
                out = []
                ch = base.choices
                for k in range(nc.n):
                    s = base.copy() if k + 1 < nc.n else base
                    s.choices = ch + [k]
                    s.cp = 0
                    out.append(s)
                return ("fork", out)
            except Prune:
                return []
            except Violation as vi:
                if not st.g.get("taint"):
                    self.report(st, vi, i)
                else:
                    self.undecided.setdefault((vi.kind, i.fn.dem[:100], i.line), vi.msg + " (on a path through a construct outside the model)")
                return []

    def loc(self, st, i):
        """innermost location inside /repo on the call stack"""
        cands = []
        if i.line:
            cands.append((i.file, i.line, i.fn.dem))
        for f in reversed(st.frames[:-1]):
            j = f.bb.ins[min(f.pos, len(f.bb.ins) - 1)]
            cands.append((j.file, j.line, f.fn.dem))
        for c in cands:
            if c[0].startswith(self.repo + "/"):
                return c
        # fall back on the trail
        for t in reversed(st.trail):
            if t[0].startswith(self.repo + "/"):
                return (t[0], t[1], self.root.name)
        return cands[0] if cands else ("?", 0, "?")

    def report(self, st, vi, i):
        file, line, fn = self.loc(st, i)
        # a row-end violation: locate at the kernel
        key = (vi.kind, vi.msg)
        if key in self.violations:
            return
        if self.kinds is not None and vi.kind not in self.kinds:
            self.other.setdefault(key, "%s:%s" % (file.replace(self.repo + "/", ""), line))
            return
        trail = []
        last = None
        for t in st.trail:
            if t[0].startswith(self.repo + "/"):
                e = "%s:%d branch %d" % (t[0][len(self.repo) + 1:], t[1], t[2])
                if e != last:
                    trail.append(e)
                last = e
        self.violations[key] = {"kind": vi.kind, "msg": vi.msg, "file": file.replace(self.repo + "/", ""), "line": line,
                                "function": fn[:160], "input": self.describe(st) if st.seg else "", "path": trail[-40:]}

    def run(self, stop_on_first=True):
        st = St()
        f = Frame(self.root)
        st.frames.append(f)
        self.setup(st, f)
        work = [st]
        while work:
            st = work.pop()
            nid = st.nid
            r = self.step_block(st)
            if isinstance(r, tuple):
                work.extend(r[1])
                continue
            if not r:
                self.exits.add(nid)
            for s in r:
                try:
                    k = self.key(s)
                except Violation as vi:
                    i = s.frames[-1].bb.ins[s.frames[-1].pos]
                    self.exits.add(nid)
                    if not s.g.get("taint"):
                        self.report(s, vi, i)
                    else:
                        self.undecided.setdefault((vi.kind, i.fn.dem[:100], i.line), vi.msg + " (on a path through a construct outside the model)")
                    continue
                n = self.visited.get(k)
                if n is not None:
                    self.preds[n].append(nid)
                    continue
                self.n_states += 1
                n = self.n_states
                self.visited[k] = n
                self.preds[n] = [nid]
                s.nid = n
                i = s.frames[-1].bb.ins[s.frames[-1].pos]
                self.node_loc[n] = (i, len(s.frames))
                if self.n_states > self.max_states or (self.deadline and self.n_states % 256 == 0 and time.time() > self.deadline):
                    self.undecided[("budget", "")] = "state/time budget exhausted"
                    return
                work.append(s)
            if stop_on_first and self.violations:
                return
        if not self.violations and not self.undecided and not self.other:
            self.check_progress()

    def check_progress(self):
        """From every reachable abstract state the end of the row must be reachable: the abstract
        transitions over-approximate the real ones, so a state without it never finishes."""
        good = set(self.exits)
        work = list(good)
        while work:
            n = work.pop()
            for p in self.preds.get(n, ()):
                if p not in good:
                    good.add(p)
                    work.append(p)
        for n in range(1, self.n_states + 1):
            if n not in good:
                i = self.node_loc[n][0]
                key = ("noresult", i.fn.name)
                if key not in self.violations and (self.kinds is None or "noresult" in self.kinds):
                    fl = i.file.replace(self.repo + "/", "")
                    self.violations[key] = {"kind": "noresult", "msg": "the row can never finish once control is here (a loop that no input lets terminate)",
                                            "file": fl, "line": i.line, "function": i.fn.dem[:160], "input": "", "path": []}
                break

    def setup(self, st, f):
        m = self.m

        def offs(gn):
            return [c.val for c in m.globals[gn].init.ops]
        csr = offs("vp_off_csr")
        csc = offs("vp_off_csc")

        def mat(nm, o, names):
            d = {}
            d[o[0]] = ("sym", nm + ".rows")
            d[o[1]] = ("sym", "cols") if nm in ("B", "M") else ("sym", nm + ".cols")
            d[o[2]] = ("sym", nm + ".nnz")
            for k in range(3):
                d[o[3 + k]] = ("p", nm + "." + names[k], ("c", 0), 0)
            st.mem[("obj", nm)] = d
            return ("p", ("obj", nm), ("c", 0), 0)
        R = ("rowptr", "colids", "values")
        a = f.fn.args
        f.env[a[0]] = mat("A", csr, R)
        f.env[a[1]] = mat("B", csc if self.csc else csr, ("colptr", "rowids", "values") if self.csc else R)
        f.env[a[2]] = mat("M", csr, R)
        if self.mode == "num":
            f.env[a[3]] = ("p", "outc", ("o", 0), 0)
            f.env[a[4]] = ("p", "outv", ("o", 0), 0)
        else:
            f.env[a[3]] = ("p", "nvals", ("c", 0), 0)
        st.mem["outc"] = {}
        st.mem["outv"] = {}
        st.mem["nvals"] = {}
        st.g["focus"] = None
        st.g["oth"] = 0
        st.g["seal"] = (0, None, None)
