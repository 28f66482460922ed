"""Abstract interpreter for the multiplication drivers, the prefix scans and the work estimates.

The row algorithm is a contract (tu/drivers.cpp).  One arbitrary row q is followed: integers are linear terms
over q's quantities (projected: what other rows add is dropped and only flagged); row indices are points of a
dense linear order 0 <= q, r, thread boundaries, rows.  Threads run phase by phase between barriers; accesses of
one phase are compared for races.  Nothing is executed."""
import re
from collections import OrderedDict
from absint import Machine, State, Frame, UNK, Undecided
from kernel_ai import fn_liveness, Violation, Prune, NeedChoice
from llvmir import Const, Fn, Ins, Arg
from lin import mk, ZERO, K, A, add, sub, scale, drop, divex, isconst, coef, cons, entails, elim, oadd

WORK = (("a", "f"), ("a", "mlen"), ("a", "alen"))
Q_ATOMS = ("cnt", "f", "mlen", "alen")


class Region:
    __slots__ = ("kind", "size", "live", "cells", "segs", "meta", "name", "fn", "gaps", "esz", "wr", "kc", "lv")

    def __init__(self, kind, size, name, fn=None, esz=0):
        self.kind, self.size, self.name, self.fn, self.esz = kind, size, name, fn, esz
        self.live = True
        self.cells = {}
        self.segs = ()
        self.meta = {}
        self.gaps = {}
        self.wr = 0
        self.kc = self.lv = None

    def copy(self):
        r = Region.__new__(Region)
        r.kind, r.size, r.live, r.name, r.fn, r.esz, r.segs, r.wr = self.kind, self.size, self.live, self.name, self.fn, self.esz, self.segs, self.wr
        r.cells = dict(self.cells)
        r.meta = dict(self.meta)
        r.gaps = dict(self.gaps)
        r.kc = r.lv = None
        return r

    def keys(self):
        if self.kc is None:
            self.kc = (self.live, self.size, frozenset(self.cells.items()), self.segs, frozenset((g, v) for g, v in self.gaps.items() if v is not None),
                       self.fn, frozenset((a, b) for a, b in self.meta.items() if a not in ("init", "names"))) if self.live else None
            if self.kc is None:
                self.kc = ("freed",)
        return self.kc

    def atoms(self):
        if self.lv is None:
            pts, us, rids = set(), set(), set()
            if self.live:
                for v in self.cells.values():
                    atoms_of(v, pts, us, rids)
                for v in self.gaps.values():
                    if v is not None:
                        atoms_of(v, pts, us, rids)
                if self.size is not None:
                    atoms_of(self.size, pts, us, rids)
                for s in self.segs:
                    atoms_of(s[1], pts, us, rids)
                for v in self.meta.values():
                    if isinstance(v, tuple) and v:
                        if v[0] == "i":
                            atoms_of(v, pts, us, rids)
                        elif isinstance(v[0], tuple):
                            for x in v:
                                if isinstance(x, tuple) and x and x[0] == "i":
                                    atoms_of(x, pts, us, rids)
            self.lv = (pts, us, rids)
        return self.lv


def atoms_of(v, pts, us, rids):
    k = v[0]
    if k == "i":
        for a, _ in v[2]:
            x = a[0]
            if x == "pt":
                pts.add(a[1])
            elif x == "S":
                pts.add(a[2])
            elif x == "u" or x == "mem":
                us.add(a[1] if x == "u" else a)
    elif (k == "p" or k == "pi") and len(v) > 2:
        rids.add(v[1])
        atoms_of(v[2], pts, us, rids)


class D:
    __slots__ = ("order", "adj", "named", "memo", "facts", "mem", "owned", "nid", "nu", "nr", "par", "cur", "threads", "master",
                 "log", "freed", "done", "nt", "lock", "tags", "scen")

    def __init__(self):
        self.order = []
        self.adj = set()
        self.named = {}
        self.memo = {}
        self.facts = frozenset()
        self.mem = {}
        self.owned = set()
        self.nid = self.nu = self.nr = 0
        self.par = False
        self.cur = 0
        self.threads = []
        self.master = None
        self.log = {}
        self.freed = {}
        self.done = ()
        self.nt = 1
        self.lock = None
        self.tags = {}
        self.scen = ""

    def copy(self):
        d = D.__new__(D)
        for k in self.__slots__:
            setattr(d, k, getattr(self, k))
        d.order = list(self.order)
        d.adj = set(self.adj)
        d.named = dict(self.named)
        d.memo = dict(self.memo)
        d.mem = dict(self.mem)
        d.owned = set()
        self.owned = set()
        d.threads = list(self.threads)
        d.log = dict(self.log)
        d.freed = dict(self.freed)
        d.tags = dict(self.tags)
        return d

    def w(self, rid):
        """region for writing"""
        if rid not in self.owned:
            self.mem[rid] = self.mem[rid].copy()
            self.owned.add(rid)
            return self.mem[rid]
        r = self.mem[rid]
        r.kc = r.lv = None
        return r


def T(v):
    return v if v[0] == "i" else None


def conv(v):
    """('c', n) -> term"""
    return K(v[1]) if v[0] == "c" else v


class DriverAI(Machine):
    snap_store = False

    def snaps(self, st, i):
        op = i.op
        if op in ("load", "store"):
            v = self.val(st, i.ops[0] if op == "load" else i.ops[1])
            if v[0] == "p":
                r = st.d.mem.get(v[1])
                return r is None or not (isconst(v[2]) and (r.size is None or isconst(r.size)))
            return True
        if op == "icmp":
            return not any(isinstance(o, Const) and o.ck == "null" for o in i.ops)
        if op in ("br", "switch"):
            for b in i.succs:
                for j in b.ins:
                    if j.op != "phi":
                        break
                    for v, pb in j.incoming:
                        if pb is i.bb:
                            v = self.val(st, v)
                            if v[0] == "i" and (v[2] or v[1]):
                                return True
            return False
        if op in ("call", "invoke"):
            c = i.callee
            return isinstance(c, Fn) and (c.decl or self.stdname(c.dem))
        return op in ("sdiv", "udiv")

    def __init__(self, mod, root, scenario, repo="/repo", **kw):
        super().__init__(mod, repo=repo, **kw)
        self.root = root
        self.sc = scenario              # dict: alias, nt, zero, compl, rorder, kind
        self.csr = [c.val for c in mod.globals["vp_csr"].init.ops]
        self.csc = [c.val for c in mod.globals["vp_csc"].init.ops]
        self.rowvars = set()
        if not getattr(mod, "nodbg", False):
            mod.nodbg = True
            for f in mod.fns.values():
                for b in f.bbs:
                    b.ins = [i for i in b.ins if not (i.op == "call" and isinstance(i.callee, Fn) and i.callee.name.startswith(("llvm.dbg", "llvm.lifetime")))]

    def merge_at(self, fn, b):
        return b in fn_liveness(fn)[2]

    # ------------------------------------------------------------------ points
    def newpt(self, d, named=False):
        n = 20 if not named else 4
        while n in d.order:
            n += 1
        return n

    def insert(self, d, pos, adj_left=False, adj_right=False, named=False):
        """a new class at index pos of the order"""
        n = self.newpt(d, named)
        if pos > 0:
            d.adj.discard(d.order[pos - 1])
            L = self.left_named(d, pos)
            for rid in list(d.mem):
                r = d.mem[rid]
                if r.gaps and L in r.gaps:
                    r = d.w(rid)
                    if r.gaps[L] is not None:
                        r.cells[("x", n)] = r.gaps[L]
        d.order.insert(pos, n)
        if adj_left and pos > 0:
            d.adj.add(d.order[pos - 1])
        if adj_right:
            d.adj.add(n)
        return n

    def left_named(self, d, pos):
        perm = self.perm(d)
        for k in range(pos - 1, -1, -1):
            if d.order[k] in perm:
                return d.order[k]
        return None

    def perm(self, d):
        return set(d.named.values()) | set(d.memo.values())

    def nextp(self, st, p):
        d = st.d
        k = d.order.index(p)
        if p in d.adj:
            return d.order[k + 1]
        if k + 1 < len(d.order):
            if st.choose(2) == 0:
                d.adj.add(p)
                return d.order[k + 1]
        return self.insert(d, k + 1, adj_left=True)

    def prevp(self, st, p):
        d = st.d
        k = d.order.index(p)
        if k == 0:
            return self.insert(d, 0, adj_right=True)
        if d.order[k - 1] in d.adj:
            return d.order[k - 1]
        if st.choose(2) == 0:
            d.adj.add(d.order[k - 1])
            return d.order[k - 1]
        return self.insert(d, k, adj_right=True)

    def shift(self, st, p, c):
        if abs(c) > 6:
            raise Undecided("far index offset")
        while c > 0:
            p = self.nextp(st, p)
            c -= 1
        while c < 0:
            p = self.prevp(st, p)
            c += 1
        return p

    def place(self, st, lo, hi):
        """an arbitrary new point between classes lo and hi (inclusive): returns its class"""
        d = st.d
        a, b = d.order.index(lo), d.order.index(hi)
        opts = []
        for k in range(a, b + 1):
            opts.append(("eq", k))
            if k < b and d.order[k] not in d.adj:
                opts.append(("gap", k))
        o = opts[st.choose(len(opts))]
        if o[0] == "eq":
            return d.order[o[1]]
        return self.insert(d, o[1] + 1, named=True)

    def to_point(self, st, t):
        """class of a row-index term, or None"""
        d = st.d
        if t[3] or len(t[2]) > 1:
            return None
        if not t[2]:
            if abs(t[1]) > 6:
                return None
            return self.shift(st, d.named["Z"], t[1])
        (a, k), = t[2]
        if a[0] != "pt":
            return None
        p = a[1]
        if k != 1:
            if p not in d.tags or k < 0:
                return None
            p = self.mulp(st, p, k)
            if p is None:
                return None
        return self.shift(st, p, t[1])

    def mulp(self, st, p, k):
        """k * p for a point p = total / n"""
        d = st.d
        total, n = d.tags[p]
        if k == 0:
            return d.named["Z"]
        if k == 1:
            return p
        m = d.memo.get(("mul", p, k))
        if m is not None:
            return m
        if k > n:
            return None
        b = self.mulp(st, p, k - 1)
        Z = d.named["Z"]
        if p == Z:
            r = Z
        else:
            if b == total:
                raise Prune()
            lo = d.order.index(b)
            # strictly greater than b, at most total
            opts = []
            ti = d.order.index(total)
            for q in range(lo, ti + 1):
                if q > lo:
                    opts.append(("eq", q))
                if q < ti and d.order[q] not in d.adj:
                    opts.append(("gap", q))
            if not opts:
                raise Prune()
            o = opts[st.choose(len(opts))]
            r = d.order[o[1]] if o[0] == "eq" else self.insert(d, o[1] + 1, named=True)
        d.memo[("mul", p, k)] = r
        return r

    def before(self, d, a, b):
        return d.order.index(a) < d.order.index(b)

    # ------------------------------------------------------------------ terms
    def fresh(self, d, o=""):
        d.nu += 1
        return ("i", 0, ((("u", d.nu), 1),), o)

    def pt(self, p):
        return A(("pt", p))

    def norm(self, t, d):
        """point 0 is the number 0"""
        z = ("pt", d.named["Z"])
        if any(a == z for a, _ in t[2]):
            return mk(t[1], [(a, k) for a, k in t[2] if a != z], t[3])
        return t

    def rowptr(self, st, mat, p):
        d = st.d
        n = d.named
        at = []
        if mat in ("A", "M"):
            if self.before(d, n["q"], p):
                at.append((("a", mat.lower() + "len"), 1))
        k = d.order.index(p)
        if k > 0 and d.order[k - 1] == n["q"] and d.order[k - 1] in d.adj:
            p = n["q"]
        at.append((("S", mat, p), 1))
        return mk(0, at)

    def degrade(self, t):
        """unknowns of other rows inside a sum become a flag"""
        o = t[3]
        at = []
        for a, k in t[2]:
            if a[0] == "u":
                o2 = "P" if k > 0 else "N"
                o = o2 if not o or o == o2 else "?"
            else:
                at.append((a, k))
        return mk(t[1], at, o)

    def sfacts(self, d, x):
        out = set()
        by = {}
        for a, _ in x[2]:
            if a[0] == "S":
                by.setdefault(a[1], []).append(a)
        for m, l in by.items():
            l.sort(key=lambda a: d.order.index(a[2]))
            if l[0][2] == d.named["Z"]:
                out.add((0, ((l[0], -1),)))
            for u, v in zip(l, l[1:]):
                out.add((0, tuple(sorted(((v, 1), (u, -1))))))
        ps = sorted({a for a, _ in x[2] if a[0] == "pt"}, key=lambda a: d.order.index(a[1]))
        for u, v in zip(ps, ps[1:]):
            out.add((-1, tuple(sorted(((v, 1), (u, -1))))))
        return out

    def ge0(self, d, x):
        """is x >= 0 entailed, others' contributions disregarded"""
        return entails(d.facts | self.sfacts(d, x), drop(x))

    def eq0(self, d, x):
        return self.ge0(d, x) and self.ge0(d, scale(x, -1))

    def learn(self, d, x):
        """x >= 0 holds"""
        if x[3] in ("P", "?"):
            return
        if any(a[0] == "pt" or a[0] == "S" and a[2] != d.named["E"] for a, _ in x[2]):
            return
        f = d.facts | {cons(x)}
        if entails(f, K(-1)):
            raise Prune()
        from lin import infeasible
        base = set(f)
        for c in f:
            for a, _ in c[1]:
                base.add((0, ((a, 1),)))
        if infeasible(frozenset(base)):
            raise Prune()
        for x in ("alen",) if self.sc["compl"] else ("alen", "mlen"):
            # no work without entries in both
            c = (-1, ((("a", x), 1),))
            if c not in f and entails(f, mk(-1, [(("a", "f"), 1)])):
                f = f | {c}
                base.add(c)
                if infeasible(frozenset(base)):
                    raise Prune()
        d.facts = f

    # ------------------------------------------------------------------ compare
    def icmp(self, st, pred, x, y):
        d = st.d
        if x[0] == "p" or y[0] == "p":
            return self.pcmp(st, pred, x, y)
        x, y = conv(x), conv(y)
        if x[0] != "i" or y[0] != "i":
            return st.choose(2)
        pred = {"ult": "slt", "ule": "sle", "ugt": "sgt", "uge": "sge"}.get(pred, pred)
        if pred in ("sgt", "sge"):
            x, y = y, x
            pred = {"sgt": "slt", "sge": "sle"}[pred]
        x, y = self.norm(x, d), self.norm(y, d)
        df = sub(y, x)          # slt: df >= 1 ; sle: df >= 0
        if isconst(df):
            c = df[1]
            return int({"eq": c == 0, "ne": c != 0, "slt": c >= 1, "sle": c >= 0}[pred])
        # row indices
        haspt = any(a[0] == "pt" for a, _ in df[2])
        if haspt:
            pts = sorted((k, a) for a, k in df[2])
            if len(pts) == 2 and pts[0][1][0] == pts[1][1][0] == "pt" and (pts[0][0], pts[1][0]) == (-1, 1) and not df[3]:
                x, y = A(pts[0][1]), mk(df[1], [(pts[1][1], 1)])
            px = self.to_point(st, x)
            py = self.to_point(st, y)
            if px is not None and py is not None:
                a, b = d.order.index(px), d.order.index(py)
                return int({"eq": a == b, "ne": a != b, "slt": a < b, "sle": a <= b}[pred])
            raise Undecided("row indices related only through a count")
        if pred in ("slt", "sle"):
            k = 1 if pred == "slt" else 0
            t = add(df, K(-k))
            f = add(scale(df, -1), K(k - 1))
            if t[3] in ("", "P") and self.ge0(d, t):
                return 1
            if f[3] in ("", "P") and self.ge0(d, f):
                return 0
            if st.choose(2) == 0:
                self.learn(d, t)
                return 1
            self.learn(d, f)
            return 0
        # eq / ne
        up = add(df, K(-1))
        dn = add(scale(df, -1), K(-1))
        if up[3] in ("", "P") and self.ge0(d, up) or dn[3] in ("", "P") and self.ge0(d, dn):
            return int(pred == "ne")
        if not df[3] and self.eq0(d, df):
            return int(pred == "eq")
        c = st.choose(3)
        if c == 0:
            # equal: with extra others >= 0, x + P == y gives y - x >= 0
            self.learn(d, df if df[3] != "?" else df)
            self.learn(d, scale(df, -1))
            return int(pred == "eq")
        self.learn(d, up if c == 1 else dn)
        return int(pred == "ne")

    def pcmp(self, st, pred, x, y):
        d = st.d
        if x[0] == "c" or y[0] == "c" or x == K(0) or y == K(0):
            p = x if x[0] == "p" else y
            o = y if x[0] == "p" else x
            if o in (("c", 0), K(0)) and p[0] == "p":
                return int(pred == "ne")
            return st.choose(2)
        if x[0] == "p" and y[0] == "p":
            if x[1] == y[1]:
                r = d.mem.get(x[1])
                es = r.esz if r is not None and r.esz else 1
                if es == 1 and r is not None and r.size is not None and self.mode(r) == "row":
                    es = max(1, min(8, abs(next((k for a, k in r.size[2] if a[0] == "pt"), 1))))
                a, b = divex(x[2], es), divex(y[2], es)
                if a is None or b is None:
                    a, b = x[2], y[2]
                return self.icmp(st, pred, a, b)
            if pred in ("eq", "ne"):
                return int(pred == "ne")
        return st.choose(2)

    # ------------------------------------------------------------------ memory
    def alloc(self, st, kind, size, name, **kw):
        d = st.d
        if name == "temporary":
            n = 0
            while ("t", n) in d.mem:
                n += 1
            rid = ("t", n)
        else:
            d.nr += 1
            rid = d.nr
        d.mem[rid] = Region(kind, size, name, **kw)
        d.owned.add(rid)
        return rid

    def reg(self, st, rid, what):
        d = st.d
        r = d.mem.get(rid)
        if r is None:
            raise Undecided("access to a dead stack slot")
        if not r.live:
            raise Violation("uaf", "%s after it was freed: %s" % (what, r.name))
        return r

    def mode(self, r):
        s = r.size
        if r.fn and r.fn[0] in ("rowptr", "row", "prefix"):
            return "row"
        if s is None or isconst(s):
            return "byte"
        if any(a[0] == "pt" for a, _ in s[2]):
            return "row"
        return "buf"

    def index(self, st, r, off, n):
        """point of an access of n bytes at byte offset off of a row-indexed region"""
        es = r.esz or n
        t = divex(self.norm(off, st.d), es)
        if t is None:
            return None
        return self.to_point(st, t)

    def access(self, st, rid, off, n, wr, what):
        """returns (region, key)"""
        d = st.d
        r = self.reg(st, rid, what)
        m = self.mode(r)
        if m == "row":
            if not r.esz:
                r = d.w(rid)
                r.esz = n
            p = self.index(st, r, off, n)
            if p is None:
                raise Undecided("index %r of %s" % (off, r.name))
            sp = self.to_point(st, divex(self.norm(r.size, d), r.esz) or ("i", 0, (("?", 1), ("!", 1)), ""))
            if sp is None:
                raise Undecided("size of %s" % r.name)
            if not self.before(d, p, sp) or self.before(d, p, d.named["Z"]):
                raise Violation("oob", "%s outside %s" % (what, r.name))
            self.touch(st, rid, ("x", p), wr)
            return d.mem[rid], ("x", p)
        if m == "byte":
            if isconst(off):
                if r.size is not None and not (0 <= off[1] and off[1] + n <= r.size[1]):
                    raise Violation("oob", "%s outside %s" % (what, r.name))
                if r.kind != "stack" or r.meta.get("shared"):
                    self.touch(st, rid, ("b", off[1]), wr)
                return r, ("b", off[1])
            raise Undecided("offset %r of %s" % (off, r.name))
        raise Undecided("element access %r of %s" % (off, r.name))

    def touch(self, st, rid, key, wr, atomic=False):
        d = st.d
        if not d.par:
            return
        r = d.mem[rid]
        if r.kind == "in":
            return
        if key[0] == "x" and key[1] not in self.perm(d):
            return          # an anonymous row: some run follows it as q
        k = (rid, key)
        tids = d.log.get(k, ())
        me = (d.cur, wr, d.lock or atomic)
        for t, w, l in tids:
            if t != d.cur and (w or wr) and not (l and (d.lock or atomic)):
                raise Violation("race", "%s is %s by one thread and %s by another without a barrier between" % (
                    r.name, "written" if w else "read", "written" if wr else "read"))
        if me not in tids:
            d.log[k] = tids + (me,)

    def load(self, st, rid, off, ty):
        d = st.d
        r, key = self.access(st, rid, off, ty.size or 8, False, "read")
        if key in r.cells:
            return r.cells[key]
        if key[0] == "x":
            p = key[1]
            if r.fn:
                return self.content(st, r, p)
            L = self.left_named(d, d.order.index(p)) if p not in self.perm(d) else None
            if L is not None and L in r.gaps:
                return r.gaps[L]
            if p in self.perm(d):
                raise Violation("uninit", "%s is read for a row before it is set" % r.name)
            return self.fresh(d)
        if r.fn == "init":
            return UNK
        if r.kind == "in":
            return UNK
        if r.kind == "heap":
            raise Violation("uninit", "%s is read before it is set" % r.name)
        if r.kind == "stack" and ty.kind == "ptr":
            return ("undef", r.name)
        return UNK

    def content(self, st, r, p):
        d = st.d
        k = r.fn[0]
        if k == "rowptr":
            return self.rowptr(st, r.fn[1], p)
        if k == "row":
            if p == d.named["q"]:
                return A(("a", r.fn[1]))
            return self.fresh(d)
        if k == "prefix":
            at = []
            if self.before(d, d.named["q"], p):
                at.append((("a", r.fn[1]), 1))
            return mk(0, at, "P" if p != d.named["Z"] else "")
        return self.fresh(d)

    def store(self, st, rid, off, v, n):
        d = st.d
        r, key = self.access(st, rid, off, n, True, "write")
        if r.kind == "in":
            raise Violation("inputwrite", "an input array is modified: %s" % r.name)
        if r.meta.get("const"):
            raise Violation("inputwrite", "an input matrix is modified: %s" % r.name)
        r = d.w(rid)
        if key[0] == "b":
            for k in list(r.cells):
                if k[0] == "b" and k != key and k[1] < key[1] + n and key[1] < k[1] + 8:
                    pass
            r.cells[key] = v
            return
        if v[0] == "i" and key[1] != d.named["q"]:
            v = self.degrade(v)
            v = mk(v[1], v[2], "P")
        r.cells[key] = v
        for k in [k for k in d.memo if k[0] == "lb" and k[1] == rid]:
            pass

    def free(self, st, v, aligned):
        d = st.d
        if v in (("c", 0), K(0)):
            return
        if v[0] != "p":
            raise Undecided("free of an unknown pointer")
        rid = v[1]
        r = d.mem.get(rid)
        if r is None:
            raise Undecided("free of an unknown region")
        if not r.live:
            raise Violation("doublefree", "%s is freed twice" % r.name)
        if r.kind in ("stack", "obj", "glob"):
            raise Violation("badfree", "%s is not a heap block" % r.name)
        if r.kind == "in":
            raise Violation("inputfree", "an input array is freed: %s" % r.name)
        if not self.eq0(d, v[2]) or v[2][3]:
            raise Violation("badfree", "free of a pointer into the middle of %s" % r.name)
        if (r.kind == "aligned") != aligned:
            raise Violation("badfree", "%s is released with the wrong function" % r.name)
        self.touch_all(st, rid)
        r = d.w(rid)
        r.live = False
        r.cells = {}
        r.gaps = {}

    def touch_all(self, st, rid):
        """freeing conflicts with any access of another thread in the same phase"""
        d = st.d
        if not d.par:
            return
        for (r2, key), tids in d.log.items():
            if r2 == rid:
                for t, w, l in tids:
                    if t != d.cur:
                        raise Violation("race", "%s is freed while another thread may still use it" % d.mem[rid].name)

    # ------------------------------------------------------------------ instructions
    def const(self, c):
        if c.ck == "int":
            return K(c.val)
        if c.ck == "null":
            return K(0)
        if c.ck == "ce" and c.op == "getelementptr":
            return UNK
        return UNK

    def glob(self, st, g):
        return ("p", ("g", g.name), ZERO)

    def truth(self, st, v, i):
        if v[0] == "i" and isconst(v):
            return bool(v[1] & 1)
        if v[0] == "c":
            return bool(v[1] & 1)
        return bool(st.choose(2))

    def jump(self, st, target):
        self.step_pts = set()
        Machine.jump(self, st, target)
        if len(self.step_pts) > 1:
            raise Undecided("row indices related only through a count")       # two row indices move independently: their relation is lost

    def phi(self, st, i, v, back):
        if v[0] == "i":
            v = self.norm(v, st.d)
            if back and any(a[0] == "a" and abs(k) > 8 for a, k in v[2]):     # counted over and over: "many times"
                v = mk(v[1], [(a, max(-8, min(8, k)) if a[0] == "a" else k) for a, k in v[2]], v[3])
            if len(v[2]) == 1 and v[2][0][0][0] == "pt" and v[2][0][1] == 1 and v[1] and not v[3]:
                p = self.to_point(st, v)
                if back:
                    self.step_pts.add(p)
                return self.norm(self.pt(p), st.d)
            if not v[2] and not v[3] and 0 < abs(v[1]) <= 3 and back and self.rowvar(i):
                p = self.to_point(st, v)
                self.step_pts.add(p)
                return self.pt(p)
            if back and v[1] and sum(1 for a, _ in v[2] if a[0] == "pt") > 1:
                raise Undecided("row indices related only through a count")       # a count of rows that is stepped: its relation to the rows stepped over is lost
        elif v[0] == "p" and back and v[1] in st.d.mem and v[2][0] == "i" and not v[2][3]:
            r = st.d.mem[v[1]]
            if r.live and r.esz and self.mode(r) == "row":
                t = divex(self.norm(v[2], st.d), r.esz)
                if t is not None and t[1] and (not t[2] and abs(t[1]) <= 3 or len(t[2]) == 1 and t[2][0][0][0] == "pt" and t[2][0][1] == 1):
                    p = self.to_point(st, t)
                    if p is not None:
                        self.step_pts.add(p)
                        return ("p", v[1], scale(self.norm(self.pt(p), st.d), r.esz))
        return v

    def rowvar(self, i):
        """a loop variable bounded by a row count: decided by its recorded companions; constants stay numbers"""
        return i in self.rowvars

    def mark(self, i, v):
        """remember loop variables compared with row indices"""
        for o, x in ((i.ops[0], v[1]), (i.ops[1], v[0])):
            if x[0] == "i" and any(a[0] == "pt" for a, _ in x[2]):
                while isinstance(o, Ins) and o.op in ("sext", "zext", "trunc"):
                    o = o.ops[0]
                if isinstance(o, Ins) and o.op == "phi":
                    self.rowvars.add(o)

    def gepoff(self, st, i, ops, gty):
        t = ZERO
        cur = gty
        for k, o in enumerate(ops):
            v = conv(o)
            if k == 0:
                if v[0] != "i":
                    return None
                t = add(t, scale(v, cur.size))
                continue
            if cur.kind == "struct":
                idx = v[1]
                t = add(t, K(cur.offs[idx]))
                cur = cur.elems[idx]
            else:
                if v[0] != "i":
                    return None
                cur = cur.elem
                t = add(t, scale(v, cur.size))
        return t

    def ins(self, st, i):
        d = st.d
        op = i.op
        if op == "alloca":
            f = st.frames[-1]
            rid = ("s", d.cur if d.par else -1, len(st.frames), f.fn.name, i.uid)
            d.mem[rid] = Region("stack", K(i.aty.size) if i.aty.size else None, "local of " + f.fn.dem[:60])
            d.owned.add(rid)
            return ("p", rid, ZERO)
        v = [self.val(st, o) for o in i.ops]
        if op == "load":
            p = v[0]
            if p[0] == "p":
                if isinstance(p[1], tuple) and p[1][0] == "g":
                    return self.gload(st, p, i)
                x = self.load(st, p[1], p[2], i.ty)
                return x
            if p[0] == "i" or p[0] == "c":
                raise Violation("null", "a null pointer is read")
            if p[0] == "undef":
                raise Violation("uninit", "a pointer that was never set is followed: " + p[1])
            raise Undecided("read through an unknown pointer")
        if op == "store":
            p = v[1]
            if p[0] == "p":
                if isinstance(p[1], tuple) and p[1][0] == "g":
                    raise Undecided("write to a global")
                self.store(st, p[1], p[2], conv(v[0]), i.ops[0].ty.size)
                return None
            if p[0] == "undef":
                raise Violation("uninit", "a pointer that was never set is followed: " + p[1])
            raise Undecided("write through an unknown pointer")
        if op == "getelementptr":
            b = v[0]
            off = self.gepoff(st, i, v[1:], i.gty)
            if b[0] == "p":
                if off is None:
                    return ("p", b[1], ("i", 0, (), "?"))
                return ("p", b[1], self.norm(add(b[2], off), d))
            return b if b[0] == "undef" else UNK
        if op in ("sext", "zext", "trunc", "freeze", "bitcast"):
            return v[0]
        if op == "ptrtoint":
            return ("pi",) + v[0][1:] if v[0][0] == "p" else v[0]
        if op == "inttoptr":
            return ("p",) + v[0][1:] if v[0][0] == "pi" else UNK
        if op == "icmp":
            a, b = v
            if a[0] == "pi":
                a = ("p",) + a[1:]
            if b[0] == "pi":
                b = ("p",) + b[1:]
            self.mark(i, (a, b))
            return K(self.icmp(st, i.pred, a, b))
        if op == "select":
            return v[1] if self.truth(st, v[0], i) else v[2]
        if op in ("add", "sub", "mul", "sdiv", "udiv", "srem", "urem", "shl", "lshr", "ashr", "and", "or", "xor"):
            return self.arith(st, op, v[0], v[1], i)
        if op in ("extractvalue", "insertvalue", "fadd", "fsub", "fmul", "fdiv", "fcmp", "sitofp", "uitofp", "fptosi", "fpext", "fptrunc", "fneg"):
            return UNK
        if op == "atomicrmw":
            p = v[0]
            if p[0] == "p":
                r, key = self.access(st, p[1], p[2], i.ty.size, False, "read")
            return UNK
        raise Undecided("instruction " + op)

    def gload(self, st, p, i):
        g = self.m.globals.get(p[1][1])
        if g is not None and g.const and g.init is not None and isinstance(g.init, Const) and g.init.ck == "int":
            return K(g.init.val)
        return UNK

    def arith(self, st, op, a, b, i):
        d = st.d
        if a[0] == "pi" and b[0] == "pi" and op == "sub":
            if a[1] == b[1]:
                r = self.shape(d, sub(a[2], b[2]), a, b)
                if r[3] == "?" and not r[2] and not r[1]:
                    return scale(self.fresh(d), 8)      # how far other rows moved a cursor
                return r
            return UNK
        if a[0] == "pi" and b[0] in "ic" and op in ("add", "sub"):
            return ("pi", a[1], add(a[2], scale(conv(b), 1 if op == "add" else -1)))
        a, b = conv(a), conv(b)
        if a[0] != "i" or b[0] != "i":
            return UNK
        ac, bc = isconst(a), isconst(b)
        if ac and bc:
            x, y = a[1], b[1]
            try:
                r = {"add": lambda: x + y, "sub": lambda: x - y, "mul": lambda: x * y, "sdiv": lambda: int(x / y), "udiv": lambda: x // y,
                     "srem": lambda: x - y * int(x / y), "urem": lambda: x % y, "shl": lambda: x << y, "lshr": lambda: x >> y,
                     "ashr": lambda: x >> y, "and": lambda: x & y, "or": lambda: x | y, "xor": lambda: x ^ y}[op]()
            except ZeroDivisionError:
                raise Violation("div", "division by zero")
            if i.ty.width == 1:
                r &= 1
            return K(r)
        if op == "shl" and bc:
            op, b = "mul", K(1 << b[1])
        if op in ("lshr", "ashr") and bc:
            op, b, bc = "sdiv", K(1 << b[1]), True
        if op == "add":
            return self.shape(d, add(a, b), a, b)
        if op == "sub":
            return self.shape(d, sub(a, b), a, b)
        if op == "mul":
            if bc:
                return scale(a, b[1])
            if ac:
                return scale(b, a[1])
            return self.fresh(d)
        if op in ("sdiv", "udiv") and bc and b[1] > 0:
            if b[1] == 1:
                return a
            a = self.norm(a, d)
            x = divex(a, b[1])
            if x is not None and (not any(t[0] == "pt" for t, _ in a[2]) or any(k != 1 for _, k in a[2])):
                return x
            if len(a[2]) == 1 and a[2][0][0][0] == "pt" and a[2][0][1] == 1 and not a[1] and not a[3]:
                return self.pt(self.divp(st, a[2][0][0][1], b[1]))
            return self.quot(d, a, b[1])
        if ac and bc:
            return UNK
        if op in ("and", "or", "xor") and i.ty.width == 1:
            return UNK
        return self.fresh(d)

    def quot(self, d, a, n):
        key = ("quot", a, n)
        r = d.tags.get(key)
        if r is None:
            r = A(("d", len([k for k in d.tags if isinstance(k, tuple)])))
            d.tags[key] = r
        return r

    def divp(self, st, p, n):
        d = st.d
        k = ("div", p, n)
        r = d.memo.get(k)
        if r is None:
            r = self.place(st, d.named["Z"], p)
            if r == p and p != d.named["Z"]:
                raise Prune()
            d.memo[k] = r
            d.tags[r] = (p, n)
        return r

    def shape(self, d, t, a, b):
        """result of a sum: a pure difference of other rows' prefix sums is some unknown of those rows"""
        t = self.norm(t, d)
        ss = [(x, k) for x, k in t[2] if x[0] == "S"]
        if len(ss) == 2 and sorted(k for _, k in ss) == [-1, 1] and ss[0][0][1] == ss[1][0][1]:
            (x, kx), (y, ky) = ss
            hi, lo = (x, y) if kx > 0 else (y, x)
            up = self.before(d, lo[2], hi[2])
            if len(t[2]) == 2 and not t[1] and not t[3] and up:
                return self.fresh(d)
            t = mk(t[1], [z for z in t[2] if z[0][0] != "S"], oadd(t[3], "P" if up else "N"))
        # keep a lone unknown exact, degrade sums
        us = [x for x, _ in t[2] if x[0] == "u"]
        if us and (len(t[2]) > 1 or t[1] or t[3]):
            return self.degrade(t)
        return t

    # ------------------------------------------------------------------ calls
    def call(self, st, i, cal, args):
        d = st.d
        if cal is None:
            raise Undecided("indirect call")
        n = cal.name
        dem = cal.dem
        if n.startswith("llvm."):
            return self.intrinsic(st, n, args)
        if n in ("omp_get_thread_num",):
            return K(d.cur if d.par else 0)
        if n == "omp_get_num_threads":
            return K(d.nt if d.par else 1)
        if n in ("omp_get_max_threads", "omp_get_num_procs"):
            return K(self.sc["deflt"])
        if n == "__kmpc_global_thread_num":
            return K(d.cur if d.par else 0)
        if n == "__kmpc_push_num_threads":
            t = conv(args[2])
            if not isconst(t) if t[0] == "i" else True:
                raise Undecided("symbolic thread count")
            d.tags["push"] = t[1]
            return ("void",)
        if n == "__kmpc_fork_call":
            return self.fork(st, i, args)
        if n == "__kmpc_barrier":
            return self.barrier(st, i)
        if n in ("__kmpc_master", "__kmpc_masked"):
            return K(1 if d.cur == 0 or not d.par else 0)
        if n in ("__kmpc_single",):
            key = ("single", i.fn.name, i.uid)
            t = d.tags.get(key)
            if t is None or not d.par:
                d.tags[key] = d.cur
                return K(1)
            return K(0)
        if n in ("__kmpc_end_master", "__kmpc_end_masked", "__kmpc_end_single", "__kmpc_for_static_fini", "__kmpc_end_reduce_nowait", "__kmpc_end_reduce"):
            d.lock = None
            return ("void",)
        if n in ("__kmpc_critical",):
            d.lock = "crit"
            return ("void",)
        if n in ("__kmpc_end_critical",):
            d.lock = None
            return ("void",)
        if n in ("__kmpc_reduce_nowait", "__kmpc_reduce"):
            d.lock = "red"
            return K(1)
        if n.startswith("__kmpc_for_static_init"):
            return self.static_init(st, i, args)
        if n in ("malloc", "calloc", "aligned_alloc", "_Znwm", "_Znam"):
            sz = conv(args[0] if n != "aligned_alloc" else args[1])
            if sz[0] != "i":
                raise Undecided("allocation size")
            return ("p", self.alloc(st, "heap", self.norm(sz, d), "block allocated at %s" % self.where(st, i)[0], esz=0), ZERO)
        if n in ("free", "_ZdlPv", "_ZdaPv", "_ZdlPvm"):
            self.free(st, args[0], False)
            return ("void",)
        if n in ("__assert_fail", "abort", "exit"):
            raise Violation("assert", "an assertion can fail")
        if n.startswith("vp_"):
            return getattr(self, n)(st, i, args)
        m = self.stdcall(st, i, cal, dem, args)
        return m

    MEMO = {}

    def stdname(self, dem):
        k = self.MEMO.get(dem)
        if k is None:
            k = ""
            for name, pat in (("min", r"(^| )std::min<"), ("max", r"(^| )std::max<"), ("copy", r"(^| )std::(copy|move)<[^,]*, [^,]*>\("),
                              ("copyn", r"(^| )std::copy_n<"),
                              ("lower", r"(^| )std::lower_bound<"), ("upper", r"(^| )std::upper_bound<"),
                              ("malloca", r"(^| )mallocAligned<"), ("freea", r"(^| )freeAligned<"),
                              ("flops", r"(^| )calculate(Flops|Work)<"), ("exscan", r"(^| )exclusiveScan<"),
                              ("rownum", r"(MSA|MCA|Hash|Heap)\w*<.*>::numericRow<"), ("rowsym", r"(MSA|MCA|Hash|Heap)\w*<.*>::symbolicRow"),
                              ("rowctor", r"(MSA|MCA|Hash|Heap)\w*<.*>::(Impl<.*>::Impl|MSA\w*|MCA)\("),
                              ("rowdtor", r"(MSA|MCA|Hash|Heap)\w*<.*>::~"), ("lcm", r"(^| )(std::)?(lcm|gcd)<"),
                              ("rowmem", r"(MSA|MCA|Hash|Heap)\w*<.*>::getMemoryRequirement"),
                              ("rownacc", r"(MSA|MCA|Hash|Heap)\w*<.*>::get(Numeric|Symbolic)Accumulator"),
                              ("rowset", r"::setBuffer\("), ("rowrel", r"::releaseBuffer\(")):
                if re.search(pat, dem):
                    k = name
                    break
            if k.startswith("row") and ("Stub" in dem or "VpAcc" in dem):
                k = ""
            self.MEMO[dem] = k
        return k

    def stdcall(self, st, i, cal, dem, args):
        k = self.stdname(dem)
        if not k or k in self.sc.get("inline", ()):
            return None
        return getattr(self, "s_" + k)(st, i, cal, args)

    def intrinsic(self, st, n, args):
        d = st.d
        if n.startswith(("llvm.dbg", "llvm.lifetime", "llvm.assume", "llvm.experimental", "llvm.donothing")):
            return ("void",)
        if n.startswith(("llvm.memcpy", "llvm.memmove")):
            dst, src, ln = args[0], args[1], conv(args[2])
            if dst[0] != "p" or src[0] != "p":
                if isconst(ln) and ln[1] == 0:
                    return ("void",)
                raise Undecided("memory copy")
            if isconst(ln) and self.byteish(st, dst) and self.byteish(st, src) and isconst(dst[2]) and isconst(src[2]):
                r = self.reg(st, src[1], "read") if not (isinstance(src[1], tuple) and src[1][0] == "g") else None
                if r is None:
                    return ("void",)
                w = d.w(dst[1])
                self.reg(st, dst[1], "write")
                for k, v in list(r.cells.items()):
                    if k[0] == "b" and src[2][1] <= k[1] < src[2][1] + ln[1]:
                        w.cells[("b", k[1] - src[2][1] + dst[2][1])] = v
                return ("void",)
            self.copyrange(st, src, dst, ln)
            return ("void",)
        if n.startswith("llvm.memset"):
            raise Undecided("memset")
        if n.startswith(("llvm.smax", "llvm.umax")):
            return self.vmax(st, conv(args[0]), conv(args[1]))
        if n.startswith(("llvm.smin", "llvm.umin")):
            return self.vmin(st, conv(args[0]), conv(args[1]))
        if n.startswith(("llvm.abs",)):
            return args[0]
        if n.startswith(("llvm.trap", "llvm.ubsantrap")):
            raise Violation("assert", "trap")
        return UNK

    def byteish(self, st, p):
        if isinstance(p[1], tuple) and p[1][0] == "g":
            return True
        r = self.reg(st, p[1], "copy")
        return self.mode(r) == "byte"

    # ---- std
    def ldref(self, st, p, i):
        class _T:
            size = 4
        if p[0] != "p":
            raise Undecided("reference")
        return conv(self.load(st, p[1], p[2], _T))

    def box(self, st, v):
        rid = self.alloc(st, "stack", K(8), "temporary")
        st.d.mem[rid].cells[("b", 0)] = v
        return ("p", rid, ZERO)

    def s_min(self, st, i, cal, args):
        return self.box(st, self.vmin(st, self.ldref(st, args[0], i), self.ldref(st, args[1], i)))

    def s_max(self, st, i, cal, args):
        return self.box(st, self.vmax(st, self.ldref(st, args[0], i), self.ldref(st, args[1], i)))

    def vmin(self, st, a, b):
        if a[0] != "i" or b[0] != "i":
            return UNK
        return a if self.icmp(st, "sle", a, b) else b

    def vmax(self, st, a, b):
        d = st.d
        if a[0] != "i" or b[0] != "i":
            return UNK
        other = lambda t: not t[1] and (all(x[0] == "u" for x, _ in t[2])) and (t[2] or t[3] == "P")
        if other(a) and other(b):
            return mk(0, (), "P")
        if other(b):
            a, b = b, a
        if other(a):            # max(other rows' value, b) is at least b
            x = self.degrade(b)
            return mk(x[1], x[2], "P" if x[3] in ("", "P") else "?")
        pa, pb = drop(a), drop(b)
        o = "P" if a[3] in ("", "P") and b[3] in ("", "P") and (a[3] or b[3]) else ("?" if a[3] or b[3] else "")
        w = pb if self.icmp(st, "sle", pa, pb) else pa
        return mk(w[1], w[2], o)

    def s_lower(self, st, i, cal, args):
        return self.bound(st, "lb", args, i)

    def s_upper(self, st, i, cal, args):
        return self.bound(st, "ub", args, i)

    def bound(self, st, kind, args, i):
        d = st.d
        if len(args) != 3 or args[0][0] != "p" or args[1][0] != "p" or args[0][1] != args[1][1]:
            raise Undecided("binary search arguments")
        rid = args[0][1]
        r = self.reg(st, rid, "binary search over")
        val = self.ldref(st, args[2], i)
        es = r.esz or 4
        lo = self.to_point(st, divex(self.norm(args[0][2], d), es))
        hi = self.to_point(st, divex(self.norm(args[1][2], d), es))
        if lo is None or hi is None:
            raise Undecided("binary search range")
        val = self.norm(val, d)
        if isconst(val) and val[1] == 0 and kind == "lb":
            return ("p", rid, scale(self.norm(self.pt(lo), d), es))
        key = ("lb", rid, kind, lo, hi, val)
        p = d.memo.get(key)
        if p is None:
            a, b = lo, hi
            if r.fn and r.fn[0] == "prefix":       # sorted by construction: monotone in the value
                for k2, p2 in list(d.memo.items()):
                    if k2[0] == "lb" and k2[1] == rid and k2[3] == lo and k2[4] == hi and not val[3] and not k2[5][3]:
                        df = sub(val, k2[5])
                        if self.ge0(d, df) and (k2[2] == kind or kind == "ub") and self.before(d, a, p2):
                            a = p2
                        if self.ge0(d, scale(df, -1)) and (k2[2] == kind or kind == "lb") and self.before(d, p2, b):
                            b = p2
            if self.before(d, b, a):
                raise Prune()
            p = self.place(st, a, b)
            d.memo[key] = p
        return ("p", rid, scale(self.norm(self.pt(p), d), es))

    def s_malloca(self, st, i, cal, args):
        sz = conv(args[0])
        if sz[0] != "i":
            raise Undecided("allocation size")
        rid = self.alloc(st, "aligned", self.norm(sz, st.d), "scratch block allocated at %s" % self.where(st, i)[0])
        st.d.mem[rid].meta["align"] = conv(args[1])
        return ("p", rid, ZERO)

    def s_freea(self, st, i, cal, args):
        self.free(st, args[0], True)
        return ("void",)

    def s_copy(self, st, i, cal, args):
        if any(a[0] != "p" for a in args[:3]) or args[0][1] != args[1][1]:
            raise Undecided("copy arguments")
        ln = sub(args[1][2], args[0][2])
        self.copyrange(st, args[0], args[2], ln)
        return ("p", args[2][1], self.degrade(add(args[2][2], ln)))

    def s_copyn(self, st, i, cal, args):
        es = 8 if "double" in cal.dem.split("(")[0] else 4
        ln = scale(conv(args[1]), es)
        self.copyrange(st, args[0], args[2], ln)
        return ("p", args[2][1], self.degrade(add(args[2][2], ln)))

    def copyrange(self, st, src, dst, ln):
        """a block of entries moves"""
        d = st.d
        r = self.reg(st, src[1], "copy from")
        w = self.reg(st, dst[1], "copy to")
        if ln[0] != "i":
            raise Undecided("copy length")
        if isconst(ln) and ln[1] == 0:
            return
        if self.mode(r) == "row" or self.mode(w) == "row" or self.mode(r) == "byte" and r.size is not None and r.size[1]:
            raise Undecided("copy of a row array")
        if w.kind == "in":
            raise Violation("inputwrite", "an input array is overwritten")
        w = d.w(dst[1])
        end = add(src[2], ln)
        cap = sub(w.size, add(dst[2], ln))
        if not self.ge0(d, cap):
            raise Violation("bufcap", "a block of entries is copied past the end of %s" % w.name)
        if not self.ge0(d, sub(r.size, end)):
            raise Violation("oob", "a block of entries is copied from past the end of %s" % r.name)
        for role, off, n in r.segs:
            if role == "q":
                # inside [src, end)?
                if self.ge0(d, sub(off, src[2])) and self.ge0(d, sub(end, add(off, n))):
                    w.segs = w.segs + (("q", drop(add(dst[2], sub(off, src[2]))), n),)
                elif self.ge0(d, sub(src[2], add(off, n))) or self.ge0(d, sub(off, end)):
                    pass
                else:
                    w.segs = w.segs + (("cut", drop(dst[2]), n),)
        self.overlap(st, w, dst[2], r)

    def overlap(self, st, w, off, r=None):
        pass

    # ---- summaries of verified parts
    def s_flops(self, st, i, cal, args):
        d = st.d
        dem = cal.dem
        mats = [a for a in args if a[0] == "p" and a[1] in d.mem and d.mem[a[1]].kind == "obj"]
        for a in mats:
            self.useinput(st, a)
        rest = [a for a in args if a[0] == "p" and a not in mats]
        if len(rest) != 1:
            raise Undecided("work estimate arguments")
        rid = rest[0][1]
        self.reg(st, rid, "write")
        want = 3 if not self.sc["compl"] else 2
        if len(mats) != want and not (want == 2 and len(mats) == 3):
            atom = "fu" if len(mats) == 2 else "f"
        atom = "f"
        if self.sc["compl"] and len(mats) == 3:
            raise Violation("estimate", "a complemented product is sized with the work under the mask only")
        r = d.w(rid)
        r.fn = ("row", atom)
        r.esz = 8 if "unsigned long" in dem.split("(")[0] else 4
        es = r.esz
        if not self.sizeok(st, r, es, 0):
            raise Violation("oob", "the estimate array is smaller than the number of rows")
        if d.named["E"] == d.named["Z"]:
            return ZERO
        return mk(0, [(("a", atom), 1)], "P")

    def sizeok(self, st, r, es, plus):
        t = divex(self.norm(r.size, st.d), es)
        if t is None:
            return False
        p = self.to_point(st, t)
        q = self.shift(st, st.d.named["E"], plus)
        return p is not None and not self.before(st.d, p, q)

    def s_exscan(self, st, i, cal, args):
        d = st.d
        if len(args) != 4 or d.par:
            return None
        src, n, dst = args[0], conv(args[1]), args[2]
        if src[0] != "p" or dst[0] != "p":
            raise Undecided("scan arguments")
        if n != self.norm(self.pt(d.named["E"]), d):
            if self.to_point(st, n) is None:
                raise Undecided("scan length")
            raise Undecided("scan of a part of the rows")
        s = self.reg(st, src[1], "read")
        w = self.reg(st, dst[1], "write")
        if s.fn is None or s.fn[0] != "row":
            raise Undecided("scan source")
        w = d.w(dst[1])
        w.fn = ("prefix", s.fn[1])
        w.esz = s.esz
        if not self.sizeok(st, w, w.esz, 0):
            raise Violation("oob", "the scan's target is smaller than the number of rows")
        return ("void",)

    # ---- parallel regions
    def fork(self, st, i, args):
        d = st.d
        fn = args[2]
        if fn[0] != "fn":
            raise Undecided("parallel region")
        cal = self.m.fns[fn[1]]
        nt = d.tags.pop("push", self.sc["deflt"])
        if nt > 0 and self.sc.get("team"):
            nt = min(nt, self.sc["team"])        # the runtime may grant fewer threads
        if nt <= 0:
            raise Violation("threads", "a parallel region with %d threads" % nt)
        f = st.frames[-1]
        if d.par:
            raise Undecided("nested parallel region")
        f.pos += 1
        d.master = [x.copy() for x in st.frames]
        d.par = True
        d.nt = nt
        d.threads = []
        d.log = {}
        for t in range(nt):
            fr = Frame(cal, 0)
            rid = ("g", "gtid%d" % t)
            g = ("s", t, 0, "gtid", 0)
            d.mem[g] = Region("stack", K(4), "gtid")
            d.mem[g].cells[("b", 0)] = K(t)
            d.owned.add(g)
            vs = [("p", g, ZERO), ("p", g, ZERO)] + list(args[3:])
            for a, v in zip(cal.args, vs):
                fr.env[a] = v
            d.threads.append(("ready", [fr]))
        # locals passed by reference are shared
        for v in args[3:]:
            if v[0] == "p" and v[1] in d.mem and d.mem[v[1]].kind == "stack":
                d.w(v[1]).meta["shared"] = True
        self.fns.add(cal.name)
        d.cur = 0
        st.frames = [x.copy() for x in d.threads[0][1]]
        d.threads[0] = ("run", None)
        return "switch"

    def barrier(self, st, i):
        d = st.d
        if not d.par:
            return ("void",)
        st.frames[-1].pos += 1
        d.threads[d.cur] = ("barrier", st.frames)
        return self.schedule(st)

    def schedule(self, st):
        d = st.d
        for t, (s, fr) in enumerate(d.threads):
            if s == "ready":
                d.cur = t
                d.lock = None
                st.frames = [x.copy() for x in fr]
                d.threads[t] = ("run", None)
                return "switch"
        ss = {s for s, _ in d.threads}
        if ss == {"barrier"}:
            d.log = {}
            # which of two work bounds was the smaller no longer matters once the sizes are known
            d.facts = frozenset(c for c in d.facts if sum(1 for a, _ in c[1] if a in WORK) < 2)
            d.threads = [("ready", fr) for _, fr in d.threads]
            for k in [k for k in d.tags if isinstance(k, tuple) and k[0] in ("single", "static")]:
                del d.tags[k]
            return self.schedule(st)
        if ss == {"done"}:
            st.frames = [x.copy() for x in d.master]
            d.par = False
            d.cur = 0
            d.nt = 1
            d.log = {}
            for k in [k for k in d.tags if isinstance(k, tuple) and k[0] in ("single", "static")]:
                del d.tags[k]
            for k in [k for k in d.mem if isinstance(k, tuple) and k[0] == "s" and k[1] >= 0]:
                del d.mem[k]
            d.threads = []
            return "switch"
        raise Violation("barrier", "a thread waits at a barrier another thread never reaches")

    def static_init(self, st, i, args):
        """bounds of a statically scheduled loop: some partition of the range"""
        d = st.d
        lbp, ubp = args[4], args[5]

        class _T:
            size = i.ops[7].ty.size
        lb = conv(self.load(st, lbp[1], lbp[2], _T))
        ub = conv(self.load(st, ubp[1], ubp[2], _T))
        nt = d.nt if d.par else 1
        me = d.cur if d.par else 0
        a = self.to_point(st, lb)
        b = self.to_point(st, add(ub, K(1)))
        if a is None or b is None:
            raise Undecided("loop bounds")
        if self.before(d, b, a):
            b = a
        cuts = [a]
        for t in range(1, nt):
            key = ("cut", i.fn.name, i.uid, t)
            p = d.memo.get(key)
            if p is None:
                p = self.place(st, cuts[-1], b)
                d.memo[key] = p
            cuts.append(p)
        cuts.append(b)
        self.store(st, lbp[1], lbp[2], self.norm(self.pt(cuts[me]), d), _T.size)
        self.store(st, ubp[1], ubp[2], add(self.norm(self.pt(cuts[me + 1]), d), K(-1)), _T.size)
        if cuts[me] == cuts[me + 1]:
            pass
        return ("void",)

    def after_root(self, st):
        d = st.d
        if d.par:
            d.threads[d.cur] = ("done", None)
            for k in [k for k in d.mem if isinstance(k, tuple) and k[0] == "s" and k[1] == d.cur and k[2] > 0]:
                d.mem.pop(k)
            self.schedule(st)
            return [st]
        return None

    def leave(self, st, fr):
        d = st.d
        n = len(st.frames) + 1
        t = d.cur if d.par else -1
        for k in [k for k in d.mem if isinstance(k, tuple) and k[0] == "s" and k[1] == t and k[2] == n]:
            del d.mem[k]

    def finish(self, st, rv):
        if st.d.par:
            return
        self.final(st, rv)

    def final(self, st, rv):
        pass

    # ------------------------------------------------------------------ inputs and the row algorithm
    def useinput(self, st, p, mat=None):
        """an input matrix is read as a whole: it must still be what the caller passed"""
        d = st.d
        r = d.mem.get(p[1]) if p[0] == "p" else None
        if r is None or r.kind != "obj":
            raise Undecided("matrix argument")
        names = r.meta["names"]
        if mat is not None and mat not in names:
            raise Violation("argument", "the row algorithm receives %s in place of %s" % ("/".join(sorted(names)), mat))
        for off, v in r.meta["init"].items():
            if r.cells.get(("b", off)) != v:
                raise Violation("alias", "input %s is used after it was overwritten by the output" % "/".join(sorted(names)))
            if v[0] == "p":
                if not d.mem[v[1]].live:
                    raise Violation("alias" if "C" in names else "uaf", "input %s is used after its arrays were freed" % "/".join(sorted(names)))
        for (off, v) in r.meta["init"].items():
            if d.par:
                for t, w, l in d.log.get((p[1], ("b", off)), ()):
                    if w and t != d.cur:
                        raise Violation("race", "input %s is modified while another thread computes from it" % "/".join(sorted(names)))
                d.log.setdefault((p[1], ("b", off)), ())
                tids = d.log[(p[1], ("b", off))]
                if (d.cur, False, None) not in tids:
                    d.log[(p[1], ("b", off))] = tids + ((d.cur, False, None),)

    def algmeta(self, st, p):
        if p[0] != "p":
            return None
        return st.d.w(p[1]).meta

    def vp_ctor(self, st, i, args):
        m = self.algmeta(st, args[0])
        m["alg"] = tuple(conv(a) for a in args[1:5])
        return ("void",)

    def vp_dtor(self, st, i, args):
        return ("void",)

    def vp_memsize(self, st, i, args):
        return A(("mem", st.d.cur if st.d.par else 0, args[0][1][-1] if isinstance(args[0][1], tuple) else 0))

    def vp_memalign(self, st, i, args):
        return A(("align", 0))

    def vp_setbuffer(self, st, i, args):
        d = st.d
        acc, buf, size, dirty = args[0], args[1], conv(args[2]), conv(args[3])
        if acc[0] != "p" or buf[0] != "p":
            raise Undecided("accumulator buffer")
        b = self.reg(st, buf[1], "use as scratch")
        m = d.w(acc[1]).meta
        if not self.eq0(d, buf[2]) or not self.ge0(d, sub(b.size, size)):
            raise Violation("scratch", "an accumulator is given more scratch memory than was allocated")
        need = m.get("need")
        if need is not None and not self.ge0(d, sub(size, need)):
            raise Violation("scratch", "an accumulator is given less scratch memory than its algorithm asked for")
        was = b.meta.get("dirty")
        if was is None:
            was = b.size
        if not self.ge0(d, sub(dirty, was)):
            raise Violation("scratch", "scratch memory is declared clean that is not")
        if b.meta.get("user") not in (None, (acc[1], acc[2])):
            # another accumulator still owns clean memory in it
            if b.meta.get("busy"):
                b2 = d.w(buf[1])
                b2.meta["dirty"] = b.size
        b = d.w(buf[1])
        b.meta["user"] = (acc[1], acc[2])
        b.meta["busy"] = True
        m["buf", acc[2]] = buf[1]
        return ("void",)

    def vp_release(self, st, i, args):
        d = st.d
        acc = args[0]
        m = d.w(acc[1]).meta
        buf = m.get(("buf", acc[2]))
        if buf is None:
            raise Violation("scratch", "an accumulator without scratch memory is released")
        b = d.w(buf)
        v = A(("rel", d.cur if d.par else 0))
        b.meta["dirty"] = v
        b.meta["busy"] = False
        del m["buf", acc[2]]
        return v

    def rowrole(self, st, v):
        d = st.d
        t = conv(v)
        if t[0] != "i":
            raise Undecided("row argument")
        p = self.to_point(st, self.norm(t, d))
        if p is None:
            raise Undecided("row argument")
        if self.before(d, p, d.named["Z"]) or not self.before(d, p, d.named["E"]):
            raise Violation("row", "a row outside the matrix is computed")
        return p

    def algargs(self, st, alg, p, sym):
        d = st.d
        if alg[0] != "p":
            return
        m = d.mem[alg[1]].meta
        if "alg" not in m:
            raise Undecided("row algorithm object")
        if not any(isinstance(k, tuple) and k[0] == "buf" for k in m) and self.sc.get("acc", True):
            raise Violation("scratch", "a row is computed without scratch memory")
        if p == d.named["q"]:
            cols, ma, mm, mf = m["alg"]
            if cols != A(("g", "cols")):
                raise Violation("ctor", "the row algorithm is built for another number of columns")
            for what, t, a in (("the length of A's row", ma, "alen"), ("the length of the mask's row", mm, "mlen"), ("the work of the row", mf, "f")):
                if t[0] != "i" or not self.ge0(d, sub(t, A(("a", a)))):
                    raise Violation("ctor", "the row algorithm's bound is smaller than %s" % what)

    def once(self, st, p, what):
        d = st.d
        if p == d.named["q"]:
            if what in d.done:
                raise Violation("twice", "a row is computed twice (%s)" % what)
            d.done = d.done + (what,)

    def matargs(self, st, a, b, m):
        self.useinput(st, a, "A")
        self.useinput(st, b, "B")
        self.useinput(st, m, "M")

    def hintok(self, st, v, p):
        d = st.d
        if p != d.named["q"] or v[0] != "p":
            return
        h = self.ldref(st, v, None)
        if h[0] != "i" or not self.ge0(d, sub(h, A(("a", "cnt")))):
            raise Violation("hint", "the row algorithm is told a smaller result size than the row has")

    def vp_numeric(self, st, i, args):
        d = st.d
        alg, A_, B_, M_, row, cp, vp, hint = args
        p = self.rowrole(st, row)
        self.matargs(st, A_, B_, M_)
        self.algargs(st, alg, p, False)
        self.hintok(st, hint, p)
        self.once(st, p, "numeric")
        self.emit(st, cp, vp, p)
        return ("void",)

    def emit(self, st, cp, vp, p):
        d = st.d
        q = p == d.named["q"]
        for who, ptr in (("column ids", cp), ("values", vp)):
            cur = self.ldptr(st, ptr)
            r = self.reg(st, cur[1], "write of a row's " + who)
            if r.kind == "in":
                raise Violation("inputwrite", "an input array is overwritten")
            es = self.esz(who)
            size = scale(A(("a", "cnt")), es)
            r = d.w(cur[1])
            if not q:
                self.regionwrite(st, cur[1])
                for role, off, n in r.segs:
                    if role == "q" and (not d.par or r.meta.get("segby") == d.cur or True):
                        # another row written after q in this block must start behind it
                        if r.meta.get("segby") == d.cur and not self.ge0(d, sub(cur[2], add(off, n))):
                            raise Violation("overlap", "another row's %s overwrite an earlier row's" % who)
                new = mk(cur[2][1], cur[2][2], "P" if cur[2][3] in ("", "P") else "?")
            else:
                if self.mode(r) == "row":
                    raise Undecided("output buffer")
                if not self.ge0(d, sub(r.size, add(cur[2], size))) or not self.ge0(d, cur[2]):
                    raise Violation("bufcap", "a row's %s do not fit into %s" % (who, r.name))
                self.regionwrite(st, cur[1])
                r = d.w(cur[1])
                r.segs = r.segs + (("q", drop(cur[2]), size),)
                r.meta["segby"] = d.cur
                new = add(cur[2], size)
            self.store(st, ptr[1], ptr[2], ("p", cur[1], new), 8)

    def regionwrite(self, st, rid):
        """one log entry per (block, row segment) would be needed; block-level writes only conflict with frees"""
        d = st.d
        if d.par:
            k = (rid, ("blk",))
            t = d.log.get(k, ())
            if (d.cur, True, "blk") not in t:
                d.log[k] = t + ((d.cur, True, "blk"),)

    def esz(self, who):
        return self.sc["itsize"] if who == "column ids" else self.sc["ntsize"]

    def ldptr(self, st, p):
        class _T:
            size = 8
        if p[0] != "p":
            raise Undecided("cursor")
        v = self.load(st, p[1], p[2], _T)
        if v[0] != "p":
            raise Undecided("cursor value")
        return v

    def vp_symbolic(self, st, i, args):
        d = st.d
        alg, A_, B_, M_, row, nv, hint = args
        p = self.rowrole(st, row)
        self.matargs(st, A_, B_, M_)
        self.algargs(st, alg, p, True)
        if hint[0] == "p" and p == d.named["q"]:
            h = self.ldref(st, hint, None)
            if h[0] != "i" or not self.ge0(d, sub(h, A(("a", "cnt")))):
                raise Violation("hint", "the row algorithm is told a smaller work bound than the row has")
        self.once(st, p, "symbolic")
        if nv[0] != "p":
            raise Undecided("row size array")
        es = self.sc["itsize"]
        v = A(("a", "cnt")) if p == d.named["q"] else self.fresh(d)
        self.store(st, nv[1], add(nv[2], scale(self.norm(self.pt(p), d), es)), v, es)
        return ("void",)

    # real row algorithms (poly driver) under the same contract
    def s_rowctor(self, st, i, cal, args):
        m = self.algmeta(st, args[0])
        m["alg"] = tuple(conv(a) for a in args[1:5])
        return ("void",)

    def s_rowdtor(self, st, i, cal, args):
        return ("void",)

    def s_lcm(self, st, i, cal, args):
        return A(("align", 1))

    def s_rowmem(self, st, i, cal, args):
        d = st.d
        dst, alg = args[0], args[1]
        n = A(("mem", d.cur, alg[1][-1]))
        d.w(alg[1]).meta["need"] = n
        w = d.w(dst[1])
        # libstdc++ stores tuple elements in reverse
        w.cells[("b", 8)] = n
        w.cells[("b", 0)] = A(("align", alg[1][-1]))
        return ("void",)

    def s_rownacc(self, st, i, cal, args):
        return ("p", args[0][1], args[0][2])

    def s_rowset(self, st, i, cal, args):
        return self.vp_setbuffer(st, i, args)

    def s_rowrel(self, st, i, cal, args):
        return self.vp_release(st, i, args)

    def s_rownum(self, st, i, cal, args):
        ps = [a for a in args if a[0] == "p"]
        row = [a for a in args if a[0] != "p" and a[0] != "unk"]
        if len(ps) < 7 or len(row) != 1:
            raise Undecided("row algorithm call")
        return self.vp_numeric(st, i, [ps[0], ps[1], ps[2], ps[3], row[0], ps[-3], ps[-2], ps[-1]])

    def s_rowsym(self, st, i, cal, args):
        ps = [a for a in args if a[0] == "p"]
        row = [a for a in args if a[0] != "p"]
        return self.vp_symbolic(st, i, [ps[0], ps[1], ps[2], ps[3], row[0], ps[4], ps[5]])

    # ------------------------------------------------------------------ key
    def live_atoms(self, st):
        d = st.d
        pts, us, rids = set(), set(), set()
        for frs in [st.frames] + [fr for s, fr in d.threads if fr] + ([d.master] if d.par and d.master else []):
            for f in frs:
                for v in f.env.values():
                    atoms_of(v, pts, us, rids)
        for r in d.mem.values():
            a = r.atoms()
            pts |= a[0]
            us |= a[1]
            rids |= a[2]
        return pts, us, rids

    def gc(self, st):
        d = st.d
        pts, us, rids = self.live_atoms(st)
        for k in [k for k in d.mem if k not in rids and d.mem[k].kind == "stack"]:
            del d.mem[k]
            if d.log:
                for z in [z for z in d.log if z[0] == k]:
                    del d.log[z]
        perm = self.perm(d)
        for k in d.memo:
            if k[0] == "lb":
                pts.add(k[3])
                pts.add(k[4])
                atoms_of(k[5], pts, us, rids)
            elif k[0] in ("div", "mul"):
                pts.add(k[1])
        keep = set(perm) | pts
        for k in range(len(d.order) - 1):
            if d.order[k] in d.adj and (d.order[k] in pts and d.order[k + 1] not in perm or d.order[k + 1] in pts):
                keep.add(d.order[k])
                keep.add(d.order[k + 1])
        dead = [p for p in d.order if p not in keep]
        if dead:
            ds = set(dead)
            for p in dead:
                k = d.order.index(p)
                L = self.left_named(d, k)
                for rid in list(d.mem):
                    r = d.mem[rid]
                    if ("x", p) in r.cells:
                        r = d.w(rid)
                        v = r.cells.pop(("x", p))
                        if r.fn is None and L is not None:
                            v = self.degrade(v) if v[0] == "i" else v
                            if L in r.gaps and r.gaps[L] != v:
                                r.gaps[L] = self.join(r.gaps[L], v)
                            else:
                                r.gaps[L] = v
                if k > 0:
                    d.adj.discard(d.order[k - 1])
                d.adj.discard(p)
                d.order.pop(k)
        # unknowns nobody holds any more
        fu = {a for c in d.facts for a, _ in c[1] if a[0] == "u" and a[1] not in us or a[0] == "mem" and a not in us}
        us = {u for u in us if isinstance(u, int)}
        if fu:
            cs = set(d.facts)
            for a in sorted(fu):
                cs = elim(cs | {(0, ((a, 1),))}, a)
            d.facts = frozenset(c for c in cs if c[1])
        d.nu = len(us)
        perm = self.perm(d)
        ren = {}
        n = 20
        for p in d.order:
            if p not in perm or p >= 20:
                if p != n:
                    ren[p] = n
                n += 1
        uren = {}
        if us:
            if len(us) == 1:
                u, = us
                seq = [u]
            else:
                seq = self.useq(st)
            uren = {u: k + 1 for k, u in enumerate(seq) if u != k + 1}
        if ren or uren:
            self.rename(st, ren, uren)
        # drop facts that say nothing
        d.facts = frozenset(c for c in d.facts if not (c[0] >= 0 and all(k >= 0 for _, k in c[1])))

    def useq(self, st):
        """unknowns in a canonical order of first use"""
        d = st.d
        seq = OrderedDict()

        def see(v):
            if v[0] == "i":
                for a, _ in v[2]:
                    if a[0] == "u":
                        seq[a[1]] = 1
            elif v[0] in ("p", "pi") and len(v) > 2:
                see(v[2])
        for frs in [st.frames] + [fr for s, fr in d.threads if fr] + ([d.master] if d.par and d.master else []):
            for f in frs:
                for k, v in sorted(f.env.items(), key=lambda kv: kv[0].uid if isinstance(kv[0], Ins) else -1 - kv[0].idx):
                    see(v)
        for k in sorted((k for k, r in d.mem.items() if r.atoms()[1]), key=repr):
            r = d.mem[k]
            if r.size is not None:
                see(r.size)
            for _, v in sorted(r.cells.items(), key=lambda kv: (kv[0][0], d.order.index(kv[0][1])) if kv[0][0] == "x" else kv[0]):
                see(v)
            for _, v in sorted((g, v) for g, v in r.gaps.items() if v is not None):
                see(v)
            for s in r.segs:
                see(s[1])
            for _, v in sorted(r.meta.items(), key=lambda kv: repr(kv[0])):
                if isinstance(v, tuple) and v and v[0] == "i":
                    see(v)
                elif isinstance(v, tuple) and v and isinstance(v[0], tuple):
                    for x in v:
                        if isinstance(x, tuple) and x and x[0] == "i":
                            see(x)
        return list(seq)

    def rename(self, st, ren, uren):
        d = st.d

        def atom(a):
            if a[0] == "pt":
                return ("pt", ren.get(a[1], a[1]))
            if a[0] == "S":
                return ("S", a[1], ren.get(a[2], a[2]))
            if a[0] == "u":
                return ("u", uren.get(a[1], a[1]))
            return a

        def val(v):
            if v[0] == "i":
                for a, _ in v[2]:
                    if a[0] in ("pt", "S", "u"):
                        return mk(v[1], [(atom(x), k) for x, k in v[2]], v[3])
                return v
            if v[0] in ("p", "pi") and len(v) > 2:
                return (v[0], v[1], val(v[2]))
            return v
        for frs in [st.frames] + [fr for s, fr in d.threads if fr] + ([d.master] if d.par and d.master else []):
            for f in frs:
                e = f.env
                for k, v in e.items():
                    w = val(v)
                    if w is not v:
                        e[k] = w
        P = lambda p: ren.get(p, p)
        for rid in list(d.mem):
            r = d.mem[rid]
            if not r.live:
                continue
            a = r.atoms()
            if not (uren and a[1] or ren and (a[0] or any(k[0] == "x" for k in r.cells))):
                continue
            r = d.w(rid)
            r.cells = {((k[0], P(k[1])) if k[0] == "x" else k): val(v) for k, v in r.cells.items()}
            r.gaps = {P(g): val(v) if v is not None else v for g, v in r.gaps.items()}
            if r.size is not None:
                r.size = val(r.size)
            r.segs = tuple((s[0], val(s[1])) + s[2:] for s in r.segs)
            for k, v in list(r.meta.items()):
                if isinstance(v, tuple) and v and v[0] == "i":
                    r.meta[k] = val(v)
                elif isinstance(v, tuple) and v and isinstance(v[0], tuple) and k != "init":
                    r.meta[k] = tuple(val(x) if isinstance(x, tuple) and x and x[0] == "i" else x for x in v)
        if ren:
            d.order = [P(p) for p in d.order]
            d.adj = {P(p) for p in d.adj}
            d.named = {n: P(p) for n, p in d.named.items()}
            m = {}
            for k, p in d.memo.items():
                if k[0] == "lb":
                    k = k[:3] + (P(k[3]), P(k[4]), val(k[5]))
                elif k[0] in ("div", "mul"):
                    k = (k[0], P(k[1])) + k[2:]
                m[k] = P(p)
            d.memo = m
            d.log = {((k[0], (k[1][0], P(k[1][1]))) if k[1][0] == "x" else k): v for k, v in d.log.items()}
            t = {}
            for k, v in d.tags.items():
                if isinstance(k, int):
                    t[P(k)] = (P(v[0]), v[1])
                else:
                    t[k] = v
            d.tags = t
        if uren:
            d.facts = frozenset((c, tuple(sorted((atom(a), k) for a, k in at))) for c, at in d.facts)
            t = {}
            for k, v in d.tags.items():
                if isinstance(k, tuple) and k[0] == "quot":
                    k = (k[0], val(k[1])) + k[2:]
                t[k] = v
            d.tags = t

    def join(self, a, b):
        if a == b:
            return a
        if a[0] == "i" and b[0] == "i" and a[1] == b[1] and a[2] == b[2]:
            return mk(a[1], a[2], a[3] if a[3] == b[3] else ("P" if {a[3], b[3]} <= {"", "P"} else "?"))
        return UNK

    def key(self, st):
        self.gc(st)
        d = st.d

        def frames(frs):
            return tuple((f.fn.name, f.bb.idx, f.pos, frozenset(f.env.items())) for f in frs)
        return hash((frames(st.frames), tuple((s, frames(fr) if fr else None) for s, fr in d.threads),
                     frames(d.master) if d.par and d.master else None, d.cur, d.par, d.done, d.lock,
                     frozenset((k, r.keys()) for k, r in d.mem.items()), d.facts, frozenset(d.log.items()),
                     frozenset(d.memo.items()), frozenset(d.adj), frozenset(d.tags), tuple(d.order)))

    # ------------------------------------------------------------------ start
    def base(self):
        d = D()
        Z, q = 1, 2
        d.nid = 2
        st = State(d)
        return st

    def points(self, zq, rord):
        """initial orders: Z <= q, r < E"""
        d = D()
        names = []
        if rord == "q":
            seq = [["Z"], ["q"], ["E"]] if zq is False else [["Z", "E"], ["q"]] if zq is None else [["Z", "q"], ["E"]]
        elif rord == "qr":
            seq = [["Z"], ["q"], ["r"], ["E"]] if not zq else [["Z", "q"], ["r"], ["E"]]
        else:
            seq = [["Z"], ["r"], ["q"], ["E"]] if not zq else [["Z", "r"], ["q"], ["E"]]
        for cl in seq:
            d.nid += 1
            d.order.append(d.nid)
            for n in cl:
                d.named[n] = d.nid
        return d

    def matrix(self, st, names, csc, dims):
        d = st.d
        L = self.csc if csc else self.csr
        rid = self.alloc(st, "obj", K(L[0]), "matrix " + "/".join(names))
        r = d.mem[rid]
        mat = [n for n in names if n != "C"]
        mat = mat[0] if mat else "C"
        rows, cols = dims
        it, nt = self.sc["itsize"], self.sc["ntsize"]
        c = r.cells
        c[("b", L[1])] = rows
        c[("b", L[2])] = cols
        if mat == "C":
            nnz = A(("g", "nnzC"))
            n = A(("g", "rowsC"))
            c[("b", L[1])] = n
            c[("b", L[2])] = A(("g", "colsC"))
            kind = "heap"
            sz = [("rowptr", n), ("colids", nnz), ("values", nnz)]
        else:
            nnz = add(A(("S", mat, d.named["E"])), A(("a", mat.lower() + "len"))) if mat in ("A", "M") else A(("g", "nnz" + mat))
            if mat in ("A", "M") and d.named["E"] == d.named["Z"]:
                nnz = ZERO
            kind = "heap" if "C" in names else "in"
        c[("b", L[3])] = nnz
        for k, (nm, es) in enumerate((("row pointers", it), ("column ids", it), ("values", nt))):
            if mat == "C":
                size = scale(A(("g", "rowsC")), 1) if k == 0 else nnz
                size = scale(size, es)
            elif k == 0:
                size = scale(add(rows if not csc else cols, K(1)), it)
            else:
                size = scale(nnz, es)
            a = self.alloc(st, kind, size, "%s of %s" % (nm, "/".join(names)), fn=("rowptr", mat) if k == 0 and mat != "C" else ("opaque",), esz=es)
            d.mem[a].meta["old"] = "C" in names
            c[("b", L[4 + k])] = ("p", a, ZERO)
        r.meta["names"] = tuple(names)
        r.meta["init"] = {k[1]: v for k, v in c.items()}
        if "C" not in names:
            r.meta["const"] = True
        return rid

    def start(self):
        out = []
        sc = self.sc
        L = self.csr
        for zq, nullC in ((True, False), (False, False), (None, False), (True, True), (None, True)):
            if nullC and sc["alias"]:
                continue
            for rord in (("qr", "rq") if sc.get("r", False) else ("q",)):
                d = self.points(zq, rord)
                st = State(d)
                al = sc["alias"]
                E = self.norm(self.pt(d.named["E"]), d)
                inner, cols = A(("g", "inner")), A(("g", "cols"))
                names = {"A": ["A"], "B": ["B"], "M": ["M"]}
                for x in al:
                    names[x] = names[x] + ["C"]
                if sc.get("sameAM"):
                    pass
                a = self.matrix(st, names["A"], False, (E, inner))
                b = self.matrix(st, names["B"], sc["csc"], (inner, cols))
                m = self.matrix(st, names["M"], False, (E, cols))
                ids = {"A": a, "B": b, "M": m}
                c = ids[al[0]] if al else self.matrix(st, ["C"], False, (None, None))
                if nullC:
                    cc = d.mem[c].cells
                    for k in range(4, 7):
                        d.mem.pop(cc[("b", L[k])][1])
                    for k in range(1, 7):
                        cc[("b", L[k])] = ZERO
                    d.mem[c].meta["init"] = {k[1]: v for k, v in cc.items()}
                self.cid = c
                cnt, f, ml, alen = [("a", x) for x in ("cnt", "f", "mlen", "alen")]
                fs = {(0, ((cnt, -1), (f, 1)))}
                if not sc["compl"]:
                    fs.add((0, ((cnt, -1), (ml, 1))))
                fs.add((-1, ((("g", "inner"), 1),)))
                d.facts = frozenset(fs)
                fr = Frame(self.m.fns[self.root])
                vals = [a, b, c, m]
                for arg, r in zip(fr.fn.args, vals):
                    fr.env[arg] = ("p", r, ZERO)
                fr.env[fr.fn.args[4]] = K(sc["nt"])
                st.frames = [fr]
                out.append(st)
        self.fns.add(self.root)
        return out

    def describe(self, st):
        d = st.d
        inv = {}
        for n, p in list(d.named.items()) + [("b", p) for p in d.memo.values()]:
            inv.setdefault(p, []).append(n)
        s = " < ".join("=".join(sorted(set(inv.get(p, ["x"])))) for p in d.order)
        return "threads=%s, alias C=%s, rows: %s" % (self.sc["nt"], "/".join(self.sc["alias"]) or "-", s)


class ProductAI(DriverAI):
    """the drivers: what must hold when they return"""

    def final(self, st, rv):
        d = st.d
        L = self.csr
        c = d.mem[self.cid]
        g = lambda k: c.cells.get(("b", L[k]), UNK)
        n = d.named
        V = lambda k, m: (_ for _ in ()).throw(Violation(k, m))
        empty = n["E"] == n["Z"]
        if g(1) != self.norm(self.pt(n["E"]), d):
            V("result", "the result has the wrong number of rows")
        if g(2) != A(("g", "cols")):
            V("result", "the result has the wrong number of columns")
        cnt = A(("a", "cnt")) if not empty else ZERO
        nnz = g(3)
        if nnz[0] != "i" or not self.eq0(d, sub(drop(nnz), cnt)):
            V("result", "the result's number of entries does not count every row once")
        arr = [g(4), g(5), g(6)]
        for what, a in zip(("row pointers", "column ids", "values"), arr):
            if a[0] != "p":
                V("result", "the result has no %s" % what)
            r = d.mem.get(a[1])
            if r is None or not r.live:
                V("uaf", "the result's %s are freed memory" % what)
            if r.kind not in ("heap",) or r.meta.get("old"):
                V("result", "the result's %s are not newly allocated" % what)
            if not self.eq0(d, a[2]) or a[2][3]:
                V("result", "the result's %s do not start their block" % what)
        rp = d.mem[arr[0][1]]

        def cell(p):
            v = rp.cells.get(("x", p))
            if v is None:
                L_ = self.left_named(d, d.order.index(p)) if p not in self.perm(d) else None
                if L_ is None or L_ not in rp.gaps:
                    V("result", "a row pointer of the result is never set")
                v = rp.gaps[L_]
            return v
        if empty:
            if rp.cells.get(("b", 0), rp.cells.get(("x", n["E"]))) != ZERO:
                V("result", "the result's first row pointer is not zero when there are no rows")
        for nm in ("q", "r", "E", "Z"):
            if nm not in n or empty:
                continue
            v = cell(n[nm])
            want = cnt if self.before(d, n["q"], n[nm]) else ZERO
            if v[0] != "i":
                self.undecided[("row pointer value",)] = ""
                return
            if not self.eq0(d, sub(drop(v), want)):
                V("result", "row pointers of the result do not add up the sizes of the rows before")
        for L_, v in rp.gaps.items():
            if L_ not in d.order or v is None or empty:
                continue
            want = ZERO if self.before(d, L_, n["q"]) else cnt
            if not self.before(d, L_, n["E"]) or self.before(d, L_, n["Z"]):
                continue
            if v[0] != "i":
                self.undecided[("row pointers of a range of rows",)] = ""
                return
            if not self.eq0(d, sub(drop(v), want)):
                V("result", "row pointers of the result do not add up the sizes of the rows before")
        off = cell(n["q"]) if not empty else ZERO
        if not self.ge0(d, sub(K(0), cnt)):
            for what, a in (("column ids", arr[1]), ("values", arr[2])):
                es = self.esz(what)
                seg = [s for s in d.mem[a[1]].segs]
                ok = [s for s in seg if s[0] == "q"]
                if not ok:
                    V("result", "a row's %s do not reach the result" % what)
                if len(ok) > 1 or not self.eq0(d, sub(s_off(ok[0]), scale(drop(off), es))):
                    V("result", "a row's %s are not where its row pointer says" % what)
        for rid, r in d.mem.items():
            if not isinstance(rid, int) or not r.live or r.kind not in ("heap", "aligned"):
                continue
            if any(a[1] == rid for a in arr):
                continue
            V("leak", "%s is never freed" % r.name)


def s_off(s):
    return s[1]
