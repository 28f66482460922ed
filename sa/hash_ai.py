"""Open-addressing hash table: abstract interpretation over the cyclic order of slots.

One arbitrary key c is followed.  The abstract state is a weak linear order of the table indices that
matter (home slot h of c, slot s that holds c, the probe positions the code computes), which of them are
neighbours, and what is known about the slots' contents.  Table size, hash values and all other keys are
arbitrary.  Invariant assumed before and checked after every operation: if c is stored, it is stored
once, at a slot t such that no slot in the cyclic interval [h, t) is empty.
"""
from llvmir import Const, Arg, Ins
from kernel_ai import Prune, Violation
from absint import Machine, State, Frame, Undecided, UNK

E = ("c", -1)


class D:
    __slots__ = ("order", "adj", "first0", "lastN", "cont", "F", "mem", "h", "s", "shape", "facts", "nl", "n", "mod")

    def __init__(self):
        self.order = []
        self.adj = set()
        self.first0 = self.lastN = False
        self.cont = {}
        self.F = set()
        self.mem = {}
        self.h = self.s = None
        self.facts = {}
        self.nl = set()
        self.mod = set()
        self.n = 0

    def copy(self):
        d = D.__new__(D)
        d.order = list(self.order)
        d.adj = set(self.adj)
        d.first0, d.lastN, d.h, d.s, d.n = self.first0, self.lastN, self.h, self.s, self.n
        d.cont = {k: list(v) for k, v in self.cont.items()}
        d.F = set(self.F)
        d.mem = dict(self.mem)
        d.facts = {k: set(v) for k, v in self.facts.items()}
        d.nl = set(self.nl)
        d.mod = set(self.mod)
        return d


def names_in(v, out):
    if isinstance(v, tuple):
        if v and v[0] in ("pt", "pt+"):
            out.add(v[1])
        elif v and v[0] == "p" and isinstance(v[1], tuple) and v[1][0] == "ent":
            out.add(v[1][1])
        elif v and v[0] in ("ptdiff", "dist"):
            out.add(v[1])
            out.add(v[2])


class HashAI(Machine):
    """op: find findIdx force erase insert resize; who: c or d; present: is c stored before the call"""

    def __init__(self, mod, fn, op, who, present, esize, shape=None, payload=None, **kw):
        Machine.__init__(self, mod, **kw)
        self.fn, self.op, self.who, self.present, self.esize = fn, op, who, present, esize
        self.keysize = fn.args[1].ty.size
        self.shape = shape          # the canonical home function; None: the first one seen becomes it
        self.payload = payload      # expected value fields of a fresh entry: list of (offset, value)
        self.maskoff = None
        self.stored = None
        self.outcomes = set()

    def start(self):
        d = D()
        st = State(d)
        outs = []
        for k in ([0, 1, 2] if self.present else [0]):
            s = State(D())
            d = s.d
            if self.op != "resize":
                d.h = "h"
                if not self.present:
                    d.order = ["h"]
                elif k == 0:
                    d.order = ["h"]
                    d.s = "h"
                else:
                    d.order = ["h", "s"] if k == 1 else ["s", "h"]
                    d.s = "s"
                d.F = {"h"} | ({d.s} if d.s else set())
                if self.present:
                    d.cont[d.s] = [("key", "c"), {}, ("key", "c")]
            args = [("p", ("obj",), 0)]
            for n, a in enumerate(self.fn.args[1:]):
                if n == 0:
                    args.append(("lin", 1, 0) if self.op == "resize" else ("key", self.who))
                else:
                    args.append(("arg", n))
            f = Frame(self.fn, 0)
            for a, v in zip(self.fn.args, args):
                f.env[a] = v
            s.frames.append(f)
            outs.append(s)
        self.fns.add(self.fn.name)
        return outs

    # ---- order helpers
    def pos(self, d, n):
        return d.order.index(n)

    def cyc(self, d, a, b, x):
        """x in cyclic [a, b)"""
        o = d.order
        n = len(o)
        ia, ib, ix = o.index(a), o.index(b), o.index(x)
        return (ix - ia) % n < (ib - ia) % n

    def intervals(self, d, a, b):
        o = d.order
        n = len(o)
        ia = o.index(a)
        return [o[(ia + k) % n] for k in range((o.index(b) - ia) % n)]

    def insert_at(self, d, k, new):
        """put a fresh name at order position k"""
        d.order.insert(k, new)
        n = len(d.order)
        i = k
        if d.s is not None and d.h != d.s and (i - d.order.index(d.h)) % n < (d.order.index(d.s) - d.order.index(d.h)) % n:
            d.F.add(new)

    def fresh(self, d):
        d.n += 1
        return "x%d" % d.n

    def gaps(self, d):
        g = []
        for k in range(len(d.order) + 1):
            if k == 0:
                if not d.first0:
                    g.append(0)
            elif k == len(d.order):
                if not d.lastN:
                    g.append(k)
            elif d.order[k - 1] not in d.adj:
                g.append(k)
        return g

    def any_point(self, st):
        d = st.d
        opts = [("eq", n) for n in d.order] + [("gap", k) for k in self.gaps(d)]
        o = opts[st.choose(len(opts))]
        if o[0] == "eq":
            return ("pt", o[1])
        n = self.fresh(d)
        self.insert_at(d, o[1], n)
        return ("pt", n)

    def next_point(self, st, p, wrap=None):
        d = st.d
        i = d.order.index(p)
        opts = []
        if wrap is not True:
            if i + 1 < len(d.order):
                opts.append(("eq", d.order[i + 1], False))
                if p not in d.adj:
                    opts.append(("new", i + 1, False))
            elif not d.lastN:
                opts.append(("new", i + 1, False))
        if wrap is not False and i + 1 == len(d.order) and p not in d.nl:
            if len(d.order) > 1:
                opts.append(("eq", d.order[0], True))
            if not d.first0:
                opts.append(("new", 0, True))
        if not opts:
            raise Prune()
        o = opts[st.choose(len(opts))]
        full = p in d.F and p in d.cont and d.cont[p][0] != E
        if o[2]:
            d.lastN = d.first0 = True
        else:
            d.adj.add(p)
        if o[0] == "eq":
            n = o[1]
        else:
            n = self.fresh(d)
            self.insert_at(d, o[1], n)
            if o[2]:
                pass
        if full:
            d.F.add(n)
        return ("pt", n)

    def zero_point(self, st):
        d = st.d
        full = d.lastN and d.order[-1] in d.F and d.order[-1] in d.cont and d.cont[d.order[-1]][0] != E
        if d.first0:
            n = d.order[0]
        elif st.choose(2) == 0:
            n = d.order[0]
            d.first0 = True
        else:
            n = self.fresh(d)
            self.insert_at(d, 0, n)
            d.first0 = True
        if full:
            d.F.add(n)
        return ("pt", n)

    def settle(self, st, v, others):
        """a value that becomes an index: resolve idx + 1 that is known not to wrap, and the constant 0"""
        if v[0] == "pt+" and v[2] == 1 and v[1] in st.d.nl:
            return self.next_point(st, v[1], False)
        if v == ("c", 0) and any(o[0] in ("pt", "pt+") for o in others):
            return self.zero_point(st)
        return v

    # ---- values
    def content(self, st, p):
        d = st.d
        c = d.cont.get(p)
        if c is not None:
            return c
        opts = ["o"]
        if self.who == "d" and not any(v[0] == ("key", "d") for v in d.cont.values()):
            opts.append("d")
        if not (d.s is not None and p != d.s and self.cyc(d, d.h, d.s, p)):
            opts.append("E")
        o = opts[st.choose(len(opts))]
        k = E if o == "E" else ("key", o if o != "o" else "o:" + p)
        d.cont[p] = [k, {}, k]
        return d.cont[p]

    def isexpr(self, v):
        return v[0] in ("hx", "key", "c", "fld") or v[0] == "pt"

    def shape_of(self, v):
        if v[0] == "hx":
            return v[2]
        if v[0] == "key":
            return "K"
        return v

    def tag_of(self, v):
        return v[1] if v[0] in ("hx", "key") else None

    def binop(self, st, i, a, b):
        op = i.op
        d = st.d
        if a[0] == "c" and b[0] == "c":
            x, y = a[1], b[1]
            w = i.ty.width or 64
            r = {"add": lambda: x + y, "sub": lambda: x - y, "mul": lambda: x * y, "and": lambda: x & y, "or": lambda: x | y,
                 "xor": lambda: x ^ y, "shl": lambda: x << y, "lshr": lambda: (x % (1 << w)) >> y}.get(op)
            if r is None:
                raise Undecided("constant %s" % op)
            r = r() & ((1 << w) - 1)
            if w > 1 and r >> (w - 1):
                r -= 1 << w
            if w == 1:
                r &= 1
            return ("c", r)
        if i.ty.width == 1:
            if op == "xor" and b == ("c", 1) or op == "xor" and b == ("c", -1):
                return ("not", a)
            for x, y in ((a, b), (b, a)):
                if x[0] == "c" and op in ("and", "or"):
                    t = bool(x[1] & 1)
                    return y if t == (op == "and") else x
            raise Undecided("boolean %s" % op)
        if op in ("and", "or", "add", "mul", "xor") and a[0] in ("c", "fld") and b[0] not in ("c", "fld"):
            a, b = b, a
        # sizes (resize)
        if a[0] == "lin" and b[0] == "c":
            if op == "add":
                return ("lin", a[1], a[2] + b[1])
            if op == "sub":
                return ("lin", a[1], a[2] - b[1])
            if op == "mul":
                return ("lin", a[1] * b[1], a[2] * b[1])
            if op == "shl":
                return ("lin", a[1] << b[1], a[2] << b[1])
        if a[0] == "sz" and b[0] == "c":
            pw = None
            if op == "shl" and b[1] > 0:
                pw = 1 << b[1]
            if op == "mul" and b[1] > 0:
                pw = b[1]
            if pw:
                if pw & (pw - 1) == 0:
                    return ("sz", a[1], a[2] * pw)
                return ("nsz",)
            if op == "sub" and b[1] == 1 or op == "add" and b[1] == -1:
                return ("szm1", a[1], a[2])
            return ("nsz",)
        if a[0] in ("nsz", "szm1") or b[0] in ("nsz", "sz", "szm1"):
            return ("nsz",)
        # probing
        if a[0] in ("pt", "pt+") and b[0] == "c" and op in ("add", "sub"):
            k = b[1] if op == "add" else -b[1]
            if a[0] == "pt+":
                k += a[2]
            return a if k == 0 and a[0] == "pt" else ("pt+", a[1], k)
        if op == "sub" and a[0] == "pt" and b[0] == "pt":
            return ("ptdiff", a[1], b[1])
        if (op == "and" and b[0] == "fld" or op == "urem" and b[0] == "fld"):
            if a[0] == "pt":
                return a
            if a[0] == "pt+":
                if a[2] == 1:
                    return self.next_point(st, a[1])
                return self.any_point(st)
            if a[0] == "ptdiff":
                return ("dist", a[1], a[2])
        ta, tb = self.tag_of(a), self.tag_of(b)
        if (ta is not None or tb is not None) and (ta is None or tb is None or ta == tb) and self.isexpr(a) and self.isexpr(b):
            sh = (op, self.shape_of(a), self.shape_of(b))
            t = ta if ta is not None else tb
            if (op == "and" or op == "urem") and b[0] == "fld":
                return self.home(st, t, sh, b[1])
            return ("hx", t, sh)
        if a == UNK or b == UNK or a[0] in ("arg", "fld") or b[0] in ("arg", "fld"):
            return UNK
        raise Undecided("%s of %s and %s" % (op, a[0], b[0]))

    def home(self, st, tag, shape, off):
        if self.shape is None:
            self.shape = shape
            self.maskoff = off
        if shape == self.shape and tag == "c":
            return ("pt", st.d.h)
        # an already computed masked value keeps its meaning under a second mask
        if isinstance(shape[1], tuple) and shape[1] == self.shape and tag == "c":
            return ("pt", st.d.h)
        return self.any_point(st)

    def ins(self, st, i):
        op = i.op
        d = st.d
        if op == "alloca":
            return ("p", ("al", i.uid, len(st.frames)), 0)
        if op in ("zext", "sext", "trunc", "freeze", "bitcast", "ptrtoint", "inttoptr"):
            v = self.val(st, i.ops[0])
            if v[0] == "c" and op == "zext" and v[1] < 0:
                w = i.ops[0].ty.width
                if w == 1:
                    return ("c", v[1] & 1)
                return v if v[1] == -1 else ("c", v[1] & ((1 << w) - 1))
            return v
        if op in ("add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "urem", "udiv", "ashr"):
            return self.binop(st, i, self.val(st, i.ops[0]), self.val(st, i.ops[1]))
        if op == "icmp":
            return ("cmp", i.pred, self.val(st, i.ops[0]), self.val(st, i.ops[1])) if i.pred is None else self.icmp(st, i)
        if op == "select":
            t = self.truth(st, self.val(st, i.ops[0]), i)
            return self.settle(st, self.val(st, i.ops[1] if t else i.ops[2]), [self.val(st, i.ops[2] if t else i.ops[1])])
        if op == "getelementptr":
            return self.gep(st, i)
        if op == "load":
            return self.load(st, i, self.val(st, i.ops[0]), i.ty)
        if op == "store":
            self.store(st, i, self.val(st, i.ops[1]), self.val(st, i.ops[0]), i.ops[0].ty.size)
            return None
        if op == "fence":
            return None
        raise Undecided("instruction %s" % op)

    def truth(self, st, v, i):
        if v[0] == "not":
            return not self.truth(st, v[1], i)
        if v[0] == "c":
            return bool(v[1] & 1)
        if v[0] in ("unk", "arg", "fld"):
            return bool(st.choose(2))
        raise Undecided("branch on %s" % v[0])

    def icmp(self, st, i):
        a, b = self.val(st, i.ops[0]), self.val(st, i.ops[1])
        p = i.pred
        r = self.cmp(st, p, a, b, i)
        return ("c", 1 if r else 0)

    FLIP = {"ult": "ugt", "ugt": "ult", "ule": "uge", "uge": "ule", "slt": "sgt", "sgt": "slt", "sle": "sge", "sge": "sle", "eq": "eq", "ne": "ne"}

    def rel(self, p, x):
        """x = sign(a-b)"""
        return {"eq": x == 0, "ne": x != 0, "ult": x < 0, "slt": x < 0, "ule": x <= 0, "sle": x <= 0,
                "ugt": x > 0, "sgt": x > 0, "uge": x >= 0, "sge": x >= 0}[p]

    def cmp(self, st, p, a, b, i):
        d = st.d
        if a[0] == "c" and b[0] == "c":
            w = i.ops[0].ty.width
            x, y = a[1], b[1]
            if p[0] == "u" and w:
                x %= 1 << w
                y %= 1 << w
            return self.rel(p, (x > y) - (x < y))
        for x, y, q in ((a, b, p), (b, a, self.FLIP[p])):
            if x[0] == "key":
                if y[0] == "key":
                    if q in ("eq", "ne"):
                        return (x[1] == y[1]) == (q == "eq")
                    return bool(st.choose(2))
                if y == E and q in ("eq", "ne"):
                    return q == "ne"
                return bool(st.choose(2))
            if x[0] == "pt" and y[0] == "pt":
                u, v = d.order.index(x[1]), d.order.index(y[1])
                return self.rel(q, (u > v) - (u < v))
            if x[0] == "pt" and y[0] == "c":
                if y[1] == -1:
                    if q in ("eq", "ne"):
                        return q == "ne"
                    if q[0] == "u":
                        return q in ("ult", "ule")
                if y[1] == 0 and q in ("eq", "ne", "ugt", "ule"):
                    k = d.order.index(x[1])
                    if k > 0:
                        z = False
                    elif d.first0:
                        z = True
                    else:
                        z = bool(st.choose(2))
                        if z:
                            d.first0 = True
                    return z == (q in ("eq", "ule"))
                return bool(st.choose(2))
            if x[0] in ("pt", "pt+") and y[0] == "fld":
                # idx + 1 against the table size; idx against the mask
                last = (x[0] == "pt+" and x[2] == 1 and y[1] != self.maskoff) or (x[0] == "pt" and y[1] == self.maskoff)
                if last and q in ("eq", "ne", "ult", "uge", "ule", "ugt"):
                    n = x[1]
                    poss = [False] if (d.order.index(n) + 1 < len(d.order) or n in d.nl) else [True] if d.lastN else [False, True]
                    isl = poss[st.choose(len(poss))]
                    if isl:
                        d.lastN = True
                    else:
                        d.nl.add(n)
                    sg = 0 if isl else -1
                    return self.rel(q, sg)
                return bool(st.choose(2))
            if x[0] == "dist" and y[0] == "dist":
                n = len(d.order)
                ix = lambda t: d.order.index(t)
                if x[1] == y[1] or x[2] == y[2]:
                    u = (ix(x[1]) - ix(x[2])) % n
                    v = (ix(y[1]) - ix(y[2])) % n
                    return self.rel(q, (u > v) - (u < v))
                return bool(st.choose(2))
            if x[0] == "sz" and y[0] == "lin":
                r = bool(st.choose(2))
                # facts: m*S >= a*n + b
                if (q in ("ult",) and not r) or (q == "uge" and r):
                    d.facts.setdefault(x[1], set()).add((x[2], y[1], y[2]))
                if (q == "ule" and not r) or (q == "ugt" and r):
                    d.facts.setdefault(x[1], set()).add((x[2], y[1], y[2] + 1))
                return r
            if x[0] in ("p",) and y[0] == "c":
                return q == "ne" if y[1] == 0 and q in ("eq", "ne") else bool(st.choose(2))
        return bool(st.choose(2))

    def gep(self, st, i):
        b = self.val(st, i.ops[0])
        ty = i.gty
        off = 0
        sym = None
        for k, o in enumerate(i.ops[1:]):
            v = self.val(st, o)
            if k == 0:
                scale = ty.size
            elif ty.kind == "struct":
                off += ty.offs[v[1]]
                ty = ty.elems[v[1]]
                continue
            else:
                ty = ty.elem
                scale = ty.size
            if v[0] == "c":
                off += v[1] * scale
            elif sym is None:
                sym = (v, scale)
            else:
                raise Undecided("two symbolic indices")
        if b[0] != "p":
            return UNK
        reg = b[1]
        if sym is None:
            return ("p", reg, b[2] + off)
        if reg == ("tab",) and sym[1] == self.esize:
            v = sym[0]
            if v[0] == "pt+" and v[2] == 1:
                if v[1] not in st.d.nl and st.d.order.index(v[1]) + 1 == len(st.d.order):
                    raise Violation("hash", "a probe index is used without wrapping around at the end of the table")
                v = self.next_point(st, v[1], False)
            if v[0] == "pt":
                return ("p", ("ent", v[1]), b[2] + off)
            if v[0] == "fld" or v == UNK:
                return UNK
            raise Undecided("table index %s" % v[0])
        return UNK

    def load(self, st, i, p, ty):
        if p[0] != "p":
            return UNK
        reg, off = p[1], p[2]
        d = st.d
        if reg == ("tab",):
            reg = ("ent", None)
            raise Undecided("constant table index")
        if reg == ("obj",):
            v = d.mem.get((reg, off))
            if v is not None:
                return v
            return ("p", ("tab",), 0) if ty.kind == "ptr" else ("fld", off)
        if reg[0] == "ent":
            c = self.content(st, reg[1])
            if off == 0:
                if c[0] is None:
                    return UNK
                return c[0]
            return c[1].get(off, ("pay", c[2], off))
        return d.mem.get((reg, off), UNK)

    def store(self, st, i, p, v, size):
        d = st.d
        if p[0] != "p":
            raise Undecided("store through an unknown pointer")
        reg, off = p[1], p[2]
        if reg == ("tab",):
            raise Undecided("constant table index")
        if reg[0] == "ent":
            n = reg[1]
            c = d.cont.get(n)
            d.mod.add(n)
            if off == 0:
                if c is None:
                    c = d.cont[n] = [None, {}, None]
                if v == E and n not in d.cont:
                    pass
                if v[0] == "key" or v == E:
                    c[0] = v
                else:
                    raise Undecided("a key slot receives %s" % v[0])
            else:
                if c is None:
                    c = self.content(st, n)
                c[1] = dict(c[1])
                c[1][off] = v
            return
        if reg == ("obj",) and self.op not in ("resize",) and v[0] not in ("fld",):
            if (reg, off) not in d.mem and self.maskoff == off:
                raise Violation("hash", "an operation changes the table's geometry")
        d.mem[(reg, off)] = v

    def call(self, st, i, cal, args):
        if cal is None:
            raise Undecided("indirect call")
        nm, dem = cal.name, cal.dem
        d = st.d
        if nm.startswith("llvm.dbg") or nm.startswith("llvm.lifetime") or nm.startswith("llvm.assume") or nm.startswith("llvm.experimental"):
            return ("void",)
        if nm.startswith("llvm.memcpy") or nm.startswith("llvm.memmove"):
            a, b, n = args[0], args[1], args[2]
            if a[0] == "p" and b[0] == "p" and n[0] == "c":
                if a[1][0] == "ent" and b[1][0] == "ent" and a[2] == b[2] == 0 and n[1] == self.esize:
                    c = self.content(st, b[1][1])
                    k = c[0]
                    d.cont[a[1][1]] = [k, {o: v for o, v in c[1].items()}, c[2]]
                    d.mod.add(a[1][1])
                    if k is not None and k != E:
                        pass
                    return ("void",)
                if "ent" not in (a[1][0], b[1][0]) and "tab" not in (a[1][0], b[1][0]):
                    return ("void",)
                # an entry copied through a local
                if a[2] == 0 and b[2] == 0 and n[1] == self.esize and {a[1][0], b[1][0]} == {"ent", "al"}:
                    if b[1][0] == "ent":
                        c = self.content(st, b[1][1])
                        d.mem[(a[1], "entry")] = (c[0], tuple(sorted(c[1].items())), c[2])
                        if c[0] is not None:
                            d.mem[(a[1], 0)] = c[0]
                    else:
                        e = d.mem.get((b[1], "entry"))
                        if e is None:
                            raise Undecided("entry copied from a local")
                        d.cont[a[1][1]] = [e[0], dict(e[1]), e[2]]
                        d.mod.add(a[1][1])
                    return ("void",)
            raise Undecided("memcpy")
        if nm.startswith("llvm.memset"):
            raise Undecided("memset")
        if nm == "__assert_fail":
            raise Prune()
        if nm.startswith("llvm.umin") or nm.startswith("llvm.umax"):
            raise Undecided("min/max")
        if nm.startswith("llvm.ctlz"):
            raise Undecided("ctlz")
        if dem.startswith("std::vector<") or dem.startswith("std::vector<".replace("std::", "void std::")):
            return UNK
        return None

    def phi(self, st, i, v, back):
        if self.op == "resize":
            d = st.d
            livein, after, headers = self_live(i.fn)
            if i.bb in headers:
                if v[0] == "c" and v[1] > 1 and v[1] & (v[1] - 1) == 0 and i.ty.kind == "int" and any(
                        isinstance(u, Ins) and u.op in ("shl", "mul", "add") for u in i.ops):
                    d.n += 1
                    d.facts[d.n] = {(1, 0, v[1])}
                    return ("sz", d.n, 1)
                if v[0] == "sz" and v[2] != 1:
                    d.n += 1
                    d.facts[d.n] = set(d.facts.get(v[1], ()))
                    return ("sz", d.n, 1)
            return v
        if v[0] == "pt+" or v == ("c", 0):
            return self.settle(st, v, [self.val(st, x) for x, b in i.incoming])
        return v

    def leave(self, st, fr):
        dep = len(st.frames) + 1
        for k in [k for k in st.d.mem if k[0][0] == "al" and k[0][2] >= dep]:
            del st.d.mem[k]

    # ---- keys
    def gc(self, st):
        d = st.d
        live = set()
        for f in st.frames:
            for v in f.env.values():
                names_in(v, live)
        for v in d.mem.values():
            names_in(v, live)
        if d.h:
            live.add(d.h)
        if d.s:
            live.add(d.s)
        for n, c in d.cont.items():
            if c[0] in (("key", "c"), E, None) and (c[0] != E or d.s is not None):
                live.add(n)
        # the order is dense for the analysis: forget which points are neighbours
        d.adj.clear()
        keep = {v[1] for f in st.frames for v in f.env.values() if v[0] == "pt+"}
        d.nl &= keep
        d.first0 = d.lastN = False
        env = set()
        for f in st.frames:
            for v in f.env.values():
                names_in(v, env)
        for n in list(d.cont):
            c = d.cont[n][0]
            if n not in env and n not in d.mod and c is not None and c[0] == "key" and c[1] != "c":
                del d.cont[n]
        k = 0
        while k < len(d.order):
            n = d.order[k]
            if n in live:
                k += 1
                continue
            if k > 0:
                d.adj.discard(d.order[k - 1])
            d.adj.discard(n)
            if k == 0:
                d.first0 = False
            if k == len(d.order) - 1:
                d.lastN = False
            d.order.pop(k)
            d.cont.pop(n, None)
            d.F.discard(n)
            d.mod.discard(n)

    def key(self, st):
        d = st.d
        self.gc(st)
        ren = {n: k for k, n in enumerate(d.order)}
        vers = {}

        def r(v):
            if isinstance(v, tuple):
                if v and v[0] in ("pt",):
                    return ("pt", ren[v[1]])
                if v and v[0] == "pt+":
                    return ("pt+", ren[v[1]], v[2])
                if v and v[0] in ("ptdiff", "dist"):
                    return (v[0], ren[v[1]], ren[v[2]])
                if v and v[0] == "p" and v[1][0] == "ent":
                    return ("p", ("ent", ren[v[1][1]]), v[2])
                if v and v[0] == "key":
                    if v[1].startswith("o:"):
                        n = v[1][2:]
                        return ("key", "o", ren.get(n, -1))
                    return v
                if v and v[0] in ("sz", "szm1"):
                    vers.setdefault(v[1], len(vers))
                    return (v[0], vers[v[1]], v[2], tuple(sorted(d.facts.get(v[1], ()))))
                return tuple(r(x) for x in v)
            return v
        fr = tuple((f.fn.name, f.bb.idx, f.pos, tuple(sorted(((getattr(k, "uid", None) if isinstance(k, Ins) else -1 - k.idx, r(v))
                    for k, v in f.env.items()), key=repr))) for f in st.frames)
        return (fr, len(d.order),
                tuple((k, r(d.cont[n][0]) if d.cont[n][0] else None, r(d.cont[n][2]) if d.cont[n][2] == ("key", "c") else 0, tuple(sorted((o, r(v)) for o, v in d.cont[n][1].items()))) for n, k in ren.items() if n in d.cont),
                tuple(sorted(ren[n] for n in d.F if n in ren)), tuple(sorted(ren[n] for n in d.mod if n in ren)),
                tuple(sorted(ren[n] for n in d.nl if n in ren)), ren.get(d.h), ren.get(d.s), tuple(sorted(((repr(k), r(v)) for k, v in d.mem.items()), key=repr)))

    # ---- verdicts
    def bad(self, msg):
        raise Violation("hash", msg)

    def finish(self, st, rv):
        d = st.d
        if self.op == "resize":
            sz = [(k, v) for k, v in d.mem.items() if k[0] == ("obj",)]
            size = [v for k, v in sz if v[0] in ("sz", "nsz", "lin")]
            mask = d.mem.get((("obj",), self.maskoff)) if self.maskoff is not None else None
            if mask is None:
                self.bad("resizing leaves the index mask unchanged")
            if mask[0] == "nsz":
                self.bad("the index mask is not a power of two minus one")
            if mask[0] in ("c", "unk", "fld", "arg"):
                raise Undecided("mask is %s" % mask[0])
            if mask[0] != "szm1":
                self.bad("the index mask is not the table size minus one")
            fs = d.facts.get(mask[1], set())
            big = any(a > m or (a == m and b >= m) for m, a, b in fs)
            for n in range(0, 64):
                if not any(mask[2] * (a * n + b) >= m * (n + 1) for m, a, b in fs):
                    big = False
            self.outcomes.add("size")
            if not big:
                self.bad("a resized table may be full: nothing keeps its size above the number of keys")
            return
        op, who, pres = self.op, self.who, self.present
        exp = pres
        if who == "c" and op == "erase":
            exp = False
        if who == "c" and op == "insert":
            exp = True
        ts = [n for n, c in d.cont.items() if c[0] == ("key", "c")]
        self.outcomes.add((exp, len(ts)))
        if not exp:
            if ts:
                self.bad("the erased key is still stored" if op == "erase" else "a key that was not inserted is stored")
        else:
            if not ts:
                self.bad("a stored key is overwritten or lost" if not (op == "insert" and who == "c") else "an inserted key is not stored")
            if len(ts) > 1:
                self.bad("a key is stored twice")
            t = ts[0]
            if d.s is not None:
                # everything initially in [h, s) is non-empty
                okF = t in d.F or t == d.s or self.cyc(d, d.h, d.s, t)
            else:
                okF = t in d.F
            iv = self.intervals(d, d.h, t)
            holes = [n for n in iv if n in d.cont and d.cont[n][0] == E]
            if holes:
                self.bad("an empty slot is left between a key's home and its slot: the key can no longer be found")
            if not okF:
                self.bad("a key is stored where a search from its home slot does not reach it")
            c = d.cont[t]
            moved = {o: v for o, v in c[1].items()}
            if op == "insert" and who == "c" and not pres:
                for o, v in (self.payload or []):
                    if moved.get(o) != v:
                        self.bad("an inserted entry does not hold the value it was inserted with")
            else:
                if self.esize > self.keysize and c[2] != ("key", "c"):
                    self.bad("an entry moves without its value")
                for o, v in moved.items():
                    if v != ("pay", ("key", "c"), o):
                        self.bad("an entry's value is lost or replaced when the table changes")
        if rv is not None and who == "c":
            if op in ("erase", "insert"):
                want = pres if op == "erase" else not pres
                if rv[0] == "c":
                    if bool(rv[1] & 1) != want:
                        self.bad("%s reports %s for a key that was %s" % (op, bool(rv[1] & 1), "stored" if pres else "not stored"))
                else:
                    raise Undecided("result %s" % rv[0])
            elif op == "find":
                if pres and rv != ("pt", d.s):
                    self.bad("a lookup misses a stored key")
                if not pres and rv != E:
                    self.bad("a lookup finds a key that is not stored")
            elif op in ("findIdx", "force"):
                if pres and rv != ("pt", d.s):
                    self.bad("a lookup misses a stored key")
                if not pres:
                    if rv[0] != "pt":
                        raise Undecided("result %s" % rv[0])
                    c = d.cont.get(rv[1])
                    if c is None or c[0] != E:
                        self.bad("the slot offered for a new key is not empty")
                    if rv[1] not in d.F or any(n in d.cont and d.cont[n][0] == E for n in self.intervals(d, d.h, rv[1])):
                        self.bad("the slot offered for a new key cannot be reached from the key's home")
        if rv is not None and who == "d" and op in ("find", "findIdx", "force") and d.s is not None:
            if rv == ("pt", d.s):
                self.bad("a lookup returns another key's slot")

    def unreachable(self, st, i):
        pass


def self_live(fn):
    from kernel_ai import fn_liveness
    return fn_liveness(fn)
