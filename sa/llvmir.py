"""Load LLVM bitcode into plain Python objects through the LLVM-C API (ctypes).

Nothing of the analysed program is executed: this only reads the compiler's
intermediate representation.
"""
import ctypes as C
import subprocess

_L = None
for _n in ("libLLVM-18.so.1", "libLLVM-18.so", "/usr/lib/llvm-18/lib/libLLVM-18.so",
           "/usr/lib/llvm-18/lib/libLLVM.so.18.1", "libLLVM.so.18.1"):
    try:
        _L = C.CDLL(_n)
        break
    except OSError:
        continue
if _L is None:
    raise SystemExit("libLLVM-18 not found")

P = C.c_void_p
U = C.c_uint


def _f(name, res, *args):
    fn = getattr(_L, name)
    fn.restype = res
    fn.argtypes = list(args)
    return fn


ctx_create = _f("LLVMContextCreate", P)
membuf = _f("LLVMCreateMemoryBufferWithContentsOfFile", C.c_int, C.c_char_p, C.POINTER(P), C.POINTER(C.c_char_p))
parse_ir = _f("LLVMParseIRInContext", C.c_int, P, P, C.POINTER(P), C.POINTER(C.c_char_p))
first_fn = _f("LLVMGetFirstFunction", P, P)
next_fn = _f("LLVMGetNextFunction", P, P)
first_gl = _f("LLVMGetFirstGlobal", P, P)
next_gl = _f("LLVMGetNextGlobal", P, P)
first_bb = _f("LLVMGetFirstBasicBlock", P, P)
next_bb = _f("LLVMGetNextBasicBlock", P, P)
first_in = _f("LLVMGetFirstInstruction", P, P)
next_in = _f("LLVMGetNextInstruction", P, P)
bb_as_val = _f("LLVMBasicBlockAsValue", P, P)
val_as_bb = _f("LLVMValueAsBasicBlock", P, P)
is_bb = _f("LLVMValueIsBasicBlock", C.c_int, P)
opcode = _f("LLVMGetInstructionOpcode", C.c_int, P)
n_ops = _f("LLVMGetNumOperands", C.c_int, P)
get_op = _f("LLVMGetOperand", P, P, U)
type_of = _f("LLVMTypeOf", P, P)
type_kind = _f("LLVMGetTypeKind", C.c_int, P)
int_width = _f("LLVMGetIntTypeWidth", U, P)
name2 = _f("LLVMGetValueName2", C.c_void_p, P, C.POINTER(C.c_size_t))
value_kind = _f("LLVMGetValueKind", C.c_int, P)
ci_sext = _f("LLVMConstIntGetSExtValue", C.c_longlong, P)
cf_dbl = _f("LLVMConstRealGetDouble", C.c_double, P, C.POINTER(C.c_int))
n_params = _f("LLVMCountParams", U, P)
get_param = _f("LLVMGetParam", P, P, U)
is_decl = _f("LLVMIsDeclaration", C.c_int, P)
icmp_pred = _f("LLVMGetICmpPredicate", C.c_int, P)
fcmp_pred = _f("LLVMGetFCmpPredicate", C.c_int, P)
phi_n = _f("LLVMCountIncoming", U, P)
phi_v = _f("LLVMGetIncomingValue", P, P, U)
phi_b = _f("LLVMGetIncomingBlock", P, P, U)
called = _f("LLVMGetCalledValue", P, P)
n_args = _f("LLVMGetNumArgOperands", U, P)
gep_ty = _f("LLVMGetGEPSourceElementType", P, P)
alloca_ty = _f("LLVMGetAllocatedType", P, P)
n_idx = _f("LLVMGetNumIndices", U, P)
idxs = _f("LLVMGetIndices", C.POINTER(U), P)
dl_line = _f("LLVMGetDebugLocLine", U, P)
dl_file = _f("LLVMGetDebugLocFilename", C.c_void_p, P, C.POINTER(U))
dl_dir = _f("LLVMGetDebugLocDirectory", C.c_void_p, P, C.POINTER(U))
mod_dl = _f("LLVMGetModuleDataLayout", P, P)
abi_size = _f("LLVMABISizeOfType", C.c_ulonglong, P, P)
store_size = _f("LLVMStoreSizeOfType", C.c_ulonglong, P, P)
off_elem = _f("LLVMOffsetOfElement", C.c_ulonglong, P, P, U)
struct_n = _f("LLVMCountStructElementTypes", U, P)
struct_at = _f("LLVMStructGetTypeAtIndex", P, P, U)
struct_name = _f("LLVMGetStructName", C.c_char_p, P)
arr_len = _f("LLVMGetArrayLength2", C.c_ulonglong, P)
elem_ty = _f("LLVMGetElementType", P, P)
succ_n = _f("LLVMGetNumSuccessors", U, P)
succ_at = _f("LLVMGetSuccessor", P, P, U)
is_cond = _f("LLVMIsConditional", C.c_int, P)
cond_of = _f("LLVMGetCondition", P, P)
sw_default = _f("LLVMGetSwitchDefaultDest", P, P)
ce_op = _f("LLVMGetConstOpcode", C.c_int, P)
initializer = _f("LLVMGetInitializer", P, P)
rmw_op = _f("LLVMGetAtomicRMWBinOp", C.c_int, P)
is_volatile = _f("LLVMGetVolatile", C.c_int, P)
ret_ty_fn = _f("LLVMGetReturnType", P, P)
glob_vty = _f("LLVMGlobalGetValueType", P, P)
cds_elem = _f("LLVMGetAggregateElement", P, P, U)
invoke_normal = _f("LLVMGetNormalDest", P, P)
linkage = _f("LLVMGetLinkage", C.c_int, P)
is_const_glob = _f("LLVMIsGlobalConstant", C.c_int, P)
ordering = _f("LLVMGetOrdering", C.c_int, P)
get_subprogram = _f("LLVMGetSubprogram", P, P)
subprogram_line = _f("LLVMDISubprogramGetLine", U, P)
n_bundles = None

OPC = {1: "ret", 2: "br", 3: "switch", 4: "indirectbr", 5: "invoke", 7: "unreachable", 66: "fneg",
       8: "add", 9: "fadd", 10: "sub", 11: "fsub", 12: "mul", 13: "fmul", 14: "udiv", 15: "sdiv", 16: "fdiv",
       17: "urem", 18: "srem", 19: "frem", 20: "shl", 21: "lshr", 22: "ashr", 23: "and", 24: "or", 25: "xor",
       26: "alloca", 27: "load", 28: "store", 29: "getelementptr", 30: "trunc", 31: "zext", 32: "sext",
       33: "fptoui", 34: "fptosi", 35: "uitofp", 36: "sitofp", 37: "fptrunc", 38: "fpext", 39: "ptrtoint",
       40: "inttoptr", 41: "bitcast", 60: "addrspacecast", 42: "icmp", 43: "fcmp", 44: "phi", 45: "call",
       46: "select", 49: "va_arg", 50: "extractelement", 51: "insertelement", 52: "shufflevector",
       53: "extractvalue", 54: "insertvalue", 68: "freeze", 55: "fence", 56: "cmpxchg", 57: "atomicrmw",
       58: "resume", 59: "landingpad", 61: "cleanupret", 62: "catchret", 63: "catchpad", 64: "cleanuppad",
       65: "catchswitch", 67: "callbr"}
PRED = {32: "eq", 33: "ne", 34: "ugt", 35: "uge", 36: "ult", 37: "ule", 38: "sgt", 39: "sge", 40: "slt", 41: "sle"}
KIND = {0: "void", 1: "half", 2: "float", 3: "double", 4: "x86_fp80", 5: "fp128", 7: "label", 8: "int",
        9: "func", 10: "struct", 11: "array", 12: "ptr", 13: "vector", 14: "metadata", 16: "token"}
RMW = {0: "xchg", 1: "add", 2: "sub", 3: "and", 4: "nand", 5: "or", 6: "xor", 7: "max", 8: "min", 9: "umax",
       10: "umin", 11: "fadd", 12: "fsub"}


class Ty:
    __slots__ = ("kind", "size", "width", "elems", "offs", "elem", "n", "name")

    def __repr__(self):
        if self.kind == "int":
            return "i%d" % self.width
        if self.kind == "array":
            return "[%d x %r]" % (self.n, self.elem)
        if self.kind == "struct":
            return self.name or "{%s}" % ",".join(map(repr, self.elems))
        return self.kind


class Const:
    """Integer / fp / null / undef / aggregate / constant expression."""
    __slots__ = ("ck", "val", "ty", "ops", "op", "gty")

    def __repr__(self):
        return "%s:%r" % (self.ck, self.val if self.val is not None else self.op)


class Global:
    __slots__ = ("name", "ty", "init", "const", "linkage")

    def __repr__(self):
        return "@" + self.name


class Arg:
    __slots__ = ("name", "ty", "idx", "fn")

    def __repr__(self):
        return "%" + (self.name or "arg%d" % self.idx)


class Ins:
    __slots__ = ("op", "ops", "ty", "name", "bb", "line", "file", "pred", "incoming", "callee", "gty", "aty",
                 "idxs", "succs", "cases", "rmw", "uid", "fn", "pos", "vol", "scope_fn")

    def __repr__(self):
        return "%%%s=%s" % (self.name or self.uid, self.op)


class BB:
    __slots__ = ("name", "ins", "fn", "idx", "succs", "preds")

    def __repr__(self):
        return "bb:%s" % (self.name or self.idx)


class Fn:
    __slots__ = ("name", "dem", "args", "bbs", "decl", "ret", "line", "linkage", "cache")

    def __repr__(self):
        return "@" + (self.dem or self.name)


class Module:
    def __init__(self, path):
        self.ctx = ctx_create()
        buf = P()
        err = C.c_char_p()
        if membuf(path.encode(), C.byref(buf), C.byref(err)):
            raise RuntimeError(err.value)
        m = P()
        if parse_ir(self.ctx, buf, C.byref(m), C.byref(err)):
            raise RuntimeError(err.value)
        self.m = m
        self.td = mod_dl(m)
        self._ty = {}
        self._val = {}
        self._strs = {}
        self.fns = {}
        self.globals = {}
        self._load()

    # -- helpers ---------------------------------------------------------
    def _name(self, v):
        n = C.c_size_t()
        p = name2(v, C.byref(n))
        return C.string_at(p, n.value).decode("utf8", "replace") if n.value else ""

    def ty(self, t):
        r = self._ty.get(t)
        if r is not None:
            return r
        r = Ty()
        self._ty[t] = r
        r.kind = KIND.get(type_kind(t), "other")
        r.size = r.width = r.n = 0
        r.elems = []
        r.offs = []
        r.elem = None
        r.name = ""
        if r.kind == "int":
            r.width = int_width(t)
        if r.kind in ("int", "float", "double", "ptr", "x86_fp80", "array", "struct", "vector"):
            try:
                r.size = abi_size(self.td, t)
            except Exception:
                r.size = 0
        if r.kind in ("array", "vector"):
            r.elem = self.ty(elem_ty(t))
            r.n = arr_len(t) if r.kind == "array" else 0
        if r.kind == "struct":
            nm = struct_name(t)
            r.name = nm.decode() if nm else ""
            for i in range(struct_n(t)):
                r.elems.append(self.ty(struct_at(t, i)))
                r.offs.append(off_elem(self.td, t, i))
        return r

    def val(self, v):
        r = self._val.get(v)
        if r is not None:
            return r
        k = value_kind(v)
        # LLVMValueKind enumeration
        c = Const()
        c.val = None
        c.ops = []
        c.op = None
        c.gty = None
        c.ty = self.ty(type_of(v))
        if k == 18:          # ConstantInt
            c.ck = "int"
            c.val = ci_sext(v) if c.ty.width <= 64 else 0
        elif k == 19:        # ConstantFP
            lo = C.c_int()
            c.ck = "fp"
            c.val = cf_dbl(v, C.byref(lo))
        elif k == 20:        # null ptr
            c.ck = "null"
        elif k == 12:        # undef
            c.ck = "undef"
        elif k == 14:        # zeroinitializer
            c.ck = "zero"
        elif k == 10:        # ConstantExpr
            c.ck = "ce"
            c.op = OPC.get(ce_op(v), "?")
            if c.op == "getelementptr":
                c.gty = self.ty(gep_ty(v))
            self._val[v] = c
            c.ops = [self.val(get_op(v, i)) for i in range(n_ops(v))]
        elif k in (7, 8, 9):  # array/struct/vector constants
            c.ck = "agg"
            self._val[v] = c
            c.ops = [self.val(get_op(v, i)) for i in range(n_ops(v))]
        elif k in (15, 16):   # data array/vector
            c.ck = "data"
            n = c.ty.n if c.ty.kind == "array" else 0
            if n and n <= 4096:
                c.ops = [self.val(cds_elem(v, i)) for i in range(n)]
        else:
            c.ck = "other%d" % k
        self._val[v] = c
        return c

    def _load(self):
        g = first_gl(self.m)
        while g:
            G = Global()
            G.name = self._name(g)
            G.ty = self.ty(glob_vty(g))
            G.const = bool(is_const_glob(g))
            G.init = None
            G.linkage = linkage(g)
            self.globals[G.name] = G
            self._val[g] = G
            g = next_gl(g)
        flist = []
        f = first_fn(self.m)
        while f:
            F = Fn()
            F.name = self._name(f)
            F.dem = F.name
            F.bbs = []
            F.decl = bool(is_decl(f))
            F.linkage = linkage(f)
            F.args = []
            F.line = 0
            F.cache = {}
            F.ret = self.ty(ret_ty_fn(glob_vty(f)))
            for i in range(n_params(f)):
                a = Arg()
                pv = get_param(f, i)
                a.name = self._name(pv)
                a.ty = self.ty(type_of(pv))
                a.idx = i
                a.fn = F
                self._val[pv] = a
                F.args.append(a)
            self._val[f] = F
            self.fns[F.name] = F
            flist.append((f, F))
            f = next_fn(f)
        g = first_gl(self.m)
        while g:
            i = initializer(g)
            if i:
                self._val[g].init = self.val(i)
            g = next_gl(g)
        for f, F in flist:
            b = first_bb(f)
            n = 0
            raw = []
            while b:
                B = BB()
                B.name = self._name(bb_as_val(b))
                B.ins = []
                B.fn = F
                B.idx = n
                B.succs = []
                B.preds = []
                n += 1
                F.bbs.append(B)
                self._val[bb_as_val(b)] = B
                raw.append((b, B))
                b = next_bb(b)
            pend = []
            uid = 0
            for b, B in raw:
                i = first_in(b)
                while i:
                    I = Ins()
                    I.op = OPC.get(opcode(i), "?%d" % opcode(i))
                    I.ty = self.ty(type_of(i))
                    I.name = self._name(i)
                    I.bb = B
                    I.fn = F
                    I.uid = uid
                    I.pos = len(B.ins)
                    uid += 1
                    I.pred = I.incoming = I.callee = I.gty = I.aty = I.idxs = I.cases = I.rmw = None
                    I.succs = []
                    I.vol = False
                    I.scope_fn = None
                    I.line = dl_line(i)
                    if I.line:
                        ln = U()
                        p = dl_file(i, C.byref(ln))
                        fn = C.string_at(p, ln.value).decode() if p else ""
                        if fn and not fn.startswith("/"):
                            p = dl_dir(i, C.byref(ln))
                            fn = (C.string_at(p, ln.value).decode() if p else "") + "/" + fn
                        I.file = self._strs.setdefault(fn, fn)
                    else:
                        I.file = ""
                    self._val[i] = I
                    B.ins.append(I)
                    pend.append((i, I))
                    i = next_in(i)
            for i, I in pend:
                o = I.op
                if o == "phi":
                    I.incoming = [(self.val(phi_v(i, k)), self._val[bb_as_val(phi_b(i, k))]) for k in range(phi_n(i))]
                    I.ops = [x for x, _ in I.incoming]
                    continue
                if o in ("call", "invoke", "callbr"):
                    I.callee = self.val(called(i))
                    I.ops = [self.val(get_op(i, k)) for k in range(n_args(i))]
                    if o == "invoke":
                        I.succs = [self._val[bb_as_val(invoke_normal(i))]]
                    continue
                ops = []
                for k in range(n_ops(i)):
                    ov = get_op(i, k)
                    if ov is None:
                        continue
                    if is_bb(ov):
                        continue
                    ops.append(self.val(ov))
                I.ops = ops
                if o == "icmp":
                    I.pred = PRED[icmp_pred(i)]
                elif o == "fcmp":
                    I.pred = "f%d" % fcmp_pred(i)
                elif o == "getelementptr":
                    I.gty = self.ty(gep_ty(i))
                elif o == "alloca":
                    I.aty = self.ty(alloca_ty(i))
                elif o in ("extractvalue", "insertvalue"):
                    ix = idxs(i)
                    I.idxs = [ix[k] for k in range(n_idx(i))]
                elif o == "atomicrmw":
                    I.rmw = RMW.get(rmw_op(i), "?")
                elif o in ("br", "switch", "indirectbr"):
                    I.succs = [self._val[bb_as_val(succ_at(i, k))] for k in range(succ_n(i))]
                    if o == "switch":
                        # operands alternate: cond, default, (val, bb)*
                        I.cases = []
                        raw_ops = [get_op(i, k) for k in range(n_ops(i))]
                        for k in range(2, len(raw_ops), 2):
                            I.cases.append((self.val(raw_ops[k]).val, self._val[raw_ops[k + 1]]))
                        I.succs = [self._val[bb_as_val(sw_default(i))]] + [b for _, b in I.cases]
                        I.ops = ops[:1]
            for b, B in raw:
                t = B.ins[-1]
                B.succs = list(t.succs)
            for B in F.bbs:
                for s in B.succs:
                    if B not in s.preds:
                        s.preds.append(B)
        self._demangle()

    def _demangle(self):
        names = [n for n in self.fns]
        if not names:
            return
        out = subprocess.run(["c++filt"], input="\n".join(names), capture_output=True, text=True).stdout.split("\n")
        for n, d in zip(names, out):
            self.fns[n].dem = d


def const_int(v):
    return v.val if isinstance(v, Const) and v.ck == "int" else None
