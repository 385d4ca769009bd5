"""Symbolic executor for LLVM IR (bit-vectors / integers / reals, decided by z3).

One path is executed concretely-where-possible; every value that depends on a
symbolic input is a z3 term.  Doubles are finite mathematical reals; NaN and
+-inf are always path-concrete Python floats (an operation that could create
one on a symbolic operand forks).  Forks are explored by re-execution from the
last checkpoint with a decision log.
"""
import math
import random
import struct
import sys
import time
from fractions import Fraction
from decimal import Decimal

import z3

from . import llvm as L

BASE = 0x10000
SLOT = 32
FBASE = 1 << 62
NAN = float("nan")
INF = float("inf")
SYM = (z3.ArithRef, z3.BitVecRef, z3.BoolRef)


NOLOCK = frozenset()


class Unsupported(Exception):
    """The engine cannot encode this; the obligation stays undischarged."""


class PathEnd(Exception):
    def __init__(self, why):
        self.why = why


class Throw(Exception):
    def __init__(self, ptr):
        self.ptr = ptr


class RealBits:
    """The 64-bit pattern of a symbolic real (only moves, sign tests, fabs, neg)."""
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v


class RFrag:
    """byte k of a symbolic real (only moves)"""
    __slots__ = ("v", "k")

    def __init__(self, v, k):
        self.v = v
        self.k = k


class Mix:
    """bytes some of which belong to a symbolic real (only moves)"""
    __slots__ = ("p",)

    def __init__(self, p):
        self.p = p


class Obj:
    __slots__ = ("data", "size", "sym", "init", "ro", "dead", "kind", "oid")

    def __init__(self, oid, size, kind, init=None):
        self.oid = oid
        self.size = size
        self.data = bytearray(size)
        self.sym = {}
        self.init = init
        self.ro = False
        self.dead = False
        self.kind = kind

    def copy(self):
        o = Obj.__new__(Obj)
        o.oid = self.oid
        o.size = self.size
        o.data = self.data[:]
        o.sym = dict(self.sym)
        o.init = None if self.init is None else self.init[:]
        o.ro = False
        o.dead = self.dead
        o.kind = self.kind
        return o


class Frame:
    __slots__ = ("fn", "r", "seg", "ret", "unw", "lp", "allocas", "va", "onret")

    def __init__(self, fn, r):
        self.fn = fn
        self.r = r
        self.seg = 0
        self.ret = None     # (slot, nextseg) of call in progress
        self.unw = None
        self.lp = None
        self.allocas = []
        self.onret = None

    def copy(self):
        f = Frame.__new__(Frame)
        f.fn = self.fn
        f.r = self.r[:]
        f.seg = self.seg
        f.ret = self.ret
        f.unw = self.unw
        f.lp = self.lp
        f.allocas = self.allocas[:]
        f.onret = self.onret
        return f


class State:
    def __init__(self):
        self.mem = {}
        self.next = 0x1000
        self.frames = []
        self.cons = []
        self.conset = set()
        self.inputs = []
        self.names = {}
        self.exc = {}
        self.caught = []
        self.cur = None
        self.icount = 0
        self.dec = []
        self.di = 0
        self.ckpt = None
        self.nundef = 0
        self.threads = []
        self.thread_hist = []
        self.tid = 0
        self.log = None
        self.reached = []
        self.events = []
        self.user = {}

    def clone(self):
        s = State.__new__(State)
        s.__dict__.update(self.__dict__)
        s.mem = {k: (o if o.ro else o.copy()) for k, o in self.mem.items() if not (o.dead and o.kind == "stack")}
        s.frames = [f.copy() for f in self.frames]
        s.cons = self.cons[:]
        s.conset = set(self.conset)
        s.inputs = self.inputs[:]
        s.names = dict(self.names)
        s.exc = dict(self.exc)
        s.caught = self.caught[:]
        s.threads = [dict(t) for t in self.threads]
        s.thread_hist = [dict(t) for t in self.thread_hist]
        s.log = None if self.log is None else {k: list(v) for k, v in self.log.items()}
        s.reached = self.reached[:]
        s.events = self.events[:]
        s.user = dict(self.user)
        s.dec = []
        s.di = 0
        s.ckpt = None
        return s


class Fn:
    __slots__ = ("name", "ref", "decl", "addr", "code", "nreg", "nargs", "segn", "lp", "used")

    def __init__(self, name, ref, decl, addr):
        self.name = name
        self.ref = ref
        self.decl = decl
        self.addr = addr
        self.code = None
        self.used = False


_rv = {}


def rv(x):
    """float -> exact decimal rational of its shortest representation."""
    v = _rv.get(x)
    if v is None:
        f = Fraction(Decimal(repr(x)))
        v = z3.Q(f.numerator, f.denominator)
        _rv[x] = v
    return v


def R(x):
    if type(x) is float:
        return rv(x)
    return x


def is_real(x):
    return isinstance(x, z3.ArithRef) and x.is_real()


def is_iint(x):
    return isinstance(x, z3.ArithRef) and x.is_int()


def sgn(v, w):
    return v - (1 << w) if v >> (w - 1) else v


def num(e):
    """z3 numeral -> Fraction or None"""
    if z3.is_rational_value(e):
        return Fraction(e.numerator_as_long(), e.denominator_as_long())
    if z3.is_int_value(e):
        return Fraction(e.as_long())
    return None


def factors(t):
    if z3.is_mul(t):
        return [f for c in t.children() for f in factors(c)]
    return [t]


class Vec(tuple):
    pass


from .stubs import STUBS, PREFIX_STUBS  # noqa: E402
from . import codegen  # noqa: E402


class Violation:
    def __init__(self, kind, msg, inputs, where, alts=(), open_=False):
        self.open = open_
        self.kind = kind
        self.msg = msg
        self.inputs = inputs
        self.where = where
        self.alts = list(alts)


class Engine:
    def __init__(self, bc, opts=None):
        self.o = dict(merge_fp=True, merge_int=False, max_instr=30_000_000, max_paths=20000,
                      q_ms=8000, a_ms=20000, enum_cap=400, big_alloc=False, hwc=4, thread_order="eager", races=False, rem_abs=False, guess=4, div_nz=False,
                      deadline=None, malloc_cap=1 << 26, trig_id=False, lipschitz=False,
                      pow_poly=True, stop_first=False, rem_fork=False, quo_fork=False, trig_shift=True, fptoi_window=None)
        self.o.update(opts or {})
        self.l = L.lib()
        self.m = L.load(bc)
        self.td = self.l.LLVMGetModuleDataLayout(self.m)
        self.fns = {}
        self.by_addr = {}
        self.fref = {}
        self.tls = set()     # objects of the thread-local variables
        self.gaddr = {}      # value ref -> address
        self.gname = {}
        self.aname = {}
        self.iv = {}
        self.ivc = {}
        self.rel = {}
        self.ab = {}
        self.unf = {}
        self.defeq = set()
        self.wtries = 0
        self.keep = []
        self.ranges = {}
        self.nng = {}
        self.work = []
        self.stats = dict(paths=0, queries=0, sat=0, unsat=0, unknown=0, solver_s=0.0,
                          checks=0, checks_sym=0, instrs=0, infeasible=0)
        self.viol = []
        self.undecided = []
        self.reached = {}
        self.witness = []
        self.keep = []
        self.qcache = {}
        self.vcache = {}
        self.defs = {}      # functional definitions (fmod, sqrt ...)
        self.tids = {}
        self.nviol = {}
        self.nprop = {}
        self.events = {}
        self.init0 = State()
        self._setup()

    # ---------------------------------------------------------------- setup
    def _setup(self):
        l = self.l
        f = l.LLVMGetFirstFunction(self.m)
        i = 0
        while f:
            n = L.name(f)
            fn = Fn(n, f, bool(l.LLVMIsDeclaration(f)), FBASE + 16 * i)
            self.fns[n] = fn
            self.fref[f] = fn
            self.by_addr[fn.addr] = fn
            self.gaddr[f] = fn.addr
            i += 1
            f = l.LLVMGetNextFunction(f)
        self._fi = i
        for n in list(self.fns):             # as the linker's --wrap: stand-ins of the harness
            if n.startswith("__wrap_") and n[7:] in self.fns:
                self.by_addr[self.fns[n[7:]].addr] = self.fns[n]
        gl = []
        g = l.LLVMGetFirstGlobal(self.m)
        st = self.init0
        while g:
            n = L.name(g)
            ty = l.LLVMGlobalGetValueType(g)
            decl = bool(l.LLVMIsDeclaration(g))
            size = l.LLVMABISizeOfType(self.td, ty)
            if decl:
                size = max(size, 256)
            o = self.new_obj(st, size, "thread-local" if l.LLVMIsThreadLocal(g) else "global")
            if o.kind == "thread-local":
                self.tls.add(o.oid)
            a = (o.oid << SLOT) + BASE
            self.gaddr[g] = a
            self.gname[n] = a
            self.aname[a] = n
            gl.append((g, n, ty, decl, o))
            g = l.LLVMGetNextGlobal(g)
        a = l.LLVMGetFirstGlobalAlias(self.m)
        al = []
        while a:
            al.append(a)
            a = l.LLVMGetNextGlobalAlias(a)
        for a in al:
            v = self.const(l.LLVMAliasGetAliasee(a))
            self.gaddr[a] = v
            if v in self.by_addr:
                self.fns[L.name(a)] = self.by_addr[v]
        self.ctors = []
        for g, n, ty, decl, o in gl:
            if n == "llvm.global_ctors":
                v = self.const(l.LLVMGetInitializer(g))
                self.ctors = [x[1] for x in sorted(v, key=lambda t: t[0])]
                continue
            if decl:
                self._extern_global(n, o)
                continue
            ini = l.LLVMGetInitializer(g)
            self._put_const(o, 0, ini)
            if l.LLVMIsGlobalConstant(g):
                o.ro = True
        self.ti_addr = {}

    def extern_fn(self, name):
        fn = self.fns.get(name)
        if fn is None:
            fn = Fn(name, None, True, FBASE + 16 * self._fi)
            self._fi += 1
            self.fns[name] = fn
            self.by_addr[fn.addr] = fn
        return fn.addr

    def _extern_global(self, n, o):
        if n == "__libc_single_threaded":
            o.data[0] = 1
        elif n.startswith("_ZTV"):
            # slots: offset-to-top, typeinfo, then virtual functions
            ti = self.gname.get("_ZTI" + n[4:], 0)
            o.data[8:16] = struct.pack("<Q", ti)
            for k in range(2, o.size // 8):
                o.data[8 * k:8 * k + 8] = struct.pack("<Q", self.extern_fn("__vf_vslot%d" % k))
            o.ro = True

    def tysize(self, ty):
        return self.l.LLVMABISizeOfType(self.td, ty)

    def _put_const(self, o, off, v):
        l = self.l
        k = l.LLVMGetValueKind(v)
        ty = l.LLVMTypeOf(v)
        if k in (15, 20, 14, 25):   # zero, null, undef, poison
            return
        if k == 16:  # data array
            et = l.LLVMGetElementType(ty)
            if l.LLVMGetTypeKind(et) == L.TK_INT and l.LLVMGetIntTypeWidth(et) == 8:
                n = L.C.c_size_t()
                p = l.LLVMGetAsString(v, L.C.byref(n))
                o.data[off:off + n.value] = L.C.string_at(p, n.value)
                return
            es = self.tysize(et)
            for i in range(l.LLVMGetArrayLength2(ty)):
                self._put_const(o, off + i * es, l.LLVMGetElementAsConstant(v, i))
            return
        if k == 17:
            et = l.LLVMGetElementType(ty)
            es = self.tysize(et)
            for i in range(l.LLVMGetVectorSize(ty)):
                self._put_const(o, off + i * es, l.LLVMGetElementAsConstant(v, i))
            return
        if k == 11:
            es = self.tysize(l.LLVMGetElementType(ty))
            for i in range(l.LLVMGetNumOperands(v)):
                self._put_const(o, off + i * es, l.LLVMGetOperand(v, i))
            return
        if k == 12:
            for i in range(l.LLVMGetNumOperands(v)):
                self._put_const(o, off + l.LLVMOffsetOfElement(self.td, ty, i), l.LLVMGetOperand(v, i))
            return
        c = self.const(v)
        tk = l.LLVMGetTypeKind(ty)
        n = l.LLVMStoreSizeOfType(self.td, ty)
        if tk == L.TK_DOUBLE:
            o.data[off:off + 8] = struct.pack("<d", c)
        elif tk == L.TK_FLOAT:
            o.data[off:off + 4] = struct.pack("<f", c)
        elif tk in (L.TK_INT, L.TK_PTR):
            if n == 4 and k == 10 and l.LLVMGetConstOpcode(v) == 30:   # entry of a relative table
                self.rel[self.addr_of(o) + off] = self.const(l.LLVMGetOperand(v, 0))
            o.data[off:off + n] = (c & ((1 << (8 * n)) - 1)).to_bytes(n, "little")
        elif tk == L.TK_X86:
            pass
        else:
            raise Unsupported("const init kind %d" % tk)

    def const(self, v):
        """constant value -> python value"""
        l = self.l
        k = l.LLVMGetValueKind(v)
        if v in self.gaddr:
            return self.gaddr[v]
        ty = l.LLVMTypeOf(v)
        tk = l.LLVMGetTypeKind(ty)
        if k == 18:
            w = l.LLVMGetIntTypeWidth(ty)
            if w > 64:
                s = L.tostr(v).split()[-1]
                return int(s) & ((1 << w) - 1)
            return l.LLVMConstIntGetZExtValue(v)
        if k == 19:
            if tk in (L.TK_DOUBLE, L.TK_FLOAT):
                li = L.C.c_int()
                return l.LLVMConstRealGetDouble(v, L.C.byref(li))
            if tk == L.TK_X86:
                li = L.C.c_int()
                return l.LLVMConstRealGetDouble(v, L.C.byref(li))
        if k == 20:
            return 0
        if k in (14, 25, 15):
            return self.zero(ty)
        if k in (11, 12, 13):
            t = tuple(self.const(l.LLVMGetOperand(v, i)) for i in range(l.LLVMGetNumOperands(v)))
            return Vec(t) if k == 13 else t
        if k in (16, 17):
            n = l.LLVMGetArrayLength2(ty) if k == 16 else l.LLVMGetVectorSize(ty)
            t = tuple(self.const(l.LLVMGetElementAsConstant(v, i)) for i in range(n))
            return Vec(t) if k == 17 else t
        if k == 10:
            op = l.LLVMGetConstOpcode(v)
            a = [self.const(l.LLVMGetOperand(v, i)) for i in range(l.LLVMGetNumOperands(v))] if op != 29 else None
            if op == 29:
                base = self.const(l.LLVMGetOperand(v, 0))
                t = l.LLVMGetGEPSourceElementType(v)
                idx = []
                for i in range(1, l.LLVMGetNumOperands(v)):
                    ov = l.LLVMGetOperand(v, i)
                    idx.append(sgn(self.const(ov), l.LLVMGetIntTypeWidth(l.LLVMTypeOf(ov))))
                return (base + self.gep_const(t, idx)) & ((1 << 64) - 1)
            if op in (39, 40, 41, 60):
                return a[0]
            w = l.LLVMGetIntTypeWidth(ty) if tk == L.TK_INT else 64
            M = (1 << w) - 1
            if op == 8:
                return (a[0] + a[1]) & M
            if op == 10:
                return (a[0] - a[1]) & M
            if op == 30:
                return a[0] & M
        raise Unsupported("constant: " + L.tostr(v)[:120])

    def zero(self, ty):
        l = self.l
        tk = l.LLVMGetTypeKind(ty)
        if tk in (L.TK_INT, L.TK_PTR):
            return 0
        if tk in (L.TK_DOUBLE, L.TK_FLOAT, L.TK_X86):
            return 0.0
        if tk == L.TK_STRUCT:
            return tuple(self.zero(l.LLVMStructGetTypeAtIndex(ty, i))
                         for i in range(l.LLVMCountStructElementTypes(ty)))
        if tk == L.TK_ARRAY:
            z = self.zero(l.LLVMGetElementType(ty))
            return tuple(z for _ in range(l.LLVMGetArrayLength2(ty)))
        if tk == L.TK_VECTOR:
            z = self.zero(l.LLVMGetElementType(ty))
            return Vec(z for _ in range(l.LLVMGetVectorSize(ty)))
        return 0

    def gep_const(self, t, idx):
        l = self.l
        off = idx[0] * self.tysize(t)
        for i in idx[1:]:
            tk = l.LLVMGetTypeKind(t)
            if tk == L.TK_STRUCT:
                off += l.LLVMOffsetOfElement(self.td, t, i)
                t = l.LLVMStructGetTypeAtIndex(t, i)
            else:
                t = l.LLVMGetElementType(t)
                off += i * self.tysize(t)
        return off

    # --------------------------------------------------------------- memory
    def new_obj(self, st, size, kind, uninit=False):
        oid = st.next
        st.next += 1
        o = Obj(oid, size, kind, bytearray(size) if uninit else None)
        st.mem[oid] = o
        return o

    def alloc(self, st, size, kind="heap", uninit=True):
        if not isinstance(size, int):
            # a size that is not fixed: beyond the cap the allocation fails, or
            # (big_alloc) gives a block of which the first bytes are modelled
            if self.decide(st, self.icmp("ugt", 64, size, self.o["malloc_cap"], st)):
                if self.o["big_alloc"] and self.choose(st, 2):
                    size = self.o["malloc_cap"]
                else:
                    size = self.o["malloc_cap"] + 1
            else:
                size = self.concretize(st, size, 64)
        if size > self.o["malloc_cap"]:
            raise Throw(self.mk_exc(st, "_ZTISt9bad_alloc"))
        o = self.new_obj(st, size, kind, uninit)
        return (o.oid << SLOT) + BASE

    def addr_of(self, o, off=0):
        return (o.oid << SLOT) + BASE + off

    def find(self, st, addr, n, what):
        if type(addr) is not int:
            addr = self.resolve(st, addr, n)
        if st.tid and addr >> SLOT in self.tls:
            from .stubs import thread_local
            b = (addr >> SLOT << SLOT) + BASE
            addr += thread_local(self, st, None, b) - b
        o = st.mem.get(addr >> SLOT)
        off = (addr & 0xffffffff) - BASE
        if o is None or off < 0 or off + n > o.size or o.dead:
            why = "null/wild" if o is None else ("use-after-free" if o.dead else "out-of-bounds")
            self.bad(st, "memory", "%s %s of %d bytes at offset %d of %s object of %d bytes" % (
                why, what, n, off, o.kind if o else "no", o.size if o else 0))
        if st.log is not None:
            self.log_access(st, o, off, n, what)
        return o, off

    def log_access(self, st, o, off, n, what):
        if o.ro or o.kind == "stack" and False:
            return
        live = None
        if st.tid == 0:
            live = st.user.get("live")
            if not live:
                return
        d = st.log.setdefault(st.tid, [])
        d.append((o.oid, off, n, what == "write", st.user.get("locks%d" % st.tid, NOLOCK), live))

    def overlap(self, o, off, n):
        s = o.sym
        if len(s) < n + 7:
            for k in s:
                if k < off + n and k + s[k][0] > off:
                    return True
            return False
        for k in range(off - 7, off + n):
            c = s.get(k)
            if c is not None and k + c[0] > off:
                return True
        return False

    def ld_i(self, st, addr, n, w):
        o, off = self.find(st, addr, n, "read")
        if o.sym:
            c = o.sym.get(off)
            if c is not None and c[0] == n:
                v = c[1]
                if is_real(v):
                    return RealBits(v)
                if isinstance(v, RFrag):
                    return v
                if isinstance(v, z3.BoolRef):
                    v = z3.If(v, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8))
                if isinstance(v, z3.BitVecRef) and w < v.size():
                    v = z3.Extract(w - 1, 0, v)
                    return v == 1 if w == 1 else v
                return v
            if self.overlap(o, off, n):
                return self.ld_bytes(st, o, off, n, w)
        if o.init is not None and not all(o.init[off:off + n]):
            if not any(o.init[off:off + n]):
                st.events.append("uninitialised read")
                st.nundef += 1
                v = z3.BitVec("undef!%d" % st.nundef, 8 * n)
                st.inputs.append(("undef!%d" % st.nundef, "undef", v))
                return z3.Extract(w - 1, 0, v) if w < 8 * n else v
        v = int.from_bytes(o.data[off:off + n], "little")
        return v & ((1 << w) - 1) if w != 8 * n else v

    def frags(self, o, off, n):
        """a real reassembled from its bytes, or one byte of a real"""
        if n == 8:
            v = None
            for k in range(8):
                c = o.sym.get(off + k)
                if c is None or not isinstance(c[1], RFrag) or c[1].k != k or (v is not None and not c[1].v.eq(v)):
                    return None
                v = c[1].v
            return RealBits(v)
        if n == 1:
            for k in range(off - 7, off + 1):
                c = o.sym.get(k)
                if c is not None and c[0] == 8 and k + 8 > off and is_real(c[1]):
                    return RFrag(c[1], off - k)
        return None

    def ld_bytes(self, st, o, off, n, w):
        fr = self.frags(o, off, n)
        if fr is not None:
            return fr
        if n > 1:
            mix = False
            for k in range(off - 7, off + n):
                c = o.sym.get(k)
                if c is not None and k + c[0] > off and (is_real(c[1]) or isinstance(c[1], RFrag)):
                    mix = True
                    break
            if mix:
                ps = []
                for k in range(n):
                    if self.overlap(o, off + k, 1):
                        c = o.sym.get(off + k)
                        ps.append(c[1] if c is not None and c[0] == 1 else self.ld_bytes(st, o, off + k, 1, 8))
                    else:
                        ps.append(o.data[off + k])
                return Mix(ps)
        parts = []
        i = off
        while i < off + n:
            hit = None
            for k in range(i - 7, i + 1):
                c = o.sym.get(k)
                if c is not None and k + c[0] > i:
                    hit = (k, c)
                    break
            if hit is None:
                parts.append(z3.BitVecVal(o.data[i], 8))
                i += 1
                continue
            k, (sz, v) = hit
            if isinstance(v, z3.BoolRef):
                v = z3.If(v, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8))
            if not isinstance(v, z3.BitVecRef):
                if is_iint(v):
                    v = self.to_bv(v, 8 * sz)
                else:
                    raise Unsupported("byte access into a symbolic real")
            b = 8 * (i - k)
            parts.append(z3.Extract(b + 7, b, v))
            i += 1
        parts.reverse()
        v = z3.simplify(z3.Concat(*parts) if len(parts) > 1 else parts[0])
        if w < 8 * n:
            v = z3.Extract(w - 1, 0, v)
        v = z3.simplify(v)
        if z3.is_bv_value(v):
            return v.as_long()
        return v

    def ld_f(self, st, addr):
        o, off = self.find(st, addr, 8, "read")
        if o.sym:
            c = o.sym.get(off)
            if c is not None and c[0] == 8:
                v = c[1]
                if is_real(v):
                    return v
                if isinstance(v, z3.BitVecRef):
                    return self.bits_to_f(st, v)
                if is_iint(v):
                    return self.bits_to_f(st, z3.Int2BV(v, 64))
                raise Unsupported("double load of an integer cell")
            if self.overlap(o, off, 8):
                return self.bits_to_f(st, self.ld_bytes(st, o, off, 8, 64))
        if o.init is not None and not any(o.init[off:off + 8]):
            st.events.append("uninitialised read")
            st.nundef += 1
            v = z3.Real("undef!%d" % st.nundef)
            st.inputs.append(("undef!%d" % st.nundef, "undef", v))
            return v
        return struct.unpack_from("<d", o.data, off)[0]

    def ld_f32(self, st, addr):
        o, off = self.find(st, addr, 4, "read")
        if o.sym:
            c = o.sym.get(off)
            if c is not None and c[0] == 4 and is_real(c[1]):
                return c[1]
            if self.overlap(o, off, 4):
                raise Unsupported("float load over symbolic bytes")
        return struct.unpack_from("<f", o.data, off)[0]

    def bits_to_f(self, st, v):
        """64 symbolic bits reinterpreted as a double: fresh value (over-approximation)"""
        if type(v) is int:
            return struct.unpack("<d", struct.pack("<Q", v))[0]
        if isinstance(v, RealBits):
            return v.v
        key = ("b2f", v.get_id())
        r = self.defs.get(key)
        if r is None:
            r = z3.Real("bits!%d" % len(self.defs))
            self.defs[key] = r
            self.keep.append(v)
        st.events.append("bits->double abstraction")
        return r

    def byte_of(self, v, sz, b):
        if is_iint(v):
            v = self.to_bv(v, 8 * sz)
        if isinstance(v, z3.BitVecRef):
            return z3.simplify(z3.Extract(8 * b + 7, 8 * b, v))
        if is_real(v) and sz == 8:
            return RFrag(v, b)
        raise Unsupported("split of a symbolic cell")

    def _wr(self, st, o, off, n):
        """clear symbolic cells overlapped by a write"""
        if o.ro:
            self.bad(st, "memory", "write to constant object")
        if o.sym:
            s = o.sym
            if off in s and s[off][0] == n:
                del s[off]
            elif self.overlap(o, off, n):
                ks = [k for k in s if k < off + n and k + s[k][0] > off]
                for k in ks:
                    sz, v = s.pop(k)
                    if k >= off and k + sz <= off + n:
                        continue
                    if isinstance(v, z3.BoolRef):
                        v = z3.If(v, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8))
                    if is_iint(v):
                        v = self.to_bv(v, 8 * sz)
                    for b in range(sz):
                        if not (off <= k + b < off + n):
                            s[k + b] = (1, self.byte_of(v, sz, b))
        if o.init is not None:
            o.init[off:off + n] = b"\1" * n

    def st_i(self, st, addr, v, n):
        o, off = self.find(st, addr, n, "write")
        self._wr(st, o, off, n)
        t = type(v)
        if t is Mix:
            for k in range(n):
                x = v.p[k] if k < len(v.p) else 0
                if type(x) is int:
                    o.data[off + k] = x
                else:
                    o.sym[off + k] = (1, x)
            if n == 8:
                f = self.frags(o, off, 8)
                if f is not None:
                    for k in range(8):
                        del o.sym[off + k]
                    o.sym[off] = (8, f.v)
        elif t is int or t is bool:
            o.data[off:off + n] = (v & ((1 << (8 * n)) - 1)).to_bytes(n, "little")
        else:
            if t is RealBits:
                v = v.v
            elif isinstance(v, z3.BoolRef) and n != 1:
                v = z3.If(v, z3.BitVecVal(1, 8 * n), z3.BitVecVal(0, 8 * n))
            elif isinstance(v, z3.BitVecRef) and v.size() != 8 * n:
                v = z3.ZeroExt(8 * n - v.size(), v)
            o.sym[off] = (n, v)
            if t is RFrag:
                self.refrag(o, off, 1)

    def st_f(self, st, addr, v):
        o, off = self.find(st, addr, 8, "write")
        self._wr(st, o, off, 8)
        if type(v) is float:
            struct.pack_into("<d", o.data, off, v)
        else:
            o.sym[off] = (8, v)

    def st_f32(self, st, addr, v):
        o, off = self.find(st, addr, 4, "write")
        self._wr(st, o, off, 4)
        if type(v) is float:
            struct.pack_into("<f", o.data, off, v)
        else:
            o.sym[off] = (4, v)

    def refrag(self, o, off, n):
        """merge eight consecutive fragments back into one real cell"""
        s = o.sym
        for k in range(off - 7, off + n):
            c = s.get(k)
            if c is not None and isinstance(c[1], RFrag) and c[1].k == 0:
                f = self.frags(o, k, 8)
                if f is not None:
                    for j in range(8):
                        del s[k + j]
                    s[k] = (8, f.v)

    def memcpy(self, st, d, s, n):
        if type(n) is not int:
            n = self.concretize(st, n, 64)
        if n == 0:
            return
        so, soff = self.find(st, s, n, "read")
        do, doff = self.find(st, d, n, "write")
        data = bytes(so.data[soff:soff + n])
        cells = []
        if so.sym:
            for k, c in so.sym.items():
                if k >= soff and k + c[0] <= soff + n:
                    cells.append((k - soff, c))
                elif k < soff + n and k + c[0] > soff:
                    v = c[1]
                    for b in range(c[0]):
                        if soff <= k + b < soff + n:
                            cells.append((k + b - soff, (1, self.byte_of(v, c[0], b))))
        ini = None if so.init is None else bytes(so.init[soff:soff + n])
        self._wr(st, do, doff, n)
        do.data[doff:doff + n] = data
        fr = False
        for k, c in cells:
            do.sym[doff + k] = c
            fr = fr or type(c[1]) is RFrag
        if fr:
            self.refrag(do, doff, n)
        if ini is not None and not all(ini):
            if do.init is None:
                do.init = bytearray(b"\1" * do.size)
            do.init[doff:doff + n] = ini

    def memset(self, st, d, v, n):
        if type(n) is not int:
            n = self.concretize(st, n, 64)
        if n == 0:
            return
        if type(v) is not int:
            v = self.concretize(st, v, 8)
        o, off = self.find(st, d, n, "write")
        self._wr(st, o, off, n)
        o.data[off:off + n] = bytes([v & 255]) * n

    def rbytes(self, st, addr, n):
        """n bytes as python ints or BV8"""
        o, off = self.find(st, addr, n, "read")
        if not o.sym:
            return list(o.data[off:off + n])
        return [self.ld_i(st, addr + i, 1, 8) for i in range(n)]

    def cstr(self, st, addr):
        o, off = self.find(st, addr, 1, "read")
        e = o.data.index(0, off)
        return o.data[off:e].decode(errors="replace")

    # ------------------------------------------------------------ decisions
    def simp(self, c):
        return z3.simplify(c)

    def vars_of(self, e):
        i = e.get_id()
        v = self.vcache.get(i)
        if v is not None:
            return v
        seen = set()
        out = set()
        stack = [e]
        while stack:
            x = stack.pop()
            xi = x.get_id()
            if xi in seen:
                continue
            seen.add(xi)
            if z3.is_const(x):
                if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    out.add(xi)
            else:
                stack.extend(x.children())
        self.vcache[i] = frozenset(out)
        self.keep.append(e)
        return self.vcache[i]

    def slice(self, cons, extra):
        need = set()
        for e in extra:
            need |= self.vars_of(e)
        rest = [(c, self.vars_of(c)) for c in cons]
        out = []
        ch = True
        while ch:
            ch = False
            nr = []
            for c, v in rest:
                if v & need or not v:
                    out.append(c)
                    if not v <= need:
                        need |= v
                        ch = True
                else:
                    nr.append((c, v))
            rest = nr
        return out

    def solve(self, cs, ms):
        """(result, model) over the conjunction cs"""
        key = frozenset(c.get_id() for c in cs)
        hit = self.qcache.get(key)
        if hit is not None:
            return hit
        self.stats["queries"] += 1
        t = time.time()
        if self.o["deadline"] and t > self.o["deadline"]:
            raise Unsupported("time budget exhausted")
        res, mod = z3.unknown, None
        if self.defeq and any(c.get_id() in self.defeq for c in cs):
            s = z3.Solver()
            s.set("timeout", int(ms * .3) + 20)
            s.add(*[c for c in cs if c.get_id() not in self.defeq])
            if s.check() == z3.unsat:
                self.stats["solver_s"] += time.time() - t
                self.stats["unsat"] += 1
                self.keep.extend(cs)
                self.qcache[key] = (z3.unsat, None)
                return z3.unsat, None
        for k, (mk, frac) in enumerate(((lambda: z3.Solver(), .35), (self.nra_solver, .65))):
            s = mk()
            s.set("timeout", int(ms * frac))
            s.add(*cs)
            try:
                r = s.check()
            except z3.Z3Exception:
                r = z3.unknown
            if r != z3.unknown:
                res = r
                mod = s.model() if r == z3.sat else None
                break
        dt = time.time() - t
        self.stats["solver_s"] += dt
        self.stats[str(res)] += 1
        if dt > 5 and self.o.get("trace"):
            print("slow query %.1fs %s" % (dt, res), [str(c)[:200] for c in cs], file=sys.stderr)
        self.keep.extend(cs)
        out = (res, mod)
        if res != z3.unknown:
            self.qcache[key] = out
        return out

    def nra_solver(self):
        return z3.Then("simplify", "propagate-values", "solve-eqs", "elim-term-ite" if False else "simplify", "smt").solver() \
            if self.o.get("nra_alt") else z3.SolverFor("QF_UFNRA" if self.o.get("uf") else "QF_NIRA")

    def feasible(self, st, c):
        """may the path condition and c hold together? (unknown counts as yes)"""
        r, m = self.solve(self.slice(st.cons, [c]) + [c], self.o["q_ms"])
        return r != z3.unsat

    def add(self, st, c):
        if c.get_id() in st.conset:
            return
        if z3.is_true(c):
            return
        st.conset.add(c.get_id())
        st.cons.append(c)

    def settle(self, st, c):
        """c is implied by the path condition: the same question has the same answer"""
        st.conset.add(c.get_id())
        self.keep.append(c)

    def decide(self, st, c):
        """fork on a symbolic condition; returns the side this path takes"""
        if type(c) in (bool, int):
            return bool(c)
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        nc = z3.simplify(z3.Not(c))
        if c.get_id() in st.conset:
            return True
        if nc.get_id() in st.conset:
            return False
        if st.di < len(st.dec):
            d = st.dec[st.di]
            st.di += 1
            if d in (0, 1):
                self.add(st, c if d else nc)
            else:
                self.settle(st, c if d == 3 else nc)
            return d in (1, 3)
        k = self.itruth(c)
        t = k is not False and (k is True or self.feasible(st, c))
        f = k is not True and (self.feasible(st, nc) if t else True)
        if t and f:
            self.push(st, 0)
            st.dec.append(1)
            st.di += 1
            self.add(st, c)
            return True
        d = 3 if t else 2          # forced: 3 = true, 2 = false
        self.settle(st, c if t else nc)
        st.dec.append(d)
        st.di += 1
        return d == 3

    def decide_assume(self, st, c):
        """restrict the path to c (no fork: the other side is outside the claim)"""
        if type(c) in (bool, int):
            return bool(c)
        c = z3.simplify(self.to_bool(c))
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if st.di < len(st.dec):
            d = st.dec[st.di]
            st.di += 1
        else:
            d = 1 if self.feasible(st, c) else 2
            st.dec.append(d)
            st.di += 1
        if d == 1:
            self.add(st, c)
        return d == 1

    def choose(self, st, n):
        """n-way unconstrained fork"""
        if st.di < len(st.dec):
            d = st.dec[st.di]
            st.di += 1
            return d
        for k in range(n - 1, 0, -1):
            self.push(st, k)
        st.dec.append(0)
        st.di += 1
        return 0

    def push(self, st, d):
        if st.ckpt is None:
            raise Unsupported("no checkpoint")
        self.work.append((st.ckpt, st.dec[:] + [d]))

    def model_of(self, st, extra=()):
        cs = list(st.cons) + list(extra)
        if self.o["rem_abs"] and not extra:
            for fix in self.fixes(st):
                r, m = self.solve(cs + fix, 400)
                if r == z3.sat:
                    return r, m
            if any(k == "real" for _, k, _ in st.inputs):
                return z3.unknown, None
        r, m = self.solve(cs, self.o["a_ms"])
        return (r, m)

    def inputs_model(self, st):
        """a model of the constraints on the inputs alone"""
        ins = set()
        for _, k, e in st.inputs:
            if k not in ("conc", "undef"):
                ins |= self.vars_of(e)
        r, m = self.solve([c for c in st.cons if self.vars_of(c) <= ins], 2000)
        return m if r == z3.sat else None

    def fixes(self, st):
        """random values for the real inputs (search for models only)"""
        reals = [(e, self.ab.get(e.get_id())) for _, k, e in st.inputs if k == "real"]
        if not reals:
            return
        rnd = random.Random(self.o.get("seed", 1))
        for k in range(self.o["guess"]):
            fix = []
            for e, b in reals:
                b = float(b) if b else 10.0
                v = rnd.uniform(-b, b)
                fix.append(e == rv(round(v, 3) if b > 1 else v))
            yield fix

    def concretize(self, st, e, w):
        """enumerate the feasible values of an integer term (one per path)"""
        if type(e) is int:
            return e
        if type(e) is bool:
            return int(e)
        if isinstance(e, z3.BoolRef):
            return int(self.decide(st, e))
        e = z3.simplify(e)
        if z3.is_bv_value(e):
            return e.as_long()
        if z3.is_int_value(e):
            return e.as_long() & ((1 << w) - 1)
        if isinstance(e, RealBits):
            raise Unsupported("concretize real bits")
        for k in range(self.o["enum_cap"]):
            if st.di < len(st.dec):
                v, d = st.dec[st.di]
                st.di += 1
                c = e == v
                if d == 1:
                    self.add(st, c)
                    break
                elif d == 3:
                    break
                self.add(st, z3.simplify(z3.Not(c)))
                continue
            r, m = self.solve(self.slice(st.cons, [e == 0 if is_iint(e) else e == 0]), self.o["q_ms"])
            if r != z3.sat:
                raise Unsupported("cannot enumerate symbolic integer")
            mv = m.eval(e, model_completion=True)
            v = mv.as_long()
            c = e == v
            if self.feasible(st, e != v):
                self.push(st, (v, 0))
                st.dec.append((v, 1))
                self.add(st, c)
            else:
                st.dec.append((v, 3))
            st.di += 1
            break
        else:
            raise Unsupported("enumeration cap")
        return v & ((1 << w) - 1)

    def resolve(self, st, addr, n):
        """symbolic address -> concrete one; proves it stays in its object first"""
        if isinstance(addr, z3.ArithRef):
            pass
        addr = z3.simplify(addr)
        if z3.is_bv_value(addr):
            return addr.as_long()
        if z3.is_int_value(addr):
            return addr.as_long()
        if st.di < len(st.dec):          # replaying: the bounds question was settled
            d = st.dec[st.di]
            st.di += 1
            if d[0] == "oob":
                self.add(st, d[1])
                return self._first(st, addr)
            if d[1] is not None:
                self.add(st, d[1])
            return self.concretize(st, addr, 64)
        r, m = self.solve(self.slice(st.cons, [addr == 0]), self.o["q_ms"])
        if r != z3.sat:
            raise Unsupported("cannot resolve pointer")
        a0 = m.eval(addr, model_completion=True).as_long()
        o = st.mem.get(a0 >> SLOT)
        base = (a0 >> SLOT << SLOT) + BASE
        size = o.size if o else 0
        if is_iint(addr):
            inb = z3.And(addr >= base, addr <= base + size - n)
        else:
            inb = z3.And(z3.UGE(addr, base), z3.ULE(addr, base + size - n)) if size >= n else z3.BoolVal(False)
        out = z3.simplify(z3.Not(inb))
        if z3.is_false(out) or not self.feasible(st, out):
            st.dec.append(("in", None))
            st.di += 1
            return self.concretize(st, addr, 64)
        if self.feasible(st, inb):
            self.push(st, ("oob", out))
            st.dec.append(("in", inb))
            st.di += 1
            self.add(st, z3.simplify(inb))
            return self.concretize(st, addr, 64)
        st.dec.append(("oob", out))
        st.di += 1
        return self._first(st, addr)

    def _first(self, st, addr):
        r, m = self.model_of(st)
        if r != z3.sat:
            raise Unsupported("cannot resolve pointer (model)")
        v = m.eval(addr, model_completion=True).as_long()
        self.add(st, addr == v)
        return v

    # ------------------------------------------------------------- verdicts
    def bad(self, st, kind, msg):
        """the path reached an error state"""
        self.report(st, kind, msg, [])
        raise PathEnd("error")

    def report(self, st, kind, msg, extra):
        n = self.nviol.get((kind, msg), 0)
        self.nviol[(kind, msg)] = n + 1
        if n >= 12:
            return
        r, m = self.model_of(st, list(extra) + st.user.pop("fix", []))
        if r == z3.sat:
            alts = self.alternatives(st, list(extra), m) + self.candidates(st, m, 12) if n < 4 else []
            self.viol.append(Violation(kind, msg, self.inputs_of(st, m), self.where(st), alts))
            if self.o["stop_first"]:
                raise StopIteration
        elif r == z3.unknown:
            self.undecided.append(("%s: %s" % (kind, msg), self.where(st)))
            c = self.candidates(st, self.inputs_model(st), 24) if n < 4 else []
            if c:
                self.viol.append(Violation(kind, msg, c[0], self.where(st), c[1:], True))
        else:
            self.stats["infeasible"] += 1

    def alternatives(self, st, extra, m):
        """further models of the same violation, with generic input values (easier to replay)"""
        out = []
        rnd = random.Random(self.o.get("seed", 1))
        reals = [e for _, k, e in st.inputs if k == "real"]
        if not reals or len(reals) > 60:
            return out
        for k in range(3):
            s = z3.Solver()
            s.set("timeout", 1500)
            s.add(*st.cons, *extra)
            t = time.time()
            best = None
            for e in rnd.sample(reals, len(reals)):
                mv = num(m.eval(e, model_completion=True)) if not z3.is_algebraic_value(m.eval(e, model_completion=True)) else None
                base = float(mv) if mv is not None else 1.0
                for v in (round(base + (abs(base) * .3 + 1) * (rnd.random() - .5), 4), round(rnd.uniform(-3, 3), 4),
                          round(rnd.uniform(-90, 90), 3)):
                    s.push()
                    s.add(e == rv(v))
                    if s.check() == z3.sat:
                        best = s.model()
                        break
                    s.pop()
                if time.time() - t > 4:
                    break
            if best is not None:
                out.append(self.inputs_of(st, best))
        return out

    def where(self, st):
        return [f.fn.name for f in st.frames[-6:]]

    def inputs_of(self, st, m):
        out = []
        for nm, kind, e in st.inputs:
            if kind == "undef":
                continue
            if kind == "conc":
                out.append((nm, e))
                continue
            v = m.eval(e, model_completion=True)
            if kind == "real":
                if z3.is_algebraic_value(v):
                    v = v.approx(30)
                f = num(v)
                if f is None:
                    return out
                out.append((nm, float(f)))
            elif kind == "int":
                out.append((nm, v.as_long()))
            elif kind == "bv":
                out.append((nm, v.as_long()))
        return out

    def check(self, st, c, msg):
        self.stats["checks"] += 1
        if type(c) in (bool, int):
            if not c:
                self.report(st, "check", msg, [])
                raise PathEnd("check")
            return
        c = z3.simplify(c) if isinstance(c, z3.BoolRef) else z3.simplify(c != 0)
        if z3.is_true(c):
            return
        self.stats["checks_sym"] += 1
        nc = z3.simplify(z3.Not(c))
        t0 = time.time()
        r, m = self.solve(self.slice(st.cons, [nc]) + [nc], self.o["a_ms"])
        if self.o.get("trace"):
            print("CHECK %.2f %s %s %s" % (time.time() - t0, msg, r, str(nc)[:6000000]), file=sys.stderr)
        if r == z3.unsat:
            return
        if r == z3.sat:
            self.report(st, "check", msg, [nc])
            if not self.feasible(st, c):
                raise PathEnd("check")
            self.add(st, c)
            return
        if self.guess(st, nc):
            self.report(st, "check", msg, [nc])
            return
        self.undecided.append((msg, self.where(st)))
        self.propose(st, msg)
        self.add(st, c)

    def propose(self, st, msg):
        """an assertion the solver left open: inputs the native replay may show to fail"""
        n = self.nprop.get(msg, 0)
        self.nprop[msg] = n + 1
        if n < 10 and len(self.nprop) < 40:
            r, m = self.model_of(st)
            c = self.candidates(st, m if r == z3.sat else self.inputs_model(st), 24)
            if c:
                self.viol.append(Violation("check", msg, c[0], self.where(st), c[1:], True))

    def candidates(self, st, m, count):
        """the inputs of a model (if any) with other values of the real ones; the assumptions are left to the replay"""
        reals = [(nm, self.ab.get(e.get_id())) for nm, k, e in st.inputs if k == "real"]
        if m is None and any(k in ("int", "bv") for _, k, _ in st.inputs):
            return []
        count = count if reals else 1
        base = dict(self.inputs_of(st, m)) if m is not None else {}
        rnd = random.Random(self.o.get("seed", 1) + 7)
        out = []
        for k in range(count):
            v = {}
            for nm, b in reals:
                b = float(b) if b else 10.0
                x = rnd.uniform(-b, b)
                if k % 2 and isinstance(base.get(nm), float):
                    x = base[nm] + x * 10 ** -(k % 8)
                v[nm] = round(x, 3) if b > 1 and k % 2 == 0 else x
            out.append([(nm, v[nm] if kd == "real" else e if kd == "conc" else base.get(nm, 0)) for nm, kd, e in st.inputs if kd != "undef"])
        return out

    def guess(self, st, nc):
        """looks for a counterexample the solver did not find: the real inputs are fixed, the rest is left to the solver"""
        for fix in self.fixes(st):
            r, m = self.solve(st.cons + [nc] + fix, 700)
            if r == z3.sat:
                st.user["fix"] = fix
                return True
        return False

    # ------------------------------------------------------------ int logic
    def to_iint(self, v, w):
        if type(v) in (int, bool):
            return z3.IntVal(sgn(int(v), w))
        if is_iint(v):
            return v
        if isinstance(v, z3.BoolRef):
            r = z3.If(v, z3.IntVal(1), z3.IntVal(0))
            self.set_iv(r, 0, 1)
            return r
        if isinstance(v, z3.BitVecRef):
            r = z3.BV2Int(v, is_signed=True)
            return r
        raise Unsupported("to_iint")

    def to_bv(self, v, w):
        if type(v) in (int, bool):
            return z3.BitVecVal(int(v), w)
        if isinstance(v, z3.BitVecRef):
            return v
        if isinstance(v, z3.BoolRef):
            return z3.If(v, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
        if is_iint(v):
            return z3.Int2BV(v, w)
        raise Unsupported("to_bv")

    def set_iv(self, e, lo, hi):
        self.iv[e.get_id()] = (lo, hi)
        self.keep.append(e)

    def get_iv(self, e, w):
        if z3.is_int_value(e):
            v = e.as_long()
            return (v, v)
        return self.iv.get(e.get_id(), (-(1 << (w - 1)), (1 << (w - 1)) - 1))

    def norm_i(self, e, w):
        e2 = e
        if z3.is_int_value(e2):
            return e2.as_long() & ((1 << w) - 1)
        return e2

    def ibin(self, op, w, a, b, nsw, st):
        if type(a) is bool:
            a = int(a)
        if type(b) is bool:
            b = int(b)
        if type(a) is int and type(b) is int:
            return codegen.CONC[op](a, b, w)
        if isinstance(a, RealBits) or isinstance(b, RealBits):
            return self.rbits(op, w, a, b)
        if w == 1:
            ba, bb = self.to_bool(a), self.to_bool(b)
            return {"and": z3.And, "or": z3.Or, "xor": z3.Xor, "add": z3.Xor, "sub": z3.Xor, "mul": z3.And}[op](ba, bb)
        if is_iint(a) or is_iint(b):
            return self.iint(op, w, a, b, nsw, st)
        if op in ("udiv", "sdiv", "urem", "srem"):
            if type(b) is int:
                if b == 0:
                    self.bad(st, "arith", "integer division by zero")
            else:
                if self.decide(st, b == 0):
                    self.bad(st, "arith", "integer division by zero")
        if isinstance(a, z3.BoolRef):
            a = self.to_bv(a, w)
        if isinstance(b, z3.BoolRef):
            b = self.to_bv(b, w)
        A = z3.BitVecVal(a, w) if type(a) is int else a
        B = z3.BitVecVal(b, w) if type(b) is int else b
        if op == "add":
            r = A + B
        elif op == "sub":
            r = A - B
        elif op == "mul":
            r = A * B
        elif op == "and":
            r = A & B
        elif op == "or":
            r = A | B
        elif op == "xor":
            r = A ^ B
        elif op == "shl":
            r = A << B
        elif op == "lshr":
            r = z3.LShR(A, B)
        elif op == "ashr":
            r = A >> B
        elif op == "udiv":
            r = z3.UDiv(A, B)
        elif op == "urem":
            r = z3.URem(A, B)
        elif op == "sdiv":
            r = A / B
        elif op == "srem":
            r = z3.SRem(A, B)
        else:
            raise Unsupported(op)
        r = z3.simplify(r)
        if z3.is_bv_value(r):
            return r.as_long()
        return r

    def rbits(self, op, w, a, b):
        if type(a) is int:
            a, b = b, a
        if type(b) is int and isinstance(a, RealBits):
            v = a.v
            if op == "and" and b == 0x7fffffffffffffff:
                return RealBits(z3.If(v >= 0, v, -v))
            if op == "xor" and b == 1 << 63:
                return RealBits(-v)
            if op == "and" and b == 1 << 63:
                return z3.If(v < 0, z3.BitVecVal(1 << 63, 64), z3.BitVecVal(0, 64))
            if op == "lshr" and b == 63:
                return z3.If(v < 0, z3.BitVecVal(1, 64), z3.BitVecVal(0, 64))
        raise Unsupported("bit operation on a symbolic real: " + op)

    def iint(self, op, w, a, b, nsw, st):
        A, B = self.to_iint(a, w), self.to_iint(b, w)
        la, ha = self.get_iv(A, w)
        lb, hb = self.get_iv(B, w)
        LO, HI = -(1 << (w - 1)), (1 << (w - 1)) - 1
        if op in ("add", "sub", "mul"):
            if op == "add":
                r, lo, hi = A + B, la + lb, ha + hb
            elif op == "sub":
                r, lo, hi = A - B, la - hb, ha - lb
            else:
                r = A * B
                c = [la * lb, la * hb, ha * lb, ha * hb]
                lo, hi = min(c), max(c)
            r = z3.simplify(r)
            if lo < LO or hi > HI:
                ok = z3.And(r >= LO, r <= HI)
                if self.decide(st, ok):
                    lo, hi = max(lo, LO), min(hi, HI)
                elif nsw:
                    self.bad(st, "ub", "signed integer overflow")
                else:
                    raise Unsupported("wrapping integer arithmetic on an Int-encoded value")
            self.set_iv(r, lo, hi)
            return self.norm_i(r, w)
        if op == "and":
            if not z3.is_int_value(B):
                A, B, la, ha = B, A, lb, hb
            if z3.is_int_value(B):
                m = B.as_long()
                if m >= 0 and (m & (m + 1)) == 0:
                    if la >= 0 and ha <= m:
                        return A
                    r = A % (m + 1)
                    self.set_iv(r, 0, m)
                    return r
                if m < 0 and ((-m) & (-m - 1)) == 0:   # clear low bits
                    r = A - A % (-m)
                    self.set_iv(r, la - (-m), ha)
                    return r
        if op == "xor":
            if not z3.is_int_value(B):
                A, B, la, ha = B, A, lb, hb
            if z3.is_int_value(B) and B.as_long() == -1:
                r = -A - 1
                self.set_iv(r, -ha - 1, -la - 1)
                return r
        if op in ("or",) and la >= 0 and lb >= 0:
            pass
        if op == "shl" and z3.is_int_value(B):
            return self.iint("mul", w, A, 1 << B.as_long(), nsw, st)
        if op in ("lshr", "ashr") and z3.is_int_value(B):
            k = B.as_long()
            if op == "lshr" and la < 0:
                if self.decide(st, A < 0):
                    A = A + (1 << w)
                    la, ha = 0, (1 << w)
                else:
                    la = 0
            r = A / (1 << k)
            self.set_iv(r, la >> k, ha >> k)
            return r
        if op in ("sdiv", "srem", "udiv", "urem"):
            if lb <= 0 <= hb and self.decide(st, B == 0):
                self.bad(st, "arith", "integer division by zero")
            if op[0] == "u":
                if la < 0 and self.decide(st, A < 0):
                    A = A + (1 << w)
                    la = 0
                    ha = 1 << w
                if lb < 0 and self.decide(st, B < 0):
                    B = B + (1 << w)
                la = max(la, 0)
                if op == "udiv":
                    r = A / B
                    self.set_iv(r, 0, ha)
                else:
                    r = A % B
                    self.set_iv(r, 0, max(hb - 1, 0) if hb > 0 else ha)
                return r
            if la >= 0 and lb >= 0:
                q = A / B
                m = A % B
            else:
                aa = z3.If(A >= 0, A, -A)
                ab = z3.If(B >= 0, B, -B)
                q0, m0 = aa / ab, aa % ab
                q = z3.If((A >= 0) == (B >= 0), q0, -q0)
                m = z3.If(A >= 0, m0, -m0)
            if op == "sdiv":
                mx = max(abs(la), abs(ha))
                self.set_iv(q, 0 if la >= 0 and lb >= 0 else -mx, mx)
                return q
            mb = max(abs(lb), abs(hb)) - 1
            self.set_iv(m, 0 if la >= 0 else -mb, mb)
            return m
        # bitwise on something small: enumerate
        av = self.concretize(st, a, w)
        bv = self.concretize(st, b, w)
        return codegen.CONC[op](av, bv, w)

    def uns(self, e, w):
        lo, hi = self.get_iv(e, w)
        if lo >= 0:
            return e
        return z3.If(e < 0, e + (1 << w), e)

    def to_bool(self, v):
        if type(v) in (int, bool):
            return z3.BoolVal(bool(v))
        if isinstance(v, z3.BoolRef):
            return v
        if isinstance(v, z3.BitVecRef):
            return v == 1 if v.size() == 1 else v != 0
        return v != 0

    def icmp(self, pred, w, a, b, st):
        if type(a) is bool:
            a = int(a)
        if type(b) is bool:
            b = int(b)
        if type(a) is int and type(b) is int:
            return codegen.ICONC[pred](a, b, w)
        if isinstance(a, Mix) and type(b) is int and pred in ("eq", "ne"):
            for k, x in enumerate(a.p):
                if type(x) is int and x != (b >> (8 * k)) & 255:
                    return pred == "ne"
        if isinstance(a, (Mix, RFrag)) or isinstance(b, (Mix, RFrag)):
            raise Unsupported("comparison of the bytes of a symbolic real")
        if isinstance(a, RealBits) or isinstance(b, RealBits):
            if isinstance(a, RealBits) and type(b) is int:
                if pred == "slt" and b == 0:
                    return a.v < 0
                if pred == "sgt" and b == (1 << 64) - 1:
                    return a.v >= 0
                if pred in ("eq", "ne") and b == 0:
                    c = a.v == 0
                    return c if pred == "eq" else z3.Not(c)
                # inf / nan tests on |x|
                f = struct.unpack("<d", struct.pack("<Q", b))[0]
                if b in (0x7ff0000000000000, 0x7fefffffffffffff):
                    return {"eq": False, "ne": True, "ult": True, "ugt": False, "slt": True, "sgt": False,
                            "uge": False, "sge": False, "ule": True, "sle": True}[pred]
                if pred in ("ult", "slt") and f == f:
                    return a.v < rv(f)
            if isinstance(a, RealBits) and isinstance(b, RealBits) and pred in ("eq", "ne"):
                return a.v == b.v if pred == "eq" else a.v != b.v
            raise Unsupported("integer comparison of a symbolic real")
        if w == 1 or (isinstance(a, z3.BoolRef) or isinstance(b, z3.BoolRef)):
            A, B = self.to_bool(a), self.to_bool(b)
            if pred == "eq":
                return A == B
            if pred == "ne":
                return z3.Xor(A, B)
            raise Unsupported("bool icmp " + pred)
        if is_iint(a) or is_iint(b):
            A, B = self.to_iint(a, w), self.to_iint(b, w)
            if pred[0] == "u":
                A = self.uns(A, w) if not z3.is_int_value(A) else z3.IntVal(A.as_long() % (1 << w))
                B = self.uns(B, w) if not z3.is_int_value(B) else z3.IntVal(B.as_long() % (1 << w))
            p = pred[-2:]
            return {"eq": lambda: A == B, "ne": lambda: A != B, "lt": lambda: A < B, "le": lambda: A <= B,
                    "gt": lambda: A > B, "ge": lambda: A >= B}[p]()
        A = z3.BitVecVal(a, w) if type(a) is int else a
        B = z3.BitVecVal(b, w) if type(b) is int else b
        return {"eq": lambda: A == B, "ne": lambda: A != B, "slt": lambda: A < B, "sle": lambda: A <= B,
                "sgt": lambda: A > B, "sge": lambda: A >= B, "ult": lambda: z3.ULT(A, B),
                "ule": lambda: z3.ULE(A, B), "ugt": lambda: z3.UGT(A, B), "uge": lambda: z3.UGE(A, B)}[pred]()

    def cast(self, op, a, sw, dw, st):
        """int casts on symbolic values"""
        if type(a) is bool:
            a = int(a)
        if type(a) is int:
            if op == "trunc":
                return a & ((1 << dw) - 1)
            if op == "zext":
                return a
            return sgn(a, sw) & ((1 << dw) - 1)
        if isinstance(a, RFrag):
            a = Mix([a])
        if isinstance(a, Mix):
            if op == "zext":
                return Mix(a.p + [0] * (dw // 8 - len(a.p)))
            if op == "trunc" and dw % 8 == 0:
                return Mix(a.p[:dw // 8]) if dw > 8 else a.p[0]
        if isinstance(a, (RealBits, Mix)):
            raise Unsupported("cast of real bits")
        if isinstance(a, z3.BoolRef):
            if op == "trunc":
                raise Unsupported("trunc bool")
            if dw > 8 or True:
                one = 1 if op == "zext" else -1
                if dw <= 8:
                    return z3.If(a, z3.BitVecVal(one, dw), z3.BitVecVal(0, dw))
                if self.o["merge_int"]:
                    r = z3.If(a, z3.IntVal(one), z3.IntVal(0))
                    self.set_iv(r, min(one, 0), max(one, 0))
                    return r
                return (one & ((1 << dw) - 1)) if self.decide(st, a) else 0
        if is_iint(a):
            lo, hi = self.get_iv(a, sw)
            if op == "sext":
                return a
            if op == "zext":
                if lo >= 0:
                    return a
                r = z3.If(a < 0, a + (1 << sw), a)
                self.set_iv(r, 0, (1 << sw) - 1)
                return r
            if dw == 1:
                return a % 2 == 1
            if -(1 << (dw - 1)) <= lo and hi < (1 << (dw - 1)):
                return a
            ok = z3.And(a >= -(1 << (dw - 1)), a < (1 << (dw - 1)))
            if self.decide(st, ok):
                return a
            r = (a + (1 << (dw - 1))) % (1 << dw) - (1 << (dw - 1))
            self.set_iv(r, -(1 << (dw - 1)), (1 << (dw - 1)) - 1)
            return r
        if op == "trunc":
            r = z3.simplify(z3.Extract(dw - 1, 0, a))
            if dw == 1:
                return z3.simplify(r == 1)
        elif op == "zext":
            r = z3.ZeroExt(dw - sw, a)
        else:
            r = z3.SignExt(dw - sw, a)
        r = z3.simplify(r)
        return r.as_long() if z3.is_bv_value(r) else r

    def gep(self, st, base, off, terms):
        """base + off + sum(idx*scale) with a symbolic part"""
        tot = off
        syms = []
        if type(base) is int:
            tot += base
        else:
            syms.append((base, 1, 64))
        for v, sc, w in terms:
            if type(v) is bool:
                v = int(v)
            if type(v) is int:
                tot += sgn(v, w) * sc
            else:
                syms.append((v, sc, w))
        if not syms:
            return tot & ((1 << 64) - 1)
        if all(is_iint(v) for v, _, _ in syms):
            e = z3.IntVal(tot)
            lo = hi = tot
            for v, sc, w in syms:
                e = e + v * sc
                l, h = self.get_iv(v, w)
                l, h = sorted((l * sc, h * sc))
                lo += l
                hi += h
            e = z3.simplify(e)
            self.set_iv(e, lo, hi)
            return e
        e = z3.BitVecVal(tot, 64)
        for v, sc, w in syms:
            v = self.to_bv(v, w)
            if v.size() < 64:
                v = z3.SignExt(64 - v.size(), v)
            e = e + v * sc
        e = z3.simplify(e)
        return e.as_long() if z3.is_bv_value(e) else e

    def select(self, st, c, a, b, kind):
        if type(c) in (int, bool):
            return a if c else b
        if isinstance(c, z3.BitVecRef):
            c = c == 1
        if kind == "f":
            if self.o["merge_fp"] and not (type(a) is float and (a != a or a in (INF, -INF))) \
                    and not (type(b) is float and (b != b or b in (INF, -INF))):
                if type(a) is float and type(b) is float and a == b:
                    return a
                return z3.If(c, R(a), R(b))
        elif kind == 1:
            return z3.If(c, self.to_bool(a), self.to_bool(b))
        elif isinstance(kind, int):
            if type(a) is int and type(b) is int and a == b:
                return a
            if isinstance(a, z3.BitVecRef) or isinstance(b, z3.BitVecRef):
                if not (is_iint(a) or is_iint(b) or isinstance(a, RealBits) or isinstance(b, RealBits)):
                    return z3.If(c, self.to_bv(a, kind), self.to_bv(b, kind))
            if self.o["merge_int"] and not isinstance(a, RealBits) and not isinstance(b, RealBits):
                A, B = self.to_iint(a, kind), self.to_iint(b, kind)
                r = z3.If(c, A, B)
                la, ha = self.get_iv(A, kind)
                lb, hb = self.get_iv(B, kind)
                self.set_iv(r, min(la, lb), max(ha, hb))
                return r
        return a if self.decide(st, c) else b

    def idiv(self, op, w, a, b, st):
        if type(a) is int and type(b) is int:
            if b == 0:
                self.bad(st, "arith", "integer division by zero")
            return codegen.CONC[op](a, b, w)
        return self.ibin(op, w, a, b, False, st)

    def f32(self, v):
        if type(v) is float and v == v and abs(v) != INF:
            return struct.unpack("<f", struct.pack("<f", v))[0]
        return v

    def f_to_bits(self, v):
        if type(v) is float:
            return struct.unpack("<Q", struct.pack("<d", v))[0]
        return RealBits(v)

    def insval(self, agg, v, idx):
        t = list(agg)
        if len(idx) == 1:
            t[idx[0]] = v
        else:
            t[idx[0]] = self.insval(t[idx[0]], v, idx[1:])
        return tuple(t)

    def at(self, st, on):
        """bracket of an atomic access (not a data race)"""
        if on:
            st.user["savelog"] = st.log
            st.log = None
        else:
            st.log = st.user.pop("savelog", None)

    def switch(self, st, a, w, cases):
        if isinstance(a, z3.BoolRef):
            return int(self.decide(st, a))
        for c in cases:
            if self.decide(st, self.icmp("eq", w, a, c, st)):
                return c
        return -1

    # ---------------------------------------------------------------- reals
    def fbin(self, op, a, b, st):
        ta, tb = type(a) is float, type(b) is float
        if ta and tb:
            return codegen.FCONC[op](a, b)
        if isinstance(a, Vec) or isinstance(b, Vec):
            return Vec(self.fbin(op, x, y, st) for x, y in zip(a, b))
        if (ta and a != a) or (tb and b != b):
            return NAN
        if ta and a in (INF, -INF) or tb and b in (INF, -INF):
            return self.finf(op, a, b, st)
        if op == "add":
            if ta and a == 0:
                return b
            if tb and b == 0:
                return a
            return R(a) + R(b)
        if op == "sub":
            if tb and b == 0:
                return a
            if ta and a == 0:
                return -b
            return R(a) - R(b)
        if op == "mul":
            if ta:
                if a == 0:
                    return 0.0
                if a == 1:
                    return b
            if tb:
                if b == 0:
                    return 0.0
                if b == 1:
                    return a
            return R(a) * R(b)
        if op == "div":
            if tb:
                if b == 0:
                    s = math.copysign(1.0, b)
                    if self.decide(st, a == 0):
                        return NAN
                    return s * INF if self.decide(st, a > 0) else -s * INF
                if b == 1:
                    return a
                return a / R(b)
            b = z3.simplify(b, som=True, som_blowup=1000000, sort_sums=True)
            f = num(b)
            if f is not None:
                return self.fbin("div", a, float(f), st) if f == 0 or ta else a / b
            if self.o["div_nz"]:
                self.add(st, b != 0)
            elif self.decide(st, b == 0):
                if ta:
                    return NAN if a == 0 else (INF if a > 0 else -INF)
                if self.decide(st, a == 0):
                    return NAN
                return INF if self.decide(st, a > 0) else -INF
            if ta and a == 0:
                return 0.0
            return R(a) / b
        if op == "rem":
            return self.fmod(st, a, b)
        raise Unsupported("fbin " + op)

    def finf(self, op, a, b, st):
        def sign(x):
            if type(x) is float:
                return x
            if self.decide(st, x == 0):
                return 0.0
            return 1.0 if self.decide(st, x > 0) else -1.0
        if op in ("add", "sub"):
            x = a if type(a) is float else 0.0
            y = b if type(b) is float else 0.0
            return codegen.FCONC[op](x, y)
        if op in ("mul", "div"):
            if op == "div" and type(a) is not float:
                return 0.0
            return codegen.FCONC[op](sign(a), sign(b))
        if op == "rem":
            if type(a) is float:
                return NAN
            return a
        raise Unsupported("inf " + op)

    def fcmp(self, pred, a, b, st):
        ta, tb = type(a) is float, type(b) is float
        if ta and tb:
            return codegen.fcmp_conc(pred, a, b)
        if (ta and a != a) or (tb and b != b):
            return pred[0] == "u"
        if ta and a in (INF, -INF):
            return codegen.fcmp_conc(pred, a, 0.0)
        if tb and b in (INF, -INF):
            return codegen.fcmp_conc(pred, 0.0, b)
        if pred == "ord":
            return True
        if pred == "uno":
            return False
        A, B = R(a), R(b)
        p = pred[1:]
        if p == "eq":
            return A == B
        if p == "ne":
            return A != B
        if p == "lt":
            return A < B
        if p == "le":
            return A <= B
        if p == "gt":
            return A > B
        return A >= B

    def fneg(self, a):
        if type(a) is float:
            return -a
        if isinstance(a, Vec):
            return Vec(self.fneg(x) for x in a)
        return -a

    def fptoi(self, st, a, w, signed):
        if type(a) is float:
            if a != a or abs(a) >= 2.0 ** 63 * (1 if signed else 2):
                st.events.append("fp-to-int out of range")
                return 1 << (w - 1)
            v = int(a)
            if (signed and not -(1 << (w - 1)) <= v < (1 << (w - 1))):
                st.events.append("fp-to-int out of range")
            return v & ((1 << w) - 1)
        r = self.trunc_int(a)
        LO, HI = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, (1 << w) - 1)
        ok = z3.And(r >= LO, r <= HI)
        if not self.decide(st, ok):
            st.events.append("fp-to-int out of range")
            return 1 << (w - 1)
        r = z3.simplify(r)
        if z3.is_int_value(r):
            return r.as_long() & ((1 << w) - 1)
        win = self.o["fptoi_window"]
        if win is not None:
            lo, hi = win
            if self.decide(st, r < lo):
                self.set_iv(r, LO, lo - 1)
            elif self.decide(st, r > hi):
                self.set_iv(r, hi + 1, HI)
            else:
                return self.concretize(st, r, 64) & ((1 << w) - 1)
        if r.get_id() not in self.iv:
            self.set_iv(r, LO, HI)
        return r

    def itofp(self, st, a, w, signed):
        if type(a) is bool:
            a = int(a)
        if type(a) is int:
            return float(sgn(a, w) if signed else a)
        if isinstance(a, z3.BoolRef):
            return z3.If(a, rv(1.0), rv(0.0)) if not signed or w > 1 else z3.If(a, rv(-1.0), rv(0.0))
        if is_iint(a):
            if not signed:
                a = self.uns(a, w)
            return z3.ToReal(a)
        return z3.ToReal(z3.BV2Int(a, is_signed=signed))

    def trunc_int(self, a):
        a = z3.simplify(a)
        f = num(a)
        if f is not None:
            return z3.IntVal(math.trunc(f))
        if a.decl().kind() == z3.Z3_OP_TO_REAL:
            return a.arg(0)
        return z3.If(a >= 0, z3.ToInt(a), -z3.ToInt(-a))

    def define(self, key, mk):
        """a functional definition: key -> (value, [axioms])"""
        d = self.defs.get(key)
        if d is None:
            d = mk()
            self.defs[key] = d
        return d

    def fmod(self, st, a, b):
        """C fmod on reals"""
        if type(a) is float and type(b) is float:
            return codegen.FCONC["rem"](a, b)
        if type(b) is not float:
            if self.decide(st, b == 0):
                return NAN
        elif b == 0 or b != b:
            return NAN
        a, b = z3.simplify(R(a)), z3.simplify(R(b))
        f = num(b)

        def mk():
            q = z3.Int("fmodq!%d" % len(self.defs))
            ab = b if (f is not None and f > 0) else z3.If(b >= 0, b, -b)
            r = a - ab * z3.ToReal(q)
            ax = [z3.If(a >= 0, z3.And(r >= 0, r < ab, q >= 0), z3.And(r <= 0, r > -ab, q <= 0))]
            self.keep += [a, b]
            return (r, ax)
        r, ax = self.define(("fmod", a.get_id(), b.get_id()), mk)
        for x in ax:
            self.add(st, x)
        if self.o["rem_fork"]:
            q = self.qvar(r)
            if q is not None:
                v = sgn(self.concretize(st, q, 64), 64)
                return z3.simplify(z3.substitute(r, (q, z3.IntVal(v))))
        return r

    def qvar(self, r):
        for i in range(0, 1):
            todo, seen = [r], set()
            while todo:
                x = todo.pop()
                if x.get_id() in seen:
                    continue
                seen.add(x.get_id())
                if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name().startswith("fmodq!"):
                    return x
                todo += x.children()
        return None

    def remainder(self, st, a, b):
        if type(a) is float and type(b) is float:
            if a != a or b != b or b == 0 or abs(a) == INF:
                return NAN
            return math.remainder(a, b)
        if type(b) is float and (b == 0 or b != b):
            return NAN
        if type(b) is not float and self.decide(st, b == 0):
            return NAN
        return self._rem(st, a, b)[0]

    def unfold(self, e):
        """the definitions of the remainders replaced in e"""
        for k in range(8):
            sub = [(v, self.unf[v.get_id()]) for v in self.consts_of(e) if v.get_id() in self.unf]
            if not sub:
                return e
            e = z3.substitute(e, *sub)
        return e

    def consts_of(self, e):
        out, seen, todo = [], set(), [e]
        while todo:
            x = todo.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.append(x)
            todo += x.children()
        return out

    def _rem(self, st, a, b):
        som = bool(self.o["rem_abs"])
        a, b = z3.simplify(R(a), som=som, som_blowup=1000000, sort_sums=True), z3.simplify(R(b))
        f = num(b)

        def mk():
            q = z3.Int("remq!%d" % len(self.defs))
            ab = b if (f is not None and f > 0) else z3.If(b >= 0, b, -b)
            r = a - b * z3.ToReal(q)
            ax = [z3.And(2 * r <= ab, 2 * r >= -ab)]
            self.keep += [a, b]
            if f is not None and q.get_id() not in self.iv:
                bd = self.absbound(a)
                if bd is not None:
                    bd = int(bd / abs(f)) + 1
                    self.set_iv(q, -bd, bd)
            if som and f is not None and f > 0:
                v = z3.Real("rem!%d" % len(self.defs))
                ax = [z3.And(2 * v <= ab, 2 * v >= -ab), v == r]
                self.defeq.add(ax[1].get_id())
                self.keep += ax + [r]
                self.unf[v.get_id()] = r
                self.set_ab(v, abs(f) / 2)
                r = v
            return (r, q, ax)
        r, q, ax = self.define(("remainder", a.get_id(), b.get_id()), mk)
        for x in ax:
            self.add(st, x)
        if self.o["rem_fork"]:
            v = z3.IntVal(sgn(self.concretize(st, q, 64), 64))
            return z3.simplify(z3.substitute(r, (q, v))), v
        return r, q

    def uf(self, st, name, *args):
        """uninterpreted transcendental function with basic axioms"""
        args = [z3.simplify(R(x), som=True, som_blowup=1000000, sort_sums=True) for x in args]
        if all(num(x) is not None for x in args):
            return float(getattr(math, name)(*[float(num(x)) for x in args]))
        x = args[0]
        if name in ("sin", "cos") and self.o["trig_shift"] and not self.lead_neg(x):
            # quarter turns of the constant term: sin(y + k pi/2)
            c0 = sum((num(y) for y in (x.children() if z3.is_add(x) else [x]) if num(y) is not None), Fraction(0))
            m = math.floor(c0 / Fraction(math.pi / 2) + Fraction(1, 10**12))
            if m:
                r = c0 - m * Fraction(math.pi / 2)
                if abs(r) < Fraction(1, 10**12):
                    r = Fraction(0)
                x = z3.simplify(x - R(c0) + R(r), som=True, som_blowup=1000000, sort_sums=True)
                if m % 2:
                    name = "cos" if name == "sin" else "sin"
                    neg = (m % 4 == 3) if name == "cos" else (m % 4 == 1)
                else:
                    neg = m % 4 == 2
                v = self.uf(st, name, x)
                return -v if neg else v
        # parity: canonical sign of the argument
        neg = False
        if len(args) == 1 and name in ("sin", "cos", "tan", "atan", "asin") and self.lead_neg(x):
            x = z3.simplify(-x, som=True, som_blowup=1000000, sort_sums=True)
            if name in ("sin", "cos") and self.o["trig_shift"]:
                v = self.uf(st, name, x)
                return v if name == "cos" else -v
            args = [x]
            neg = name != "cos"
        F = z3.Function("uf_" + name, *([z3.RealSort()] * (len(args) + 1)))
        r = F(*args)
        first = r.get_id() not in self.defs
        if first:
            self.defs[r.get_id()] = r
        PI = rv(math.pi)
        ax = []
        if name in ("sin", "cos"):
            ax.append(z3.And(r >= -1, r <= 1))
            if self.o["trig_id"]:
                s = z3.Function("uf_sin", z3.RealSort(), z3.RealSort())(x)
                c = z3.Function("uf_cos", z3.RealSort(), z3.RealSort())(x)
                ax.append(s * s + c * c == 1)
        elif name in ("atan", "asin"):
            ax.append(z3.And(r <= PI / 2, r >= -PI / 2))
        elif name == "acos":
            ax.append(z3.And(r >= 0, r <= PI))
        elif name == "atan2":
            ax.append(z3.And(r >= -PI, r <= PI))
        elif name == "exp":
            ax.append(r > 0)
        if self.o["lipschitz"] and len(args) == 1:
            k = {"sin": 1, "cos": 1, "atan": 1}.get(name)
            lst = st.user.setdefault("apps_" + name, ())
            if k and not any(r.eq(y) for y, _ in lst):
                for y, ya in lst:
                    d = z3.simplify(x - ya, som=True, som_blowup=1000000, sort_sums=True)
                    ad = z3.If(d >= 0, d, -d)
                    ax.append(z3.And(r - y <= ad, y - r <= ad))
                st.user["apps_" + name] = lst + ((r, x),)
        for c in ax:
            self.add(st, z3.simplify(c))
        return -r if neg else r

    def lead_neg(self, x):
        """is the first monomial's coefficient negative (deterministic canonical sign)"""
        t = x
        if z3.is_add(t):
            ch = sorted(t.children(), key=lambda c: c.sexpr() if not z3.is_mul(c) else " ".join(
                k.sexpr() for k in c.children() if num(k) is None))
            ch = [c for c in ch if num(c) is None] or ch
            t = ch[0]
        f = num(t)
        if f is not None:
            return f < 0
        if z3.is_mul(t):
            f = num(t.arg(0))
            return f is not None and f < 0
        return False

    def sqrt(self, st, a):
        if type(a) is float:
            return math.sqrt(a) if a >= 0 else NAN
        a = z3.simplify(a, som=True, som_blowup=1000000, sort_sums=True)
        f = num(a)
        if f is not None:
            return math.sqrt(f) if f >= 0 else NAN
        if not self.nonneg(a) and self.decide(st, a < 0):
            return NAN
        F = z3.Function("uf_sqrt", z3.RealSort(), z3.RealSort())
        r = F(a)
        self.add(st, r >= 0)
        self.add(st, r * r == a)
        return r

    def rnd(self, st, a, how):
        if type(a) is float:
            if a != a or abs(a) == INF:
                return a
            if how == "floor":
                return float(math.floor(a))
            if how == "ceil":
                return float(math.ceil(a))
            if how == "trunc":
                return float(math.trunc(a))
            if how == "round":
                return math.copysign(float(math.floor(abs(a) + 0.5)) if abs(a) < 2**52 and abs(a) != 0.49999999999999994 else (
                    abs(a) if abs(a) >= 2**52 else 0.0), a)
            return float(round(a))
        a = z3.simplify(a)
        if a.decl().kind() == z3.Z3_OP_TO_REAL:
            return a
        H = rv(0.5)
        if how == "floor":
            return z3.ToReal(z3.ToInt(a))
        if how == "ceil":
            return z3.ToReal(-z3.ToInt(-a))
        if how == "trunc":
            return z3.ToReal(self.trunc_int(a))
        if how == "round":
            return z3.ToReal(z3.If(a >= 0, z3.ToInt(a + H), -z3.ToInt(H - a)))
        q = self._rem(st, a, rv(1.0))[1]
        return z3.ToReal(q)

    def fabs(self, st, a):
        if type(a) is float:
            return abs(a)
        return z3.If(a >= 0, a, -a)

    def has_div(self, e):
        seen = set()
        todo = [e]
        while todo:
            x = todo.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            k = x.decl().kind()
            if k == z3.Z3_OP_DIV:
                return True
            if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS):
                todo += x.children()
        return False

    def ratio(self, e):
        """e as numerator / denominator (denominators are non zero on the path)"""
        one = z3.RealVal(1)
        k = e.decl().kind()
        if k == z3.Z3_OP_DIV:
            n, d = self.ratio(e.arg(0))
            m, c = self.ratio(e.arg(1))
            return n * c, d * m
        if k == z3.Z3_OP_UMINUS:
            n, d = self.ratio(e.arg(0))
            return -n, d
        if k == z3.Z3_OP_MUL:
            n, d = one, one
            for x in e.children():
                a, b = self.ratio(x)
                n, d = n * a, (d if num(b) == 1 else d * b)
            return n, d
        if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB):
            groups = []     # terms with a common denominator stay together
            for i, x in enumerate(e.children()):
                a, b = self.ratio(x)
                if k == z3.Z3_OP_SUB and i:
                    a = -a
                b = z3.simplify(b, som=True, som_blowup=1000000, sort_sums=True)
                for g in groups:
                    if g[1].eq(b):
                        g[0] = g[0] + a
                        break
                else:
                    groups.append([a, b])
            n, d = groups[0]
            for a, b in groups[1:]:
                n, d = n * b + a * d, d * b
            return n, d
        return e, one

    def set_ab(self, v, b):
        self.keep.append(v)
        self.ab[v.get_id()] = max(Fraction(b), self.ab.get(v.get_id(), Fraction(0)))

    def absbound(self, e, depth=0):
        """an upper bound of |e| that holds on every path, or None"""
        i = e.get_id()
        r = self.ab.get(i, 0)
        if r != 0:
            return r
        f = num(e)
        if f is not None:
            return abs(f)
        if depth > 200:
            return None
        k = e.decl().kind()
        ch = e.children()
        r = None
        if e.is_int() and i in self.iv:
            lo, hi = self.iv[i]
            return Fraction(max(abs(lo), abs(hi)))
        if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS, z3.Z3_OP_TO_REAL):
            bs = [self.absbound(x, depth + 1) for x in ch]
            if all(b is not None for b in bs):
                r = Fraction(1 if k == z3.Z3_OP_MUL else 0)
                for b in bs:
                    r = r * b if k == z3.Z3_OP_MUL else r + b
        elif k == z3.Z3_OP_ITE:
            b, c = self.absbound(ch[1], depth + 1), self.absbound(ch[2], depth + 1)
            if b is not None and c is not None:
                r = max(b, c)
        elif k == z3.Z3_OP_DIV and num(ch[1]):
            b = self.absbound(ch[0], depth + 1)
            r = None if b is None else b / abs(num(ch[1]))
        elif k == z3.Z3_OP_POWER and num(ch[1]) is not None and num(ch[1]).denominator == 1 and num(ch[1]) >= 0:
            b = self.absbound(ch[0], depth + 1)
            r = None if b is None else b ** int(num(ch[1]))
        elif k == z3.Z3_OP_UNINTERPRETED and ch:
            v = self.ival(e)
            r = None if v is None else max(abs(v[0]), abs(v[1]))
        self.ab[i] = r
        self.keep.append(e)
        return r

    def ival(self, e, depth=0):
        """an interval that contains e on every path, or None"""
        f = num(e)
        if f is not None:
            return f, f
        i = e.get_id()
        if i in self.ivc:
            return self.ivc[i]
        if depth > 60:
            return None
        k, ch, r = e.decl().kind(), e.children(), None
        if k == z3.Z3_OP_UNINTERPRETED and ch:
            n = e.decl().name()
            a = self.ival(ch[0], depth + 1) if len(ch) == 1 else None
            up = lambda x: Fraction(x) + Fraction(1, 10**9) * (1 + abs(Fraction(x)))
            dn = lambda x: Fraction(x) - Fraction(1, 10**9) * (1 + abs(Fraction(x)))
            if n in ("uf_sin", "uf_cos"):
                r = Fraction(-1), Fraction(1)
                lo, hi = (-1.57, 1.57) if n == "uf_sin" else (0, 3.14)
                a = self.ival(ch[0], depth + 1)
                if a is not None and a[0] >= lo and a[1] <= hi:      # monotone there
                    v = sorted(getattr(math, n[3:])(float(x)) for x in a)
                    r = max(dn(v[0]), Fraction(-1)), min(up(v[1]), Fraction(1))
            elif n in ("uf_acos", "uf_asin", "uf_atan"):
                g = {"uf_acos": math.acos, "uf_asin": math.asin, "uf_atan": math.atan}[n]
                if a is None and n != "uf_atan":
                    a = Fraction(-1), Fraction(1)
                if a is None:
                    r = Fraction(-1.5707964), Fraction(1.5707964)
                else:
                    if n != "uf_atan":
                        a = max(a[0], Fraction(-1)), min(a[1], Fraction(1))
                    if a[0] <= a[1] and abs(a[0]) < 10**15 and abs(a[1]) < 10**15:
                        v = sorted((g(float(a[0])), g(float(a[1]))))
                        r = dn(v[0]), up(v[1])
            elif n == "uf_atan2":
                r = Fraction(-3.1415927), Fraction(3.1415927)
            elif n == "uf_tan" and a is not None and a[0] > Fraction(-3, 2) and a[1] < Fraction(3, 2):
                r = dn(math.tan(float(a[0]))), up(math.tan(float(a[1])))
            elif n == "uf_sqrt" and a is not None and a[1] >= 0 and a[1] < 10**15:
                r = Fraction(0), up(math.sqrt(float(a[1])))
        elif k in (z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS):
            vs = [self.ival(x, depth + 1) for x in ch]
            if all(v is not None for v in vs):
                r = vs[0]
                if k == z3.Z3_OP_UMINUS:
                    r = -r[1], -r[0]
                for v in vs[1:]:
                    if k == z3.Z3_OP_ADD:
                        r = r[0] + v[0], r[1] + v[1]
                    elif k == z3.Z3_OP_SUB:
                        r = r[0] - v[1], r[1] - v[0]
                    else:
                        c = [x * y for x in r for y in v]
                        r = min(c), max(c)
        elif k == z3.Z3_OP_ITE:
            a, b = self.ival(ch[1], depth + 1), self.ival(ch[2], depth + 1)
            t = self.itruth(ch[0], depth + 1)
            if t is not None:
                r = a if t else b
            elif a is not None and b is not None:
                r = min(a[0], b[0]), max(a[1], b[1])
        elif not ch or k in (z3.Z3_OP_DIV, z3.Z3_OP_POWER, z3.Z3_OP_TO_REAL):
            b = self.absbound(e)
            r = None if b is None else (-b, b)
        self.ivc[i] = r
        self.keep.append(e)
        return r

    def itruth(self, c, depth=0):
        """the truth of c when the intervals of its terms settle it, or None"""
        if z3.is_true(c) or z3.is_false(c):
            return z3.is_true(c)
        if depth > 60:
            return None
        k, ch = c.decl().kind(), c.children()
        if k == z3.Z3_OP_NOT:
            t = self.itruth(ch[0], depth + 1)
            return None if t is None else not t
        if k in (z3.Z3_OP_AND, z3.Z3_OP_OR):
            ts = [self.itruth(x, depth + 1) for x in ch]
            dom = k == z3.Z3_OP_OR
            if any(t is dom for t in ts):
                return dom
            return (not dom) if all(t is (not dom) for t in ts) else None
        if k == z3.Z3_OP_ITE:
            t = self.itruth(ch[0], depth + 1)
            a, b = self.itruth(ch[1], depth + 1), self.itruth(ch[2], depth + 1)
            return a if t is True else b if t is False else a if a is b else None
        if k in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT) and z3.is_real(ch[0]):
            a, b = self.ival(ch[0], depth + 1), self.ival(ch[1], depth + 1)
            if a is None or b is None:
                return None
            if k in (z3.Z3_OP_GE, z3.Z3_OP_LT):
                a, b, = b, a
            # k: a <= b (LE, GE), not a <= b (GT, LT)
            pos = k in (z3.Z3_OP_LE, z3.Z3_OP_GE)
            return pos if a[1] <= b[0] else (not pos) if a[0] > b[1] else None
        return None

    def nonneg(self, e):
        """is e >= 0 whatever the values of its transcendental subterms within their intervals"""
        i = e.get_id()
        if i in self.nng:
            return self.nng[i]
        v = self.ival(e)
        r = v is not None and v[0] >= 0
        if not r:
            sub, cs, todo, seen, todo2 = {}, [], [e], set(), []
            while todo:
                x = todo.pop()
                if x.get_id() in seen:
                    continue
                seen.add(x.get_id())
                if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and (x.children() or x.is_real()):
                    y = z3.Real("nn!%d" % len(sub))
                    sub[x.get_id()] = (x, y)
                    b = self.ival(x)
                    if b is not None:
                        cs += [y >= R(b[0]), y <= R(b[1])]
                elif x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    todo2.append(x)
                else:
                    todo += x.children()
            if 0 < len(sub) <= 6 and not todo2:
                S = z3.SolverFor("QF_NRA")
                S.set("timeout", 2000)
                t0 = time.time()
                S.add(*cs, z3.substitute(e, *sub.values()) < 0)
                r = S.check() == z3.unsat
                self.stats["queries"] += 1
                self.stats["unsat" if r else "unknown"] += 1
                self.stats["solver_s"] += time.time() - t0
        self.nng[i] = r
        self.keep.append(e)
        return r

    def conds(self, e, cap=4):
        """conditions of the if-then-else terms of e"""
        out, seen, todo = [], set(), [e]
        while todo:
            x = todo.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_app_of(x, z3.Z3_OP_ITE) and not any(x.arg(0).eq(c) for c in out):
                out.append(x.arg(0))
                if len(out) > cap:
                    return None
            todo += x.children()
        return out

    def split_ite(self, d, f):
        """f decided on each case of the conditionals of d"""
        cs = self.conds(d)
        if not cs:
            return None
        out = []

        def rec(d, k, pre):
            if k == len(cs):
                r = f(z3.simplify(d, som=True, som_blowup=1000000, sort_sums=True))
                if r is not True:
                    out.append(z3.Implies(z3.And(pre), r if isinstance(r, z3.BoolRef) else z3.BoolVal(bool(r))))
                return
            c = cs[k]
            rec(z3.substitute(d, (c, z3.BoolVal(True))), k + 1, pre + [c])
            rec(z3.substitute(d, (c, z3.BoolVal(False))), k + 1, pre + [z3.Not(c)])
        rec(d, 0, [])
        return z3.And(out) if out else True

    def close(self, st, a, b, tol, split=False):
        """|a-b| <= tol, NaN equal to NaN; polynomial identity first"""
        fa, fb = type(a) is float, type(b) is float
        if fa and fb:
            if a != a or b != b:
                return a != a and b != b
            return a == b or abs(a - b) <= tol
        for x in (a, b):
            if type(x) is float and (x != x or x in (INF, -INF)):
                return False
        d = z3.simplify(R(a) - R(b), som=True, som_blowup=1000000, sort_sums=True)
        f = num(d)
        if f is not None:
            return abs(f) <= Fraction(tol)
        bd = self.absbound(d)
        if bd is not None and bd <= Fraction(tol):
            return True
        if self.unf and not split:
            u = self.unfold(d)
            if not u.eq(d):
                return self.close(st, u, z3.RealVal(0), tol)
        if not split:
            r = self.split_ite(R(a) - R(b), lambda x: self.close(st, x, z3.RealVal(0), tol, True))
            if r is not None:
                return r
        if self.has_div(d):
            na, da = self.ratio(R(a))
            nb, db = self.ratio(R(b))
            f = num(z3.simplify(na * db - nb * da, som=True, som_blowup=1000000, sort_sums=True))
            if f == 0:
                return True
        if self.o.get("trace"):
            print("close", str(a)[:1500], "---", str(b)[:1500], "===", str(d)[:3000], file=sys.stderr)
        if type(tol) is float and tol == 0.0:
            return d == 0
        t = R(tol)
        return z3.And(d <= t, -d <= t)

    def close_mod(self, st, a, b, per, tol, split=False):
        if type(a) is float and type(b) is float:
            if a != a or b != b:
                return a != a and b != b
            return abs(math.remainder(a - b, per)) <= tol
        for x in (a, b):
            if type(x) is float and (x != x or x in (INF, -INF)):
                return False
        if type(per) is not float:
            d = z3.simplify(R(a) - R(b), som=True, som_blowup=1000000, sort_sums=True)
            rest = z3.RealVal(0)
            for t in (d.children() if z3.is_add(d) else [d]):
                fs = factors(t)
                ok = any(x.eq(per) for x in fs)
                for x in fs:
                    f = num(x)
                    if not (x.eq(per) or f is not None and f.denominator == 1 or z3.is_app(x)
                            and x.decl().kind() == z3.Z3_OP_TO_REAL):
                        ok = False
                if not ok or sum(x.eq(per) for x in fs) != 1:
                    rest = rest + t
            rest = z3.simplify(rest, som=True, som_blowup=1000000, sort_sums=True)
            f = num(rest)
            if f is not None:
                return abs(f) <= Fraction(tol)
            if self.o.get("trace"):
                print("close_mod rest", rest, "of", d, file=sys.stderr)
            return z3.And(rest <= R(tol), -rest <= R(tol))
        if self.unf and not split:
            a, b = self.unfold(R(a)), self.unfold(R(b))
        d = z3.simplify((R(a) - R(b)) / R(per), som=True, som_blowup=1000000, sort_sums=True)
        if not split:
            r = self.split_ite((R(a) - R(b)) / R(per),
                               lambda x: self.close_mod(st, z3.simplify(x * R(per)), z3.RealVal(0), per, tol, True))
            if r is not None:
                return r
        # drop integer multiples of ToReal(int) terms
        terms = d.children() if z3.is_add(d) else [d]
        rest = z3.RealVal(0)
        for t in terms:
            c, v = Fraction(1), t
            if z3.is_mul(t) and len(t.children()) == 2 and num(t.arg(0)) is not None:
                c, v = num(t.arg(0)), t.arg(1)
            if v.decl().kind() == z3.Z3_OP_TO_REAL and num(v) is None:
                if c.denominator == 1:
                    continue
                if abs(c - round(c)) < Fraction(1, 10**12) and self.absbound(v) is not None:
                    t = R(c - round(c)) * v
            f = num(t)
            if f is not None and abs(f - round(f)) < Fraction(1, 10**6):
                t = R(f - round(f))
            rest = rest + t
        bd = self.absbound(rest)
        if bd is not None and bd * Fraction(per) <= Fraction(tol):
            return True
        rest = z3.simplify(rest, som=True, som_blowup=1000000, sort_sums=True)
        f = num(rest)
        if f is not None:
            return abs(f - round(f)) * Fraction(per) <= Fraction(tol)
        k = z3.ToReal(z3.ToInt(rest + rv(0.5)))
        t = rv(tol / per)
        return z3.And(rest - k <= t, k - rest <= t)

    # ------------------------------------------------------------ exceptions
    def mk_exc(self, st, tiname):
        ti = self.gname.get(tiname)
        if ti is None:
            ti = self.extern_ti(tiname)
        o = self.new_obj(st, 64, "exc")
        p = self.addr_of(o)
        st.exc[p] = ti
        return p

    def extern_ti(self, name):
        a = self.ti_addr.get(name)
        if a is None:
            a = (1 << 61) + 64 * len(self.ti_addr)
            self.ti_addr[name] = a
            self.gname[name] = a
            self.aname[a] = name
        return a

    STD_BASE = {
        "_ZTISt12out_of_range": "_ZTISt11logic_error", "_ZTISt16invalid_argument": "_ZTISt11logic_error",
        "_ZTISt12length_error": "_ZTISt11logic_error", "_ZTISt12domain_error": "_ZTISt11logic_error",
        "_ZTISt11logic_error": "_ZTISt9exception", "_ZTISt13runtime_error": "_ZTISt9exception",
        "_ZTISt11range_error": "_ZTISt13runtime_error", "_ZTISt14overflow_error": "_ZTISt13runtime_error",
        "_ZTISt12system_error": "_ZTISt13runtime_error", "_ZTISt9bad_alloc": "_ZTISt9exception",
        "_ZTISt20bad_array_new_length": "_ZTISt9bad_alloc", "_ZTISt8bad_cast": "_ZTISt9exception",
        "_ZTINSt8ios_base7failureB5cxx11E": "_ZTISt12system_error",
        "_ZTISt17bad_function_call": "_ZTISt9exception", "_ZTISt12bad_weak_ptr": "_ZTISt9exception",
    }

    def ti_bases(self, st, ti):
        """all typeinfo addresses that catch an exception of type ti: [(ti, offset)]"""
        out = []
        todo = [(ti, 0)]
        while todo:
            t, off = todo.pop()
            out.append((t, off))
            n = self.aname.get(t)
            if n in self.STD_BASE:
                b = self.STD_BASE[n]
                todo.append((self.gname.get(b) or self.extern_ti(b), off))
                continue
            o = st.mem.get(t >> SLOT)
            if o is None or o.size < 24:
                continue
            vt = int.from_bytes(o.data[0:8], "little")
            vn = self.aname.get(vt - 16, "")
            if "si_class_type_info" in vn:
                todo.append((int.from_bytes(o.data[16:24], "little"), off))
            elif "vmi_class_type_info" in vn:
                nb = int.from_bytes(o.data[20:24], "little")
                for k in range(nb):
                    b = int.from_bytes(o.data[24 + 16 * k:32 + 16 * k], "little")
                    fl = int.from_bytes(o.data[32 + 16 * k:40 + 16 * k], "little", signed=True)
                    if not fl & 1:
                        todo.append((b, off + (fl >> 8)))
        return out

    def typeid(self, ti):
        return self.tids.setdefault(ti, len(self.tids) + 1) if ti else 0x7ffffff0

    def lp_match(self, st, lp, ptr):
        """selector for a landing pad, or None when it does not stop the exception"""
        clauses, cleanup = lp
        ti = st.exc[ptr]
        bases = {t for t, _ in self.ti_bases(st, ti)}
        for c in clauses:
            if c == "filter":
                continue
            if c == 0 or c in bases:
                return self.typeid(c)
        return 0 if cleanup else None

    def unwind(self, st, ptr):
        while st.frames:
            fr = st.frames[-1]
            if fr.unw is not None:
                sel = self.lp_match(st, fr.lp, ptr)
                if sel is not None:
                    st.cur = (ptr, sel)
                    fr.seg = fr.unw
                    fr.unw = None
                    return
            self.pop(st)
            if fr.onret is not None and fr.onret[0] == "thread":
                self.bad(st, "terminate", "exception escapes a thread")
        raise PathEnd(("uncaught", ptr))

    def pop(self, st):
        fr = st.frames.pop()
        for a in fr.allocas:
            o = st.mem.get(a)
            if o is not None:
                o.dead = True
                del st.mem[a]
        return fr

    # ------------------------------------------------------------------ run
    def fn_code(self, fn):
        if fn.code is None:
            codegen.compile_fn(self, fn)
        fn.used = True
        return fn.code

    def call(self, st, addr, args, slot, nextseg, unw, lp):
        fr = st.frames[-1]
        if type(addr) is not int:
            addr = self.concretize(st, addr, 64)
        fn = self.by_addr.get(addr)
        if fn is None:
            self.bad(st, "memory", "call through a bad function pointer")
        fr.ret = (slot, nextseg)
        fr.unw = unw
        fr.lp = lp
        self.enter(st, fn, args)

    def enter(self, st, fn, args):
        if fn.name in STUBS or fn.decl:
            stub = self.stub_for(fn)
            v = stub(self, st, *args)
            if v is STUBS["__pushed__"]:
                return
            self.ret_to(st, v)
            return
        self.fn_code(fn)
        r = [None] * fn.nreg
        r[:len(args)] = args[:fn.nargs]
        st.frames.append(Frame(fn, r))
        if len(st.frames) > 400:
            raise Unsupported("call depth")

    def stub_for(self, fn):
        s = STUBS.get(fn.name)
        if s is None:
            for p, f in PREFIX_STUBS:
                if fn.name.startswith(p):
                    return f
            raise Unsupported("external function " + fn.name)
        return s

    def ret_to(self, st, v):
        fr = st.frames[-1]
        slot, nxt = fr.ret
        fr.unw = None
        if slot is not None:
            fr.r[slot] = v
        fr.seg = nxt

    def push_call(self, st, addr, args, onret=None):
        """stub helper: run a function, discarding its value; then continue"""
        fn = self.by_addr[addr]
        self.fn_code(fn)
        r = [None] * fn.nreg
        r[:len(args)] = args
        f = Frame(fn, r)
        f.onret = onret
        st.frames.append(f)

    def run(self, entry, args=(), name=None):
        """explore all paths of entry(); returns self"""
        st0 = self.init0.clone()
        self.entry = entry
        base_depth = 0
        for c in self.ctors:
            fn = self.by_addr[c]
            if not fn.name.startswith("_GLOBAL__sub_I_") and "cxx_global_var_init" not in fn.name:
                pass
            self.fn_code(fn)
            st0.frames.append(Frame(fn, [None] * fn.nreg))
            st0.ckpt = None
            r = self.loop(st0)
            if r[0] != "ret":
                raise Unsupported("global constructor failed: %s" % (r,))
        fn = self.fns[entry]
        self.fn_code(fn)
        st0.frames = [Frame(fn, list(args) + [None] * (fn.nreg - len(args)))]
        st0.icount = 0
        self.work = [(st0, [])]
        tl = time.time()
        while self.work:
            ck, dec = self.work.pop()
            if self.stats["paths"] >= self.o["max_paths"]:
                self.undecided.append(("path limit", []))
                break
            if self.o["deadline"] and time.time() > self.o["deadline"]:
                self.undecided.append(("time budget exhausted with %d paths pending" % (len(self.work) + 1), []))
                break
            st = ck.clone()
            st.ckpt = ck
            st.dec = dec
            st.di = 0
            self.stats["paths"] += 1
            try:
                r = self.loop(st)
            except PathEnd as e:
                r = ("end", e.why)
                if isinstance(e.why, tuple) and e.why[0] == "uncaught":
                    ti = self.aname.get(st.exc.get(e.why[1]), "?")
                    self.report(st, "uncaught", "uncaught exception " + ti, [])
            except Unsupported as e:
                # an infeasible path is not a loss
                ok = True
                try:
                    ok = self.model_of(st)[0] != z3.unsat
                except Unsupported:
                    pass
                if ok:
                    self.undecided.append(("unsupported: %s" % e, self.where(st)))
                r = ("end", "unsupported")
            except StopIteration:
                self.stats["instrs"] += st.icount
                break
            except (AttributeError, TypeError, ValueError, ZeroDivisionError, OverflowError, z3.Z3Exception) as e:
                if self.o.get("debug"):
                    raise
                self.undecided.append(("unsupported: engine %s: %s" % (type(e).__name__, str(e)[:100]), self.where(st)))
                r = ("end", "unsupported")
            self.stats["instrs"] += st.icount
            for ev in set(st.events):
                self.events[ev] = self.events.get(ev, 0) + 1
            for tag in st.reached:
                self.reached[tag] = self.reached.get(tag, 0) + 1
            if r[0] == "ret" and len(self.witness) < self.o.get("witnesses", 6) and st.inputs and self.wtries < 12:
                self.wtries += 1
                rr, m = self.model_of(st)
                if rr == z3.sat:
                    self.witness.append(self.inputs_of(st, m))
        return self

    def loop(self, st):
        frames = st.frames
        maxi = self.o["max_instr"]
        last = st.icount
        while True:
            fr = frames[-1]
            seg = fr.seg
            if st.ckpt is not None and st.icount - last > 15000 and st.di >= len(st.dec):
                st2 = st.clone()
                st.ckpt = st2
                st.dec = []
                st.di = 0
                last = st.icount
            st.icount += fr.fn.segn[seg]
            if st.icount > maxi:
                raise Unsupported("instruction budget")
            try:
                act = fr.fn.code[seg](self, st, fr.r)
                if type(act) is int:
                    fr.seg = act
                    continue
                k = act[0]
                if k == "call":
                    self.call(st, act[1], act[2], act[3], act[4], act[5], act[6])
                elif k == "ret":
                    v = act[1]
                    f = self.pop(st)
                    if f.onret is not None:
                        v = f.onret[1](self, st, v) if len(f.onret) > 1 else None
                        if v is STUBS["__pushed__"]:
                            continue
                    if not frames:
                        return ("ret", v)
                    self.ret_to(st, v)
                elif k == "resume":
                    self.pop(st)
                    self.unwind(st, act[1])
            except Throw as t:
                self.unwind(st, t.ptr)
