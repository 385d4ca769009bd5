"""LLVM function -> Python segments."""
import math
import struct

from . import llvm as L

NAN = float("nan")
INF = float("inf")


def _s(v, w):
    return v - (1 << w) if v >> (w - 1) else v


def _sdiv(a, b):
    q = abs(a) // abs(b)
    return q if (a >= 0) == (b >= 0) else -q


CONC = {
    "add": lambda a, b, w: (a + b) & ((1 << w) - 1),
    "sub": lambda a, b, w: (a - b) & ((1 << w) - 1),
    "mul": lambda a, b, w: (a * b) & ((1 << w) - 1),
    "and": lambda a, b, w: a & b,
    "or": lambda a, b, w: a | b,
    "xor": lambda a, b, w: a ^ b,
    "shl": lambda a, b, w: (a << b) & ((1 << w) - 1) if b < w else 0,
    "lshr": lambda a, b, w: a >> b,
    "ashr": lambda a, b, w: (_s(a, w) >> b) & ((1 << w) - 1),
    "udiv": lambda a, b, w: a // b,
    "urem": lambda a, b, w: a % b,
    "sdiv": lambda a, b, w: _sdiv(_s(a, w), _s(b, w)) & ((1 << w) - 1),
    "srem": lambda a, b, w: (_s(a, w) - _s(b, w) * _sdiv(_s(a, w), _s(b, w))) & ((1 << w) - 1),
}
ICONC = {
    "eq": lambda a, b, w: a == b, "ne": lambda a, b, w: a != b,
    "ugt": lambda a, b, w: a > b, "uge": lambda a, b, w: a >= b,
    "ult": lambda a, b, w: a < b, "ule": lambda a, b, w: a <= b,
    "sgt": lambda a, b, w: _s(a, w) > _s(b, w), "sge": lambda a, b, w: _s(a, w) >= _s(b, w),
    "slt": lambda a, b, w: _s(a, w) < _s(b, w), "sle": lambda a, b, w: _s(a, w) <= _s(b, w),
}


def _fdiv(a, b):
    try:
        return a / b
    except ZeroDivisionError:
        if a != a or a == 0:
            return NAN
        return math.copysign(INF, a) * math.copysign(1.0, b)


def _frem(a, b):
    if a != a or b != b or abs(a) == INF or b == 0:
        return NAN
    return math.fmod(a, b)


FCONC = {
    "add": lambda a, b: a + b, "sub": lambda a, b: a - b, "mul": lambda a, b: a * b,
    "div": _fdiv, "rem": _frem,
}


def fcmp_conc(p, a, b):
    if p == "ord":
        return a == a and b == b
    if p == "uno":
        return a != a or b != b
    un = a != a or b != b
    if un:
        return p[0] == "u"
    return {"eq": a == b, "ne": a != b, "gt": a > b, "ge": a >= b, "lt": a < b, "le": a <= b}[p[1:]]


IP = {32: "eq", 33: "ne", 34: "ugt", 35: "uge", 36: "ult", 37: "ule", 38: "sgt", 39: "sge", 40: "slt", 41: "sle"}
FP = {0: "false", 1: "oeq", 2: "ogt", 3: "oge", 4: "olt", 5: "ole", 6: "one", 7: "ord", 8: "uno",
      9: "ueq", 10: "ugt", 11: "uge", 12: "ult", 13: "ule", 14: "une", 15: "true"}
IB = {8: "add", 10: "sub", 12: "mul", 14: "udiv", 15: "sdiv", 17: "urem", 18: "srem",
      20: "shl", 21: "lshr", 22: "ashr", 23: "and", 24: "or", 25: "xor"}
FB = {9: "add", 11: "sub", 13: "mul", 16: "div", 19: "rem"}
PYOP = {"add": "+", "sub": "-", "mul": "*", "and": "&", "or": "|", "xor": "^"}


class Gen:
    def __init__(self, E, fn):
        self.E, self.fn = E, fn
        self.l = E.l
        self.K = []
        self.slots = {}
        self.segs = []

    def kind(self, ty):
        l = self.l
        tk = l.LLVMGetTypeKind(ty)
        if tk == L.TK_INT:
            return l.LLVMGetIntTypeWidth(ty)
        if tk == L.TK_PTR:
            return 64
        if tk == L.TK_DOUBLE:
            return "f"
        if tk == L.TK_FLOAT:
            return "f32"
        if tk == L.TK_X86:
            return "x"
        if tk == L.TK_VECTOR:
            return "v"
        return "a"

    def const_expr(self, c):
        if type(c) is int:
            return repr(c)
        if type(c) is float and c == c and c not in (INF, -INF):
            return repr(c)
        self.K.append(c)
        return "K[%d]" % (len(self.K) - 1)

    def opnd(self, v):
        s = self.slots.get(v)
        if s is not None:
            return "r[%d]" % s
        l = self.l
        k = l.LLVMGetValueKind(v)
        if k in (22, 23):
            return "None"
        return self.const_expr(self.E.const(v))

    def compile(self):
        l, fn = self.l, self.fn
        n = 0
        for i in range(l.LLVMCountParams(fn.ref)):
            self.slots[l.LLVMGetParam(fn.ref, i)] = n
            n += 1
        fn.nargs = n
        blocks = []
        b = l.LLVMGetFirstBasicBlock(fn.ref)
        while b:
            ins = []
            i = l.LLVMGetFirstInstruction(b)
            while i:
                ins.append(i)
                if l.LLVMGetTypeKind(l.LLVMTypeOf(i)) != L.TK_VOID:
                    self.slots[i] = n
                    n += 1
                i = l.LLVMGetNextInstruction(i)
            blocks.append((b, ins))
            b = l.LLVMGetNextBasicBlock(b)
        fn.nreg = n
        self.bseg = {}
        self.pending = []       # edge segments to emit
        self.edges = {}
        self.binfo = {b: ins for b, ins in blocks}
        # reserve block start segments
        for b, ins in blocks:
            self.bseg[b] = self.new_seg()
        for b, ins in blocks:
            self.gen_block(b, ins)
        src = []
        for k, (lines, cnt) in enumerate(self.segs):
            src.append("def s%d(E,st,r):" % k)
            src += ["    " + x for x in (lines or ["raise RuntimeError"])]
        from .symx import Vec, Unsupported
        env = dict(Vec=Vec, Unsup=Unsupported, K=self.K, NAN=NAN, INF=INF, float=float, int=int, type=type, fdiv=_fdiv, sgn=_s)
        exec(compile("\n".join(src), fn.name[:60], "exec"), env)
        fn.segn = [c for _, c in self.segs]
        fn.code = [env["s%d" % k] for k in range(len(self.segs))]

    def new_seg(self):
        self.segs.append([None, 1])
        return len(self.segs) - 1

    def edge(self, src, dst):
        """expression lines performing phi moves from src to dst; returns (lines, seg)"""
        l = self.l
        moves = []
        for i in self.binfo[dst]:
            if l.LLVMGetInstructionOpcode(i) != 44:
                break
            for k in range(l.LLVMCountIncoming(i)):
                if l.LLVMGetIncomingBlock(i, k) == src:
                    moves.append((self.slots[i], self.opnd(l.LLVMGetIncomingValue(i, k))))
                    break
        if not moves:
            return None
        if len(moves) == 1:
            return "r[%d]=%s" % moves[0]
        return ",".join("r[%d]" % m[0] for m in moves) + "=" + ",".join(m[1] for m in moves)

    def goto(self, src, dst):
        e = self.edge(src, dst)
        g = "return %d" % self.bseg[dst]
        return ("%s; %s" % (e, g)) if e else g

    def edge_seg(self, src, dst):
        e = self.edge(src, dst)
        if e is None:
            return self.bseg[dst]
        key = (src, dst)
        if key not in self.edges:
            s = self.new_seg()
            self.segs[s] = [[e, "return %d" % self.bseg[dst]], 1]
            self.edges[key] = s
        return self.edges[key]

    def lp_info(self, dst):
        l = self.l
        for i in self.binfo[dst]:
            op = l.LLVMGetInstructionOpcode(i)
            if op == 59:
                cl = []
                for k in range(l.LLVMGetNumClauses(i)):
                    c = l.LLVMGetClause(i, k)
                    ty = l.LLVMTypeOf(c)
                    if l.LLVMGetTypeKind(ty) == L.TK_ARRAY:
                        cl.append("filter")
                    else:
                        cl.append(self.E.const(c))
                return (tuple(cl), bool(l.LLVMIsCleanup(i)))
        return ((), True)

    def gen_block(self, b, ins):
        seg = self.bseg[b]
        lines = []
        cnt = 0
        l = self.l
        for i in ins:
            op = l.LLVMGetInstructionOpcode(i)
            if op == 44:
                continue
            cnt += 1
            if op in (45, 5):
                res = self.gen_call(i, op, b)
                if res is None:
                    continue
                kind, txt = res
                if kind == "inline":
                    lines.append(txt)
                    continue
                # segment-ending call
                if op == 45:
                    nxt = self.new_seg()
                    lines.append(txt % (nxt, "None", "None"))
                    self.segs[seg] = [lines, cnt]
                    seg, lines, cnt = nxt, [], 0
                    continue
                nd = self.edge_seg(b, l.LLVMGetNormalDest(i))
                ud = l.LLVMGetUnwindDest(i)
                us = self.edge_seg(b, ud)
                self.K.append(self.lp_info(ud))
                lines.append(txt % (nd, us, "K[%d]" % (len(self.K) - 1)))
                self.segs[seg] = [lines, cnt]
                return
            try:
                x = self.gen(i, op, b)
            except Exception as e:
                x = "raise Unsup(%r)" % ("%s: %s" % (e, L.tostr(i)[:150]))
                if op in (1, 2, 3, 7, 58):
                    x = [x]
            if isinstance(x, list):
                lines += x
            elif x:
                lines.append(x)
        self.segs[seg] = [lines, cnt]

    def gen_call(self, i, op, b):
        from .stubs import INTRIN, INLINE
        l = self.l
        cv = l.LLVMGetCalledValue(i)
        nargs = l.LLVMGetNumArgOperands(i)
        d = self.slots.get(i)
        tgt = self.E.fref.get(cv)
        if tgt is None and cv in self.E.gaddr:
            tgt = self.E.by_addr.get(self.E.gaddr[cv])
        if l.LLVMGetValueKind(cv) == 23:   # inline asm (barriers)
            return ("inline", "pass") if d is None else ("inline", "r[%d]=0" % d)
        if tgt is not None and tgt.name.startswith("llvm."):
            n = tgt.name
            for p, f in INTRIN:
                if n.startswith(p):
                    if f is None:
                        return ("inline", "r[%d]=0" % d) if d is not None else None
                    args = [self.opnd(l.LLVMGetOperand(i, k)) for k in range(nargs)]
                    ty = l.LLVMTypeOf(i) if d is not None else None
                    k = self.kind(ty) if ty else None
                    if nargs and k in (1,) or n.startswith(("llvm.is.fpclass",)):
                        k = self.kind(l.LLVMTypeOf(l.LLVMGetOperand(i, 0)))
                    self.K.append(f)
                    e = "K[%d](E,st,%r%s)" % (len(self.K) - 1, k, "".join("," + a for a in args))
                    txt = "r[%d]=%s" % (d, e) if d is not None else e
                    if op == 5:
                        txt += "; " + self.goto(b, l.LLVMGetNormalDest(i))
                    return ("inline", txt)
            return ("inline", "raise Unsup(%r)" % ("intrinsic " + n))
        args = [self.opnd(l.LLVMGetOperand(i, k)) for k in range(nargs)]
        # byval copies are not used on this target for the types we meet
        if tgt is not None and tgt.name in INLINE and op == 45:
            self.K.append(INLINE[tgt.name])
            e = "K[%d](E,st%s)" % (len(self.K) - 1, "".join("," + a for a in args))
            return ("inline", "r[%d]=%s" % (d, e) if d is not None else e)
        f = repr(tgt.addr) if tgt is not None else self.opnd(cv)
        return ("call", "return ('call',%s,[%s],%s,%%s,%%s,%%s)" % (f, ",".join(args), d))

    def ld(self, ty, addr):
        l = self.l
        k = self.kind(ty)
        if k == "f":
            return "E.ld_f(st,%s)" % addr
        if k == "f32":
            return "E.ld_f32(st,%s)" % addr
        if k == "x":
            return "E.ld_f(st,%s)" % addr
        if isinstance(k, int):
            n = l.LLVMStoreSizeOfType(self.E.td, ty)
            return "E.ld_i(st,%s,%d,%d)" % (addr, n, k)
        tk = l.LLVMGetTypeKind(ty)
        if tk == L.TK_STRUCT:
            return "(" + "".join(self.ld(l.LLVMStructGetTypeAtIndex(ty, j), "%s+%d" % (
                addr, l.LLVMOffsetOfElement(self.E.td, ty, j))) + ","
                for j in range(l.LLVMCountStructElementTypes(ty))) + ")"
        et = l.LLVMGetElementType(ty)
        n = l.LLVMGetVectorSize(ty) if tk == L.TK_VECTOR else l.LLVMGetArrayLength2(ty)
        s = "(" + "".join(self.ld(et, "%s+%d" % (addr, j * self.E.tysize(et))) + "," for j in range(n)) + ")"
        return "Vec(%s)" % s if tk == L.TK_VECTOR else s

    def stc(self, ty, addr, v):
        l = self.l
        k = self.kind(ty)
        if k == "f" or k == "x":
            return ["E.st_f(st,%s,%s)" % (addr, v)]
        if k == "f32":
            return ["E.st_f32(st,%s,%s)" % (addr, v)]
        if isinstance(k, int):
            return ["E.st_i(st,%s,%s,%d)" % (addr, v, l.LLVMStoreSizeOfType(self.E.td, ty))]
        tk = l.LLVMGetTypeKind(ty)
        out = []
        if tk == L.TK_STRUCT:
            for j in range(l.LLVMCountStructElementTypes(ty)):
                out += self.stc(l.LLVMStructGetTypeAtIndex(ty, j),
                                "%s+%d" % (addr, l.LLVMOffsetOfElement(self.E.td, ty, j)), "%s[%d]" % (v, j))
            return out
        et = l.LLVMGetElementType(ty)
        n = l.LLVMGetVectorSize(ty) if tk == L.TK_VECTOR else l.LLVMGetArrayLength2(ty)
        for j in range(n):
            out += self.stc(et, "%s+%d" % (addr, j * self.E.tysize(et)), "%s[%d]" % (v, j))
        return out

    def gen(self, i, op, b):
        l = self.l
        O = lambda k: self.opnd(l.LLVMGetOperand(i, k))  # noqa
        d = self.slots.get(i)
        D = "r[%s]=" % d
        if op in IB:
            o = IB[op]
            k = self.kind(l.LLVMTypeOf(i))
            a, c = O(0), O(1)
            if k == "v":
                k2 = self.kind(l.LLVMGetElementType(l.LLVMTypeOf(i)))
                return D + "Vec(E.ibin(%r,%d,x,y,False,st) for x,y in zip(%s,%s))" % (o, k2, a, c)
            nsw = bool(l.LLVMGetNSW(i)) if op in (8, 10, 12, 20) else False
            slow = "E.ibin(%r,%d,a,b,%r,st)" % (o, k, nsw)
            pre = "a=%s;b=%s;" % (a, c)
            if k == 1 or o not in PYOP:
                if o in ("udiv", "urem", "sdiv", "srem"):
                    return pre + D + "E.idiv(%r,%d,a,b,st)" % (o, k)
                return pre + D + slow
            if o in ("and", "or", "xor"):
                return pre + D + "a%sb if type(a) is int and type(b) is int else %s" % (PYOP[o], slow)
            return pre + D + "(a%sb)&%d if type(a) is int and type(b) is int else %s" % (PYOP[o], (1 << k) - 1, slow)
        if op in FB:
            o = FB[op]
            pre = "a=%s;b=%s;" % (O(0), O(1))
            if self.kind(l.LLVMTypeOf(i)) == "f32":
                return pre + D + "E.f32(E.fbin(%r,a,b,st))" % o
            if o in ("add", "sub", "mul"):
                return pre + D + "a%sb if type(a) is float and type(b) is float else E.fbin(%r,a,b,st)" % (
                    PYOP[o], o)
            if o == "div":
                return pre + D + "fdiv(a,b) if type(a) is float and type(b) is float else E.fbin('div',a,b,st)"
            return pre + D + "E.fbin('rem',a,b,st)"
        if op == 66:
            return "a=%s;" % O(0) + D + "-a if type(a) is float else E.fneg(a)"
        if op == 42:
            p = IP[l.LLVMGetICmpPredicate(i)]
            k = self.kind(l.LLVMTypeOf(l.LLVMGetOperand(i, 0)))
            if k == "v":
                k2 = self.kind(l.LLVMGetElementType(l.LLVMTypeOf(l.LLVMGetOperand(i, 0))))
                return D + "Vec(E.icmp(%r,%d,x,y,st) for x,y in zip(%s,%s))" % (p, k2, O(0), O(1))
            pre = "a=%s;b=%s;" % (O(0), O(1))
            slow = "E.icmp(%r,%d,a,b,st)" % (p, k)
            py = {"eq": "==", "ne": "!=", "ugt": ">", "uge": ">=", "ult": "<", "ule": "<="}.get(p)
            t = "if type(a) is int and type(b) is int else " + slow
            if py:
                return pre + D + "a%sb %s" % (py, t)
            py = {"sgt": ">", "sge": ">=", "slt": "<", "sle": "<="}[p]
            sb = 1 << (k - 1)
            return pre + D + "(a^%d)%s(b^%d) %s" % (sb, py, sb, t)
        if op == 43:
            p = FP[l.LLVMGetFCmpPredicate(i)]
            if p == "true":
                return D + "True"
            if p == "false":
                return D + "False"
            if self.kind(l.LLVMTypeOf(l.LLVMGetOperand(i, 0))) == "v":
                return D + "Vec(E.fcmp(%r,x,y,st) for x,y in zip(%s,%s))" % (p, O(0), O(1))
            pre = "a=%s;b=%s;" % (O(0), O(1))
            py = {"oeq": "==", "ogt": ">", "oge": ">=", "olt": "<", "ole": "<=", "une": "!="}.get(p)
            if py:
                return pre + D + "a%sb if type(a) is float and type(b) is float else E.fcmp(%r,a,b,st)" % (py, p)
            return pre + D + "E.fcmp(%r,a,b,st)" % p
        if op == 26:
            ty = l.LLVMGetAllocatedType(i)
            n = self.E.tysize(ty)
            return "o=E.new_obj(st,%d*%s,'stack',True);st.frames[-1].allocas.append(o.oid);%sE.addr_of(o)" % (n, O(0), D)
        if op == 27:
            return D + self.ld(l.LLVMTypeOf(i), O(0))
        if op == 28:
            v = l.LLVMGetOperand(i, 0)
            return self.stc(l.LLVMTypeOf(v), O(1), self.opnd(v)) if self.kind(l.LLVMTypeOf(v)) in ("a", "v") else \
                self.stc(l.LLVMTypeOf(v), O(1), self.opnd(v))
        if op == 29:
            t = l.LLVMGetGEPSourceElementType(i)
            off = 0
            terms = []
            for k in range(1, l.LLVMGetNumOperands(i)):
                ov = l.LLVMGetOperand(i, k)
                vk = l.LLVMGetValueKind(ov)
                w = self.kind(l.LLVMTypeOf(ov))
                if k == 1:
                    sc = self.E.tysize(t)
                else:
                    if l.LLVMGetTypeKind(t) == L.TK_STRUCT:
                        c = self.E.const(ov)
                        off += l.LLVMOffsetOfElement(self.E.td, t, c)
                        t = l.LLVMStructGetTypeAtIndex(t, c)
                        continue
                    t = l.LLVMGetElementType(t)
                    sc = self.E.tysize(t)
                if vk == 18:
                    off += _s(self.E.const(ov), w) * sc
                else:
                    terms.append((self.opnd(ov), sc, w))
            base = O(0)
            if not terms:
                return "a=%s;" % base + D + "(a+%d)&18446744073709551615 if type(a) is int else E.gep(st,a,%d,())" % (off, off)
            if len(terms) == 1:
                v, sc, w = terms[0]
                sg = "sgn(b,%d)" % w if w < 64 else "b"
                return "a=%s;b=%s;" % (base, v) + D + \
                    "(a+%s*%d+%d)&18446744073709551615 if type(a) is int and type(b) is int else E.gep(st,a,%d,((b,%d,%d),))" % (
                        sg, sc, off, off, sc, w)
            return D + "E.gep(st,%s,%d,(%s))" % (base, off, "".join("(%s,%d,%d)," % x for x in terms))
        if op in (30, 31, 32):
            sk = self.kind(l.LLVMTypeOf(l.LLVMGetOperand(i, 0)))
            dk = self.kind(l.LLVMTypeOf(i))
            o = {30: "trunc", 31: "zext", 32: "sext"}[op]
            if sk == "v":
                raise Exception("vector cast")
            pre = "a=%s;" % O(0)
            if op == 30:
                return pre + D + "a&%d if type(a) is int else E.cast('trunc',a,%d,%d,st)" % ((1 << dk) - 1, sk, dk)
            if op == 31:
                return pre + D + "a if type(a) is int else E.cast('zext',a,%d,%d,st)" % (sk, dk)
            return pre + D + "E.cast('sext',a,%d,%d,st)" % (sk, dk)
        if op in (33, 34):
            dk = self.kind(l.LLVMTypeOf(i))
            return D + "E.fptoi(st,%s,%d,%r)" % (O(0), dk, op == 34)
        if op in (35, 36):
            sk = self.kind(l.LLVMTypeOf(l.LLVMGetOperand(i, 0)))
            return D + "E.itofp(st,%s,%d,%r)" % (O(0), sk, op == 36)
        if op == 37:
            return D + "E.f32(%s)" % O(0) if self.kind(l.LLVMTypeOf(i)) == "f32" else D + O(0)
        if op == 38:
            return D + O(0)
        if op in (39, 40, 60):
            return D + O(0)
        if op == 41:
            sk = self.kind(l.LLVMTypeOf(l.LLVMGetOperand(i, 0)))
            dk = self.kind(l.LLVMTypeOf(i))
            if sk == 64 and dk == "f":
                return D + "E.bits_to_f(st,%s)" % O(0)
            if sk == "f" and dk == 64:
                return D + "E.f_to_bits(%s)" % O(0)
            if sk == dk:
                return D + O(0)
            raise Exception("bitcast")
        if op == 46:
            k = self.kind(l.LLVMTypeOf(i))
            pre = "c=%s;" % O(0)
            if self.kind(l.LLVMTypeOf(l.LLVMGetOperand(i, 0))) == "v":
                k2 = self.kind(l.LLVMGetElementType(l.LLVMTypeOf(i)))
                return pre + D + "Vec(E.select(st,x,y,z,%r) for x,y,z in zip(c,%s,%s))" % (k2, O(1), O(2))
            return pre + D + "(%s if c else %s) if type(c) in (int,bool) else E.select(st,c,%s,%s,%r)" % (
                O(1), O(2), O(1), O(2), k)
        if op == 53:
            idx = l.LLVMGetIndices(i)
            return D + O(0) + "".join("[%d]" % idx[k] for k in range(l.LLVMGetNumIndices(i)))
        if op == 54:
            idx = l.LLVMGetIndices(i)
            return D + "E.insval(%s,%s,(%s))" % (O(0), O(1), "".join("%d," % idx[k] for k in range(l.LLVMGetNumIndices(i))))
        if op == 50:
            return D + "%s[%s]" % (O(0), O(1))
        if op == 51:
            return D + "Vec(E.insval(%s,%s,(%s,)))" % (O(0), O(1), O(2))
        if op == 52:
            n = l.LLVMGetNumMaskElements(i)
            m = [l.LLVMGetMaskValue(i, k) for k in range(n)]
            return "a=tuple(%s)+tuple(%s);" % (O(0), O(1)) + D + "Vec((%s))" % "".join(
                "a[%d]," % max(x, 0) for x in m)
        if op == 68:
            return D + O(0)
        if op == 55:
            return None
        if op == 57:
            bop = l.LLVMGetAtomicRMWBinOp(i)
            ty = l.LLVMTypeOf(i)
            k = self.kind(ty)
            n = self.E.tysize(ty)
            o = {0: None, 1: "add", 2: "sub", 3: "and", 5: "or", 6: "xor"}[bop]
            new = "b" if o is None else "E.ibin(%r,%d,a,b,False,st)" % (o, k)
            return "p=%s;b=%s;E.at(st,1);a=E.ld_i(st,p,%d,%d);E.st_i(st,p,%s,%d);E.at(st,0);" % (
                O(0), O(1), n, k, new, n) + D + "a"
        if op == 56:
            ty = l.LLVMTypeOf(l.LLVMGetOperand(i, 1))
            k = self.kind(ty)
            n = self.E.tysize(ty)
            return "p=%s;E.at(st,1);a=E.ld_i(st,p,%d,%d);c=E.decide(st,E.icmp('eq',%d,a,%s,st));(E.st_i(st,p,%s,%d) if c else None);E.at(st,0);" % (
                O(0), n, k, k, O(1), O(2), n) + D + "(a,c)"
        if op == 59:
            return D + "st.cur"
        # terminators
        if op == 1:
            if l.LLVMGetNumOperands(i) == 0:
                return ["return ('ret',None)"]
            return ["return ('ret',%s)" % O(0)]
        if op == 2:
            if not l.LLVMIsConditional(i):
                return [self.goto(b, l.LLVMGetSuccessor(i, 0))]
            t, f = l.LLVMGetSuccessor(i, 0), l.LLVMGetSuccessor(i, 1)
            return ["c=%s" % O(0), "if c if type(c) in (bool,int) else E.decide(st,E.to_bool(c)):",
                    "    " + self.goto(b, t), "else:", "    " + self.goto(b, f)]
        if op == 3:
            k = self.kind(l.LLVMTypeOf(l.LLVMGetOperand(i, 0)))
            out = ["a=%s" % O(0), "if type(a) is not int: a=E.switch(st,a,%d,(%s))" % (
                k, "".join("%d," % self.E.const(l.LLVMGetOperand(i, j)) for j in range(2, l.LLVMGetNumOperands(i), 2)))]
            for j in range(2, l.LLVMGetNumOperands(i), 2):
                cv = self.E.const(l.LLVMGetOperand(i, j))
                bb = l.LLVMValueAsBasicBlock(l.LLVMGetOperand(i, j + 1))
                out += ["if a==%d:" % cv, "    " + self.goto(b, bb)]
            out.append(self.goto(b, l.LLVMGetSwitchDefaultDest(i)))
            return out
        if op == 7:
            return ["E.bad(st,'ub','unreachable code reached')"]
        if op == 58:
            return ["return ('resume',%s[0])" % O(0)]
        raise Exception("opcode %d" % op)


def compile_fn(E, fn):
    Gen(E, fn).compile()
