"""Models of the functions whose bodies are not in the module."""
import math
import struct
from fractions import Fraction

import z3

NAN = float("nan")
PUSHED = object()


def _noop(E, st, *a):
    return None


def _zero(E, st, *a):
    return 0


# ------------------------------------------------------------------ memory
def malloc(E, st, n, *a):
    from .symx import Throw
    try:
        return E.alloc(st, n)
    except Throw:
        return 0


def calloc(E, st, n, m):
    p = malloc(E, st, E.concretize(st, n, 64) * E.concretize(st, m, 64))
    if p:
        st.mem[p >> 32].init = None
    return p


def opnew(E, st, n, *a):
    return E.alloc(st, n)


def free(E, st, p, *a):
    if type(p) is not int:
        p = E.concretize(st, p, 64)
    if p == 0:
        return
    o = st.mem.get(p >> 32)
    if o is None or o.dead or (p & 0xffffffff) != 0x10000 or o.kind != "heap":
        E.bad(st, "memory", "invalid or double free")
    if st.log is not None:
        E.log_access(st, o, 0, o.size, "write")
    o.dead = True
    o.data = bytearray(0) if not o.sym else o.data


def realloc(E, st, p, n):
    q = malloc(E, st, n)
    if p:
        o = st.mem[p >> 32]
        E.memcpy(st, q, p, min(o.size, n if isinstance(n, int) else o.size))
        free(E, st, p)
    return q


def memcpy(E, st, d, s, n):
    E.memcpy(st, d, s, n)
    return d


def memset(E, st, d, v, n):
    E.memset(st, d, v, n)
    return d


def strlen(E, st, p):
    n = 0
    while True:
        c = E.ld_i(st, p + n, 1, 8)
        if E.decide(st, E.icmp("eq", 8, c, 0, st)):
            return n
        n += 1


def memcmp(E, st, a, b, n):
    n = E.concretize(st, n, 64)
    if n == 0:
        return 0
    x, y = E.rbytes(st, a, n), E.rbytes(st, b, n)
    for p, q in zip(x, y):
        if E.decide(st, E.icmp("eq", 8, p, q, st)):
            continue
        return 0xffffffff if E.decide(st, E.icmp("ult", 8, p, q, st)) else 1
    return 0


def bcmp(E, st, a, b, n):
    n = E.concretize(st, n, 64)
    if n == 0:
        return 0
    x, y = E.rbytes(st, a, n), E.rbytes(st, b, n)
    cs = []
    for p, q in zip(x, y):
        c = E.icmp("eq", 8, p, q, st)
        if c is False:
            return 1
        if c is not True:
            cs.append(c)
    if not cs:
        return 0
    eq = z3.simplify(z3.And(*cs))
    return z3.If(eq, z3.BitVecVal(0, 32), z3.BitVecVal(1, 32))


def strcmp(E, st, a, b):
    i = 0
    while True:
        p, q = E.ld_i(st, a + i, 1, 8), E.ld_i(st, b + i, 1, 8)
        if not E.decide(st, E.icmp("eq", 8, p, q, st)):
            return 0xffffffff if E.decide(st, E.icmp("ult", 8, p, q, st)) else 1
        if E.decide(st, E.icmp("eq", 8, p, 0, st)):
            return 0
        i += 1


def memchr(E, st, p, c, n):
    n = E.concretize(st, n, 64)
    c = c & 255 if type(c) is int else z3.Extract(7, 0, c)
    for i in range(n):
        if E.decide(st, E.icmp("eq", 8, E.ld_i(st, p + i, 1, 8), c, st)):
            return p + i
    return 0


def tolower(E, st, c):
    if type(c) is int:
        return c + 32 if 65 <= c <= 90 else c
    c = E.to_bv(c, 32)
    return z3.simplify(z3.If(z3.And(c >= 65, c <= 90), c + 32, c))


def toupper(E, st, c):
    if type(c) is int:
        return c - 32 if 97 <= c <= 122 else c
    c = E.to_bv(c, 32)
    return z3.simplify(z3.If(z3.And(c >= 97, c <= 122), c - 32, c))


# -------------------------------------------------------------- exceptions
def cxa_alloc(E, st, n):
    o = E.new_obj(st, max(n, 64), "exc")
    return E.addr_of(o)


def cxa_throw(E, st, p, ti, dtor):
    from .symx import Throw
    st.exc[p] = ti
    raise Throw(p)


def throw_std(name):
    def f(E, st, *a):
        from .symx import Throw
        raise Throw(E.mk_exc(st, name))
    return f


def begin_catch(E, st, p):
    st.caught.append(p)
    return p


def end_catch(E, st):
    if st.caught:
        st.caught.pop()


def cxa_rethrow(E, st):
    from .symx import Throw
    raise Throw(st.caught[-1])


def current_exception(E, st, sret):
    E.st_i(st, sret, st.caught[-1] if st.caught else 0, 8)


def rethrow_exception(E, st, pp):
    from .symx import Throw
    raise Throw(E.ld_i(st, pp, 8, 64))


def terminate(E, st, *a):
    E.bad(st, "terminate", "std::terminate / abort called")


def assert_fail(E, st, expr, file, line, fun):
    E.bad(st, "terminate", "assertion failed: " + E.cstr(st, expr))


def guard_acquire(E, st, p):
    return 0 if E.ld_i(st, p, 1, 8) else 1


def guard_release(E, st, p):
    E.st_i(st, p, 1, 1)


def dyn_cast(E, st, p, src, dst, hint):
    if p == 0:
        return 0
    vp = E.ld_i(st, p, 8, 64)
    ti = E.ld_i(st, vp - 8, 8, 64)
    top = E.ld_i(st, vp - 16, 8, 64)
    top = top - (1 << 64) if top >> 63 else top
    whole = p + top
    for t, off in E.ti_bases(st, ti):
        if t == dst:
            return whole + off
    return 0


def exc_what(E, st, *a):
    if "what" not in st.user:
        o = E.new_obj(st, 16, "global")
        o.data[:4] = b"exc\0"
        st.user["what"] = E.addr_of(o)
    return st.user["what"]


def exc_vptr(name):
    """constructor of a standard exception: sets the vptr to a model vtable"""
    def f(E, st, this, *a):
        key = "vt_" + name
        if key not in st.user:
            o = E.new_obj(st, 64, "global")
            o.data[16:24] = struct.pack("<Q", E.extern_fn("__vf_noop"))
            o.data[24:32] = struct.pack("<Q", E.extern_fn("__vf_noop"))
            o.data[32:40] = struct.pack("<Q", E.extern_fn("__vf_what"))
            ti = E.gname.get("_ZTI" + name) or E.extern_ti("_ZTI" + name)
            o.data[8:16] = struct.pack("<Q", ti)
            st.user[key] = E.addr_of(o)
        E.st_i(st, this, st.user[key] + 16, 8)
    return f


# ------------------------------------------------------------------ threads
def hardware_concurrency(E, st, *a):
    h = E.o["hwc"]
    if h == "sym":
        if "hwc" not in st.user:
            v = z3.Int("hwc")
            E.set_iv(v, 0, E.o.get("hwc_max", 4))
            st.inputs.append(("hwc", "int", v))
            E.add(st, z3.And(v >= 0, v <= E.o.get("hwc_max", 4)))
            st.user["hwc"] = v
        return st.user["hwc"]
    return h


def thread_local(E, st, k, a):
    from .symx import BASE, SLOT
    """a variable of the main thread, or the copy that another thread has of it"""
    if st.tid == 0 or type(a) is not int or a >> 32 not in E.tls:
        return a
    key = "tls%d:%x" % (st.tid, a)
    v = st.user.get(key)
    if v is None:
        src = E.init0.mem[a >> SLOT]
        o = E.new_obj(st, src.size, "thread-local")
        o.data[:] = src.data
        v = st.user[key] = (o.oid << SLOT) + BASE
    return v


def start_thread(E, st, this, statep, fn):
    """std::thread: the body is run to completion here or at the join, on its
    own access log; conflicting accesses of concurrent threads are races"""
    sp = E.ld_i(st, statep, 8, 64)
    E.st_i(st, statep, 0, 8)     # the unique_ptr is released
    tid = len(st.threads) + 1
    E.st_i(st, this, tid, 8)
    st.threads.append(dict(tid=tid, state=sp, run=False, joined=False, order=len(st.threads)))
    if E.o["races"] and st.log is None:
        st.log = {}
    st.user["live"] = st.user.get("live", NOLOCK) | {tid}
    if E.o["thread_order"] == "eager":
        return run_thread(E, st, st.threads[-1])


def run_thread(E, st, t):
    t["run"] = True
    vp = E.ld_i(st, t["state"], 8, 64)
    f = E.ld_i(st, vp + 16, 8, 64)
    t["ptid"] = st.tid
    st.tid = t["tid"]
    st.user["caught%d" % t["tid"]] = tuple(st.caught)
    st.caught = []

    def done(E, st, v):
        st.tid = t["ptid"]
        st.caught = list(st.user["caught%d" % t["tid"]])
        return cont(E, st)

    def cont(E, st):
        pend = st.user.get("pending_threads")
        if pend:
            k = pend[0]
            st.user["pending_threads"] = pend[1:]
            return run_thread(E, st, st.threads[k])
        return None
    E.push_call(st, f, [t["state"]], ("thread", done))
    return PUSHED


def thread_join(E, st, this):
    tid = E.ld_i(st, this, 8, 64)
    if tid == 0:
        E.bad(st, "terminate", "join of a thread that is not joinable")
    E.st_i(st, this, 0, 8)
    t = st.threads[tid - 1]
    t["joined"] = True
    st.user["live"] = st.user.get("live", NOLOCK) - {tid}
    if st.log is not None and all(x["joined"] for x in st.threads) and all(x["run"] for x in st.threads):
        races(E, st)
    if not t["run"]:
        # run every thread not yet run, in the selected order
        todo = [i for i, x in enumerate(st.threads) if not x["run"]]
        if E.o["thread_order"] == "lazy":
            todo = [tid - 1]
        if E.o["thread_order"] == "reverse":
            todo.reverse()
        st.user["pending_threads"] = tuple(todo[1:])
        return run_thread(E, st, st.threads[todo[0]])


def thread_detach(E, st, this):
    tid = E.ld_i(st, this, 8, 64)
    if tid == 0:
        E.bad(st, "terminate", "detach of a thread that is not joinable")
    E.st_i(st, this, 0, 8)


def races(E, st):
    log, st.log = st.log, None
    acc = {}
    for tid, lst in log.items():
        for oid, off, n, w, lk, live in lst:
            if oid in st.user.get("nolog", ()):
                continue
            for b in range(off, off + min(n, 4096)):
                acc.setdefault((oid, b), set()).add((tid, w, lk, live))
    for k, ts in acc.items():
        if len({t[0] for t in ts}) < 2:
            continue
        for t1, w1, l1, v1 in ts:
            if w1 and any(t2 != t1 and not (l1 & l2) and (v1 is None or t2 in v1) and (v2 is None or t1 in v2)
                          for t2, _, l2, v2 in ts):
                o = st.mem.get(k[0])
                E.report(st, "race", "data race between threads on a %s object" % (o.kind if o else "freed"), [])
                return


NOLOCK = frozenset()


def mutex_lock(E, st, m):
    k = "locks%d" % st.tid
    st.user[k] = st.user.get(k, NOLOCK) | {m}
    return 0


def mutex_unlock(E, st, m):
    k = "locks%d" % st.tid
    st.user[k] = st.user.get(k, NOLOCK) - {m}
    return 0


def thread_state_dtor(E, st, *a):
    return None


# ----------------------------------------------------------------- harness
def _nm(E, st, p):
    n = E.cstr(st, p)
    k = st.names.get(n, 0)
    st.names[n] = k + 1
    return "%s#%d" % (n, k)


def _var(E, n, sort, lo, hi):
    """one variable for each name and range: what is known of its bounds holds on every path"""
    rs = E.ranges.setdefault(n, [])
    k = (sort, str(lo), str(hi))
    if k not in rs:
        rs.append(k)
    i = rs.index(k)
    return z3.Const(n if i == 0 else "%s~%d" % (n, i), sort)


def vf_double(E, st, p, lo, hi):
    n = _nm(E, st, p)
    v = _var(E, n, z3.RealSort(), lo, hi)
    st.inputs.append((n, "real", v))
    from .symx import rv
    E.add(st, z3.And(v >= rv(lo), v <= rv(hi)))
    if type(lo) is float and type(hi) is float:
        E.set_ab(v, max(abs(lo), abs(hi)))
        E.ivc[v.get_id()] = (Fraction(lo), Fraction(hi))
    return v


def vf_real(E, st, p):
    n = _nm(E, st, p)
    v = _var(E, n, z3.RealSort(), None, None)
    st.inputs.append((n, "real", v))
    return v


def vf_int(E, st, p, lo, hi):
    n = _nm(E, st, p)
    v = _var(E, n, z3.IntSort(), lo, hi)
    lo, hi = lo - (1 << 64) if lo >> 63 else lo, hi - (1 << 64) if hi >> 63 else hi
    st.inputs.append((n, "int", v))
    E.set_iv(v, lo, hi)
    E.add(st, z3.And(v >= lo, v <= hi))
    return v


def vf_bits(E, st, p):
    n = _nm(E, st, p)
    v = z3.BitVec(n, 64)
    st.inputs.append((n, "bv", v))
    return v


def vf_byte(E, st, p):
    n = _nm(E, st, p)
    v = z3.BitVec(n, 8)
    st.inputs.append((n, "bv", v))
    return v


def vf_bool(E, st, p):
    n = _nm(E, st, p)
    v = _var(E, n, z3.IntSort(), 0, 1)
    st.inputs.append((n, "int", v))
    E.add(st, z3.And(v >= 0, v <= 1))
    return v == 1


def vf_choose(E, st, p, n):
    nm = _nm(E, st, p)
    k = E.choose(st, n) if n > 1 else 0
    st.inputs.append((nm, "conc", k))
    return k


def vf_assume(E, st, c):
    from .symx import PathEnd
    if not E.decide_assume(st, c):
        raise PathEnd("assume")


def vf_check(E, st, c, msg):
    E.check(st, c, E.cstr(st, msg))


def vf_reach(E, st, msg):
    st.reached.append(E.cstr(st, msg))


def vf_close(E, st, a, b, tol):
    return E.close(st, a, b, tol)


def vf_close_mod(E, st, a, b, p, tol):
    return E.close_mod(st, a, b, p, tol)


def vf_generalize(E, st, p, n, nm):
    """every symbolic double stored in [p, p+n) becomes an arbitrary one"""
    o, off = E.find(st, p, n, "read")
    base = _nm(E, st, nm)
    for k in sorted(o.sym):
        if off <= k < off + n and isinstance(o.sym[k][1], z3.ArithRef) and o.sym[k][1].is_real():
            name = base + "@%d" % (k - off)
            v = z3.Real(name)
            st.inputs.append((name, "real", v))
            E.set_ab(v, 7)
            E.ivc[v.get_id()] = (Fraction(-7), Fraction(7))
            E.add(st, z3.And(v >= -7, v <= 7))
            o.sym[k] = (8, v)


def vf_symbolic(E, st):
    return 1


def vf_isnan(E, st, a):
    return type(a) is float and a != a


def vf_opaque_d(E, st, v):
    return v


def vf_concrete(E, st, v):
    return E.concretize(st, v, 64)


def vf_and(E, st, a, b):
    return z3.And(E.to_bool(a), E.to_bool(b))


def vf_pow_re(E, st, x, y):
    return pw(E, st, x, y)


# ------------------------------------------------------------------- maths
def pw(E, st, x, y):
    if type(x) is float and type(y) is float:
        try:
            return math.pow(x, y)
        except (ValueError, OverflowError):
            return NAN
    if type(y) is float and y == int(y) and 0 <= y <= 12:
        r = 1.0
        for _ in range(int(y)):
            r = E.fbin("mul", r, x, st)
        return r
    if type(y) is float and y == 0.5:
        return E.sqrt(st, x)
    if type(y) is float and y < 0 and y == int(y) and y >= -8:
        return E.fbin("div", 1.0, pw(E, st, x, -y), st)
    return E.uf(st, "pow", x, y)


def f1(name):
    def f(E, st, x):
        if type(x) is float:
            if x != x:
                return NAN
            try:
                return getattr(math, name)(x)
            except (ValueError, OverflowError):
                return NAN
        return E.uf(st, name, x)
    return f


def acos_(E, st, x):
    if type(x) is float:
        return math.acos(x) if -1 <= x <= 1 else NAN
    if E.decide(st, z3.Or(x > 1, x < -1)):
        return NAN
    return E.uf(st, "acos", x)


def asin_(E, st, x):
    if type(x) is float:
        return math.asin(x) if -1 <= x <= 1 else NAN
    if E.decide(st, z3.Or(x > 1, x < -1)):
        return NAN
    return E.uf(st, "asin", x)


def f2(name):
    def f(E, st, x, y):
        if type(x) is float and x != x or type(y) is float and y != y:
            return NAN
        if type(x) is float and type(y) is float:
            return getattr(math, name)(x, y)
        return E.uf(st, name, x, y)
    return f


def remquo(E, st, x, y, p):
    if type(x) is float and type(y) is float:
        if x != x or y != y or abs(x) == math.inf or y == 0:
            return NAN
        r = math.remainder(x, y)
        q = round((Fraction(x) - Fraction(r)) / Fraction(y))
        s = -1 if q < 0 else 1
        E.st_i(st, p, (s * (abs(q) & 7)) & 0xffffffff, 4)
        return r
    if type(x) is float and x != x:
        return NAN
    r, q = E._rem(st, x, y)
    if E.o["quo_fork"]:
        v = E.concretize(st, q, 64)
        v = v - (1 << 64) if v >> 63 else v
        E.st_i(st, p, ((abs(v) & 7) * (-1 if v < 0 else 1)) & 0xffffffff, 4)
        r = z3.simplify(z3.substitute(E.unfold(r), (q, z3.IntVal(v))))
        return r
    # the C library returns the low three bits of |q| with the sign of q
    v = z3.If(q >= 0, q % 8, -((-q) % 8))
    E.set_iv(v, -7, 7)
    E.st_i(st, p, v, 4)
    return r


def sqrt_(E, st, x):
    return E.sqrt(st, x)


def cabs(E, st, a, b):
    return hypot(E, st, a, b)


def hypot(E, st, a, b):
    if type(a) is float and type(b) is float:
        return math.hypot(a, b)
    return E.sqrt(st, E.fbin("add", E.fbin("mul", a, a, st), E.fbin("mul", b, b, st), st))


def rnd(how):
    return lambda E, st, x: E.rnd(st, x, how)


def muldc3(E, st, a, b, c, d):
    m = lambda x, y: E.fbin("mul", x, y, st)  # noqa
    return (E.fbin("sub", m(a, c), m(b, d), st), E.fbin("add", m(a, d), m(b, c), st))


def divdc3(E, st, a, b, c, d):
    m = lambda x, y: E.fbin("mul", x, y, st)  # noqa
    den = E.fbin("add", m(c, c), m(d, d), st)
    return (E.fbin("div", E.fbin("add", m(a, c), m(b, d), st), den, st),
            E.fbin("div", E.fbin("sub", m(b, c), m(a, d), st), den, st))


def fmin_(E, st, a, b):
    return fminmax(E, st, a, b, "olt")


def fmax_(E, st, a, b):
    return fminmax(E, st, a, b, "ogt")


def fminmax(E, st, a, b, p):
    if type(a) is float and a != a:
        return b
    if type(b) is float and b != b:
        return a
    return E.select(st, E.fcmp(p, a, b, st), a, b, "f")


def copysign(E, st, a, b):
    if type(a) is float and type(b) is float:
        return math.copysign(a, b)
    m = E.fabs(st, a)
    if type(b) is float:
        return m if math.copysign(1, b) > 0 else E.fneg(m)
    return m if E.decide(st, b >= 0) else E.fneg(m)


STUBS = {
    "__pushed__": PUSHED,
    "malloc": malloc, "calloc": calloc, "free": free, "realloc": realloc, "aligned_alloc": lambda E, st, a, n: malloc(E, st, n),
    "_Znwm": opnew, "_Znam": opnew, "_ZnwmRKSt9nothrow_t": malloc, "_ZdlPv": free, "_ZdaPv": free, "_ZdlPvm": free,
    "_ZnwmSt11align_val_t": opnew, "_ZdlPvSt11align_val_t": free, "_ZdaPvm": free,
    "memcpy": memcpy, "memmove": memcpy, "memset": memset, "strlen": strlen, "memcmp": memcmp, "bcmp": bcmp,
    "strcmp": strcmp, "memchr": memchr, "tolower": tolower, "toupper": toupper,
    "__cxa_allocate_exception": cxa_alloc, "__cxa_free_exception": _noop, "__cxa_throw": cxa_throw,
    "__cxa_begin_catch": begin_catch, "__cxa_end_catch": end_catch, "__cxa_rethrow": cxa_rethrow,
    "__cxa_get_exception_ptr": lambda E, st, p: p,
    "_ZSt17current_exceptionv": current_exception,
    "_ZSt17rethrow_exceptionNSt15__exception_ptr13exception_ptrE": rethrow_exception,
    "_ZNSt15__exception_ptr13exception_ptr9_M_addrefEv": _noop,
    "_ZNSt15__exception_ptr13exception_ptr10_M_releaseEv": _noop,
    "_ZNSt15__exception_ptr13exception_ptrC1EPv": lambda E, st, t, p: E.st_i(st, t, p, 8),
    "_ZSt9terminatev": terminate, "abort": terminate, "__cxa_pure_virtual": terminate, "exit": terminate,
    "__cxa_bad_cast": throw_std("_ZTISt8bad_cast"), "__cxa_throw_bad_array_new_length": throw_std("_ZTISt20bad_array_new_length"),
    "__assert_fail": assert_fail,
    "__cxa_guard_acquire": guard_acquire, "__cxa_guard_release": guard_release, "__cxa_guard_abort": _noop,
    "__cxa_atexit": _zero, "__cxa_thread_atexit": _zero, "__dynamic_cast": dyn_cast,
    "__vf_noop": _noop, "__vf_what": exc_what,
    "_ZNSt6thread20hardware_concurrencyEv": hardware_concurrency,
    "_ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE": start_thread,
    "_ZNSt6thread4joinEv": thread_join, "_ZNSt6thread6detachEv": thread_detach, "_ZNSt6thread6_StateD2Ev": _noop,
    # formatting of messages is not modelled: the stream is returned as it is
    "_ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_PKS3_l": lambda E, st, o, *a: o,
    "_ZNSo9_M_insertIlEERSoT_": lambda E, st, o, *a: o, "_ZNSo9_M_insertImEERSoT_": lambda E, st, o, *a: o,
    "_ZNSt8ios_base4InitC1Ev": _noop, "_ZNSt8ios_base4InitD1Ev": _noop,
    "pow": pw, "sqrt": sqrt_, "cabs": cabs, "hypot": hypot,
    "acos": acos_, "asin": asin_, "atan2": f2("atan2"), "remquo": remquo,
    "remainder": lambda E, st, a, b: E.remainder(st, a, b), "fmod": lambda E, st, a, b: E.fbin("rem", a, b, st),
    "__muldc3": muldc3, "__divdc3": divdc3, "fmin": fmin_, "fmax": fmax_,
    "vf_double": vf_double, "vf_real": vf_real, "vf_int": vf_int, "vf_bits": vf_bits, "vf_byte": vf_byte,
    "vf_bool": vf_bool, "vf_choose": vf_choose, "vf_assume": vf_assume, "vf_check": vf_check, "vf_reach": vf_reach,
    "vf_close": vf_close, "vf_close_mod": vf_close_mod, "vf_generalize": vf_generalize, "vf_symbolic": vf_symbolic,
    "vf_isnan": vf_isnan, "vf_concrete": vf_concrete, "vf_and": vf_and,
    "pthread_mutex_lock": mutex_lock, "pthread_mutex_unlock": mutex_unlock,
}
for _n in ("sin", "cos", "tan", "atan", "exp", "log", "log10", "sinh", "cosh", "tanh"):
    STUBS[_n] = f1(_n)
for _n in ("floor", "ceil", "trunc", "round", "rint", "nearbyint"):
    STUBS[_n] = rnd(_n)

for _n in ("12out_of_range", "16invalid_argument", "12length_error", "12domain_error", "11logic_error",
           "13runtime_error", "11range_error", "14overflow_error", "12system_error"):
    _c = exc_vptr("St" + _n)
    for _k in ("C1", "C2"):
        STUBS["_ZNSt%s%sEPKc" % (_n, _k)] = _c
        STUBS["_ZNSt%s%sERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE" % (_n, _k)] = _c
        STUBS["_ZNSt%s%sERKS_" % (_n, _k)] = _c
        STUBS["_ZNSt%s%sEOS_" % (_n, _k)] = _c
    for _k in ("D0", "D1", "D2"):
        STUBS["_ZNSt%s%sEv" % (_n, _k)] = _noop
for _n in ("9exception", "9bad_alloc", "8bad_cast", "20bad_array_new_length"):
    for _k in ("D0", "D1", "D2"):
        STUBS["_ZNSt%s%sEv" % (_n, _k)] = _noop
for _n, _t in (("_ZSt20__throw_length_errorPKc", "_ZTISt12length_error"),
               ("_ZSt19__throw_logic_errorPKc", "_ZTISt11logic_error"),
               ("_ZSt20__throw_out_of_rangePKc", "_ZTISt12out_of_range"),
               ("_ZSt24__throw_out_of_range_fmtPKcz", "_ZTISt12out_of_range"),
               ("_ZSt24__throw_invalid_argumentPKc", "_ZTISt16invalid_argument"),
               ("_ZSt21__throw_runtime_errorPKc", "_ZTISt13runtime_error"),
               ("_ZSt17__throw_bad_allocv", "_ZTISt9bad_alloc"),
               ("_ZSt28__throw_bad_array_new_lengthv", "_ZTISt20bad_array_new_length"),
               ("_ZSt16__throw_bad_castv", "_ZTISt8bad_cast"),
               ("_ZSt25__throw_bad_function_callv", "_ZTISt17bad_function_call"),
               ("_ZSt20__throw_system_errori", "_ZTISt12system_error"),
               ("_ZSt19__throw_ios_failurePKc", "_ZTINSt8ios_base7failureB5cxx11E")):
    STUBS[_n] = throw_std(_t)

PREFIX_STUBS = [("__vf_vslot", exc_what)]

INLINE = {n: STUBS[n] for n in (
    "malloc", "free", "_Znwm", "_ZdlPv", "_ZdlPvm", "_Znam", "_ZdaPv", "sqrt", "sin", "cos", "tan", "atan", "acos", "asin",
    "atan2", "pow", "remainder", "fmod", "remquo", "hypot", "cabs", "exp", "log", "floor", "ceil", "trunc", "round",
    "rint", "nearbyint", "__muldc3", "__divdc3", "fmin", "fmax",
    "strlen", "memcmp", "bcmp", "memchr", "memcpy", "memmove", "memset", "tolower", "toupper", "vf_close", "vf_close_mod",
    "vf_isnan", "vf_and", "__cxa_allocate_exception", "__cxa_begin_catch", "__cxa_end_catch", "__cxa_free_exception")}


# --------------------------------------------------------------- intrinsics
def _i_abs(E, st, k, a, poison=0):
    if type(a) is int:
        s = a - (1 << k) if a >> (k - 1) else a
        return abs(s) & ((1 << k) - 1)
    if E.decide(st, E.icmp("slt", k, a, 0, st)):
        return E.ibin("sub", k, 0, a, True, st)
    return a


def _minmax(p):
    def f(E, st, k, a, b):
        c = E.icmp(p, k, a, b, st)
        return E.select(st, c, a, b, k)
    return f


def _i_ctlz(E, st, k, a, z=0):
    a = E.concretize(st, a, k)
    return k - a.bit_length()


def _i_cttz(E, st, k, a, z=0):
    a = E.concretize(st, a, k)
    return k if a == 0 else (a & -a).bit_length() - 1


def _i_ctpop(E, st, k, a):
    return bin(E.concretize(st, a, k)).count("1")


def _i_bswap(E, st, k, a):
    a = E.concretize(st, a, k)
    return int.from_bytes(a.to_bytes(k // 8, "little"), "big")


def _ovf(op, signed):
    def f(E, st, k, a, b):
        # result kind is an aggregate; width from the operands is 64 in our code
        w = 64
        if type(a) is int and type(b) is int:
            x, y = (a, b) if not signed else (E.__class__ and (a - (1 << w) if a >> 63 else a), (b - (1 << w) if b >> 63 else b))
            r = {"add": x + y, "sub": x - y, "mul": x * y}[op]
            lo, hi = (-(1 << 63), (1 << 63) - 1) if signed else (0, (1 << 64) - 1)
            return (r & ((1 << w) - 1), not lo <= r <= hi)
        A, B = E.to_iint(a, w), E.to_iint(b, w)
        if not signed:
            A, B = E.uns(A, w), E.uns(B, w)
        r = {"add": A + B, "sub": A - B, "mul": A * B}[op]
        lo, hi = (-(1 << 63), (1 << 63) - 1) if signed else (0, (1 << 64) - 1)
        if E.decide(st, z3.Or(r < lo, r > hi)):
            return (0, True)
        E.set_iv(r, lo, min(hi, (1 << 63) - 1))
        return (r, False)
    return f


def _usub_sat(E, st, k, a, b):
    if E.decide(st, E.icmp("ult", k, a, b, st)):
        return 0
    return E.ibin("sub", k, a, b, False, st)


def _fshl(E, st, k, a, b, c):
    a, b, c = E.concretize(st, a, k), E.concretize(st, b, k), E.concretize(st, c, k) % k
    return (((a << k | b) << c) >> k) & ((1 << k) - 1)


def _fshr(E, st, k, a, b, c):
    a, b, c = E.concretize(st, a, k), E.concretize(st, b, k), E.concretize(st, c, k) % k
    return ((a << k | b) >> c) & ((1 << k) - 1)


def _fma(E, st, k, a, b, c):
    return E.fbin("add", E.fbin("mul", a, b, st), c, st)


def _fpclass(E, st, k, a, mask):
    if type(a) is float:
        if a != a:
            return bool(mask & 3)
        if a in (math.inf, -math.inf):
            return bool(mask & (0x200 if a > 0 else 4))
        if a == 0:
            return bool(mask & (0x40 if math.copysign(1, a) > 0 else 0x20))
        return bool(mask & (0x100 | 0x80)) if a > 0 else bool(mask & (8 | 0x10))
    fin = mask & 0x1f8
    if fin == 0:
        return False
    if fin == 0x1f8:
        return True
    cs = []
    if fin & 0x180:
        cs.append(a > 0)
    if fin & 0x18:
        cs.append(a < 0)
    if fin & 0x60:
        cs.append(a == 0)
    return z3.Or(*cs)


def _typeid(E, st, k, ti):
    return E.typeid(ti)


def _load_rel(E, st, k, p, off):
    if type(off) is not int:
        off = E.concretize(st, off, 64)
    if p + off in E.rel:
        return (p + E.rel[p + off]) & ((1 << 64) - 1)
    v = E.ld_i(st, p + off, 4, 32)
    v = v - (1 << 32) if v >> 31 else v
    return p + v


def _mem(f):
    return lambda E, st, k, d, s, n, vol=0: f(E, st, d, s, n) and None


def _w(f):
    return lambda E, st, k, *a: f(E, st, *a)


INTRIN = [
    ("llvm.lifetime", None), ("llvm.assume", None), ("llvm.experimental.noalias", None), ("llvm.dbg", None),
    ("llvm.invariant", None), ("llvm.prefetch", None), ("llvm.donothing", None), ("llvm.stackrestore", None),
    ("llvm.stacksave", None),
    ("llvm.memcpy", _mem(memcpy)), ("llvm.memmove", _mem(memcpy)), ("llvm.memset", _mem(memset)),
    ("llvm.trap", lambda E, st, k: terminate(E, st)),
    ("llvm.umax", _minmax("ugt")), ("llvm.umin", _minmax("ult")), ("llvm.smax", _minmax("sgt")), ("llvm.smin", _minmax("slt")),
    ("llvm.abs", _i_abs), ("llvm.ctlz", _i_ctlz), ("llvm.cttz", _i_cttz), ("llvm.ctpop", _i_ctpop), ("llvm.bswap", _i_bswap),
    ("llvm.uadd.with.overflow", _ovf("add", False)), ("llvm.usub.with.overflow", _ovf("sub", False)),
    ("llvm.umul.with.overflow", _ovf("mul", False)), ("llvm.sadd.with.overflow", _ovf("add", True)),
    ("llvm.ssub.with.overflow", _ovf("sub", True)), ("llvm.smul.with.overflow", _ovf("mul", True)),
    ("llvm.usub.sat", _usub_sat), ("llvm.fshl", _fshl), ("llvm.fshr", _fshr),
    ("llvm.fabs", lambda E, st, k, a: E.fabs(st, a)), ("llvm.sqrt", _w(sqrt_)),
    ("llvm.sin", _w(f1("sin"))), ("llvm.cos", _w(f1("cos"))), ("llvm.exp.", _w(f1("exp"))), ("llvm.log.", _w(f1("log"))),
    ("llvm.pow.", _w(pw)), ("llvm.powi", lambda E, st, k, a, b: pw(E, st, a, float(b - (1 << 32) if b >> 31 else b))),
    ("llvm.floor", _w(rnd("floor"))), ("llvm.ceil", _w(rnd("ceil"))), ("llvm.trunc", _w(rnd("trunc"))),
    ("llvm.round.", _w(rnd("round"))), ("llvm.rint", _w(rnd("rint"))), ("llvm.nearbyint", _w(rnd("rint"))),
    ("llvm.maxnum", _w(fmax_)), ("llvm.minnum", _w(fmin_)), ("llvm.copysign", _w(copysign)),
    ("llvm.fma", _fma), ("llvm.fmuladd", _fma), ("llvm.is.fpclass", _fpclass),
    ("llvm.eh.typeid.for", _typeid), ("llvm.load.relative", _load_rel),
    ("llvm.is.constant", lambda E, st, k, a: False), ("llvm.expect", lambda E, st, k, a, b: a),
    ("llvm.objectsize", lambda E, st, k, *a: (1 << 64) - 1), ("llvm.threadlocal.address", thread_local),
]
