"""Trusted models of what lies outside the verified text: the C/C++ runtime, pthreads, LLVM intrinsics and the vc_* vocabulary."""
import re
import z3
from core import *
import loops

STD = '_ZTISt'
STD_BASES = {
    '_ZTISt13runtime_error': ['_ZTISt9exception'], '_ZTISt11logic_error': ['_ZTISt9exception'],
    '_ZTISt12length_error': ['_ZTISt11logic_error'], '_ZTISt12out_of_range': ['_ZTISt11logic_error'],
    '_ZTISt16invalid_argument': ['_ZTISt11logic_error'], '_ZTISt12domain_error': ['_ZTISt11logic_error'],
    '_ZTISt9bad_alloc': ['_ZTISt9exception'], '_ZTISt20bad_array_new_length': ['_ZTISt9bad_alloc'],
    '_ZTISt8bad_cast': ['_ZTISt9exception'], '_ZTISt17bad_function_call': ['_ZTISt9exception'],
    '_ZTISt11range_error': ['_ZTISt13runtime_error'], '_ZTISt14overflow_error': ['_ZTISt13runtime_error'],
    '_ZTISt15underflow_error': ['_ZTISt13runtime_error'],
}
THROWS = {
    '_ZSt20__throw_length_errorPKc': '_ZTISt12length_error', '_ZSt17__throw_bad_allocv': '_ZTISt9bad_alloc',
    '_ZSt28__throw_bad_array_new_lengthv': '_ZTISt20bad_array_new_length', '_ZSt20__throw_out_of_rangePKc': '_ZTISt12out_of_range',
    '_ZSt24__throw_out_of_range_fmtPKcz': '_ZTISt12out_of_range', '_ZSt19__throw_logic_errorPKc': '_ZTISt11logic_error',
    '_ZSt24__throw_invalid_argumentPKc': '_ZTISt16invalid_argument', '_ZSt25__throw_bad_function_callv': '_ZTISt17bad_function_call',
    '_ZSt21__throw_runtime_errorPKc': '_ZTISt13runtime_error', '_ZSt16__throw_bad_castv': '_ZTISt8bad_cast', '__cxa_bad_cast': '_ZTISt8bad_cast',
    '__cxa_throw_bad_array_new_length': '_ZTISt20bad_array_new_length',
}


def setup(e):
    pass


def at_end(e, st):
    pass


def cstr(e, st, p):
    o = st.obj(p.o)
    r = []
    i = 0
    while True:
        c = e.load(st, Ptr(p.o, p.off + i), 1, 8)
        if type(c) is not int:
            raise EngineError('label not constant')
        if c == 0:
            break
        r.append(chr(c))
        i += 1
    return ''.join(r)


# ---------------------------------------------------------------- vocabulary
def vc_nondet(e, st, fr, ins, a):
    w = a[0]
    v = e.fresh(w if w > 1 else 1, 'in')
    st.log = (st.log, ('v', v, w))
    if w == 1:
        return z3.If(v, z3.BitVecVal(1, 64), z3.BitVecVal(0, 64))
    return z3.ZeroExt(64 - w, v) if w < 64 else v


def vc_ghost(e, st, fr, ins, a):
    # arbitrary value of an assumed contract (not an input of the proof; never replayed)
    v = e.fresh(a[0], 'ghost')
    return z3.ZeroExt(64 - a[0], v) if a[0] < 64 else v


def vc_pick(e, st, fr, ins, a):
    # a value below the constant a[0], one path for each
    n = a[0]
    if type(n) is not int:
        raise EngineError('vc_pick needs a constant')
    v = st.misc.pop('pick', None)
    if v is None:
        for i in range(n - 1, 0, -1):
            c = st.clone()
            c.misc['pick'] = i
            e.push(c)
        v = 0
    st.log = (st.log, ('v', z3.BitVecVal(v, 64), 64))
    return v


def vc_fibre(e, st, fr, ins, a):
    # a second thread, suspended at the start of the function given
    keep, st.frames = st.frames, []
    e.enter(st, e.m.funcs[st.obj(a[0].o).name], [])
    st.other, st.frames = (st.frames, [], None), keep


def vc_switch(e, st, fr, ins, a):
    # control passes to the suspended thread; the running one is suspended after this call
    mine = (st.frames, st.caught, st.exc)
    (st.frames, st.caught, st.exc), st.other = st.other, mine


def vc_bytes(e, st, fr, ins, a, es=1):
    n = a[0]
    if type(n) is not int:
        e.assume(st, z3.ULE(n, z3.BitVecVal(1 << 40, 64)))
    e.nsym += 1
    arr = z3.Array('mem!%d' % e.nsym, BV64, z3.BitVecSort(8))
    size = mul64(n, es)
    i = e.newobj(st, size, 'proof', 'bytes#%d' % e.nsym, 'undef', Base(arr))
    st.log = (st.log, ('bytes', size, arr))
    return Ptr(i, 0)


def vc_words(e, st, fr, ins, a):
    return vc_bytes(e, st, fr, ins, a, a[1])


def vc_havoc(e, st, fr, ins, a):
    p, n = a
    e.nsym += 1
    arr = z3.Array('mem!%d' % e.nsym, BV64, z3.BitVecSort(8))
    i = e.newobj(st, n, 'proof', 'havoc', 'undef', Base(arr))
    st.log = (st.log, ('bytes', n, arr))
    if type(n) is int and n <= 16:
        e.store(st, p, e.load(st, Ptr(i, 0), n, 8 * n), n, 8 * n)
    else:
        e.memcpy(st, p, Ptr(i, 0), n)


def vc_assume(e, st, fr, ins, a):
    c = a[0]
    if type(c) is not int:
        c = simp(c != 0)
    e.assume(st, c)


def vc_assert(e, st, fr, ins, a):
    c = a[0]
    if type(c) is not int:
        c = simp(c != 0)
    elif c:
        c = 1
    e.vc(st, c, cstr(e, st, a[1]))


def vc_cover(e, st, fr, ins, a):
    l = cstr(e, st, a[0])
    if e.covers.get(l) == 'sat':
        return
    r, m = e.solver.check(st.pc, None, 5000, False)
    if r == 'sat' or l not in e.covers:
        e.covers[l] = r


def vc_bounded(e, st, fr, ins, a):
    l = cstr(e, st, a[0])
    if l not in e.bounded:
        e.bounded.append(l)


def vc_live(e, st, fr, ins, a):
    return st.live


def vc_native(e, st, fr, ins, a):
    return 0


def vc_is_const(e, st, fr, ins, a):
    return 1 if type(a[0]) is int else 0


def vc_note(e, st, fr, ins, a):
    st.log = (st.log, ('note', cstr(e, st, a[0]), a[1]))


# ---------------------------------------------------------------- allocation
def heap(e, st, n, name):
    if type(n) is not int:
        if not e.fork(st, z3.ULE(n, z3.BitVecVal(MAXSIZE, 64))):
            return None
    elif n > MAXSIZE:
        return None
    st.live += 1
    ch = None
    if type(n) is not int:
        e.nsym += 1
        ch = Base(z3.Array('heap!%d' % e.nsym, BV64, z3.BitVecSort(8)))
    return Ptr(e.newobj(st, n, 'heap', name, 'undef', ch), 0)


def throw_std(e, st, ti):
    i = e.newobj(st, 64, 'exc', ti)
    e.throw(st, i, ti)


def m_new(e, st, fr, ins, a):
    from execu import NORET
    p = heap(e, st, a[0], 'new@%s' % fr.fn['d'][:60])
    if p is None:
        throw_std(e, st, '_ZTISt9bad_alloc')
        return NORET
    return p


def m_malloc(e, st, fr, ins, a):
    p = heap(e, st, a[0], 'malloc')
    return 0 if p is None else p


def m_calloc(e, st, fr, ins, a):
    n = simp(bv(a[0], 64) * bv(a[1], 64)) if type(a[0]) is not int or type(a[1]) is not int else a[0] * a[1]
    p = heap(e, st, n, 'calloc')
    if p is None:
        return 0
    o = st.wobj(p.o)
    o.dflt = 'zero'
    if o.chain is not None:
        o.chain = Const0(0)
    return p


def m_free(e, st, fr, ins, a):
    p = a[0]
    if not isinstance(p, Ptr):
        if type(p) is int and p == 0:
            return
        e.ubcheck(st, 0, 'safety: only heap memory is freed')
        return
    o = st.obj(p.o)
    e.ubcheck(st, int(o.alive), 'safety: no double free')
    ok = o.kind == 'heap'
    e.ubcheck(st, int(ok), 'safety: only heap memory is freed')
    e.ubcheck(st, int(p.off == 0) if type(p.off) is int else simp(p.off == 0), 'safety: only heap memory is freed')
    o = st.wobj(p.o)
    o.alive = False
    o.cells = {}
    o.chain = None
    st.live -= 1


def m_memcpy(e, st, fr, ins, a):
    e.memcpy(st, a[0], a[1], a[2])
    return a[0]


def m_memmove(e, st, fr, ins, a):
    e.memcpy(st, a[0], a[1], a[2], True)
    return a[0]


def m_memset(e, st, fr, ins, a):
    v = a[1]
    if ins[5][1][1] != 8:
        v = v & 255 if type(v) is int else simp(z3.Extract(7, 0, v))
    e.memset(st, a[0], v, a[2])
    return a[0]


def m_strlen(e, st, fr, ins, a):
    p = a[0]
    i = 0
    while True:
        c = e.load(st, e.padd(p, i), 1, 8)
        if type(c) is int:
            if c == 0:
                return i
        elif e.fork(st, c == 0):
            return i
        i += 1
        if i > 5000:
            raise EngineError('strlen')


def m_memcmp(e, st, fr, ins, a):
    n = a[2]
    w = ins[2]
    n = loops.split(e, st, n, 'memcmp')
    if n == 0:
        return 0
    e.access(st, a[0], n, 'read')
    e.access(st, a[1], n, 'read')
    r = z3.BitVecVal(0, w)
    xs = []
    for i in range(n):
        x = e.load(st, e.padd(a[0], i), 1, 8)
        y = e.load(st, e.padd(a[1], i), 1, 8)
        xs.append((x, y))
    if all(type(x) is int and type(y) is int for x, y in xs):
        for x, y in xs:
            if x != y:
                return 1 if x > y else (1 << w) - 1
        return 0
    for x, y in reversed(xs):
        x, y = bv(x, 8), bv(y, 8)
        r = z3.If(x == y, r, z3.If(z3.UGT(x, y), z3.BitVecVal(1, w), z3.BitVecVal((1 << w) - 1, w)))
    return simp(r)


def m_strcmp(e, st, fr, ins, a):
    if isinstance(a[0], Ptr) and isinstance(a[1], Ptr) and a[0].o == a[1].o and type(a[0].off) is int and a[0].off == a[1].off:
        return 0
    w = ins[2]
    for i in range(5000):
        x = e.load(st, e.padd(a[0], i), 1, 8)
        y = e.load(st, e.padd(a[1], i), 1, 8)
        if type(x) is int and type(y) is int:
            if x != y:
                return 1 if x > y else (1 << w) - 1
            if x == 0:
                return 0
            continue
        x, y = bv(x, 8), bv(y, 8)
        if not e.fork(st, simp(x == y)):
            return simp(z3.If(z3.UGT(x, y), z3.BitVecVal(1, w), z3.BitVecVal((1 << w) - 1, w)))
        if e.fork(st, simp(x == 0)):
            return 0
    raise EngineError('strcmp')


# the "C" locale: only the ASCII letters have case
def case_model(lo, hi, d):
    def m(e, st, fr, ins, a):
        w = ins[2]
        c = a[0]
        if type(c) is int:
            return (c + d) % (1 << w) if lo <= c <= hi else c
        return simp(z3.If(z3.And(z3.UGE(c, lo), z3.ULE(c, hi)), c + d, c))
    return m


def m_memchr(e, st, fr, ins, a):
    n = a[2]
    n = loops.split(e, st, n, 'memchr')
    c = a[1] & 255 if type(a[1]) is int else simp(z3.Extract(7, 0, a[1]))
    for i in range(n):
        x = e.load(st, e.padd(a[0], i), 1, 8)
        if e.fork(st, simp(bv(x, 8) == bv(c, 8))):
            return e.padd(a[0], i)
    return 0


# ---------------------------------------------------------------- exceptions
def m_alloc_exc(e, st, fr, ins, a):
    return Ptr(e.newobj(st, a[0] if type(a[0]) is int else 256, 'exc', 'exception'), 0)


def m_throw(e, st, fr, ins, a):
    from execu import NORET
    ti = st.obj(a[1].o).name
    e.throw(st, a[0].o, ti)
    return NORET


def m_begin_catch(e, st, fr, ins, a):
    p = a[0]
    if p.o not in st.misc.get('ti', {}):
        raise EngineError('begin_catch')
    st.caught.append(p.o)
    return e.padd(p, st.misc['adj'].get(p.o, 0) & M64)


def m_get_exc_ptr(e, st, fr, ins, a):
    return e.padd(a[0], st.misc['adj'].get(a[0].o, 0) & M64)


def m_end_catch(e, st, fr, ins, a):
    if not st.caught:
        raise EngineError('end_catch')
    st.caught.pop()


def m_rethrow(e, st, fr, ins, a):
    from execu import NORET
    if not st.caught:
        raise EngineError('rethrow')
    o = st.caught[-1]
    e.throw(st, o, st.misc['ti'][o])
    return NORET


def m_typeid(e, st, fr, ins, a):
    if isinstance(a[0], Ptr):
        return e.ehid(st.obj(a[0].o).name)
    return e.ehid('*')


def m_tid(e, st, fr, ins, a):
    # the calling thread has an identity of its own; it does not change within one sequential proof
    return 4711


def m_demangle(e, st, fr, ins, a):
    # the name is left as it is (status: not a mangled name); no statement speaks of type names
    e.store(st, a[3], (-2) & 0xFFFFFFFF, 4, 32)
    return 0


def m_terminate(e, st, fr, ins, a):
    e.vc(st, 0, 'safety: std::terminate is not reached', 'safety')
    raise PathEnd()


def m_trap(e, st, fr, ins, a):
    e.vc(st, 0, 'safety: no trap/abort', 'safety')
    raise PathEnd()


def m_dyncast(e, st, fr, ins, a):
    p, src, dst, hint = a
    vp = e.load(st, p, 8, 'p')
    if not isinstance(vp, Ptr):
        raise EngineError('dynamic_cast')
    top = e.load(st, Ptr(vp.o, vp.off - 16), 8, 64)
    ti = e.load(st, Ptr(vp.o, vp.off - 8), 8, 'p')
    full = e.padd(p, top if type(top) is int else top)
    bs = [(b, o) for b, o in e.bases(st, st.obj(ti.o).name) if b == st.obj(dst.o).name]
    if len(bs) == 1:
        return e.padd(full, bs[0][1] & M64)
    return 0


def m_guard_acq(e, st, fr, ins, a):
    v = e.load(st, a[0], 1, 8)
    if type(v) is int:
        return 0 if v else 1
    raise EngineError('guard')


def m_guard_rel(e, st, fr, ins, a):
    e.store(st, a[0], 1, 1, 8)


def zero(e, st, fr, ins, a):
    return 0


def nothing(e, st, fr, ins, a):
    return None


RX_STRING = re.compile(r'operator std::__cxx11::basic_string|::(ToString|str)(\[abi:cxx11\])?\(')


def opaque(e, st, fr, ins, a):
    """no effect, arbitrary result (message formatting, logging, backtraces)"""
    e.used.add('opaque: ' + (e.m.funcs[ins[4][1]]['d'][:120] if type(ins[4]) is list and ins[4][0] == 'g' else '?'))
    t = ins[2]
    if t == 'void':
        d = e.m.funcs[ins[4][1]]['d'] if type(ins[4]) is list and ins[4][0] == 'g' else ''
        if RX_STRING.search(d):             # returns a std::string: some text, here the empty one
            e.store(st, a[0], e.padd(a[0], 16), 8, 'p')
            e.store(st, e.padd(a[0], 8), 0, 8, 64)
            e.store(st, e.padd(a[0], 16), 0, 1, 8)
        return None
    if t == 'p':
        # builder style: returns its first argument
        return a[0] if a and isinstance(a[0], Ptr) else Ptr(e.newobj(st, 256, 'opaque', 'opaque'), 0)
    return e.undef(t)


# pthreads: sequential semantics with a lock-state obligation
def lk(st, p):
    return (p.o, p.off if type(p.off) is int else str(p.off))


def m_lock(e, st, fr, ins, a):
    k = lk(st, a[0])
    n = st.locks.get(k, 0)
    st.locks[k] = n + 1
    return 0


def m_unlock(e, st, fr, ins, a):
    k = lk(st, a[0])
    n = st.locks.get(k, 0)
    if n == 0:
        return 1
    st.locks[k] = n - 1
    return 0


# ---------------------------------------------------------------- intrinsics
def i_expect(e, st, fr, ins, a):
    return a[0]


def bits(ins):
    return ins[2]


def i_bswap(e, st, fr, ins, a):
    n = ins[2] // 8
    v = a[0]
    return cat([ext(v, n, n - 1 - i) for i in range(n)])


def i_minmax(op):
    def f(e, st, fr, ins, a):
        w = ins[2]
        x, y = a
        c = e.icmp(st, {'umax': 'ugt', 'umin': 'ult', 'smax': 'sgt', 'smin': 'slt'}[op], w, x, y)
        return ite(c if type(c) is int else c, x, y, w) if type(c) is int else simp(ite(c, x, y, w))
    return f


def i_abs(e, st, fr, ins, a):
    w = ins[2]
    v = a[0]
    if type(v) is int:
        return abs(sx(v, w)) & ((1 << w) - 1)
    return simp(z3.If(v < 0, -v, v))


def i_ovf(op):
    def f(e, st, fr, ins, a):
        w = ins[2][1][1]
        x, y = bv(a[0], w), bv(a[1], w)
        s, o = op[0], op[1:]
        g = z3.SignExt if s == 's' else z3.ZeroExt
        k = w + 1 if o != 'mul' else 2 * w
        X, Y = g(k - w, x), g(k - w, y)
        R = {'add': X + Y, 'sub': X - Y, 'mul': X * Y}[o]
        lo = simp(z3.Extract(w - 1, 0, R))
        return (lo, simp(g(k - w, bv(lo, w)) != R))
    return f


def i_ctpop(e, st, fr, ins, a):
    w = ins[2]
    v = a[0]
    if type(v) is int:
        return bin(v).count('1')
    r = z3.BitVecVal(0, w)
    for i in range(w):
        r = r + z3.ZeroExt(w - 1, z3.Extract(i, i, v))
    return simp(r)


def i_ctlz(e, st, fr, ins, a):
    w = ins[2]
    v = a[0]
    if type(v) is int:
        return w - v.bit_length()
    r = z3.BitVecVal(w, w)
    for i in range(w):
        r = z3.If(z3.Extract(i, i, v) == 1, z3.BitVecVal(w - 1 - i, w), r)
    return simp(r)


def i_cttz(e, st, fr, ins, a):
    w = ins[2]
    v = a[0]
    if type(v) is int:
        return (v & -v).bit_length() - 1 if v else w
    r = z3.BitVecVal(w, w)
    for i in range(w - 1, -1, -1):
        r = z3.If(z3.Extract(i, i, v) == 1, z3.BitVecVal(i, w), r)
    return simp(r)


def i_fsh(left):
    def f(e, st, fr, ins, a):
        w = ins[2]
        x, y, s = a
        if type(s) is int:
            s %= w
            if s == 0:
                return x if left else y
            k = s if left else w - s
            if type(x) is int and type(y) is int:
                return ((x << k) | (y >> (w - k))) & ((1 << w) - 1)
            return simp((bv(x, w) << k) | z3.LShR(bv(y, w), w - k))
        s = z3.URem(bv(s, w), z3.BitVecVal(w, w))
        xx = z3.Concat(bv(x, w), bv(y, w))
        ss = z3.ZeroExt(w, s)
        return simp(z3.Extract(2 * w - 1, w, xx << ss) if left else z3.Extract(w - 1, 0, z3.LShR(xx, ss)))
    return f


def i_sat(op):
    def f(e, st, fr, ins, a):
        w = ins[2]
        x, y = bv(a[0], w), bv(a[1], w)
        if op == 'usub':
            return simp(z3.If(z3.UGE(x, y), x - y, z3.BitVecVal(0, w)))
        if op == 'uadd':
            return simp(z3.If(z3.ULT(x + y, x), z3.BitVecVal((1 << w) - 1, w), x + y))
        raise EngineError('sat')
    return f


def i_ucmp(e, st, fr, ins, a):
    raise EngineError('ucmp')


def i_fabs(e, st, fr, ins, a):
    return z3.simplify(z3.fpAbs(a[0]))


def i_round(mode):
    def f(e, st, fr, ins, a):
        return z3.simplify(z3.fpRoundToIntegral(mode(), a[0]))
    return f


def m_fmuladd(e, st, fr, ins, a):
    return z3.simplify(z3.fpAdd(z3.RNE(), z3.fpMul(z3.RNE(), a[0], a[1]), a[2]))


EXACT = {
    'vc_fibre': vc_fibre, 'vc_switch': vc_switch, 'vc_nondet': vc_nondet, 'vc_pick': vc_pick, 'vc_ghost': vc_ghost, 'vc_bytes': vc_bytes, 'vc_words': vc_words, 'vc_havoc': vc_havoc, 'vc_assume': vc_assume, 'vc_assert': vc_assert,
    'vc_cover': vc_cover, 'vc_bounded': vc_bounded, 'vc_live': vc_live, 'vc_native': vc_native, 'vc_is_const': vc_is_const, 'vc_note': vc_note,
    '_Znwm': m_new, '_Znam': m_new, '_ZnwmSt11align_val_t': m_new, 'malloc': m_malloc, 'calloc': m_calloc,
    '_ZnwmRKSt9nothrow_t': m_malloc, '_ZnamRKSt9nothrow_t': m_malloc,
    '_ZdlPv': m_free, '_ZdlPvm': m_free, '_ZdaPv': m_free, '_ZdaPvm': m_free, 'free': m_free, '_ZdlPvRKSt9nothrow_t': m_free,
    'memcpy': m_memcpy, 'memmove': m_memmove, 'memset': m_memset, 'strlen': m_strlen, 'strcmp': m_strcmp, 'tolower': case_model(65, 90, 32), 'toupper': case_model(97, 122, -32), 'memcmp': m_memcmp, 'bcmp': m_memcmp, 'memchr': m_memchr,
    '__cxa_allocate_exception': m_alloc_exc, '__cxa_free_exception': nothing, '__cxa_throw': m_throw, '__cxa_begin_catch': m_begin_catch,
    '__cxa_end_catch': m_end_catch, '__cxa_rethrow': m_rethrow, '__cxa_get_exception_ptr': m_get_exc_ptr, '__clang_call_terminate': m_terminate,
    '_ZSt9terminatev': m_terminate, '__cxa_demangle': m_demangle, 'abort': m_trap, '__cxa_pure_virtual': m_trap, '__dynamic_cast': m_dyncast,
    '__cxa_guard_acquire': m_guard_acq, '__cxa_guard_release': m_guard_rel, '__cxa_guard_abort': nothing, '__cxa_atexit': zero, '__cxa_thread_atexit': zero,
    '_ZN8stingray17PosixThreadEngine18GetCurrentThreadIdEv': m_tid, '_ZN8stingray10PosixMutexC1Ev': nothing, '_ZN8stingray10PosixMutexC2Ev': nothing, 'pthread_mutex_trylock': m_lock,
    'pthread_mutex_lock': m_lock, 'pthread_mutex_unlock': m_unlock, 'pthread_mutex_init': zero, 'pthread_mutex_destroy': zero,
    'pthread_mutexattr_init': zero, 'pthread_mutexattr_settype': zero, 'pthread_mutexattr_destroy': zero,
    'pthread_rwlock_init': zero, 'pthread_rwlock_destroy': zero, 'pthread_rwlock_rdlock': m_lock, 'pthread_rwlock_wrlock': m_lock, 'pthread_rwlock_unlock': m_unlock,
    'pthread_rwlockattr_init': zero, 'pthread_rwlockattr_destroy': zero, 'pthread_rwlockattr_setkind_np': zero,
    'pthread_cond_init': zero, 'pthread_cond_destroy': zero, 'pthread_cond_broadcast': zero, 'pthread_cond_signal': zero,
    'pthread_condattr_init': zero, 'pthread_condattr_setclock': zero, 'pthread_condattr_destroy': zero,
    '_ZSt18uncaught_exceptionv': zero, '_ZSt19uncaught_exceptionsv': zero,
}
INTR = {
    'llvm.expect': i_expect, 'llvm.bswap': i_bswap, 'llvm.umax': i_minmax('umax'), 'llvm.umin': i_minmax('umin'), 'llvm.smax': i_minmax('smax'),
    'llvm.smin': i_minmax('smin'), 'llvm.abs': i_abs, 'llvm.ctpop': i_ctpop, 'llvm.ctlz': i_ctlz, 'llvm.cttz': i_cttz, 'llvm.fshl': i_fsh(True), 'llvm.fshr': i_fsh(False),
    'llvm.uadd.with.overflow': i_ovf('uadd'), 'llvm.usub.with.overflow': i_ovf('usub'), 'llvm.umul.with.overflow': i_ovf('umul'),
    'llvm.sadd.with.overflow': i_ovf('sadd'), 'llvm.ssub.with.overflow': i_ovf('ssub'), 'llvm.smul.with.overflow': i_ovf('smul'),
    'llvm.usub.sat': i_sat('usub'), 'llvm.uadd.sat': i_sat('uadd'), 'llvm.memcpy': m_memcpy, 'llvm.memmove': m_memmove, 'llvm.memset': m_memset,
    'llvm.trap': m_trap, 'llvm.eh.typeid.for': m_typeid, 'llvm.assume': nothing, 'llvm.lifetime': nothing, 'llvm.invariant': nothing, 'llvm.is.constant': zero,
    'llvm.fabs': i_fabs, 'llvm.floor': i_round(z3.RTN), 'llvm.ceil': i_round(z3.RTP), 'llvm.trunc': i_round(z3.RTZ), 'llvm.round': i_round(z3.RNA),
    'llvm.fmuladd': m_fmuladd, 'llvm.experimental.noalias': nothing, 'llvm.stacksave': zero, 'llvm.stackrestore': nothing, 'llvm.threadlocal.address': i_expect,
    'llvm.objectsize': lambda e, st, fr, ins, a: M64,
}
OPAQUE = [re.compile(x) for x in (
    r'^std::(runtime_error|logic_error|exception|length_error|out_of_range|invalid_argument|bad_alloc|bad_cast)::',
)]


def lookup(e, name, d):
    h = EXACT.get(name)
    if h is not None:
        return h
    if name in THROWS:
        ti = THROWS[name]

        def f(e, st, fr, ins, a):
            from execu import NORET
            throw_std(e, st, ti)
            return NORET
        return f
    if name.startswith('llvm.'):
        k = name
        while '.' in k:
            if k in INTR:
                return INTR[k]
            k = k[:k.rfind('.')]
        return None
    for rx in OPAQUE:
        if rx.search(d):
            return opaque
    return None
