"""Verification-condition generator: symbolic execution of LLVM IR of the real code, path by path.

Every proof function (vcproof__*) states one contract: vc_assume = requires, vc_assert = ensures.  Memory is object based
(object id + 64-bit byte offset); loops with a symbolic trip count are cut with inductive invariants (loops.py)."""
import json, re, sys, time, os
import z3
import lia
import lia2

z3.set_param('model.completion', True)
BV64 = z3.BitVecSort(64)
ARR = z3.ArraySort(BV64, z3.BitVecSort(8))
M64 = (1 << 64) - 1
MAXSIZE = 1 << 47


class EngineError(Exception):
    """the tool cannot decide (unsupported construct, limit): never a violation"""


class PathEnd(Exception):
    pass


class Ptr:
    __slots__ = ('o', 'off')

    def __init__(self, o, off):
        self.o = o
        self.off = off

    def __repr__(self):
        return 'Ptr(%s,%s)' % (self.o, self.off)


def isc(v):
    return type(v) is int


_simp = {}


def simp(e):
    r = z3.simplify(e)
    if z3.is_bv_value(r):
        return r.as_long()
    if z3.is_true(r):
        return 1
    if z3.is_false(r):
        return 0
    return r


def bv(v, w):
    if type(v) is int:
        return z3.BitVecVal(v, w)
    if w == 1 and z3.is_bool(v):
        return z3.If(v, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
    return v


def tobool(v):
    if type(v) is int:
        return z3.BoolVal(bool(v))
    if z3.is_bool(v):
        return v
    return v == z3.BitVecVal(1, v.size())


_dcache = {}
_keep = []


def diff(a, b):
    """a-b as python int (signed) when syntactically constant, else z3 term"""
    if type(a) is int and type(b) is int:
        return a - b
    if type(a) is not int and type(b) is not int and a.eq(b):
        return 0
    ka = a if type(a) is int else ('t', a.get_id())
    kb = b if type(b) is int else ('t', b.get_id())
    r = _dcache.get((ka, kb))
    if r is None:
        d = z3.simplify(bv(a, 64) - bv(b, 64))
        if z3.is_bv_value(d):
            x = d.as_long()
            r = x - (1 << 64) if x >> 63 else x
        else:
            r = d
        _dcache[(ka, kb)] = r
        _keep.append((a, b))
    return r


def add64(a, b):
    if type(a) is int and type(b) is int:
        return (a + b) & M64
    if type(b) is int and b == 0:
        return a
    if type(a) is int and a == 0:
        return b
    r = z3.simplify(bv(a, 64) + bv(b, 64))
    if z3.is_bv_value(r):
        return r.as_long()
    return r


def mul64(a, k):
    if type(a) is int:
        return (a * k) & M64
    if k == 1:
        return a
    return simp(a * z3.BitVecVal(k & M64, 64))


def sx(v, w):
    return v - (1 << w) if v >> (w - 1) else v


_mult = {}


def multof(t, k):
    """syntactic: is 64-bit term t a multiple of k (k power of two or any for products)"""
    if type(t) is int:
        return sx(t & M64, 64) % k == 0
    if k == 1:
        return True
    key = (t.get_id(), k)
    r = _mult.get(key)
    if r is not None:
        return r
    r = False
    d = t.decl().kind()
    if d == z3.Z3_OP_BADD:
        r = all(multof_t(c, k) for c in t.children())
    elif d == z3.Z3_OP_BMUL:
        r = any(multof_t(c, k) for c in t.children())
    elif d == z3.Z3_OP_CONCAT and (k & (k - 1)) == 0:
        last = t.children()[-1]
        n = k.bit_length() - 1
        if z3.is_bv_value(last) and last.size() >= n and last.as_long() % k == 0:
            r = True
    elif d == z3.Z3_OP_ITE:
        r = multof_t(t.arg(1), k) and multof_t(t.arg(2), k)
    elif d == z3.Z3_OP_BNEG:
        r = multof_t(t.arg(0), k)
    elif d == z3.Z3_OP_BSUB:
        r = all(multof_t(c, k) for c in t.children())
    _mult[key] = r
    _keep.append(t)
    return r


def multof_t(c, k):
    if z3.is_bv_value(c):
        return sx(c.as_long(), c.size()) % k == 0
    return multof(c, k)


# ---------------------------------------------------------------- byte chains (functional memory contents)
class Base:
    __slots__ = ('arr',)

    def __init__(self, arr):
        self.arr = arr


class Const0:
    __slots__ = ('b',)

    def __init__(self, b=0):
        self.b = b


class Store:
    __slots__ = ('p', 'off', 'n', 'v')

    def __init__(self, p, off, n, v):
        self.p, self.off, self.n, self.v = p, off, n, v


class Fill:
    __slots__ = ('p', 'off', 'n', 'b')

    def __init__(self, p, off, n, b):
        self.p, self.off, self.n, self.b = p, off, n, b


class Copy:
    __slots__ = ('p', 'off', 'n', 'src', 'soff')

    def __init__(self, p, off, n, src, soff):
        self.p, self.off, self.n, self.src, self.soff = p, off, n, src, soff


class MapR:
    """elements i in [0,cnt): bytes [off+es*i, +es) hold f(i); es-sized elements"""
    __slots__ = ('p', 'off', 'cnt', 'es', 'f')

    def __init__(self, p, off, cnt, es, f):
        self.p, self.off, self.cnt, self.es, self.f = p, off, cnt, es, f


def ext(v, n, i):
    """byte i of an n-byte little-endian value"""
    if type(v) is int:
        return (v >> (8 * i)) & 255
    if n == 1:
        return v
    return simp(z3.Extract(8 * i + 7, 8 * i, v))


def part(v, n, i, m):
    """bytes i..i+m of an n-byte little-endian value"""
    if type(v) is int:
        return (v >> (8 * i)) & ((1 << (8 * m)) - 1)
    if m == n:
        return v
    return simp(z3.Extract(8 * (i + m) - 1, 8 * i, v))


def cat(bs):
    """little-endian list of bytes -> value"""
    if all(type(b) is int for b in bs):
        r = 0
        for i, b in enumerate(bs):
            r |= b << (8 * i)
        return r
    if len(bs) == 1:
        return bs[0]
    x = bs[0]
    if type(x) is not int and z3.is_app_of(x, z3.Z3_OP_ITE):
        c = x.arg(0)
        if all(type(b) is not int and z3.is_app_of(b, z3.Z3_OP_ITE) and b.arg(0).eq(c) for b in bs):
            def num(v):
                return v.as_long() if z3.is_bv_value(v) else v
            return ite(c, cat([num(b.arg(1)) for b in bs]), cat([num(b.arg(2)) for b in bs]), 8 * len(bs))
    return simp(z3.Concat(*[bv(b, 8) for b in reversed(bs)]))


def ite(c, a, b, w):
    if type(c) is int:
        return a if c else b
    if type(a) is int and type(b) is int and a == b:
        return a
    if type(a) is not int and type(b) is not int and a.eq(b):
        return a
    return z3.If(c, bv(a, w), bv(b, w))


def inrange(d, n):
    """d (diff, int or term) in [0,n)?  -> int or Bool"""
    if type(d) is int and type(n) is int:
        return 1 if 0 <= d < n else 0
    if type(d) is int and d < 0:
        # unsigned wrap: d<0 means huge
        return 0
    return simp(z3.ULT(bv(d if type(d) is not int else d & M64, 64), bv(n, 64)))


class Reader:
    """reads bytes/elements of a chain; decide(cond)-> 1/0/None lets a state prune with its path condition"""

    def __init__(self, decide=None):
        self.decide = decide
        self.cache = {}

    def dec(self, c):
        if type(c) is int or self.decide is None:
            return c
        r = self.decide(c)
        return c if r is None else r

    def byte(self, node, off):
        key = (id(node), off if type(off) is int else ('t', off.get_id()))
        r = self.cache.get(key)
        if r is not None:
            return r[0]
        r = self._byte(node, off)
        self.cache[key] = (r, node, off)
        return r

    def _byte(self, node, off):
        conds = []
        while True:
            if isinstance(node, Store):
                d = diff(off, node.off)
                c = inrange(d, node.n)
                if node.n == 1 and type(d) is not int:
                    c = simp(bv(off, 64) == bv(node.off, 64))
                if type(c) is not int:
                    c = self.dec(c)
                if type(c) is int and c == 1:
                    if type(d) is int:
                        v = ext(node.v, node.n, d)
                    else:
                        v = ext(node.v, node.n, node.n - 1)
                        for i in range(node.n - 2, -1, -1):
                            v = ite(simp(d == i), ext(node.v, node.n, i), v, 8)
                    break
                if type(c) is int:
                    node = node.p
                    continue
                v = ext(node.v, node.n, node.n - 1)
                for i in range(node.n - 2, -1, -1):
                    v = ite(simp(bv(d, 64) == i), ext(node.v, node.n, i), v, 8)
                conds.append((c, v))
                node = node.p
            elif isinstance(node, Fill):
                c = self.dec(inrange(diff(off, node.off), node.n))
                if type(c) is int:
                    if c:
                        v = node.b
                        break
                else:
                    conds.append((c, node.b))
                node = node.p
            elif isinstance(node, Copy):
                d = diff(off, node.off)
                c = self.dec(inrange(d, node.n))
                if type(c) is int:
                    if c:
                        off = add64(node.soff, d & M64 if type(d) is int else d)
                        node = node.src
                        continue
                else:
                    conds.append((c, self.byte(node.src, add64(node.soff, d & M64 if type(d) is int else d))))
                node = node.p
            elif isinstance(node, MapR):
                d = diff(off, node.off)
                tot = mul64(node.cnt, node.es)
                c = self.dec(inrange(d, tot))
                if type(c) is int and not c:
                    node = node.p
                    continue
                db = bv(d & M64 if type(d) is int else d, 64)
                if node.es == 1:
                    v = node.f(db)
                    v = simp(v) if type(v) is not int else v
                else:
                    idx = simp(z3.UDiv(db, z3.BitVecVal(node.es, 64)))
                    rem = simp(z3.URem(db, z3.BitVecVal(node.es, 64)))
                    w = node.f(bv(idx, 64))
                    v = ext(w, node.es, node.es - 1)
                    for i in range(node.es - 2, -1, -1):
                        v = ite(simp(bv(rem, 64) == i), ext(w, node.es, i), v, 8)
                if type(c) is int:
                    break
                conds.append((c, v))
                node = node.p
            elif isinstance(node, Const0):
                v = node.b
                break
            else:
                v = simp(z3.Select(node.arr, bv(off, 64)))
                break
        for c, x in reversed(conds):
            v = ite(c, x, v, 8)
        return v

    def word(self, node, off, n):
        if n == 1:
            return self.byte(node, off)
        key = (id(node), off if type(off) is int else ('t', off.get_id()), n)
        r = self.cache.get(key)
        if r is not None:
            return r[0]
        r = self._word(node, off, n)
        self.cache[key] = (r, node, off)
        return r

    def _word(self, node, off, n):
        conds = []
        w = 8 * n
        v = None
        while True:
            if isinstance(node, Store):
                d = diff(off, node.off)
                if type(d) is int:
                    if d == 0 and node.n == n:
                        v = node.v
                        break
                    if d >= node.n or d + n <= 0:
                        node = node.p
                        continue
                    if d >= 0 and d + n <= node.n:
                        v = cat([ext(node.v, node.n, d + i) for i in range(n)])
                        break
                    v = cat([self.byte(node, add64(off, i)) for i in range(n)])
                    break
                if node.n == n and multof(d, n):
                    c = self.dec(simp(d == 0))
                    if type(c) is int:
                        if c:
                            v = node.v
                            break
                    else:
                        conds.append((c, node.v))
                    node = node.p
                    continue
            elif isinstance(node, (Fill, Copy, MapR)):
                d = diff(off, node.off)
                tot = mul64(node.cnt, node.es) if isinstance(node, MapR) else node.n
                aligned = multof(d, n) and multof(tot, n)
                if not aligned:
                    # wholly inside / wholly outside by the path condition?
                    db = bv(d & M64 if type(d) is int else d, 64)
                    nb = bv(tot, 64)
                    ins = self.dec(simp(z3.And(z3.ULT(db, nb), z3.ULE(z3.BitVecVal(n, 64), nb - db))))
                    if type(ins) is int and ins:
                        c = 1
                    else:
                        outs = self.dec(simp(z3.And(z3.UGE(db, nb), z3.Or(z3.ULE(db, z3.BitVecVal(1 << 62, 64)), z3.ULE(db, z3.BitVecVal((1 << 64) - n, 64))))))
                        if type(outs) is int and outs:
                            c = 0
                        else:
                            v = cat([self.byte(node, add64(off, i)) for i in range(n)])
                            break
                else:
                    c = self.dec(inrange(d, tot))
                if type(c) is int and not c:
                    node = node.p
                    continue
                if isinstance(node, Fill):
                    b = node.b
                    x = cat([b] * n)
                elif isinstance(node, Copy):
                    so = add64(node.soff, d & M64 if type(d) is int else d)
                    if type(c) is int:
                        off, node = so, node.src
                        continue
                    x = self.word(node.src, so, n)
                else:
                    db = bv(d & M64 if type(d) is int else d, 64)
                    if node.es == n and multof(d, n):
                        idx = simp(z3.UDiv(db, z3.BitVecVal(n, 64)))
                        x = node.f(bv(idx, 64))
                        x = simp(x) if type(x) is not int else x
                    elif node.es % n == 0 and node.es > n and multof(d, n):
                        x = cat([self.byte(node, add64(off, i)) for i in range(n)])
                    elif n % node.es == 0 and multof(d, node.es):
                        q = simp(z3.UDiv(db, z3.BitVecVal(node.es, 64)))
                        x = None
                        parts = [node.f(bv(add64(q, i), 64)) for i in range(n // node.es)]
                        x = simp(z3.Concat(*[bv(p, 8 * node.es) for p in reversed(parts)]))
                    else:
                        v = cat([self.byte(node, add64(off, i)) for i in range(n)])
                        break
                if type(c) is int:
                    v = x
                    break
                conds.append((c, x))
                node = node.p
                continue
            elif isinstance(node, Const0):
                v = cat([node.b] * n)
                break
            else:
                v = cat([simp(z3.Select(node.arr, bv(add64(off, i), 64))) for i in range(n)])
                break
            v = cat([self.byte(node, add64(off, i)) for i in range(n)])
            break
        for c, x in reversed(conds):
            v = ite(c, x, v, w)
        return v


# ---------------------------------------------------------------- objects / state
class Obj:
    __slots__ = ('size', 'cells', 'chain', 'alive', 'kind', 'name', 'dflt', 'owner', 'ro', 'align')

    def __init__(self, size, kind, name, dflt, owner, chain=None):
        self.size, self.kind, self.name, self.dflt, self.owner, self.chain = size, kind, name, dflt, owner, chain
        self.cells = {}
        self.alive = True
        self.ro = False

    def copy(self, owner):
        o = Obj(self.size, self.kind, self.name, self.dflt, owner, self.chain)
        o.cells = dict(self.cells)
        o.alive = self.alive
        o.ro = self.ro
        return o


class Frame:
    __slots__ = ('fn', 'b', 'ip', 'regs', 'prev', 'ret', 'norm', 'unw', 'allocas', 'loops', 'callip')

    def __init__(self, fn):
        self.fn = fn
        self.b = 0
        self.ip = 0
        self.regs = [None] * fn['nv']
        self.prev = -1
        self.ret = -1
        self.norm = None
        self.unw = None
        self.allocas = []
        self.loops = {}

    def clone(self):
        f = Frame.__new__(Frame)
        f.fn, f.b, f.ip, f.prev, f.ret, f.norm, f.unw = self.fn, self.b, self.ip, self.prev, self.ret, self.norm, self.unw
        f.regs = list(self.regs)
        f.allocas = list(self.allocas)
        f.loops = dict(self.loops)
        return f


class PC:
    __slots__ = ('p', 'c', 'depth', 'id')

    def __init__(self, p, c):
        self.p, self.c = p, c
        self.id = c.get_id()
        self.depth = p.depth + 1 if p else 1


class State:
    def __init__(self):
        self.frames = []
        self.mem = {}
        self.pc = None
        self.caught = []
        self.exc = None
        self.log = None       # linked list of nondet values
        self.tok = object()
        self.model = None
        self.live = 0
        self.steps = 0
        self.cutstack = []    # loop-cut sub-exploration marker
        self.writes = None    # write recorder for loop inference
        self.facts = None     # linked list of universally quantified facts (fn: term->Bool)
        self.locks = {}
        self.misc = {}
        self.other = None     # the suspended thread: frames, caught, exc

    def clone(self):
        s = State.__new__(State)
        s.frames = [f.clone() for f in self.frames]
        s.mem = dict(self.mem)
        s.pc, s.exc, s.log, s.live, s.steps = self.pc, self.exc, self.log, self.live, self.steps
        s.caught = list(self.caught)
        s.model = self.model
        s.cutstack = self.cutstack
        s.writes = self.writes
        s.facts = self.facts
        s.locks = dict(self.locks)
        s.misc = dict(self.misc)
        s.other = self.other and ([f.clone() for f in self.other[0]], list(self.other[1]), self.other[2])
        s.tok = object()
        self.tok = object()
        return s

    def obj(self, i):
        return self.mem[i]

    def wobj(self, i):
        o = self.mem[i]
        if o.owner is not self.tok:
            o = o.copy(self.tok)
            self.mem[i] = o
        return o


class Solver:
    """incremental solvers kept aligned with the path condition: bit-vectors, and their integer translation (lia.py)"""

    def __init__(self, stats, bits=False):
        self.stats = stats
        self.bits = bits        # bit-level contracts: no integer translation
        self.n = 0
        self.reset()

    def reset(self):
        self.s = z3.Solver()
        self.stack = []
        self.l = lia.Lia()
        self.lstack = []

    def align(self, pc, s, st):
        want = []
        n = pc
        while n is not None:
            want.append(n)
            n = n.p
        want.reverse()
        k = 0
        while k < len(st) and k < len(want) and st[k] is want[k]:
            k += 1
        if s is self.l:
            while len(st) > k:
                s.pop()
                st.pop()
        elif len(st) > k:
            s.pop(len(st) - k)
            del st[k:]
        for n in want[k:]:
            s.push()
            s.add(n.c)
            st.append(n)

    def bvcheck(self, pc, extra, timeout, want_model):
        self.align(pc, self.s, self.stack)
        self.s.set('timeout', timeout)
        if extra is not None:
            self.s.push()
            self.s.add(extra)
        r = self.s.check()
        m = None
        if r == z3.sat and want_model:
            m = self.s.model()
        if extra is not None:
            self.s.pop()
        return str(r), m

    def check(self, pc, extra=None, timeout=1500, want_model=False):
        self.n += 1
        if self.n % 4000 == 0:
            self.reset()
        t = time.time()
        try:
            self.stats['queries'] += 1
            if self.bits:
                return self.bvcheck(pc, extra, timeout, want_model)
            l = self.l
            self.align(pc, l, self.lstack)
            if not l.exact():
                r = self.bvcheck(pc, extra, min(timeout, 250), want_model)
                if r[0] != 'unknown':
                    return r
            l.push()
            try:
                if extra is not None:
                    l.add(extra)
                if l.exact() or timeout > 250:
                    l.s.set('timeout', 200)
                    r = str(l.s.check())
                    exact = l.exact()
                    if r == 'unknown' or (r == 'sat' and not exact and want_model):
                        if lia2.prove(pc_list(pc) + ([] if extra is None else [extra]), min(timeout, 3000 if r == 'unknown' else 500)) == 'unsat':
                            self.stats['lia'] = self.stats.get('lia', 0) + 1
                            return 'unsat', None
                        if r == 'unknown':
                            r, exact = lia.prove(pc_list(pc) + ([] if extra is None else [extra]), min(timeout, 3000))
                    if r == 'unsat':
                        self.stats['lia'] = self.stats.get('lia', 0) + 1
                        return r, None
                    if r == 'sat' and exact and not want_model:
                        return r, None
            finally:
                l.pop()
            return self.bvcheck(pc, extra, timeout, want_model)
        finally:
            self.stats['solver_s'] += time.time() - t


def pc_list(pc):
    r = []
    while pc is not None:
        r.append(pc.c)
        pc = pc.p
    r.reverse()
    return r
