"""Path executor over the JSON dump of the IR (see core.py)."""
import re, time
import z3
from core import *

FAILED = object()


class ForkEx(Exception):
    def __init__(self, c):
        self.c = c


class Violation:
    def __init__(self, label, kind, where, vals, notes, trace, pc_depth):
        self.label, self.kind, self.where, self.vals, self.notes, self.trace, self.pc_depth = label, kind, where, vals, notes, trace, pc_depth


FPS = {'f32': z3.Float32(), 'f64': z3.Float64()}
RNE = z3.RNE()


class Module:
    def __init__(self, path):
        j = json.load(open(path))
        self.funcs = {f['n']: f for f in j['funcs']}
        self.globals = {g['n']: g for g in j['globals']}
        for f in self.funcs.values():
            if 'blocks' in f:
                f['loopof'] = {}
                f['phis'] = []
                for l in f['loops']:
                    f['loopof'][l['h']] = l
                    l['set'] = set(l['b'])
                for b in f['blocks']:
                    n = 0
                    while n < len(b) and b[n][0] == 'phi':
                        n += 1
                    f['phis'].append(n)


class Exec:
    def __init__(self, module, opts=None):
        self.m = module
        self.o = dict(max_unroll=80, max_steps=4000000, max_paths=20000, timeout=300, vc_timeout=30, opaque=[], replace=[], cut=True, ub=False)
        if opts:
            self.o.update(opts)
        self.stats = dict(queries=0, solver_s=0.0, paths=0, steps=0, vcs=0)
        self.solver = Solver(self.stats, self.o.get('bits'))
        self.nobj = 0
        self.nsym = 0
        self.gobj = {}
        self.fobj = {}
        self.objname = {}
        self.vcs = {}          # label -> dict(discharged, failed, unknown)
        self.violations = []
        self.covers = {}
        self.bounded = []
        self.used = set()      # models of externals used
        self.trusted = set()
        self.functions = set() # real functions executed
        self.loops_cut = []
        self.ehids = {}
        self.addrs = {}
        self.t0 = time.time()
        self.opaque = [re.compile(x) for x in self.o['opaque']]
        self.replace = [(re.compile(a), b) for a, b in self.o['replace']]
        self._callee = {}
        self.backends = {}
        import models
        self.models = models
        models.setup(self)

    # ------------------------------------------------------------ symbols, objects
    def fresh(self, w, name='n'):
        self.nsym += 1
        if w == 1:
            return z3.Bool('%s!%d' % (name, self.nsym))
        return z3.BitVec('%s!%d' % (name, self.nsym), w)

    def newobj(self, st, size, kind, name='', dflt='undef', chain=None):
        self.nobj += 1
        i = self.nobj
        st.mem[i] = Obj(size, kind, name, dflt, st.tok, chain)
        return i

    def global_ptr(self, st, name):
        if name in self.m.funcs and name not in self.m.globals:
            i = self.fobj.get(name)
            if i is None:
                self.nobj += 1
                i = self.fobj[name] = self.nobj
                self.objname[i] = name
            if i not in st.mem:
                st.mem[i] = Obj(1, 'func', name, 'undef', None)
            return Ptr(i, 0)
        i = self.gobj.get(name)
        if i is None:
            self.nobj += 1
            i = self.gobj[name] = self.nobj
        if i not in st.mem:
            g = self.m.globals.get(name)
            if g is None:
                raise EngineError('unknown global ' + name)
            o = Obj(g['size'] if not g['ext'] else max(g['size'], 8), 'global', name, 'undef' if g['ext'] else 'zero', st.tok)
            o.ro = bool(g['const'])
            st.mem[i] = o
            for off, n, ty, c in g['cells']:
                o.cells[off] = (n, self.const(st, c, ty))
            if g['ext'] and name.startswith('_ZTI') and o.size <= 8:    # type information of a library type: its name is known
                o.size = 16
                o.cells[8] = (8, self.ext_name(st, '_ZTS' + name[4:]))
        return Ptr(i, 0)

    def ext_name(self, st, name):
        if name in self.m.globals and not self.m.globals[name]['ext']:
            return self.global_ptr(st, name)
        i = self.gobj.get(name)
        if i is None:
            self.nobj += 1
            i = self.gobj[name] = self.nobj
        if i not in st.mem:
            text = name[4:].encode() + b'\0'
            o = st.mem[i] = Obj(len(text), 'global', name, 'zero', st.tok)
            o.ro = True
            for k, b in enumerate(text):
                o.cells[k] = (1, b)
        return Ptr(i, 0)

    def const(self, st, c, ty=None):
        k = c[0]
        if k == 'i':
            v = c[1]
            if type(ty) is int:
                return v & ((1 << ty) - 1)
            return v
        if k == 'g':
            return self.global_ptr(st, c[1])
        if k == '+':
            p = self.const(st, c[1])
            return self.padd(p, c[2] & M64)
        if k == 'u':
            return self.undef(c[1])
        if k == 'f':
            return self.fpconst(c[1], c[2])
        if k == 'z':
            return self.zero(c[1])
        if k == 'a':
            return tuple(self.const(st, x) for x in c[1:])
        if k == 'e':
            op, ty = c[1], c[2]
            if op in ('ptrtoint', 'inttoptr', 'bitcast', 'addrspacecast'):
                return self.const(st, c[4])
            if op == 'sub':
                return self.binop(st, 'sub', ty, self.const(st, c[4]), self.const(st, c[5]))
            if op == 'add':
                return self.binop(st, 'add', ty, self.const(st, c[4]), self.const(st, c[5]))
            if op == 'trunc':
                v = self.const(st, c[4])
                if type(v) is int:
                    return v & ((1 << ty) - 1)
            if op == 'icmp':
                return self.icmp(st, c[3], c[4], self.const(st, c[5]), self.const(st, c[6]))
            raise EngineError('constant expression ' + op)
        if k == 'md' or k == 'asm':
            return None
        raise EngineError('constant %r' % (c,))

    def undef(self, ty):
        if type(ty) is int:
            return self.fresh(ty, 'undef')
        if ty == 'p':
            return 0
        if type(ty) is list and ty[0] == 's':
            return tuple(self.undef(t[1]) for t in ty[1:])
        if ty in FPS:
            return z3.fpBVToFP(z3.BitVecVal(0, 32 if ty == 'f32' else 64), FPS[ty])
        return 0

    def zero(self, ty):
        if type(ty) is list and ty[0] == 's':
            return tuple(self.zero(t[1]) for t in ty[1:])
        if ty in FPS:
            return self.fpconst(ty, 0)
        return 0

    def fpconst(self, ty, bits):
        if ty == 'f80':
            # only values exactly representable as double
            import struct
            e = (bits >> 64) & 0x7fff
            s = bits >> 79
            mant = bits & ((1 << 64) - 1)
            v = 0.0 if mant == 0 else (-1) ** s * mant * 2.0 ** (e - 16383 - 63)
            return z3.FPVal(v, z3.Float64())
        return z3.simplify(z3.fpBVToFP(z3.BitVecVal(bits, 32 if ty == 'f32' else 64), FPS[ty]))

    # ------------------------------------------------------------ path condition
    def assume(self, st, c):
        """adds a condition known to be consistent or checks it; raises PathEnd when infeasible"""
        if type(c) is int:
            if not c:
                raise PathEnd()
            return
        c = z3.simplify(c)
        if z3.is_true(c):
            return
        if z3.is_false(c):
            raise PathEnd()
        st.pc = PC(st.pc, c)
        if st.model is not None:
            try:
                if z3.is_true(st.model.eval(c, True)):
                    return
            except z3.Z3Exception:
                pass
            st.model = None
        r, m = self.solver.check(st.pc, None, 1500, True)
        if r == 'unsat':
            raise PathEnd()
        st.model = m

    # facts already decided on this path: syntactic shortcut before any solver call
    def known(self, st, c):
        k = st.misc.get('known')
        i = c.get_id()
        if k and i in k:
            return True
        nc = z3.simplify(z3.Not(c))
        j = nc.get_id()
        if k and j in k:
            return False
        n = st.pc
        while n is not None:
            if n.id == i:
                return True
            if n.id == j:
                return False
            n = n.p
        return None

    def learn(self, st, c, truth=True):
        if not truth:
            c = z3.simplify(z3.Not(c))
        k = dict(st.misc.get('known') or ())
        k[c.get_id()] = c
        st.misc['known'] = k

    def feasible(self, st, c):
        """can c hold? 'sat'/'unsat'/'unknown' ; uses the cached model"""
        if type(c) is int:
            return 'sat' if c else 'unsat'
        if st.model is not None:
            try:
                if z3.is_true(st.model.eval(c, True)):
                    return 'sat'
            except z3.Z3Exception:
                pass
        r, m = self.solver.check(st.pc, c, 1500, False)
        return r

    def must(self, st, c):
        if type(c) is int:
            return bool(c)
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        k = self.known(st, c)
        if k is not None:
            return k
        r = self.feasible(st, z3.Not(c)) == 'unsat'
        if r:
            self.learn(st, c)
        return r

    def decide(self, st):
        def f(c):
            if z3.is_true(c):
                return 1
            if z3.is_false(c):
                return 0
            k = self.known(st, c)
            if k is not None:
                return 1 if k else 0
            r = g(c)
            if r is not None:
                self.learn(st, c, r == 1)
            return r

        def g(c):
            nc = z3.Not(c)
            if st.model is not None:
                try:
                    mv = st.model.eval(c, True)
                    if z3.is_true(mv):
                        return 1 if self.solver.check(st.pc, nc, 400)[0] == 'unsat' else None
                    if z3.is_false(mv):
                        return 0 if self.solver.check(st.pc, c, 400)[0] == 'unsat' else None
                except z3.Z3Exception:
                    pass
            if self.solver.check(st.pc, nc, 400)[0] == 'unsat':
                return 1
            if self.solver.check(st.pc, c, 400)[0] == 'unsat':
                return 0
            return None
        return f

    def branch(self, st, c):
        """returns list of (bool) outcomes feasible; for both, the caller forks"""
        if type(c) is int:
            return [bool(c)]
        c = tobool(c)
        c = z3.simplify(c)
        if z3.is_true(c):
            return [True]
        if z3.is_false(c):
            return [False]
        k = self.known(st, c)
        if k is not None:
            return [k]
        r = self.branch1(st, c)
        if len(r) == 1:
            self.learn(st, c, r[0])
        return r

    def branch1(self, st, c):
        mt = None
        if st.model is not None:
            try:
                v = st.model.eval(c, True)
                if z3.is_true(v):
                    mt = True
                elif z3.is_false(v):
                    mt = False
            except z3.Z3Exception:
                pass
        if mt is None:
            r, m = self.solver.check(st.pc, c, 1500, True)
            if r == 'unsat':
                return [False]
            t = True
            if r == 'sat':
                st.model = m
            r2, _ = self.solver.check(st.pc, z3.Not(c), 1500)
            if r2 == 'unsat':
                return [True]
            return [True, False]
        r, _ = self.solver.check(st.pc, z3.Not(c) if mt else c, 1500)
        if r == 'unsat':
            return [mt]
        return [True, False]

    def fork(self, st, c):
        """decides c on this path.  When both outcomes are feasible the instruction is re-executed on two copies of the state,
        one with c and one with its negation assumed; callers fork before they change the state."""
        if type(c) is int:
            return bool(c)
        c = z3.simplify(tobool(c))
        out = self.branch(st, c)
        if len(out) == 1:
            return out[0]
        raise ForkEx(c)

    def push(self, st):
        self.work.append(st)

    # ------------------------------------------------------------ verification conditions
    def where(self, st):
        r = []
        for f in reversed(st.frames[-6:]):
            ins = f.fn['blocks'][f.b][min(f.ip, len(f.fn['blocks'][f.b]) - 1)]
            r.append('%s:%s' % (f.fn['d'][:110], ins[3]))
        return r

    def vc(self, st, cond, label, kind='ensures'):
        d = self.vcs.setdefault(label, dict(kind=kind, discharged=0, failed=0, unknown=0, trivial=0, s=0.0))
        self.stats['vcs'] += 1
        if type(cond) is int:
            if cond:
                d['discharged'] += 1
                d['trivial'] += 1
                return
            neg = z3.BoolVal(True)
        else:
            cond = z3.simplify(tobool(cond))
            if z3.is_true(cond):
                d['discharged'] += 1
                d['trivial'] += 1
                return
            if kind == 'safety':
                if self.known(st, cond):
                    d['discharged'] += 1
                    d['trivial'] += 1
                    return
            neg = z3.Not(cond)
        t = time.time()
        r, m, be = self.prove(st, neg)
        d['s'] += time.time() - t
        self.backends[be] = self.backends.get(be, 0) + 1
        if r == 'unsat':
            d['discharged'] += 1
            if type(cond) is int:
                raise PathEnd()
            self.learn(st, cond)
            if self.o.get('lemmas') or (kind == 'safety' and self.o.get('safety_lemmas', True)):
                st.pc = PC(st.pc, cond)
            return
        if r == 'sat':
            d['failed'] += 1
            if len([v for v in self.violations if v.label == label]) < self.o.get('max_cex', 3):
                self.report(st, neg, label, kind, m)
        else:
            d['unknown'] += 1
            if self.o.get('verbose'):
                print('UNKNOWN', label, self.where(st))
        if type(cond) is int:
            raise PathEnd()
        self.assume(st, cond)

    def prove(self, st, neg):
        """is pc & neg unsatisfiable?"""
        import portfolio
        if self.o.get('nia') and portfolio.cvc5(pc_list(st.pc) + [neg], 20, ['--solve-bv-as-int=sum']):      # products of unknowns: integers first
            return 'unsat', None, 'cvc5--solve-bv-as-int=sum'
        r, m = self.solver.check(st.pc, neg, 2500, True)
        if r in ('sat', 'unsat'):
            return r, m, 'z3-incremental'
        return portfolio.prove(pc_list(st.pc) + [neg], self.o['vc_timeout'], self.stats)

    def sizes(self, st):
        n = st.log
        r = []
        while n is not None:
            if n[1][0] == 'bytes':
                r.append(n[1][1])
            n = n[0]
        return r

    def report(self, st, neg, label, kind, m):
        # prefer a small counterexample
        szs = [s for s in self.sizes(st) if type(s) is not int]
        base = st.pc
        best = m
        if szs:
            for lim in (8, 40, 300, 5000):
                c = z3.And(neg, *[z3.ULE(s, lim) for s in szs])
                r, mm = self.solver.check(base, c, 3000, True)
                if r == 'sat':
                    best = mm
                    break
        # prefer small scalars
        log = self.log_list(st)
        vals, notes = self.concretise(st, log, best)
        self.violations.append(Violation(label, kind, self.where(st), vals, notes, None, 0))

    def log_list(self, st):
        r = []
        n = st.log
        while n is not None:
            r.append(n[1])
            n = n[0]
        r.reverse()
        return r

    def concretise(self, st, log, m):
        vals, notes = [], []

        def ev(t, w):
            if type(t) is int:
                return t
            if m is None:
                return 0
            if z3.is_bool(t):
                return 1 if z3.is_true(m.eval(t, True)) else 0
            v = m.eval(t, True)
            return v.as_long() if z3.is_bv_value(v) else 0
        for e in log:
            if e[0] == 'v':
                vals.append(['v', e[2], ev(e[1], e[2])])
            elif e[0] == 'bytes':
                n = ev(e[1], 64)
                if n > 1 << 20:
                    vals.append(['big', n])
                    continue
                r = Reader()
                bs = []
                for i in range(n):
                    b = r.byte(Base(e[2]), i)
                    bs.append(ev(b, 8))
                vals.append(['b', bs])
            elif e[0] == 'note':
                notes.append((e[1], ev(e[2], 64)))
        return vals, notes

    def ubcheck(self, st, cond, label):
        """implicit obligation (memory safety etc.)"""
        if type(cond) is int and cond:
            return
        self.vc(st, cond, label, 'safety')

    # ------------------------------------------------------------ pointers
    def padd(self, p, off):
        if isinstance(p, Ptr):
            return Ptr(p.o, add64(p.off, off))
        return add64(p, off)

    def addr(self, st, p):
        """integer address of a pointer"""
        if not isinstance(p, Ptr):
            return p
        b = self.addrs.get(p.o)
        if b is None:
            b = self.addrs[p.o] = z3.BitVec('addr!%d' % p.o, 64)
        ax = st.misc.get('ax', frozenset())
        if p.o not in ax:
            o = st.obj(p.o)
            c = [z3.UGE(b, z3.BitVecVal(65536, 64)), z3.ULE(b, z3.BitVecVal(1 << 47, 64)), (b & 15) == 0]
            sz = bv(o.size, 64)
            for q in ax:
                bq = self.addrs[q]
                sq = bv(st.obj(q).size, 64)
                c.append(z3.Or(z3.ULT(b + sz, bq), z3.ULT(bq + sq, b)))
            st.misc['ax'] = ax | {p.o}
            for x in c:
                st.pc = PC(st.pc, x)
            st.model = None
        return simp(b + bv(p.off, 64))

    def access(self, st, p, n, what):
        """bounds/liveness obligations of an access of n bytes (int or term)"""
        if not isinstance(p, Ptr):
            if type(n) is int and n == 0:
                return None
            if type(p) is not int:
                # a symbolic integer used as pointer
                raise EngineError('access through symbolic integer pointer')
            c = 0 if type(n) is int else simp(bv(n, 64) == 0)
            self.ubcheck(st, c, 'safety: no null or wild %s' % what)
            return None
        o = st.obj(p.o)
        if not o.alive:
            self.ubcheck(st, 0, 'safety: no %s of freed memory' % what)
        if o.kind == 'func':
            self.ubcheck(st, 0, 'safety: no %s of code' % what)
        off = p.off
        if type(off) is int and type(n) is int and type(o.size) is int:
            if off + n <= o.size:
                return o
            if n == 0 and off <= o.size:
                return o
            self.ubcheck(st, 0, 'safety: %s within bounds' % what)
        sz, nn, of = bv(o.size, 64), bv(n, 64), bv(off, 64)
        if n == 1:
            c = simp(z3.ULT(of, sz))
        elif type(n) is int and 0 < n < 4096:
            # sizes are below 2^48, so of + n - 1 does not wrap once of < sz
            c = simp(z3.And(z3.ULT(of, sz), z3.ULT(of + (n - 1), sz)))
        else:
            c = simp(z3.And(z3.ULE(of, sz), z3.ULE(nn, sz - of)))
        if type(n) is not int:
            c = simp(z3.Or(nn == 0, tobool(c)))
        self.ubcheck(st, c, 'safety: %s within bounds' % what)
        return o

    # ------------------------------------------------------------ memory
    def tochain(self, st, i):
        """byte chain of an object's integer content (pointer cells stay in cells)"""
        o = st.obj(i)
        if o.chain is not None and not any(not isinstance(v, Ptr) for n, v in o.cells.values()):
            return o.chain
        o = st.wobj(i)
        ch = o.chain
        if ch is None:
            if o.dflt == 'zero':
                ch = Const0(0)
            else:
                self.nsym += 1
                ch = Base(z3.Array('undef!%d' % self.nsym, BV64, z3.BitVecSort(8)))
        for off in sorted(o.cells):
            n, v = o.cells[off]
            if isinstance(v, Ptr):
                continue
            if z3.is_fp(v) if not isinstance(v, (int, tuple)) else False:
                v = z3.fpToIEEEBV(v)
            if type(v) is not int and z3.is_bool(v):
                v = bv(v, 1)
                v = simp(z3.ZeroExt(7, v))
            ch = Store(ch, off, n, v)
            del o.cells[off]
        o.chain = ch
        return ch

    def hits_ptr(self, st, o, off, n):
        """may the range [off, off+n) overlap a pointer cell of o?"""
        for k, c in o.cells.items():
            if not isinstance(c[1], Ptr):
                continue
            if type(off) is int and type(n) is int:
                if k < off + n and k + c[0] > off:
                    return True
                continue
            of, nn = bv(off, 64), bv(n, 64)
            if not self.must(st, z3.Or(z3.UGE(of, k + c[0]), z3.ULE(of + nn, k), nn == 0)):
                return True
        return False

    def frombits(self, v, ty, n):
        if ty in FPS:
            return z3.simplify(z3.fpBVToFP(bv(v, 8 * n), FPS[ty]))
        if type(ty) is int and ty < 8 * n:
            if type(v) is int:
                return v & ((1 << ty) - 1)
            if isinstance(v, Ptr):
                raise EngineError('narrow load of pointer')
            if z3.is_bool(v):
                return v if ty == 1 else simp(z3.If(v, z3.BitVecVal(1, ty), z3.BitVecVal(0, ty)))
            if ty == 1:
                return simp(z3.Extract(0, 0, v) == 1)
            return simp(z3.Extract(ty - 1, 0, v))
        return v

    def load(self, st, p, n, ty):
        if isinstance(ty, list):
            if ty[0] == 's':
                return tuple(self.load(st, self.padd(p, o), self.tsize(t), t) for o, t in ty[1:])
            raise EngineError('vector load')
        if not isinstance(p, Ptr):
            raise EngineError('load through a pointer of unknown origin at ' + ' <- '.join(self.where(st)))
        off = p.off
        if type(off) is not int and ty != 'f80':
            x = off.children() if z3.is_app_of(off, z3.Z3_OP_ITE) else None
            if x and all(z3.is_bv_value(y) or z3.is_app_of(y, z3.Z3_OP_ITE) for y in x[1:]):
                for k in (0, 1):
                    if self.must(st, x[0] if k == 0 else z3.Not(x[0])):
                        return self.load(st, Ptr(p.o, x[k + 1].as_long() if z3.is_bv_value(x[k + 1]) else x[k + 1]), n, ty)
                if not all(z3.is_bv_value(y) for y in x[1:]):
                    self.fork(st, x[0])
                    return self.load(st, p, n, ty)
                a = self.load(st, Ptr(p.o, x[1].as_long() if z3.is_bv_value(x[1]) else x[1]), n, ty)
                b = self.load(st, Ptr(p.o, x[2].as_long() if z3.is_bv_value(x[2]) else x[2]), n, ty)
                r = merge(self, x[0], a, b, ty)
                if r is not None:
                    return r
        o = self.access(st, p, n, 'read')
        if o.cells and type(off) is int:
            c = o.cells.get(off)
            if c is not None and c[0] == n:
                v = c[1]
                if type(v) is int or isinstance(v, Ptr):
                    if type(ty) is int and ty < 8 * n and type(v) is int:
                        return v & ((1 << ty) - 1)
                    if ty in FPS:
                        return self.frombits(v, ty, n)
                    return v
                if z3.is_fp(v):
                    if ty in FPS:
                        return v
                    v = z3.simplify(z3.fpToIEEEBV(v))
                return self.frombits(v, ty, n)
        if ty == 'f80':
            raise EngineError('x87 long double memory access')
        if type(off) is not int:
            if o.cells and self.hits_ptr(st, o, off, n):
                return self.load_enum(st, p, n, ty, o)
            ch = self.tochain(st, p.o)
            return self.frombits(Reader(self.decide(st)).word(ch, off, n), ty, n)
        # concrete offset
        over = []
        if o.cells:
            if len(o.cells) > 40:
                over = [(k, o.cells[k]) for k in range(off - 16, off + n) if k in o.cells]
                over = [(k, c) for k, c in over if k + c[0] > off]
            else:
                over = [(k, c) for k, c in o.cells.items() if k < off + n and k + c[0] > off]
        if not over:
            if o.chain is not None:
                return self.frombits(Reader(self.decide(st)).word(o.chain, off, n), ty, n)
            if o.dflt == 'zero':
                v = 0
            else:
                v = self.fresh(8 * n, 'undef')
            w = st.wobj(p.o)
            w.cells[off] = (n, v)
            return self.frombits(v, ty, n)
        if any(isinstance(c[1], Ptr) for k, c in over):
            raise EngineError('partial read of a pointer (%d bytes at %d of %s)' % (n, off, o.name))
        if len(over) == 1 and over[0][0] <= off and off + n <= over[0][0] + over[0][1][0]:
            k, c = over[0]
            v = c[1]
            if type(v) is int:
                v = (v >> (8 * (off - k))) & ((1 << (8 * n)) - 1)
            else:
                if z3.is_fp(v):
                    v = z3.fpToIEEEBV(v)
                elif z3.is_bool(v):
                    v = simp(z3.If(v, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8)))
                v = simp(z3.Extract(8 * (off - k + n) - 1, 8 * (off - k), v))
            return self.frombits(v, ty, n)
        bs = []             # (piece, bytes), lowest address first
        w = None
        i = 0
        while i < n:
            for k, c in over:
                if k <= off + i < k + c[0]:
                    v = c[1]
                    if type(v) is not int:
                        if z3.is_fp(v):
                            v = z3.fpToIEEEBV(v)
                        elif z3.is_bool(v):
                            v = simp(z3.If(v, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8)))
                    m = min(n - i, k + c[0] - (off + i))
                    bs.append((part(v, c[0], off + i - k, m), m))
                    i += m
                    break
            else:
                if o.chain is not None:
                    bs.append((Reader(self.decide(st)).byte(o.chain, off + i), 1))
                elif o.dflt == 'zero':
                    bs.append((0, 1))
                else:
                    v = self.fresh(8, 'undef')
                    w = w or st.wobj(p.o)
                    w.cells[off + i] = (1, v)
                    bs.append((v, 1))
                i += 1
        if all(m == 1 for v, m in bs):
            return self.frombits(cat([v for v, m in bs]), ty, n)
        if all(type(v) is int for v, m in bs):
            r = sh = 0
            for v, m in bs:
                r |= v << sh
                sh += 8 * m
            return self.frombits(r, ty, n)
        r = z3.Concat(*[bv(v, 8 * m) for v, m in reversed(bs)])
        return self.frombits(simp(r), ty, n)

    def load_enum(self, st, p, n, ty, o):
        """symbolic offset into an object with pointer cells: case split over the concrete offsets"""
        for k in sorted(set(list(o.cells))):
            c = o.cells[k]
            if c[0] == n:
                if self.fork(st, bv(p.off, 64) == k):
                    return self.load(st, Ptr(p.o, k), n, ty)
        if type(o.size) is int:
            for k in range(0, o.size - n + 1, n):
                if k not in o.cells and self.fork(st, bv(p.off, 64) == k):
                    return self.load(st, Ptr(p.o, k), n, ty)
        raise EngineError('symbolic offset into object with pointers')

    def tsize(self, t):
        if type(t) is int:
            return (t + 7) // 8
        if t == 'p':
            return 8
        if t == 'f32':
            return 4
        if t == 'f64':
            return 8
        if isinstance(t, list) and t[0] == 's':
            return 0 if len(t) == 1 else t[-1][0] + self.tsize(t[-1][1])
        raise EngineError('size of type %r' % (t,))

    def clear_cells(self, o, off, n):
        """remove/split cells overlapping [off,off+n)"""
        cells = o.cells
        if len(cells) > 40 and n <= 32:
            ks = [k for k in range(off - 16, off + n) if k in cells and k + cells[k][0] > off]
        else:
            ks = [k for k, c in cells.items() if k < off + n and k + c[0] > off]
        for k in ks:
            cn, v = cells.pop(k)
            if k >= off and k + cn <= off + n:
                continue
            if isinstance(v, Ptr):
                raise EngineError('partial overwrite of a pointer')
            if type(v) is not int:
                if z3.is_fp(v):
                    v = z3.fpToIEEEBV(v)
                elif z3.is_bool(v):
                    v = simp(z3.If(v, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8)))
            if k < off:
                cells[k] = (off - k, part(v, cn, 0, off - k))
            if k + cn > off + n:
                m = k + cn - (off + n)
                cells[off + n] = (m, part(v, cn, cn - m, m))

    def store(self, st, p, v, n, ty):
        if isinstance(v, tuple):
            for (o, t), x in zip(ty[1:], v):
                self.store(st, self.padd(p, o), x, self.tsize(t), t)
            return
        o = self.access(st, p, n, 'write')
        if o is None:
            raise PathEnd()
        if o.ro:
            self.ubcheck(st, 0, 'safety: no write to constant memory')
        if st.writes is not None:
            st.writes.append((p.o, p.off, n))
        off = p.off
        if type(off) is not int:
            if isinstance(v, Ptr) or self.hits_ptr(st, o, off, n):
                if type(o.size) is int:
                    for k in range(0, o.size - n + 1, n):
                        if self.fork(st, bv(off, 64) == k):
                            return self.store(st, Ptr(p.o, k), v, n, ty)
                raise EngineError('symbolic offset store into object with pointers')
            self.tochain(st, p.o)
            o = st.wobj(p.o)
            if type(v) is not int:
                if z3.is_fp(v):
                    v = z3.fpToIEEEBV(v)
                elif z3.is_bool(v):
                    v = simp(z3.If(v, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8)))
            o.chain = Store(o.chain, off, n, v)
            return
        o = st.wobj(p.o)
        c = o.cells.get(off)
        if c is None or c[0] != n:
            if o.cells:
                self.clear_cells(o, off, n)
        if type(ty) is int and type(v) is int and ty < 8 * n:
            v &= (1 << ty) - 1
        if o.chain is not None and not isinstance(v, Ptr) and not (type(v) is not int and (z3.is_fp(v) or z3.is_bool(v))):
            o.cells.pop(off, None)
            o.chain = Store(o.chain, off, n, v)
            return
        o.cells[off] = (n, v)

    def memset(self, st, p, b, n):
        if type(n) is int and n == 0:
            return
        o = self.access(st, p, n, 'write')
        if o is None:
            return
        if st.writes is not None:
            st.writes.append((p.o, p.off, n))
        if type(n) is int and type(p.off) is int and n <= 256 and (o.chain is None or n <= 8):
            o = st.wobj(p.o)
            self.clear_cells(o, p.off, n)
            if o.chain is not None:
                o.chain = Store(o.chain, p.off, n, cat([b] * n))
                return
            i = 0
            while i < n:
                k = 8 if i + 8 <= n else 1
                if type(b) is int:
                    o.cells[p.off + i] = (k, cat([b] * k))
                    i += k
                else:
                    o.cells[p.off + i] = (1, b)
                    i += 1
            return
        if self.hits_ptr(st, o, p.off, n):
            if type(n) is int and type(p.off) is int:
                o = st.wobj(p.o)
                self.clear_cells(o, p.off, n)
            else:
                raise EngineError('symbolic memset over pointers')
        ch = self.tochain(st, p.o)
        o = st.wobj(p.o)
        o.chain = Fill(ch, p.off, n, b)

    def memcpy(self, st, d, s, n, move=False):
        if type(n) is int and n == 0:
            return
        if isinstance(d, Ptr) and isinstance(s, Ptr) and d.o == s.o and diff(d.off, s.off) == 0:
            self.access(st, d, n, 'write')
            return
        so = self.access(st, s, n, 'read')
        do = self.access(st, d, n, 'write')
        if so is None or do is None:
            return
        if not move and d.o == s.o:
            x, y, nn = bv(d.off, 64), bv(s.off, 64), bv(n, 64)
            self.ubcheck(st, simp(z3.Or(z3.ULE(x + nn, y), z3.ULE(y + nn, x), nn == 0)), 'safety: memcpy ranges do not overlap')
        if do.ro:
            self.ubcheck(st, 0, 'safety: no write to constant memory')
        if st.writes is not None:
            st.writes.append((d.o, d.off, n))
        sp = any(isinstance(c[1], Ptr) for c in so.cells.values())
        dp = any(isinstance(c[1], Ptr) for c in do.cells.values())
        if type(n) is int and type(d.off) is int and type(s.off) is int and (n <= 64 or sp or dp) and (so.chain is None or sp or (n <= 16)):
            # cell-wise
            items = []
            i = 0
            cells = so.cells
            while i < n:
                c = cells.get(s.off + i)
                if c is not None and i + c[0] <= n:
                    items.append((i, c[0], c[1]))
                    i += c[0]
                    continue
                if c is None and so.chain is None and (s.off + i) % 8 == 0 and i + 8 <= n and not any((s.off + i + j) in cells for j in range(-7, 8)):
                    v = self.load(st, Ptr(s.o, s.off + i), 8, 64)
                    items.append((i, 8, v))
                    i += 8
                    cells = st.obj(s.o).cells
                    continue
                if c is None and so.chain is not None:
                    k = 8 if i + 8 <= n and not any((s.off + i + j) in cells for j in range(0, 8)) else 1
                    v = self.load(st, Ptr(s.o, s.off + i), k, 8 * k)
                    items.append((i, k, v))
                    i += k
                    continue
                v = self.load(st, Ptr(s.o, s.off + i), 1, 8)
                items.append((i, 1, v))
                i += 1
                cells = st.obj(s.o).cells
            w = st.wobj(d.o)
            self.clear_cells(w, d.off, n)
            for i, k, v in items:
                if w.chain is not None and not isinstance(v, Ptr):
                    if type(v) is not int and (z3.is_fp(v) or z3.is_bool(v)):
                        v = z3.fpToIEEEBV(v) if z3.is_fp(v) else simp(z3.If(v, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8)))
                    w.chain = Store(w.chain, d.off + i, k, v)
                else:
                    w.cells[d.off + i] = (k, v)
            return
        if sp:
            sp = self.hits_ptr(st, so, s.off, n)
        if dp:
            dp = self.hits_ptr(st, do, d.off, n)
        if sp or dp:
            if type(n) is not int:
                for k in range(0, 129, 8):
                    if self.fork(st, bv(n, 64) == k):
                        return self.memcpy(st, d, s, k, move)
            for x in (d, s):
                pass
            if type(n) is int and sp and type(s.off) is not int:
                o = st.obj(s.o)
                if type(o.size) is int:
                    for k in range(0, o.size - n + 1, 8):
                        if self.fork(st, bv(s.off, 64) == k):
                            return self.memcpy(st, d, Ptr(s.o, k), n, move)
            if type(n) is int and type(d.off) is not int:
                o = st.obj(d.o)
                if type(o.size) is int:
                    for k in range(0, o.size - n + 1, 8):
                        if self.fork(st, bv(d.off, 64) == k):
                            return self.memcpy(st, Ptr(d.o, k), s, n, move)
            raise EngineError('symbolic memcpy over pointers')
        sc = self.tochain(st, s.o)
        dc = self.tochain(st, d.o)
        w = st.wobj(d.o)
        w.chain = Copy(w.chain, d.off, n, sc, s.off)

    # ------------------------------------------------------------ arithmetic
    def binop(self, st, op, w, a, b):
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if op == 'sub' and isinstance(a, Ptr) and isinstance(b, Ptr) and a.o == b.o:
                d = diff(a.off, b.off)
                return d & M64 if type(d) is int else d
            if op == 'sub' and isinstance(a, Ptr) and not isinstance(b, Ptr):
                return self.padd(a, simp(-bv(b, 64)) if type(b) is not int else (-b) & M64)
            if op == 'add':
                if isinstance(a, Ptr) and not isinstance(b, Ptr):
                    return self.padd(a, b)
                if isinstance(b, Ptr) and not isinstance(a, Ptr):
                    return self.padd(b, a)
            if op in ('and', 'urem') and isinstance(a, Ptr) and type(b) is int and type(a.off) is int:
                if op == 'and' and b < 16:
                    return a.off & b      # objects are 16-byte aligned
                if op == 'urem' and b in (1, 2, 4, 8, 16):
                    return a.off % b
            a, b = self.addr(st, a), self.addr(st, b)
        m = (1 << w) - 1
        if type(a) is int and type(b) is int:
            if op == 'add':
                return (a + b) & m
            if op == 'sub':
                return (a - b) & m
            if op == 'mul':
                return (a * b) & m
            if op == 'and':
                return a & b
            if op == 'or':
                return a | b
            if op == 'xor':
                return a ^ b
            if op == 'shl':
                return (a << b) & m if b < w else self.fresh(w, 'poison')
            if op == 'lshr':
                return a >> b if b < w else self.fresh(w, 'poison')
            if op == 'ashr':
                return (sx(a, w) >> b) & m if b < w else self.fresh(w, 'poison')
            if op in ('udiv', 'urem', 'sdiv', 'srem'):
                if b == 0:
                    self.ubcheck(st, 0, 'safety: no division by zero')
                if op == 'udiv':
                    return a // b
                if op == 'urem':
                    return a % b
                x, y = sx(a, w), sx(b, w)
                q = abs(x) // abs(y)
                if (x < 0) != (y < 0):
                    q = -q
                if op == 'sdiv':
                    return q & m
                return (x - q * y) & m
            raise EngineError('binop ' + op)
        if w == 1:
            x, y = tobool(a), tobool(b)
            if op == 'and':
                return simp(z3.And(x, y))
            if op == 'or':
                return simp(z3.Or(x, y))
            if op in ('xor', 'add', 'sub'):
                return simp(z3.Xor(x, y))
            raise EngineError('i1 ' + op)
        if type(a) is not int and z3.is_bool(a):
            a = bv(z3.If(a, z3.BitVecVal(1, w), z3.BitVecVal(0, w)), w)
        if type(b) is not int and z3.is_bool(b):
            b = bv(z3.If(b, z3.BitVecVal(1, w), z3.BitVecVal(0, w)), w)
        x, y = bv(a, w), bv(b, w)
        if op == 'add':
            return simp(x + y)
        if op == 'sub':
            return simp(x - y)
        if op == 'mul':
            return simp(x * y)
        if op == 'and':
            return simp(x & y)
        if op == 'or':
            return simp(x | y)
        if op == 'xor':
            return simp(x ^ y)
        if op in ('shl', 'lshr', 'ashr'):
            r = {'shl': lambda: x << y, 'lshr': lambda: z3.LShR(x, y), 'ashr': lambda: x >> y}[op]()
            if type(b) is int:
                return simp(r) if b < w else self.fresh(w, 'poison')
            ok = z3.ULT(y, z3.BitVecVal(w, w))
            if self.o['ub']:
                self.ubcheck(st, simp(ok), 'safety: shift amount below the width')
                return simp(r)
            if self.must(st, ok):
                return simp(r)
            return simp(z3.If(ok, r, self.fresh(w, 'poison')))
        if op in ('udiv', 'urem', 'sdiv', 'srem'):
            if type(b) is not int:
                self.ubcheck(st, simp(y != 0), 'safety: no division by zero')
            elif b == 0:
                self.ubcheck(st, 0, 'safety: no division by zero')
            if op in ('sdiv', 'srem') and (type(b) is not int or b == m):
                self.ubcheck(st, simp(z3.Or(x != z3.BitVecVal(1 << (w - 1), w), y != z3.BitVecVal(m, w))), 'safety: no signed division overflow')
            return simp({'udiv': lambda: z3.UDiv(x, y), 'urem': lambda: z3.URem(x, y), 'sdiv': lambda: x / y, 'srem': lambda: z3.SRem(x, y)}[op]())
        raise EngineError('binop ' + op)

    def icmp(self, st, pred, ty, a, b):
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if isinstance(a, Ptr) and isinstance(b, Ptr):
                if a.o == b.o:
                    a, b = a.off, b.off
                    if pred[0] == 's':
                        pass
                elif pred in ('eq', 'ne'):
                    return 1 if pred == 'ne' else 0
                else:
                    a, b = self.addr(st, a), self.addr(st, b)
            else:
                p, q = (a, b) if isinstance(a, Ptr) else (b, a)
                if type(q) is int and q < 65536 and pred in ('eq', 'ne'):
                    return 1 if pred == 'ne' else 0
                a, b = self.addr(st, a), self.addr(st, b)
            ty = 64
        w = 64 if ty == 'p' else ty
        if type(a) is int and type(b) is int:
            if pred[0] == 's':
                a, b = sx(a, w), sx(b, w)
            k = pred[-2:]
            return int({'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[k])
        if w == 1:
            x, y = tobool(a), tobool(b)
            if pred == 'eq':
                return simp(x == y)
            if pred == 'ne':
                return simp(x != y)
            a, b = bv(a, 1), bv(b, 1)
        x, y = bv(a, w), bv(b, w)
        if pred == 'eq':
            return simp(x == y)
        if pred == 'ne':
            return simp(x != y)
        f = {'ult': z3.ULT, 'ule': z3.ULE, 'ugt': z3.UGT, 'uge': z3.UGE, 'slt': lambda p, q: p < q, 'sle': lambda p, q: p <= q,
             'sgt': lambda p, q: p > q, 'sge': lambda p, q: p >= q}[pred]
        return simp(f(x, y))

    def cast(self, st, op, fr, to, v):
        if op in ('ptrtoint', 'inttoptr', 'bitcast', 'addrspacecast'):
            if op == 'bitcast':
                if to in FPS and fr not in FPS:
                    return z3.simplify(z3.fpBVToFP(bv(v, fr), FPS[to]))
                if fr in FPS and to not in FPS:
                    return simp(z3.fpToIEEEBV(v))
                if fr != to and not (type(fr) is int and type(to) is int):
                    raise EngineError('bitcast')
            if op == 'ptrtoint' and type(to) is int and to < 64 and isinstance(v, Ptr):
                v = self.addr(st, v)
                return simp(z3.Extract(to - 1, 0, v))
            return v
        if op == 'trunc':
            if isinstance(v, Ptr):
                v = self.addr(st, v)
            if type(v) is int:
                return v & ((1 << to) - 1)
            if to == 1:
                return simp(z3.Extract(0, 0, v) == 1)
            return simp(z3.Extract(to - 1, 0, v))
        if op == 'zext':
            if type(v) is int or isinstance(v, Ptr):
                return v
            if fr == 1:
                return simp(z3.If(tobool(v), z3.BitVecVal(1, to), z3.BitVecVal(0, to)))
            return simp(z3.ZeroExt(to - fr, v))
        if op == 'sext':
            if type(v) is int:
                return sx(v, fr) & ((1 << to) - 1)
            if fr == 1:
                return simp(z3.If(tobool(v), z3.BitVecVal((1 << to) - 1, to), z3.BitVecVal(0, to)))
            return simp(z3.SignExt(to - fr, v))
        S = dict(FPS)
        S['f80'] = FPS['f64']
        if op in ('fpext', 'fptrunc'):
            return z3.simplify(z3.fpFPToFP(RNE, v, S[to]))
        if op == 'sitofp':
            return z3.simplify(z3.fpSignedToFP(RNE, bv(v, fr), S[to]))
        if op == 'uitofp':
            return z3.simplify(z3.fpUnsignedToFP(RNE, bv(v, fr), S[to]))
        if op == 'fptosi':
            return simp(z3.fpToSBV(z3.RTZ(), v, z3.BitVecSort(to)))
        if op == 'fptoui':
            return simp(z3.fpToUBV(z3.RTZ(), v, z3.BitVecSort(to)))
        raise EngineError('cast ' + op)

    # ------------------------------------------------------------ running
    def val(self, st, fr, x, ty=None):
        if type(x) is int:
            return fr.regs[x]
        return self.const(st, x, ty)

    def enter(self, st, fn, args, ret=-1, norm=None, unw=None):
        f = Frame(fn)
        for (i, ty, byv), a in zip(fn['args'], args):
            f.regs[i] = a
        f.ret, f.norm, f.unw = ret, norm, unw
        st.frames.append(f)
        if len(st.frames) > 400:
            raise EngineError('recursion too deep')
        self.functions.add(fn['d'])

    def run(self, name):
        st = State()
        self.work = [st]
        fn = self.m.funcs[name]
        self.enter(st, fn, [])
        # dynamic initialisers of the translation units named by the option run first (the frame on top runs before the one below)
        for u in reversed((self.o.get('init') or '').split()):
            g = [f for f in self.m.funcs if f.startswith('_GLOBAL__sub_I_' + u)]
            if not g:
                raise EngineError('no initialiser of ' + u)
            for f in g:
                self.enter(st, self.m.funcs[f], [], -2)
        st.model = None
        self.explore()

    def explore(self, until=None):
        t0 = self.t0
        while self.work:
            st = self.work.pop()
            self.stats['paths'] += 1
            if self.stats['paths'] > self.o['max_paths']:
                raise EngineError('path limit')
            try:
                self.runpath(st)
            except PathEnd:
                pass
            if time.time() - t0 > self.o['timeout']:
                raise EngineError('time limit')

    def runpath(self, st):
        step = self.step
        while st.frames:
            try:
                step(st)
            except ForkEx as f:
                o = st.clone()
                o.pc = PC(o.pc, z3.simplify(z3.Not(f.c)))
                o.model = None
                st.pc = PC(st.pc, f.c)
                if st.model is not None and not z3.is_true(st.model.eval(f.c, True)):
                    st.model, o.model = None, st.model
                self.push(o)

    def goto(self, st, fr, b):
        frm = fr.b
        fn = fr.fn
        blk = fn['blocks'][b]
        n = fn['phis'][b]
        if n:
            vals = []
            for i in range(n):
                ins = blk[i]
                for pb, x in ins[4]:
                    if pb == frm:
                        vals.append(self.val(st, fr, x, ins[2]))
                        break
                else:
                    raise EngineError('phi without edge')
            for i in range(n):
                fr.regs[blk[i][1]] = vals[i]
        fr.prev = frm
        fr.b = b
        fr.ip = n
        L = fn['loopof'].get(b)
        if L is not None:
            back = frm in L['set']
            if not back:
                fr.loops[b] = 0
            else:
                fr.loops[b] = fr.loops.get(b, 0) + 1
            import loops
            loops.at_header(self, st, fr, b, L, back)

    def step(self, st):
        fr = st.frames[-1]
        ins = fr.fn['blocks'][fr.b][fr.ip]
        op = ins[0]
        self.stats['steps'] += 1
        if self.stats['steps'] > self.o['max_steps']:
            raise EngineError('step limit')
        if self.stats['steps'] & 4095 == 0 and time.time() - self.t0 > self.o['timeout']:
            raise EngineError('time limit in %s' % self.where(st))
        h = OPS.get(op)
        if h is None:
            raise EngineError('instruction ' + op)
        h(self, st, fr, ins)

    # ------------------------------------------------------------ exceptions
    def throw(self, st, obj, ti, inplace=None):
        st.exc = (obj, ti)
        self.unwind(st)

    def popframe(self, st):
        fr = st.frames.pop()
        for i in fr.allocas:
            o = st.wobj(i)
            o.alive = False
            o.cells = {}
            o.chain = None
        return fr

    def unwind(self, st):
        """the exception leaves the top frame's current instruction (invoke in the top frame itself handled first)"""
        while st.frames:
            fr = st.frames[-1]
            ins = fr.fn['blocks'][fr.b][fr.ip] if fr.ip < len(fr.fn['blocks'][fr.b]) else None
            if ins is not None and ins[0] == 'invoke':
                if self.try_landing(st, fr, ins[7 - 0] if False else ins[-1]):
                    return
            if len(st.frames) == 1 or st.cutstack and st.cutstack[-1] == len(st.frames):
                self.popframe(st)
                lab = 'no uncaught exception (%s)' % self.tiname(st.exc[1])
                st.frames.append(fr)
                self.vc(st, 0, lab, 'safety')
                raise PathEnd()
            self.popframe(st)
        raise PathEnd()

    def tiname(self, ti):
        return ti

    def bases(self, st, ti):
        """yield (name, offset) of a typeinfo and its bases; offsets for virtual bases unsupported"""
        r = [(ti, 0)]
        g = self.m.globals.get(ti)
        if g is None or not g['cells']:
            for b in self.models.STD_BASES.get(ti, ()):
                r += self.bases(st, b)
            return r
        p = self.global_ptr(st, ti)
        o = st.obj(p.o)
        kind = g['cells'][0][3]
        k = json.dumps(kind)
        if 'si_class_type_info' in k:
            b = o.cells[16][1]
            r += self.bases(st, st.obj(b.o).name)
        elif 'vmi_class_type_info' in k:
            n = self.load(st, Ptr(p.o, 20), 4, 32)
            for i in range(n):
                b = self.load(st, Ptr(p.o, 24 + 16 * i), 8, 'p')
                fl = self.load(st, Ptr(p.o, 32 + 16 * i), 8, 64)
                off = sx(fl, 64) >> 8
                if fl & 1:
                    continue
                r += [(x, off + y) for x, y in self.bases(st, st.obj(b.o).name)]
        return r

    def try_landing(self, st, fr, ub):
        blk = fr.fn['blocks'][ub]
        n = fr.fn['phis'][ub]
        lp = blk[n]
        if lp[0] != 'landingpad':
            raise EngineError('landing pad expected')
        sel = None
        obj, ti = st.exc
        adj = 0
        for kind, c in lp[5]:
            if kind == 'catch':
                if c[0] == 'i':
                    sel = self.ehid('*')
                    break
                if c[0] != 'g':
                    raise EngineError('catch clause')
                nm = c[1]
                for b, off in self.bases(st, ti):
                    if b == nm:
                        sel = self.ehid(nm)
                        adj = off
                        break
                if sel is not None:
                    break
            else:
                if c[0] in ('z', 'a', 'u'):
                    names = [x[1] for x in c[1:] if isinstance(x, list) and x and x[0] == 'g'] if c[0] == 'a' else []
                    bs = [b for b, _ in self.bases(st, ti)]
                    if not any(x in bs for x in names):
                        sel = (1 << 32) - 1
                        break
        if sel is None:
            if not lp[4]:
                return False
            sel = 0
        fr_ip = fr.ip
        self.goto(st, fr, ub)
        fr.regs[lp[1]] = (Ptr(obj, 0), sel)
        st.misc['adj'] = dict(st.misc.get('adj', {}))
        st.misc['adj'][obj] = adj
        st.misc['ti'] = dict(st.misc.get('ti', {}))
        st.misc['ti'][obj] = ti
        fr.ip += 1
        st.exc = None
        return True

    def ehid(self, nm):
        if nm not in self.ehids:
            self.ehids[nm] = len(self.ehids) + 1
        return self.ehids[nm]

    # ------------------------------------------------------------ calls
    def callee(self, name):
        r = self._callee.get(name)
        if r is None:
            r = self._callee[name] = self._resolve(name)
        return r

    def _resolve(self, name):
        fn = self.m.funcs.get(name)
        d = fn['d'] if fn else name
        for rx, tgt in self.replace:
            if rx.match(d):
                return ('fn', self.m.funcs['vckeep__' + tgt], d)
        h = self.models.lookup(self, name, d)
        if h is not None:
            return ('model', h, d)
        if fn is not None and 'blocks' in fn:
            return ('fn', fn, None)
        for rx in self.opaque:
            if rx.search(d):
                return ('model', self.models.opaque, d)
        return ('none', None, d)

    def do_call(self, st, fr, ins):
        inv = ins[0] == 'invoke'
        tgt = ins[4]
        if type(tgt) is list and tgt[0] == 'g':
            name = tgt[1]
        else:
            if type(tgt) is list and tgt[0] == 'asm':
                fr.ip += 1   # compiler barrier
                if ins[1] >= 0:
                    raise EngineError('inline asm with result')
                return
            p = self.val(st, fr, tgt)
            if not isinstance(p, Ptr):
                self.ubcheck(st, 0, 'safety: no call through null')
                raise PathEnd()
            o = st.obj(p.o)
            if o.kind != 'func':
                self.ubcheck(st, 0, 'safety: call target is a function')
                raise PathEnd()
            name = o.name
        kind, h, d = self.callee(name)
        if kind == 'fn':
            args = []
            for x, ty, byv in ins[5]:
                v = self.val(st, fr, x, ty)
                if byv:
                    i = self.newobj(st, byv, 'stack', 'byval')
                    self.memcpy(st, Ptr(i, 0), v, byv)
                    v = Ptr(i, 0)
                args.append(v)
            if d is not None:
                self.used.add('contract used for ' + d)
            self.enter(st, h, args, ins[1], ins[6] if inv else None, ins[7] if inv else None)
            return
        if kind == 'model':
            args = [self.val(st, fr, x, ty) if not (type(x) is list and x[0] == 'md') else None for x, ty, byv in ins[5]]
            r = h(self, st, fr, ins, args)
            if r is NORET:
                return
            if ins[1] >= 0:
                fr.regs[ins[1]] = r
            if inv:
                self.goto(st, fr, ins[6])
            else:
                fr.ip += 1
            return
        raise EngineError('call of unmodelled function %s [%s]' % (d, name))


NORET = object()


# ---------------------------------------------------------------- instruction handlers
def op_br(e, st, fr, ins):
    if len(ins) == 5:
        e.goto(st, fr, ins[4])
        return
    c = e.val(st, fr, ins[4], 1)
    if type(c) is int:
        e.goto(st, fr, ins[5] if c else ins[6])
        return
    c = tobool(c)
    out = e.branch(st, c)
    if len(out) == 1:
        e.goto(st, fr, ins[5] if out[0] else ins[6])
        return
    fr.loops['sym'] = 1
    o = st.clone()
    st.pc = PC(st.pc, z3.simplify(c))
    o.pc = PC(o.pc, z3.simplify(z3.Not(c)))
    if st.model is not None:
        try:
            v = st.model.eval(c, True)
            if z3.is_true(v):
                o.model = None
            elif z3.is_false(v):
                st.model = None
            else:
                st.model = o.model = None
        except z3.Z3Exception:
            st.model = o.model = None
    # depth-first: continue with the true side, queue the false side
    def later(o=o, t=ins[6]):
        pass
    try:
        e.goto(o, o.frames[-1], ins[6])
        e.push(o)
    except PathEnd:
        pass
    e.goto(st, fr, ins[5])


def op_switch(e, st, fr, ins):
    v = e.val(st, fr, ins[4], ins[5])
    w = ins[5]
    m = (1 << w) - 1
    if type(v) is int:
        for c, b in ins[7]:
            if c & m == v:
                e.goto(st, fr, b)
                return
        e.goto(st, fr, ins[6])
        return
    if z3.is_bool(v):
        v = bv(v, 1)
    neg = []
    # group by target
    tg = {}
    for c, b in ins[7]:
        tg.setdefault(b, []).append(z3.simplify(v == z3.BitVecVal(c & m, w)))
    alts = [(b, z3.Or(*cs) if len(cs) > 1 else cs[0]) for b, cs in tg.items()]
    dflt = z3.And(*[z3.Not(c) for b, c in alts]) if alts else z3.BoolVal(True)
    alts.append((ins[6], dflt))
    ok = []
    for b, c in alts:
        c = z3.simplify(c)
        if z3.is_false(c):
            continue
        if e.feasible(st, c) != 'unsat':
            ok.append((b, c))
    if not ok:
        raise PathEnd()
    for b, c in ok[1:]:
        o = st.clone()
        o.pc = PC(o.pc, c)
        o.model = None
        try:
            e.goto(o, o.frames[-1], b)
            e.push(o)
        except PathEnd:
            pass
    b, c = ok[0]
    if len(ok) > 1:
        st.pc = PC(st.pc, c)
        st.model = None
    e.goto(st, fr, b)


def op_ret(e, st, fr, ins):
    v = e.val(st, fr, ins[4], ins[2] if False else fr.fn['rt']) if len(ins) > 4 else None
    e.popframe(st)
    if not st.frames:
        e.models.at_end(e, st)
        raise PathEnd()
    if st.cutstack and len(st.frames) < st.cutstack[-1]:
        raise EngineError('return out of a cut loop exploration')
    p = st.frames[-1]
    call = p.fn['blocks'][p.b][p.ip]
    if fr.ret == -2:
        # synthetic call (e.g. destructor run by a model): no result, continue at the same instruction
        cb = fr.norm
        if cb is not None:
            cb(e, st, v)
        return
    if call[1] >= 0:
        p.regs[call[1]] = v
    if call[0] == 'invoke':
        e.goto(st, p, call[6])
    else:
        p.ip += 1


def op_load(e, st, fr, ins):
    p = e.val(st, fr, ins[4])
    fr.regs[ins[1]] = e.load(st, p, ins[5], ins[2])
    fr.ip += 1


def op_store(e, st, fr, ins):
    p = e.val(st, fr, ins[4])
    v = e.val(st, fr, ins[5], ins[7])
    e.store(st, p, v, ins[6], ins[7])
    fr.ip += 1


def op_gep(e, st, fr, ins):
    if not ins[4]:
        raise EngineError('gep')
    p = e.val(st, fr, ins[5])
    off = ins[6] & M64
    for x, sc, ty in ins[7]:
        v = e.val(st, fr, x, ty)
        if isinstance(v, Ptr):
            v = e.addr(st, v)
        if type(ty) is int and ty < 64:
            v = e.cast(st, 'sext', ty, 64, v)
        off = add64(off, mul64(v, sc))
    fr.regs[ins[1]] = e.padd(p, off)
    fr.ip += 1


def op_alloca(e, st, fr, ins):
    n = e.val(st, fr, ins[5])
    if type(n) is not int:
        raise EngineError('variable alloca')
    i = e.newobj(st, ins[4] * n, 'stack', fr.fn['d'][:40])
    fr.allocas.append(i)
    fr.regs[ins[1]] = Ptr(i, 0)
    fr.ip += 1


def op_icmp(e, st, fr, ins):
    ty = ins[5]
    fr.regs[ins[1]] = e.icmp(st, ins[4], ty, e.val(st, fr, ins[6], ty), e.val(st, fr, ins[7], ty))
    fr.ip += 1


def op_bin(e, st, fr, ins):
    w = ins[2]
    fr.regs[ins[1]] = e.binop(st, ins[0], w, e.val(st, fr, ins[4], w), e.val(st, fr, ins[5], w))
    fr.ip += 1


def op_cast(e, st, fr, ins):
    fr.regs[ins[1]] = e.cast(st, ins[0], ins[4], ins[2], e.val(st, fr, ins[5], ins[4]))
    fr.ip += 1


def merge(e, c, a, b, ty):
    """ite of two values, or None when not expressible"""
    if isinstance(a, Ptr) or isinstance(b, Ptr):
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.o == b.o:
            return Ptr(a.o, ite(c, a.off, b.off, 64) if not (type(a.off) is int and type(b.off) is int and a.off == b.off) else a.off)
        return None
    if isinstance(a, tuple):
        r = [merge(e, c, x, y, t[1]) for x, y, t in zip(a, b, ty[1:])]
        return None if any(x is None for x in r) else tuple(r)
    if ty in FPS or ty == 'f80':
        return z3.If(c, a, b)
    w = 64 if ty == 'p' else ty
    if w == 1:
        return simp(z3.If(c, tobool(a), tobool(b)))
    r = ite(c, a, b, w)
    return r if type(r) is int else simp(r)


def op_select(e, st, fr, ins):
    c = e.val(st, fr, ins[4], 1)
    a, b = ins[5], ins[6]
    ty = ins[2]
    if type(c) is int:
        fr.regs[ins[1]] = e.val(st, fr, a if c else b, ty)
        fr.ip += 1
        return
    x, y = e.val(st, fr, a, ty), e.val(st, fr, b, ty)
    c = tobool(c)
    r = None if e.o.get('fork_select') else merge(e, c, x, y, ty)
    if r is None:
        out = e.branch(st, c)
        if len(out) == 2:
            o = st.clone()
            o.pc = PC(o.pc, z3.simplify(z3.Not(c)))
            o.model = None
            o.frames[-1].regs[ins[1]] = y
            o.frames[-1].ip += 1
            e.push(o)
            st.pc = PC(st.pc, z3.simplify(c))
            st.model = None
        r = x if out[0] else y
    fr.regs[ins[1]] = r
    fr.ip += 1


def op_extractvalue(e, st, fr, ins):
    v = e.val(st, fr, ins[4])
    for i in ins[5]:
        v = v[i]
    fr.regs[ins[1]] = v
    fr.ip += 1


def op_insertvalue(e, st, fr, ins):
    a = e.val(st, fr, ins[4])
    x = e.val(st, fr, ins[5])
    t = ins[2]
    et = t
    for i in ins[6]:
        et = et[i + 1][1]
    if type(ins[5]) is list:
        x = e.const(st, ins[5], et)

    def put(a, idx):
        if not idx:
            return x
        l = list(a)
        l[idx[0]] = put(a[idx[0]], idx[1:])
        return tuple(l)
    fr.regs[ins[1]] = put(a, ins[6])
    fr.ip += 1


def op_freeze(e, st, fr, ins):
    fr.regs[ins[1]] = e.val(st, fr, ins[4], ins[2])
    fr.ip += 1


def op_unreachable(e, st, fr, ins):
    e.vc(st, 0, 'safety: no unreachable code reached', 'safety')
    raise PathEnd()


def op_resume(e, st, fr, ins):
    v = e.val(st, fr, ins[4])
    obj = v[0].o
    st.exc = (obj, st.misc['ti'][obj])
    # leaves this frame
    fr.ip = len(fr.fn['blocks'][fr.b])
    e.popframe(st)
    if not st.frames:
        st.frames.append(fr)
        fr.ip = 0
        e.vc(st, 0, 'no uncaught exception (%s)' % st.exc[1], 'safety')
        raise PathEnd()
    e.unwind(st)


def op_call(e, st, fr, ins):
    e.do_call(st, fr, ins)


def op_fbin(e, st, fr, ins):
    ty = ins[2]
    a, b = e.val(st, fr, ins[4], ty), e.val(st, fr, ins[5], ty)
    f = {'fadd': lambda: z3.fpAdd(RNE, a, b), 'fsub': lambda: z3.fpSub(RNE, a, b), 'fmul': lambda: z3.fpMul(RNE, a, b), 'fdiv': lambda: z3.fpDiv(RNE, a, b)}
    if ins[0] not in f:
        raise EngineError(ins[0])
    fr.regs[ins[1]] = z3.simplify(f[ins[0]]())
    fr.ip += 1


def op_fneg(e, st, fr, ins):
    fr.regs[ins[1]] = z3.simplify(z3.fpNeg(e.val(st, fr, ins[4], ins[2])))
    fr.ip += 1


def op_fcmp(e, st, fr, ins):
    a, b = e.val(st, fr, ins[6], ins[5]), e.val(st, fr, ins[7], ins[5])
    p = ins[4]
    nan = z3.Or(z3.fpIsNaN(a), z3.fpIsNaN(b))
    base = {'eq': z3.fpEQ, 'ne': lambda x, y: z3.Not(z3.fpEQ(x, y)), 'lt': z3.fpLT, 'le': z3.fpLEQ, 'gt': z3.fpGT, 'ge': z3.fpGEQ}
    if p == 'ord':
        r = z3.Not(nan)
    elif p == 'uno':
        r = nan
    elif p == 'true':
        r = z3.BoolVal(True)
    elif p == 'false':
        r = z3.BoolVal(False)
    elif p[0] == 'o':
        r = z3.And(z3.Not(nan), base[p[1:]](a, b))
    else:
        r = z3.Or(nan, base[p[1:]](a, b))
    fr.regs[ins[1]] = simp(r)
    fr.ip += 1


def op_atomicrmw(e, st, fr, ins):
    p = e.val(st, fr, ins[5])
    w = ins[2]
    v = e.val(st, fr, ins[6], w)
    old = e.load(st, p, ins[7], w)
    o = ins[4]
    if o == 'xchg':
        new = v
    elif o in ('add', 'sub', 'and', 'or', 'xor'):
        new = e.binop(st, o, w, old, v)
    else:
        raise EngineError('atomicrmw ' + o)
    e.store(st, p, new, ins[7], w)
    fr.regs[ins[1]] = old
    fr.ip += 1


def op_cmpxchg(e, st, fr, ins):
    p = e.val(st, fr, ins[4])
    ty = ins[8]
    c, n = e.val(st, fr, ins[5], ty), e.val(st, fr, ins[6], ty)
    old = e.load(st, p, ins[7], ty)
    eq = e.icmp(st, 'eq', ty, old, c)
    if type(eq) is int:
        if eq:
            e.store(st, p, n, ins[7], ty)
    else:
        new = merge(e, tobool(eq), n, old, ty)
        e.store(st, p, new, ins[7], ty)
    fr.regs[ins[1]] = (old, eq)
    fr.ip += 1


def op_fence(e, st, fr, ins):
    fr.ip += 1


def op_landing(e, st, fr, ins):
    raise EngineError('landingpad executed')


OPS = dict(br=op_br, switch=op_switch, ret=op_ret, load=op_load, store=op_store, getelementptr=op_gep, alloca=op_alloca, icmp=op_icmp,
           select=op_select, extractvalue=op_extractvalue, insertvalue=op_insertvalue, freeze=op_freeze, unreachable=op_unreachable, resume=op_resume,
           call=op_call, invoke=op_call, fneg=op_fneg, fcmp=op_fcmp, atomicrmw=op_atomicrmw, cmpxchg=op_cmpxchg, fence=op_fence, landingpad=op_landing)
for o in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'urem', 'sdiv', 'srem'):
    OPS[o] = op_bin
for o in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
    OPS[o] = op_fbin
for o in ('trunc', 'zext', 'sext', 'ptrtoint', 'inttoptr', 'bitcast', 'addrspacecast', 'fpext', 'fptrunc', 'sitofp', 'uitofp', 'fptosi', 'fptoui'):
    OPS[o] = op_cast
