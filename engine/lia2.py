"""Second translation of bit-vector constraints into integer arithmetic: terms are kept as linear forms that represent their value
modulo 2^w, with intervals; a wrap-around variable is introduced only where a comparison, division or widening needs the canonical
signed or unsigned value and the interval does not already fit.  One-shot; only 'unsat' answers are used (terms outside the fragment
become unconstrained integers)."""
import z3

INF = None


# ---------------------------------------------------------------- value sets of a subject term, from boolean conditions
def complement(s, M):
    r, p = [], 0
    for lo, hi in s:
        if lo > p:
            r.append((p, lo - 1))
        p = hi + 1
    if p < M:
        r.append((p, M - 1))
    return r


def intersect(a, b):
    r = []
    for l1, h1 in a:
        for l2, h2 in b:
            l, h = max(l1, l2), min(h1, h2)
            if l <= h:
                r.append((l, h))
    return sorted(r)


def subject(f, out):
    k = f.decl().kind()
    if k in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT):
        return all(subject(c, out) for c in f.children())
    if k in (z3.Z3_OP_ULEQ, z3.Z3_OP_UGEQ, z3.Z3_OP_ULT, z3.Z3_OP_UGT, z3.Z3_OP_SLEQ, z3.Z3_OP_SGEQ, z3.Z3_OP_SLT, z3.Z3_OP_SGT, z3.Z3_OP_EQ) and z3.is_bv(f.arg(0)):
        a, b = f.arg(0), f.arg(1)
        if z3.is_bv_value(a):
            a, b = b, a
        if not z3.is_bv_value(b) or z3.is_bv_value(a):
            return False
        if a.decl().kind() == z3.Z3_OP_EXTRACT:
            a = a.arg(0)
        if out and not out[0].eq(a):
            return False
        if not out:
            out.append(a)
        return True
    return False


def atomset(f, x, ctx):
    """exact set of values of x that satisfy the comparison f, given x in ctx; None when not representable"""
    w = x.size()
    M = 1 << w
    a, b = f.arg(0), f.arg(1)
    k = f.decl().kind()
    flip = False
    if z3.is_bv_value(a):
        a, b, flip = b, a, True
    c = b.as_long()
    n = b.size()
    N = 1 << n
    if k == z3.Z3_OP_EQ:
        s = [(c, c)]
    elif k in (z3.Z3_OP_ULEQ, z3.Z3_OP_UGEQ, z3.Z3_OP_ULT, z3.Z3_OP_UGT):
        le = (k in (z3.Z3_OP_ULEQ, z3.Z3_OP_ULT)) != flip
        strict = k in (z3.Z3_OP_ULT, z3.Z3_OP_UGT)
        s = [(0, c - strict)] if le else [(c + strict, N - 1)]
    else:
        le = (k in (z3.Z3_OP_SLEQ, z3.Z3_OP_SLT)) != flip
        strict = k in (z3.Z3_OP_SLT, z3.Z3_OP_SGT)
        v = b.as_signed_long()
        lo, hi = (-(N // 2), v - strict) if le else (v + strict, N // 2 - 1)
        s = []
        if lo <= hi:
            if lo < 0:
                s.append((lo + N, min(hi, -1) + N))
            if hi >= 0:
                s.append((max(lo, 0), hi))
    s = sorted((l, h) for l, h in s if l <= h)
    if a.eq(x):
        return s
    h, l = a.params()
    if h == w - 1:
        return [(lo << l, ((hi + 1) << l) - 1) for lo, hi in s]
    if ctx and ctx[-1][1] < (1 << (h + 1)):
        s = [(lo << l, ((hi + 1) << l) - 1) for lo, hi in s]
        return s + [(1 << (h + 1), M - 1)]
    return None


def valset(f, x, neg=False, ctx=None):
    """(superset of the values of x satisfying f, exact?)"""
    M = 1 << x.size()
    full = [(0, M - 1)]
    ctx = full if ctx is None else ctx
    k = f.decl().kind()
    if k == z3.Z3_OP_NOT:
        return valset(f.arg(0), x, not neg, ctx)
    if k in (z3.Z3_OP_AND, z3.Z3_OP_OR):
        if (k == z3.Z3_OP_AND) != neg:
            cur, exact = ctx, True
            todo = f.children()
            for rnd in range(3):
                rest = []
                for c in todo:
                    s, e = valset(c, x, neg, cur)
                    if e or rnd == 2:
                        cur = intersect(cur, s)
                        exact = exact and e
                    else:
                        rest.append(c)
                todo = rest
            return cur, exact
        s, e = valset(f, x, not neg, full)
        if e:
            return intersect(ctx, complement(s, M)), True
        parts = []
        for c in f.children():
            s, e = valset(c, x, neg, ctx)
            parts += s
        if not parts:
            return [], False
        return [(min(l for l, h in parts), max(h for l, h in parts))], False
    s = atomset(f, x, ctx)
    if s is None:
        return ctx, False
    if neg:
        s = complement(s, M)
    return intersect(ctx, s), True


class L2:
    def __init__(self):
        self.cs = []
        self.n = 0
        self.reps = {}
        self.canon = {}
        self.divs = {}
        self.bools = {}
        self.sets = {}
        self.atoms = {}     # id -> (z3 int, lo, hi)
        self.keep = []
        self.exact = []
        self.inexact = set()

    # ---- linear forms: (dict atom -> coefficient, constant)
    def atom(self, lo, hi, v=None, constrain=True):
        self.n += 1
        if v is None:
            v = z3.Int('j!%d' % self.n)
        self.atoms[self.n] = (v, lo, hi)
        if constrain:
            self.cs.append(v >= lo)
            self.cs.append(v <= hi)
        return {self.n: 1}, 0

    def iv(self, f):
        lo = hi = f[1]
        for i, c in f[0].items():
            _, l, h = self.atoms[i]
            if c > 0:
                lo += c * l
                hi += c * h
            else:
                lo += c * h
                hi += c * l
        return lo, hi

    def z(self, f):
        ts = [self.atoms[i][0] * c if c != 1 else self.atoms[i][0] for i, c in sorted(f[0].items())]
        if f[1] or not ts:
            ts.append(z3.IntVal(f[1]))
        return z3.Sum(ts) if len(ts) > 1 else ts[0]

    def lin(self, parts, c0=0):
        d = {}
        for f, c in parts:
            c0 += f[1] * c
            for i, k in f[0].items():
                k = d.get(i, 0) + k * c
                if k:
                    d[i] = k
                else:
                    d.pop(i, None)
        return d, c0

    def key(self, f):
        return tuple(sorted(f[0].items())), f[1]

    def reduce(self, f, w):
        """coefficients modulo 2^w into the signed range"""
        M = 1 << w
        H = M >> 1
        d = {}
        for i, c in f[0].items():
            c = (c + H) % M - H
            if c:
                d[i] = c
        return d, f[1]

    def canonical(self, f, w, signed):
        M = 1 << w
        L = -(M >> 1) if signed else 0
        f = self.reduce(f, w)
        lo, hi = self.iv(f)
        k = (lo - L) // M
        if (hi - L) // M == k:
            return f[0], f[1] - k * M
        key = self.key((f[0], f[1] % M)), w, signed
        r = self.canon.get(key)
        if r is None:
            # a wrap by the other sign's range, when one is known already
            r = self.atom(L, L + M - 1)
            q = self.atom((lo - L) // M, (hi - L) // M)
            self.cs.append(self.z(f) == self.z(r) + M * self.z(q))
            self.canon[key] = r
        return r

    def u(self, t):
        return self.canonical(self.rep(t), t.size(), False)

    def s(self, t):
        return self.canonical(self.rep(t), t.size(), True)

    def divmod(self, f, c):
        """floor division of a form by a positive constant"""
        # exact parts
        lo, hi = self.iv(f)
        if lo // c == hi // c:
            q = lo // c
            return ({}, q), (f[0], f[1] - q * c)
        key = self.key(f), c
        r = self.divs.get(key)
        if r is None:
            d, e = {}, {}
            for i, k in f[0].items():
                if k % c == 0:
                    d[i] = k // c
                else:
                    e[i] = k
            c0, c1 = divmod(f[1], c)
            if not e:
                r = ((d, c0), ({}, c1))
            else:
                rest = (e, c1)
                lo, hi = self.iv(rest)
                if lo // c == hi // c:
                    q = ({}, lo // c)
                    m = (e, c1 - lo // c * c)
                else:
                    q = self.atom(lo // c, hi // c)
                    m = self.atom(0, c - 1)
                    self.cs.append(self.z(rest) == c * self.z(q) + self.z(m))
                r = (self.lin([((d, c0), 1), (q, 1)]), m)
            self.divs[key] = r
        return r

    def truncdiv(self, f, c):
        """division towards zero by a positive constant"""
        lo, hi = self.iv(f)
        if lo >= 0:
            return self.divmod(f, c)
        key = self.key(f), -c
        r = self.divs.get(key)
        if r is None:
            b = max(abs(lo), abs(hi))
            q = self.atom(-(abs(lo) // c), max(hi, 0) // c)
            m = self.atom(-(c - 1), c - 1)
            self.cs.append(self.z(f) == c * self.z(q) + self.z(m))
            zf, zm = self.z(f), self.z(m)
            self.cs.append(z3.If(zf >= 0, zm >= 0, zm <= 0))
            r = self.divs[key] = (q, m)
        return r

    def rep(self, t):
        e = self.reps.get(t.get_id())
        if e is None:
            e = self.reps[t.get_id()] = (self.rep1(t), t)
        return e[0]

    def ranged(self, t):
        """representation of an opaque term: the narrower of its signed and unsigned ranges"""
        w = t.size()
        M = 1 << w
        s = self.sets.get(t.get_id())
        if s is None:
            s = [(0, M - 1)]
        else:
            s = s[0]
        if not s:
            s = [(0, 0)]
            self.cs.append(z3.BoolVal(False))
        ulo, uhi = s[0][0], s[-1][1]
        sg = []
        for lo, hi in s:
            if lo >= M // 2:
                sg.append((lo - M, hi - M))
            elif hi < M // 2:
                sg.append((lo, hi))
            else:
                sg += [(lo, M // 2 - 1), (-(M // 2), hi - M)]
        slo, shi = min(l for l, h in sg), max(h for l, h in sg)
        return (slo, shi) if shi - slo < uhi - ulo or (shi - slo == uhi - ulo and w >= 16 and t.decl().kind() == z3.Z3_OP_UNINTERPRETED) else (ulo, uhi)

    def signrun(self, cs):
        """number of leading parts that are copies of the sign bit of what follows"""
        i = 0
        while i < len(cs) - 1:
            c = cs[i]
            if not (z3.is_app_of(c, z3.Z3_OP_EXTRACT) and c.size() == 1):
                break
            bit, x = c.params()[0], c.arg(0)
            j = i + 1
            while j < len(cs) - 1 and cs[j].eq(c):
                j += 1
            n = cs[j]
            if n.eq(c):
                ok = True
            elif n.eq(x):
                ok = bit == n.size() - 1
            else:
                ok = z3.is_app_of(n, z3.Z3_OP_EXTRACT) and n.arg(0).eq(x) and n.params()[0] == bit
            if not ok:
                break
            i += 1
        return i

    def rep1(self, t):
        k = t.decl().kind()
        w = t.size()
        M = 1 << w
        if z3.is_bv_value(t):
            return {}, (t.as_signed_long() if w > 1 else t.as_long())
        if k == z3.Z3_OP_BADD:
            return self.reduce(self.lin([(self.rep(c), 1) for c in t.children()]), w)
        if k == z3.Z3_OP_BSUB:
            cs = t.children()
            return self.reduce(self.lin([(self.rep(cs[0]), 1)] + [(self.rep(c), -1) for c in cs[1:]]), w)
        if k == z3.Z3_OP_BNEG:
            return self.lin([(self.rep(t.arg(0)), -1)])
        if k == z3.Z3_OP_BNOT:
            return self.lin([(self.rep(t.arg(0)), -1)], -1)
        if k == z3.Z3_OP_BMUL:
            c, rest = 1, []
            for x in t.children():
                f = self.rep(x)
                if not f[0]:
                    c *= f[1]
                else:
                    rest.append(x)
            if len(rest) == 0:
                return {}, c
            if len(rest) == 1:
                f = self.rep(rest[0])
                c = (c + M // 2) % M - M // 2
                return self.reduce(self.lin([(f, c)]), w)
            f = self.product(rest, w)
            return self.reduce(self.lin([(f, c)]), w)
        if k == z3.Z3_OP_ITE:
            a, b = self.rep(t.arg(1)), self.rep(t.arg(2))
            c = self.boolean(t.arg(0))
            (l1, h1), (l2, h2) = self.iv(a), self.iv(b)
            if l1 < -M or h1 > M:
                a = self.s(t.arg(1))
                l1, h1 = self.iv(a)
            if l2 < -M or h2 > M:
                b = self.s(t.arg(2))
                l2, h2 = self.iv(b)
            v = self.atom(min(l1, l2), max(h1, h2))
            self.cs.append(self.z(v) == z3.If(c, self.z(a), self.z(b)))
            return v
        if k == z3.Z3_OP_CONCAT:
            cs = t.children()
            i = self.signrun(cs)
            if i:
                rest = cs[i:]
                return self.s(z3.Concat(*rest) if len(rest) > 1 else rest[0])
            # regroup adjacent slices of one term
            out = []
            for c in cs:
                if out and z3.is_app_of(c, z3.Z3_OP_EXTRACT) and z3.is_app_of(out[-1], z3.Z3_OP_EXTRACT) and c.arg(0).eq(out[-1].arg(0)) and out[-1].params()[1] == c.params()[0] + 1:
                    out[-1] = z3.Extract(out[-1].params()[0], c.params()[1], c.arg(0))
                    self.keep.append(out[-1])
                else:
                    out.append(c)
            parts, sh = [], w
            for n, c in enumerate(out):
                sh -= c.size()
                parts.append((self.rep(c) if n == 0 else self.u(c), 1 << sh))
            return self.lin(parts)
        if k == z3.Z3_OP_ZERO_EXT:
            return self.u(t.arg(0))
        if k == z3.Z3_OP_SIGN_EXT:
            return self.s(t.arg(0))
        if k == z3.Z3_OP_EXTRACT:
            h, l = t.params()
            f = self.rep(t.arg(0))
            if l == 0:
                return self.reduce(f, w)
            s = self.sets.get(t.arg(0).get_id())
            lo, hi = self.iv(f)
            if lo < 0 and s and s[0] and s[0][-1][1] < 1 << (t.arg(0).size() - 1):
                f = self.u(t.arg(0))
            return self.divmod(f, 1 << l)[0]
        if k == z3.Z3_OP_BSHL and z3.is_bv_value(t.arg(1)):
            n = t.arg(1).as_long()
            return ({}, 0) if n >= w else self.reduce(self.lin([(self.rep(t.arg(0)), 1 << n)]), w)
        if k == z3.Z3_OP_BLSHR and z3.is_bv_value(t.arg(1)):
            n = t.arg(1).as_long()
            return ({}, 0) if n >= w else self.divmod(self.u(t.arg(0)), 1 << n)[0]
        if k == z3.Z3_OP_BASHR and z3.is_bv_value(t.arg(1)):
            return self.divmod(self.s(t.arg(0)), 1 << min(t.arg(1).as_long(), w - 1))[0]
        if k == z3.Z3_OP_BAND and t.num_args() == 2 and (z3.is_bv_value(t.arg(0)) or z3.is_bv_value(t.arg(1))):
            c, x = (t.arg(0), t.arg(1)) if z3.is_bv_value(t.arg(0)) else (t.arg(1), t.arg(0))
            m = c.as_long()
            if m:
                lo = (m & -m).bit_length() - 1
                if ((m >> lo) & ((m >> lo) + 1)) == 0:
                    hi = m.bit_length()
                    f = self.divmod(self.rep(x), 1 << lo)[0] if lo else self.rep(x)
                    if hi < w:
                        f = self.canonical(f, hi - lo, False)
                    return self.lin([(f, 1 << lo)])
            else:
                return {}, 0
        if k in (z3.Z3_OP_BUDIV, z3.Z3_OP_BUREM, z3.Z3_OP_BUDIV_I, z3.Z3_OP_BUREM_I) and z3.is_bv_value(t.arg(1)) and t.arg(1).as_long():
            q, r = self.divmod(self.u(t.arg(0)), t.arg(1).as_long())
            return q if k in (z3.Z3_OP_BUDIV, z3.Z3_OP_BUDIV_I) else r
        if k in (z3.Z3_OP_BSDIV, z3.Z3_OP_BSREM, z3.Z3_OP_BSDIV_I, z3.Z3_OP_BSREM_I) and z3.is_bv_value(t.arg(1)) and t.arg(1).as_long() not in (0, M // 2):
            c = t.arg(1).as_signed_long()
            q, r = self.truncdiv(self.s(t.arg(0)), abs(c))
            if k not in (z3.Z3_OP_BSDIV, z3.Z3_OP_BSDIV_I):
                return r
            return q if c > 0 else self.lin([(q, -1)])
        if k in (z3.Z3_OP_BUDIV, z3.Z3_OP_BUREM, z3.Z3_OP_BUDIV_I, z3.Z3_OP_BUREM_I, z3.Z3_OP_BSDIV, z3.Z3_OP_BSREM, z3.Z3_OP_BSDIV_I, z3.Z3_OP_BSREM_I):
            sg = k in (z3.Z3_OP_BSDIV, z3.Z3_OP_BSREM, z3.Z3_OP_BSDIV_I, z3.Z3_OP_BSREM_I)
            a, b = (self.s(t.arg(0)), self.s(t.arg(1))) if sg else (self.u(t.arg(0)), self.u(t.arg(1)))
            if self.iv(a)[0] >= 0 and self.iv(b)[0] >= 1:
                q, r = self.symdiv(a, b)
                return q if k in (z3.Z3_OP_BUDIV, z3.Z3_OP_BUDIV_I, z3.Z3_OP_BSDIV, z3.Z3_OP_BSDIV_I) else r
        if k in (z3.Z3_OP_BOR, z3.Z3_OP_BXOR):
            # operands without common bits: their sum
            fs = []
            for c in t.children():
                g = self.u(c)
                if self.iv(g) != (0, 0):
                    fs.append(g)

            def tz(g):
                n = 0
                for c in list(g[0].values()) + ([g[1]] if g[1] else []):
                    n |= c
                return (n & -n).bit_length() - 1 if n else w
            fs.sort(key=tz)
            if all(self.iv(a)[1] < (1 << tz(b)) for a, b in zip(fs, fs[1:])):
                return self.lin([(g, 1) for g in fs])
        lo, hi = self.ranged(t)
        if k == z3.Z3_OP_UNINTERPRETED and t.num_args() == 0:
            return self.atom(lo, hi, z3.Int('v!' + t.decl().name()))
        if k == z3.Z3_OP_SELECT and t.arg(0).decl().kind() == z3.Z3_OP_UNINTERPRETED and t.arg(0).num_args() == 0:
            f = z3.Function('a!' + t.arg(0).decl().name(), z3.IntSort(), z3.IntSort())
            e = f(self.z(self.u(t.arg(1))))
            v = self.atom(lo, hi)
            self.cs.append(z3.Or(self.z(v) == e, self.z(v) == e - M) if lo < 0 else self.z(v) == e)
            return v
        if k == z3.Z3_OP_UNINTERPRETED and all(z3.is_bv(c) for c in t.children()):
            f = z3.Function('f!' + t.decl().name(), *([z3.IntSort()] * (t.num_args() + 1)))
            e = f(*[self.z(self.u(c)) for c in t.children()])
            v = self.atom(lo, hi)
            self.cs.append(z3.Or(self.z(v) == e, self.z(v) == e - M) if lo < 0 else self.z(v) == e)
            return v
        return self.atom(lo, hi)

    def mono(self, i, j):
        """product of two atoms"""
        key = ('mono', min(i, j), max(i, j))
        r = self.canon.get(key)
        if r is None:
            _, lo, hi = self.atoms[i]
            _, l2, h2 = self.atoms[j]
            p = [lo * l2, lo * h2, hi * l2, hi * h2]
            r = self.canon[key] = self.atom(0 if i == j else min(p), max(p))
            a, b, p = self.atoms[i][0], self.atoms[j][0], self.z(r)
            self.cs += [z3.Implies(a == 0, p == 0), z3.Implies(b == 0, p == 0), z3.Implies(a == 1, p == b), z3.Implies(b == 1, p == a),
                        z3.Implies(z3.And(a > 0, b > 0), z3.And(p >= a, p >= b)), z3.Implies(z3.And(a < 0, b > 0), p <= a), z3.Implies(z3.And(a > 0, b < 0), p <= b)]
        return r

    def times(self, f, g):
        parts = [(({}, f[1] * g[1]), 1)]
        for i, c in f[0].items():
            parts.append((({i: 1}, 0), c * g[1]))
            for j, d in g[0].items():
                parts.append((self.mono(i, j), c * d))
        for j, d in g[0].items():
            parts.append((({j: 1}, 0), d * f[1]))
        return self.lin([(x, c) for x, c in parts if c])

    def product(self, rest, w):
        r = None
        for x in rest:
            f = self.rep(x)
            lo, hi = self.iv(f)
            if hi - lo >= 1 << w:
                f = self.s(x)
            if r is not None and len(f[0]) * len(r[0]) > 36:
                # too many monomials: one unknown per factor
                v = self.atom(*self.iv(f))
                self.cs.append(self.z(v) == self.z(f))
                f = v
                v = self.atom(*self.iv(r))
                self.cs.append(self.z(v) == self.z(r))
                r = v
            r = f if r is None else self.times(r, f)
        return r

    def symdiv(self, a, b):
        """(quotient, remainder) of non-negative a by b >= 1 (unconstrained when b is not)"""
        key = ('div', self.key(a), self.key(b))
        r = self.canon.get(key)
        if r is None:
            lo, hi = self.iv(a)
            bl, bh = self.iv(b)
            q = self.atom(0, max(hi, 0))
            m = self.atom(0, max(min(hi, bh - 1), 0))
            if len(b[0]) > 4:
                v = self.atom(bl, bh)
                self.cs.append(self.z(v) == self.z(b))
                b = v
            p = self.times(q, b)
            za, zb, zp, zm = self.z(a), self.z(b), self.z(p), self.z(m)
            self.cs.append(z3.And(za == zp + zm, zm < zb, zp >= 0))
            r = self.canon[key] = (q, m)
        return r

    def boolean(self, f):
        e = self.bools.get(f.get_id())
        if e is None:
            e = self.bools[f.get_id()] = (self.bool1(f), f)
        return e[0]

    def cmp(self, a, b, strict):
        d = self.lin([(b, 1), (a, -1)])
        lo, hi = self.iv(d)
        k = 1 if strict else 0
        if lo >= k:
            return z3.BoolVal(True)
        if hi < k:
            return z3.BoolVal(False)
        return self.z(a) < self.z(b) if strict else self.z(a) <= self.z(b)

    def bool1(self, f):
        k = f.decl().kind()
        if k == z3.Z3_OP_TRUE or k == z3.Z3_OP_FALSE:
            return f
        if k == z3.Z3_OP_NOT:
            return z3.Not(self.boolean(f.arg(0)))
        if k == z3.Z3_OP_AND:
            return z3.And([self.boolean(c) for c in f.children()])
        if k == z3.Z3_OP_OR:
            return z3.Or([self.boolean(c) for c in f.children()])
        if k == z3.Z3_OP_IMPLIES:
            return z3.Implies(self.boolean(f.arg(0)), self.boolean(f.arg(1)))
        if k == z3.Z3_OP_XOR and f.num_args() == 2:
            return z3.Xor(self.boolean(f.arg(0)), self.boolean(f.arg(1)))
        if k == z3.Z3_OP_ITE:
            return z3.If(self.boolean(f.arg(0)), self.boolean(f.arg(1)), self.boolean(f.arg(2)))
        if k in (z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT) and f.num_args() == 2:
            a, b = f.arg(0), f.arg(1)
            r = None
            if z3.is_bv(a):
                r = self.equal(a, b)
            elif z3.is_bool(a):
                r = self.boolean(a) == self.boolean(b)
            if r is not None:
                return z3.Not(r) if k == z3.Z3_OP_DISTINCT else r
        if k == z3.Z3_OP_ULEQ:
            return self.cmp(self.u(f.arg(0)), self.u(f.arg(1)), False)
        if k == z3.Z3_OP_UGEQ:
            return self.cmp(self.u(f.arg(1)), self.u(f.arg(0)), False)
        if k == z3.Z3_OP_ULT:
            return self.cmp(self.u(f.arg(0)), self.u(f.arg(1)), True)
        if k == z3.Z3_OP_UGT:
            return self.cmp(self.u(f.arg(1)), self.u(f.arg(0)), True)
        if k == z3.Z3_OP_SLEQ:
            return self.cmp(self.s(f.arg(0)), self.s(f.arg(1)), False)
        if k == z3.Z3_OP_SGEQ:
            return self.cmp(self.s(f.arg(1)), self.s(f.arg(0)), False)
        if k == z3.Z3_OP_SLT:
            return self.cmp(self.s(f.arg(0)), self.s(f.arg(1)), True)
        if k == z3.Z3_OP_SGT:
            return self.cmp(self.s(f.arg(1)), self.s(f.arg(0)), True)
        if k == z3.Z3_OP_UNINTERPRETED and f.num_args() == 0:
            return f
        self.n += 1
        return z3.Bool('c!%d' % self.n)

    def equal(self, a, b):
        w = a.size()
        M = 1 << w
        if z3.is_bv_value(a):
            a, b = b, a
        if a.decl().kind() == z3.Z3_OP_BXOR and a.num_args() == 2 and z3.is_bv_value(b) and b.as_long() == 0:
            a, b = a.arg(0), a.arg(1)
        d = self.reduce(self.lin([(self.rep(a), 1), (self.rep(b), -1)]), w)
        lo, hi = self.iv(d)
        # multiples of M within the interval
        k0, k1 = -((-lo) // M), hi // M
        if k0 > k1:
            return z3.BoolVal(False)
        if k1 - k0 <= 3:
            return z3.Or([self.z(d) == k * M for k in range(k0, k1 + 1)])
        return self.z(self.u(a)) == self.z(self.u(b))

    def learn(self, fs):
        for f in fs:
            todo = [f]
            while todo:
                g = todo.pop()
                if g.decl().kind() == z3.Z3_OP_AND:
                    out = []
                    if not (subject(g, out) and out):
                        todo += g.children()
                        continue
                out = []
                if subject(g, out) and out:
                    x = out[0]
                    cur = self.sets.get(x.get_id())
                    cur = cur[0] if cur else [(0, (1 << x.size()) - 1)]
                    s, e = valset(g, x, False, cur)
                    if len(s) > 4:
                        s = [(s[0][0], s[-1][1])]
                        self.inexact.add(x.get_id())
                    if e:
                        self.exact.append((g, x))
                    self.sets[x.get_id()] = (s, x)

    def implied(self):
        """ids of formulas that the bounds of their subject variable state completely"""
        r = set()
        for g, x in self.exact:
            if x.get_id() in self.inexact or x.decl().kind() != z3.Z3_OP_UNINTERPRETED or x.num_args():
                continue
            s = self.sets[x.get_id()][0]
            lo, hi = self.ranged(x)
            if s and sum(h - l + 1 for l, h in s) == hi - lo + 1:
                self.rep(x)
                r.add(g.get_id())
        return r


def prove(fs, timeout_ms):
    l = L2()
    l.learn(fs)
    l.learn(fs)
    im = l.implied()
    goal = [l.boolean(f) for f in fs if f.get_id() not in im]
    s = z3.SimpleSolver()
    s.set('arith.solver', 2)
    s.add(l.cs)
    s.add(goal)
    s.set('timeout', timeout_ms)
    return str(s.check())


if __name__ == '__main__':
    # differential test: the translation is satisfied by every ground point that satisfies the bit-vector formula ('unsat' is sound), and
    # how often it refutes the points that do not
    import random, sys
    rnd = random.Random(int(sys.argv[1]) if len(sys.argv) > 1 else 1)
    bad = weak = tot = 0
    for it in range(int(sys.argv[2]) if len(sys.argv) > 2 else 3000):
        w = rnd.choice([4, 8, 16, 64])
        xs = [z3.BitVec('x%d' % i, w) for i in range(3)]

        def term(d):
            o = rnd.randrange(23) if d else rnd.randrange(2)
            if o == 0:
                return rnd.choice(xs)
            if o == 1:
                return z3.BitVecVal(rnd.choice([0, 1, 3, (1 << w) - 1, rnd.getrandbits(w), 1 << (w - 1)]), w)
            a, b = term(d - 1), term(d - 1)
            c = z3.BitVecVal(rnd.randrange(1, 1 << w), w)
            n = rnd.randrange(w)
            h = rnd.randrange(1, w)
            return [lambda: a + b, lambda: a - b, lambda: -a, lambda: ~a, lambda: a * c, lambda: z3.If(form(d - 1), a, b), lambda: z3.LShR(a, n), lambda: a << n,
                    lambda: z3.UDiv(a, c), lambda: z3.URem(a, c), lambda: z3.SignExt(w - h, z3.Extract(h - 1, 0, a)),
                    lambda: z3.Concat(z3.Extract(h - 1, 0, a), z3.Extract(w - 1, h, b)),
                    lambda: a * b, lambda: z3.Extract(h - 1, 0, a) * 1 if w == h else (z3.ZeroExt(w - h, z3.Extract(h - 1, 0, a)) | (b << h)), lambda: z3.URem(a, b), lambda: a / b, lambda: z3.SRem(a, c), lambda: a >> n, lambda: z3.SignExt(h, z3.Extract(w - 1, h, a)), lambda: a / c, lambda: z3.SRem(a, c)][o - 2]()

        def form(d):
            o = rnd.randrange(9)
            a, b = term(d), term(d)
            return [lambda: a == b, lambda: z3.ULE(a, b), lambda: z3.ULT(a, b), lambda: a <= b, lambda: a < b, lambda: z3.UGT(a, b), lambda: z3.Not(a >= b),
                    lambda: z3.Xor(a == b, z3.ULT(a, b)), lambda: z3.Or(a == b, a > b)][o]()
        f = form(3)
        if rnd.random() < .5:
            f = z3.simplify(f)
        vals = [rnd.choice([0, 1, (1 << w) - 1, rnd.getrandbits(w)]) for _ in xs]
        sub = z3.simplify(z3.substitute(f, *[(x, z3.BitVecVal(v, w)) for x, v in zip(xs, vals)]))
        pre = []
        for x, v in zip(xs, vals):
            o = rnd.randrange(3)
            vv = z3.BitVecVal(v, w)
            if o == 0:
                pre.append(x == v)
            elif o == 1:
                pre += [x <= vv, x >= vv]
            else:
                hi, lo = rnd.randrange(1 << w), rnd.randrange(1 << w)
                pre += [z3.Or(z3.ULE(x, max(v, hi)), x == v), z3.Not(z3.And(z3.ULT(x, min(lo, v)), x != v)), x == v]
                if rnd.random() < .5:
                    pre.pop()
        if rnd.random() < .5:
            pre = [z3.simplify(p) for p in pre]
        r = prove(pre + [f], 2000)
        real = z3.Solver()
        real.set('timeout', 4000)
        real.add(pre + [f])
        rr = str(real.check())
        tot += 1
        if r == 'unsat' and rr == 'sat':
            bad += 1
            print('MISMATCH', pre, f, vals)
        if rr == 'unsat' and r == 'sat':
            weak += 1
    print('lia2 self-test', bad, 'mismatches of', tot, 'weak', weak)
