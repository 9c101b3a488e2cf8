"""Machine arithmetic as integers: an equisatisfiable translation of bit-vector constraints into linear integer arithmetic.

Every w-bit sum is v = S - 2^w*k with 0 <= v < 2^w and k integer, so wrap-around is exact.  Terms outside the fragment
(bitwise operations on two unknowns, products of unknowns) become an unconstrained integer of the right range: 'unsat' stays
sound, 'sat' is only believed when nothing was abstracted (exact)."""
import time
import z3

K = z3


class Lia:
    def __init__(self):
        self.s = z3.Solver()
        self.s.set('arith.solver', 2)
        self.memo = {}
        self.bmemo = {}
        self.log = [[]]
        self.opq = [0]
        self.n = 0
        self.ub = {}
        self.prods = {}
        self.divs = {}
        self.mags = {}
        self.svs = {}

    # --- levels
    def push(self):
        self.s.push()
        self.log.append([])
        self.opq.append(self.opq[-1])

    def pop(self):
        self.s.pop()
        for d, k, old in reversed(self.log.pop()):
            if old is None:
                del d[k]
            else:
                d[k] = old
        self.opq.pop()

    def exact(self):
        return self.opq[-1] == 0

    def add(self, f):
        self.bounds(f)
        self.s.add(self.boolean(f))

    # --- helpers
    def bounds(self, f):
        """remember constant upper bounds of plain terms: they narrow the wrap counts"""
        k = f.decl().kind()
        if k == z3.Z3_OP_AND:
            for c in f.children():
                self.bounds(c)
            return
        neg = False
        if k == z3.Z3_OP_NOT:
            neg = True
            f = f.arg(0)
            k = f.decl().kind()
            if k == z3.Z3_OP_OR:
                for c in f.children():
                    self.bounds(z3.Not(c) if c.decl().kind() != z3.Z3_OP_NOT else c.arg(0))
                return
        a = b = None
        if k == z3.Z3_OP_ULEQ:
            a, b = f.arg(0), f.arg(1)
        elif k == z3.Z3_OP_UGEQ:
            a, b = f.arg(1), f.arg(0)
        elif k == z3.Z3_OP_EQ and not neg and z3.is_bv(f.arg(0)):
            a, b = f.arg(0), f.arg(1)
            if z3.is_bv_value(a):
                a, b = b, a
        else:
            return
        if neg:     # not (a <= b): b < a
            a, b = b, a
        if z3.is_bv_value(b) and not z3.is_bv_value(a):
            u = b.as_long() - (1 if neg else 0)
            if u < 0:
                return
            self.setub(a, u)
            if a.decl().kind() == z3.Z3_OP_EXTRACT:
                h, l = a.params()
                x = a.arg(0)
                if h == x.size() - 1:               # top bits bounded
                    self.setub(x, (u << l) + (1 << l) - 1)
                elif l == 0:
                    e = self.ub.get(x.get_id())
                    if e is not None and e[0] < (1 << (h + 1)):
                        self.setub(x, u)

    def setub(self, a, u):
        key = a.get_id()
        old = self.ub.get(key)
        if old is None or u < old[0]:
            self.ub[key] = (u, a)
            self.log[-1].append((self.ub, key, old))

    def fresh(self, hi=None, lo=0):
        self.n += 1
        v = z3.Int('i!%d' % self.n)
        if lo is not None:
            self.s.add(v >= lo)
        if hi is not None:
            self.s.add(v <= hi)
        return v

    def put(self, d, t, r):
        key = t.get_id()
        d[key] = (r, t)
        self.log[-1].append((d, key, None))
        return r

    # --- integers; returns (IntExpr, upper bound)
    def val(self, t):
        e = self.memo.get(t.get_id())
        if e is not None:
            r, hi = e[0]
            b = self.ub.get(t.get_id())
            return (r, b[0]) if b is not None and b[0] < hi else e[0]
        w = t.size()
        k = t.decl().kind()
        M = 1 << w
        if z3.is_bv_value(t):
            v = t.as_long()
            return self.put(self.memo, t, (z3.IntVal(v), v))
        r = None
        hi = M - 1
        b = self.ub.get(t.get_id())
        if b is not None:
            hi = b[0]
        if k == z3.Z3_OP_UNINTERPRETED and t.num_args() == 0:
            r = z3.Int('v!' + t.decl().name())
            self.s.add(r >= 0, r <= hi)
        elif k in (z3.Z3_OP_BADD, z3.Z3_OP_BSUB, z3.Z3_OP_BMUL, z3.Z3_OP_BNEG, z3.Z3_OP_BNOT):
            lin = self.linear(t)
            if lin is not None:
                r, hi = lin
        elif k == z3.Z3_OP_ITE:
            c = self.boolean(t.arg(0))
            a, ha = self.val(t.arg(1))
            b2, hb = self.val(t.arg(2))
            r = z3.If(c, a, b2)
            hi = max(ha, hb)
            v = self.fresh(hi)
            self.s.add(v == r)
            r = v
        elif k == z3.Z3_OP_CONCAT:
            parts = []
            sh = w
            hi = 0
            for c in self.regroup(t.children()):
                sh -= c.size()
                a, ha = self.val(c)
                hi += ha << sh
                if not (z3.is_int_value(a) and a.as_long() == 0):
                    parts.append(a * (1 << sh) if sh else a)
            r = z3.Sum(parts) if len(parts) > 1 else parts[0] if parts else z3.IntVal(0)
        elif k == z3.Z3_OP_ZERO_EXT:
            r, hi = self.val(t.arg(0))
        elif k == z3.Z3_OP_SIGN_EXT:
            a, ha = self.val(t.arg(0))
            w0 = t.arg(0).size()
            if ha < (1 << (w0 - 1)):
                r, hi = a, ha
            else:
                r = z3.If(a >= (1 << (w0 - 1)), a + (M - (1 << w0)), a)
        elif k == z3.Z3_OP_BASHR and z3.is_bv_value(t.arg(1)):
            x, lo, hx = self.sv(t)
            if lo >= 0:
                r, hi = x, hx
            else:
                r = z3.If(x < 0, x + M, x)
        elif k == z3.Z3_OP_EXTRACT:
            h, l = t.params()
            a, ha = self.val(t.arg(0))
            r, hi = self.slice(a, ha, l, h)
        elif k in (z3.Z3_OP_BLSHR, z3.Z3_OP_BSHL) and z3.is_bv_value(t.arg(1)):
            n = t.arg(1).as_long()
            if n >= w:
                r, hi = z3.IntVal(0), 0
            elif k == z3.Z3_OP_BLSHR:
                a, ha = self.val(t.arg(0))
                r, hi = self.slice(a, ha, n, w - 1)
            else:
                a, ha = self.val(t.arg(0))
                r, hi = self.wrap([(a, ha, 1 << n)], 0, w)
        elif k == z3.Z3_OP_BAND and t.num_args() == 2 and (z3.is_bv_value(t.arg(0)) or z3.is_bv_value(t.arg(1))):
            c, x = (t.arg(0), t.arg(1)) if z3.is_bv_value(t.arg(0)) else (t.arg(1), t.arg(0))
            m = c.as_long()
            # contiguous mask
            if m:
                lo = (m & -m).bit_length() - 1
                if ((m >> lo) & ((m >> lo) + 1)) == 0:
                    a, ha = self.val(x)
                    r, hi = self.slice(a, ha, lo, m.bit_length() - 1)
                    if lo:
                        r, hi = r * (1 << lo), hi << lo
        elif k in (z3.Z3_OP_BUDIV, z3.Z3_OP_BUREM, z3.Z3_OP_BUDIV_I, z3.Z3_OP_BUREM_I) and z3.is_bv_value(t.arg(1)) and t.arg(1).as_long():
            c = t.arg(1).as_long()
            a, ha = self.val(t.arg(0))
            q, rem = self.divmod(a, ha, c)
            if k in (z3.Z3_OP_BUDIV, z3.Z3_OP_BUDIV_I):
                r, hi = q, ha // c
            else:
                r, hi = rem, min(ha, c - 1)
        elif k in (z3.Z3_OP_BUDIV, z3.Z3_OP_BUREM, z3.Z3_OP_BUDIV_I, z3.Z3_OP_BUREM_I):
            a, ha = self.val(t.arg(0))
            b, hb = self.val(t.arg(1))
            q, rem = self.symdiv(a, ha, b, hb, M - 1)
            r = q if k in (z3.Z3_OP_BUDIV, z3.Z3_OP_BUDIV_I) else rem
            hi = M - 1 if k in (z3.Z3_OP_BUDIV, z3.Z3_OP_BUDIV_I) else ha
        elif k in (z3.Z3_OP_BSDIV, z3.Z3_OP_BSREM, z3.Z3_OP_BSDIV_I, z3.Z3_OP_BSREM_I):
            a, ha = self.val(t.arg(0))
            b, hb = self.val(t.arg(1))
            H = 1 << (w - 1)
            div = k in (z3.Z3_OP_BSDIV, z3.Z3_OP_BSDIV_I)
            if z3.is_int_value(b) and 0 < b.as_long() < H:
                c = b.as_long()
                neg = a >= H if ha >= H else z3.BoolVal(False)
                m = z3.If(neg, M - a, a) if ha >= H else a
                v = self.fresh(min(ha, H))
                self.s.add(v == m)
                q, rem = self.divmod(v, min(ha, H), c)
                x = q if div else rem
                r = z3.If(z3.And(neg, x > 0), M - x, x) if ha >= H else x
                hi = M - 1 if ha >= H else hi
            else:
                sa, ma, hma = self.mag(t.arg(0))
                sb, mb, hmb = self.mag(t.arg(1))
                q, rem = self.symdiv(ma, hma, mb, hmb, M - 1)
                x, neg = (q, z3.Xor(sa, sb)) if div else (rem, sa)
                r = self.fresh(M - 1)
                self.s.add(r == z3.If(z3.And(neg, x > 0), M - x, x))
                hi = M - 1
        elif k == z3.Z3_OP_SELECT and t.arg(0).decl().kind() == z3.Z3_OP_UNINTERPRETED and t.arg(0).num_args() == 0:
            i, _ = self.val(t.arg(1))
            f = z3.Function('a!' + t.arg(0).decl().name(), z3.IntSort(), z3.IntSort())
            r = f(i)
            self.s.add(r >= 0, r <= hi)
        elif k == z3.Z3_OP_UNINTERPRETED and all(z3.is_bv(c) for c in t.children()):
            f = z3.Function('f!' + t.decl().name(), *([z3.IntSort()] * (t.num_args() + 1)))
            r = f(*[self.val(c)[0] for c in t.children()])
            self.s.add(r >= 0, r <= hi)
        if r is None:
            self.opq[-1] += 1
            r = self.fresh(hi)
        return self.put(self.memo, t, (r, hi))

    def sv(self, t):
        """(signed value of t, lower bound, upper bound)"""
        e = self.svs.get(t.get_id())
        if e is not None:
            return e[0]
        k = t.decl().kind()
        w = t.size()
        H = 1 << (w - 1)
        r = None
        if z3.is_bv_value(t):
            v = t.as_signed_long()
            r = (z3.IntVal(v), v, v)
        elif k == z3.Z3_OP_SIGN_EXT:
            r = self.sv(t.arg(0))
        elif k == z3.Z3_OP_CONCAT:
            cs = t.children()
            i = 0
            while i < len(cs) - 1 and self.issign(cs[i], cs, i):
                i += 1
            if i:
                rest = cs[i:]
                r = self.sv(z3.Concat(*rest) if len(rest) > 1 else rest[0])
            elif z3.is_bv_value(cs[-1]) and cs[-1].as_long() == 0:
                rest = cs[:-1]
                x, lo, hi = self.sv(z3.Concat(*rest) if len(rest) > 1 else rest[0])
                n = cs[-1].size()
                r = (x * (1 << n), lo << n, hi << n)
        elif k == z3.Z3_OP_BASHR and z3.is_bv_value(t.arg(1)):
            n = min(t.arg(1).as_long(), w - 1)
            y = t.arg(0)
            if y.decl().kind() == z3.Z3_OP_CONCAT and z3.is_bv_value(y.children()[-1]) and y.children()[-1].as_long() == 0:
                m = y.children()[-1].size()
                rest = y.children()[:-1]
                x, lo, hi = self.sv(z3.Concat(*rest) if len(rest) > 1 else rest[0])
            else:
                m = 0
                x, lo, hi = self.sv(y)
            if n <= m:
                c = 1 << (m - n)
                r = (x * c if c > 1 else x, lo * c, hi * c)
            else:
                c = 1 << (n - m)
                q = self.fresh(hi // c, lo // c)
                rem = self.fresh(c - 1)
                self.s.add(x == c * q + rem)
                r = (q, lo // c, hi // c)
        if r is None:
            a, ha = self.val(t)
            if ha < H:
                r = (a, 0, ha)
            else:
                v = self.fresh(H - 1, -H)
                self.s.add(v == z3.If(a >= H, a - (1 << w), a))
                r = (v, -H, H - 1)
        return self.put(self.svs, t, r)

    def issign(self, c, cs, i):
        """is part i a copy of the sign bit of what follows the run of such copies?"""
        if not (z3.is_app_of(c, z3.Z3_OP_EXTRACT) and c.size() == 1):
            return False
        bit, x = c.params()[0], c.arg(0)
        j = i + 1
        while j < len(cs) - 1 and cs[j].eq(c):
            j += 1
        n = cs[j]
        if n.eq(c):
            return True
        if n.eq(x):
            return bit == n.size() - 1
        return z3.is_app_of(n, z3.Z3_OP_EXTRACT) and n.arg(0).eq(x) and n.params()[0] == bit

    def mag(self, t):
        """(negative?, magnitude, bound) of the signed value of t"""
        x, lo, hi = self.sv(t)
        key = x.get_id()
        e = self.mags.get(key)
        if e is None:
            if lo >= 0:
                r = (z3.BoolVal(False), x, hi)
            else:
                m = max(-lo, hi)
                v = self.fresh(m)
                self.s.add(v == z3.If(x < 0, -x, x))
                r = (x < 0, v, m)
            e = self.mags[key] = (r, x)
            self.log[-1].append((self.mags, key, None))
        return e[0]

    def regroup(self, cs):
        """neighbouring parts that choose by the same condition choose together"""
        out = []
        i = 0
        while i < len(cs):
            j = i + 1
            if z3.is_app_of(cs[i], z3.Z3_OP_ITE):
                while j < len(cs) and z3.is_app_of(cs[j], z3.Z3_OP_ITE) and cs[j].arg(0).eq(cs[i].arg(0)):
                    j += 1
            if j > i + 1:
                out.append(z3.If(cs[i].arg(0), z3.simplify(z3.Concat(*[c.arg(1) for c in cs[i:j]])), z3.simplify(z3.Concat(*[c.arg(2) for c in cs[i:j]]))))
            else:
                out.append(cs[i])
            i = j
        return out

    def slice(self, a, ha, l, h):
        """bits h..l of a value"""
        if ha >> l == 0:
            return z3.IntVal(0), 0
        if l:
            q, _ = self.divmod(a, ha, 1 << l)
            hq = ha >> l
        else:
            q, hq = a, ha
        n = h - l + 1
        if hq >> n == 0:
            return q, hq
        _, rem = self.divmod(q, hq, 1 << n)
        return rem, (1 << n) - 1

    def divmod(self, a, ha, c):
        if ha < c:
            return z3.IntVal(0), a
        q = self.fresh(ha // c)
        r = self.fresh(c - 1)
        self.s.add(a == c * q + r)
        return q, r

    def terms(self, t, coef, out, w):
        """collects coef*t mod 2^w as linear parts; coef signed"""
        k = t.decl().kind()
        if z3.is_bv_value(t):
            v = t.as_long()
            out[None] = out.get(None, 0) + coef * (v - (1 << w) if v >> (w - 1) else v)
        elif k == z3.Z3_OP_BADD:
            for c in t.children():
                self.terms(c, coef, out, w)
        elif k == z3.Z3_OP_BSUB:
            self.terms(t.arg(0), coef, out, w)
            for c in t.children()[1:]:
                self.terms(c, -coef, out, w)
        elif k == z3.Z3_OP_BNEG:
            self.terms(t.arg(0), -coef, out, w)
        elif k == z3.Z3_OP_BNOT:
            self.terms(t.arg(0), -coef, out, w)
            out[None] = out.get(None, 0) - coef
        elif k == z3.Z3_OP_BMUL and t.num_args() == 2 and (z3.is_bv_value(t.arg(0)) or z3.is_bv_value(t.arg(1))):
            c, x = (t.arg(0), t.arg(1)) if z3.is_bv_value(t.arg(0)) else (t.arg(1), t.arg(0))
            v = c.as_long()
            self.terms(x, coef * (v - (1 << w) if v >> (w - 1) else v), out, w)
        elif k == z3.Z3_OP_BMUL:
            poly = {(): 1}
            for c in t.children():
                sub = {}
                self.terms(c, 1, sub, w)
                n = {}
                for key, v in poly.items():
                    for k2, e2 in sub.items():
                        if k2 is None:
                            nk, nv = key, v * e2
                        elif isinstance(k2, tuple):
                            nk, nv = key + k2, v * e2[0]
                        else:
                            nk, nv = key + (e2[1],), v * e2[0]
                        nk = tuple(sorted(nk, key=lambda x: x.get_id()))
                        n[nk] = n.get(nk, 0) + nv
                poly = n
                if len(poly) > 16 or any(len(key) > 4 for key in poly):
                    e = out.get(t.get_id())
                    out[t.get_id()] = ((e[0] if e else 0) + coef, t)
                    return
            for key, v in poly.items():
                if not key:
                    out[None] = out.get(None, 0) + coef * v
                elif len(key) == 1:
                    e = out.get(key[0].get_id())
                    out[key[0].get_id()] = ((e[0] if e else 0) + coef * v, key[0])
                else:
                    e = out.get(key)
                    out[key] = ((e[0] if e else 0) + coef * v, key)
        else:
            e = out.get(t.get_id())
            out[t.get_id()] = ((e[0] if e else 0) + coef, t)

    def product(self, x, hx, y, hy):
        """the integer product of two nonnegative integers, known only by what its axioms say"""
        if z3.is_int_value(x):
            return y * x.as_long(), hy * x.as_long()
        if z3.is_int_value(y):
            return x * y.as_long(), hx * y.as_long()
        if x.get_id() > y.get_id():
            x, hx, y, hy = y, hy, x, hx
        key = (x.get_id(), y.get_id())
        e = self.prods.get(key)
        if e is not None:
            return e[0], e[1]
        self.opq[-1] += 1
        hi = hx * hy
        p = self.fresh(hi)
        self.s.add(z3.Implies(x == 0, p == 0), z3.Implies(y == 0, p == 0), z3.Implies(x >= 1, p >= y), z3.Implies(y >= 1, p >= x),
                   z3.Implies(x >= 2, p >= 2 * y), z3.Implies(y >= 2, p >= 2 * x), z3.Implies(x == 1, p == y), z3.Implies(y == 1, p == x))
        for (p2, h2, a, b) in self.prods.values():
            for u, v in ((x, y), (y, x)):
                for u2, v2 in ((a, b), (b, a)):
                    if u.eq(u2):
                        self.s.add(z3.Implies(v >= v2, p >= p2), z3.Implies(v <= v2, p <= p2), z3.Implies(v > v2, p >= p2 + u), z3.Implies(v < v2, p + u <= p2),
                                   z3.Implies(v > v2 + 1, p >= p2 + 2 * u), z3.Implies(v + 1 < v2, p + 2 * u <= p2))
        self.prods[key] = (p, hi, x, y)
        self.log[-1].append((self.prods, key, None))
        return p, hi

    def symdiv(self, a, ha, b, hb, ones):
        """(quotient, remainder); ones: value of the quotient for b == 0"""
        key = (a.get_id(), b.get_id())
        e = self.divs.get(key)
        if e is None:
            q = self.fresh(ha)
            r = self.fresh(ha)
            t, ht = self.product(b, hb, q, ha)
            self.s.add(z3.Implies(b > 0, z3.And(a == t + r, r < b, q <= a)), z3.Implies(b > a, q == 0), z3.Implies(b == 0, z3.And(q == 0, r == a)))
            e = self.divs[key] = (q, r, a, b)
            self.log[-1].append((self.divs, key, None))
        q, r = e[0], e[1]
        return z3.If(b == 0, ones, q), r

    def linear(self, t):
        w = t.size()
        out = {}
        self.terms(t, 1, out, w)
        c0 = out.pop(None, 0)
        M = 1 << w
        parts = []
        for c, x in out.values():
            c %= M
            if c >> (w - 1):
                c -= M
            if c and isinstance(x, tuple):
                vs = [self.val(y) for y in x]
                a, ha = vs[0]
                for b, hb in vs[1:]:
                    a, ha = self.product(a, ha, b, hb)
                    if not (z3.is_const(a) or z3.is_int_value(a)):
                        v = self.fresh(ha)
                        self.s.add(v == a)
                        a = v
                parts.append((a, ha, c))
            elif c:
                if x.eq(t):
                    return None
                a, ha = self.val(x)
                parts.append((a, ha, c))
        c0 %= M
        if c0 >> (w - 1):
            c0 -= M
        return self.wrap(parts, c0, w)

    def wrap(self, parts, c0, w):
        M = 1 << w
        lo = c0 + sum(c * ha for a, ha, c in parts if c < 0)
        hi = c0 + sum(c * ha for a, ha, c in parts if c > 0)
        s = z3.Sum([a * c if c != 1 else a for a, ha, c in parts] + ([z3.IntVal(c0)] if c0 or not parts else []))
        klo, khi = lo // M, hi // M
        if klo == khi:
            return (s - klo * M if klo else s), hi - klo * M
        k = self.fresh(khi, klo)
        v = self.fresh(M - 1)
        self.s.add(v == s - M * k)
        return v, M - 1

    def sval(self, t):
        return self.sv(t)[0]

    def boolean(self, f):
        e = self.bmemo.get(f.get_id())
        if e is not None:
            return e[0]
        k = f.decl().kind()
        r = None
        if k == z3.Z3_OP_TRUE or k == z3.Z3_OP_FALSE:
            r = f
        elif k == z3.Z3_OP_NOT:
            r = z3.Not(self.boolean(f.arg(0)))
        elif k == z3.Z3_OP_AND:
            r = z3.And([self.boolean(c) for c in f.children()])
        elif k == z3.Z3_OP_OR:
            r = z3.Or([self.boolean(c) for c in f.children()])
        elif k == z3.Z3_OP_IMPLIES:
            r = z3.Implies(self.boolean(f.arg(0)), self.boolean(f.arg(1)))
        elif k == z3.Z3_OP_XOR and f.num_args() == 2:
            r = z3.Xor(self.boolean(f.arg(0)), self.boolean(f.arg(1)))
        elif k == z3.Z3_OP_ITE:
            r = z3.If(self.boolean(f.arg(0)), self.boolean(f.arg(1)), self.boolean(f.arg(2)))
        elif k in (z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT) and f.num_args() == 2:
            a, b = f.arg(0), f.arg(1)
            if z3.is_bv(a) and z3.is_bv_value(a):
                a, b = b, a
            if z3.is_bv(a) and a.decl().kind() == z3.Z3_OP_BXOR and a.num_args() == 2 and z3.is_bv_value(b) and b.as_long() == 0:
                a, b = a.arg(0), a.arg(1)
            if z3.is_bv(a):
                r = self.val(a)[0] == self.val(b)[0]
            elif z3.is_bool(a):
                r = self.boolean(a) == self.boolean(b)
            if r is not None and k == z3.Z3_OP_DISTINCT:
                r = z3.Not(r)
        elif k == z3.Z3_OP_ULEQ:
            r = self.val(f.arg(0))[0] <= self.val(f.arg(1))[0]
        elif k == z3.Z3_OP_UGEQ:
            r = self.val(f.arg(0))[0] >= self.val(f.arg(1))[0]
        elif k == z3.Z3_OP_ULT:
            r = self.val(f.arg(0))[0] < self.val(f.arg(1))[0]
        elif k == z3.Z3_OP_UGT:
            r = self.val(f.arg(0))[0] > self.val(f.arg(1))[0]
        elif k == z3.Z3_OP_SLEQ:
            r = self.sval(f.arg(0)) <= self.sval(f.arg(1))
        elif k == z3.Z3_OP_SGEQ:
            r = self.sval(f.arg(0)) >= self.sval(f.arg(1))
        elif k == z3.Z3_OP_SLT:
            r = self.sval(f.arg(0)) < self.sval(f.arg(1))
        elif k == z3.Z3_OP_SGT:
            r = self.sval(f.arg(0)) > self.sval(f.arg(1))
        elif k == z3.Z3_OP_UNINTERPRETED and f.num_args() == 0:
            r = f
        if r is None:
            self.opq[-1] += 1
            self.n += 1
            r = z3.Bool('b!%d' % self.n)
        return self.put(self.bmemo, f, r)


def prove(fs, timeout_ms):
    l = Lia()
    l.s = z3.SimpleSolver()
    l.s.set('arith.solver', 2)
    for f in fs:
        l.bounds(f)
    for f in fs:
        l.s.add(l.boolean(f))
    l.s.set('timeout', timeout_ms)
    return str(l.s.check()), l.exact()


if __name__ == '__main__':
    # differential test: translation agrees with the bit-vector semantics on random ground points
    import random
    rnd = random.Random(1)
    bad = 0
    for it in range(3000):
        w = rnd.choice([4, 8, 16, 64])
        xs = [z3.BitVec('x%d' % i, w) for i in range(3)]

        def term(d):
            o = rnd.randrange(23) if d else rnd.randrange(2)
            if o == 0:
                return rnd.choice(xs)
            if o == 1:
                return z3.BitVecVal(rnd.choice([0, 1, 3, (1 << w) - 1, rnd.getrandbits(w), 1 << (w - 1)]), w)
            a, b = term(d - 1), term(d - 1)
            c = z3.BitVecVal(rnd.randrange(1, 1 << w), w)
            n = rnd.randrange(w)
            h = rnd.randrange(1, w)
            return [lambda: a + b, lambda: a - b, lambda: -a, lambda: ~a, lambda: a * c, lambda: z3.If(form(d - 1), a, b), lambda: z3.LShR(a, n), lambda: a << n,
                    lambda: z3.UDiv(a, c), lambda: z3.URem(a, c), lambda: z3.SignExt(w - h, z3.Extract(h - 1, 0, a)),
                    lambda: z3.Concat(z3.Extract(h - 1, 0, a), z3.Extract(w - 1, h, b)),
                    lambda: a * b, lambda: z3.UDiv(a, b), lambda: z3.URem(a, b), lambda: a / b, lambda: z3.SRem(a, b), lambda: a >> n, lambda: z3.SignExt(h, z3.Extract(w - 1, h, a)), lambda: a / c, lambda: z3.SRem(a, c)][o - 2]()

        def form(d):
            o = rnd.randrange(9)
            a, b = term(d), term(d)
            return [lambda: a == b, lambda: z3.ULE(a, b), lambda: z3.ULT(a, b), lambda: a <= b, lambda: a < b, lambda: z3.UGT(a, b), lambda: z3.Not(a >= b),
                    lambda: z3.Xor(a == b, z3.ULT(a, b)), lambda: z3.Or(a == b, a > b)][o]()
        f = form(3)
        if rnd.random() < .5:
            f = z3.simplify(f)
        vals = [rnd.choice([0, 1, (1 << w) - 1, rnd.getrandbits(w)]) for _ in xs]
        sub = z3.simplify(z3.substitute(f, *[(x, z3.BitVecVal(v, w)) for x, v in zip(xs, vals)]))
        pre = [x == v for x, v in zip(xs, vals)]
        if rnd.random() < .5:
            pre = [z3.ULE(x, v) for x, v in zip(xs, vals)] + pre
        if rnd.random() < .5:
            r, ex = prove(pre + [f], 2000)
        else:
            l = Lia()
            for k in range(2):
                for c in pre[:2]:
                    l.push()
                    l.add(c)
                l.push()
                l.s.set('timeout', 2000)
                l.add(z3.Not(f))
                l.s.check()
                l.pop()
                for c in pre[2:]:
                    l.push()
                    l.add(c)
                l.push()
                l.add(f)
                r, ex = str(l.s.check()), l.exact()
                l.pop()
                for c in pre:
                    l.pop()
        want = 'sat' if z3.is_true(sub) else 'unsat'
        if r != 'unknown' and r != want and (r == 'unsat' or ex):
            bad += 1
            print('MISMATCH', f, vals, r, want, ex)
    print('lia self-test', bad, 'mismatches')
