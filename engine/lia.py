"""Sound integer abstraction of bit-vector queries.

Every bit-vector term becomes an integer in [0, 2^w); sums and constant multiples are exact (the carry out is an
existential multiple of 2^w), comparisons, equality, ite and zero extension are exact, every other operation is an
uninterpreted function of its (translated) arguments.  The abstraction only forgets facts, so `unsat` here implies that the original query is unsat;
Floating point
terms whose magnitude is bounded become reals: each rounded operation adds an error of at most half an ulp of the largest
magnitude (none where the result is representable by construction), conversions to integers are exact floors.
`sat` means nothing and is never used to accept or refute anything except candidate invariants."""
import z3, time
from fractions import Fraction

def isnum(x): return isinstance(x, z3.BitVecNumRef)

def rv(q): return z3.RatVal(q.numerator, q.denominator)
def lsb(c):
    """largest k with c a multiple of 2^k"""
    if c == 0: return 10000
    k = -(c.denominator.bit_length() - 1)
    n = abs(c.numerator)
    return k + (n & -n).bit_length() - 1
def fpconst(t):
    if not isinstance(t, z3.FPNumRef) or t.isNaN() or t.isInf(): return None
    if t.isZero(): return Fraction(0)
    p = t.sort().sbits()
    m = Fraction(t.significand_as_long(), 1 << (p - 1))
    if t.isSubnormal(): v = m * Fraction(2) ** (-126 if p == 24 else -1022)
    else: v = (1 + m) * Fraction(2) ** t.exponent_as_long(False)
    return -v if t.sign() else v

def rn(q, p):
    """q rounded to nearest even, p bits"""
    if q == 0: return q
    s, q = (-1, -q) if q < 0 else (1, q)
    e = q.numerator.bit_length() - q.denominator.bit_length()
    if Fraction(2) ** e > q: e -= 1
    u = Fraction(2) ** max(e - p + 1, -149 if p == 24 else -1074)
    return s * round(q / u) * u

class LIA:
    def __init__(self, stats, timeout=1500):
        self.stats = stats
        self.timeout = timeout
        self.ctxs = {}
        self.nv = 0
        self.ufs = {}
        self.keep = []
        self.inf = {}
        self.cur = []
        self.enter({})
    def enter(self, ub, fb={}):
        key = tuple(sorted(ub.items())) + tuple(sorted((k, v) for k, v in fb.items()))
        self.fb = fb
        c = self.ctxs.get(key)
        if c is None:
            if len(self.ctxs) > 200: self.ctxs.clear()
            c = self.ctxs[key] = ({}, {}, {})
        self.tc, self.bc, self.lin = c
        self.ub = ub
    def uf(self, name, args, w):
        args = [a if z3.is_int(a) else z3.If(a, z3.IntVal(1), z3.IntVal(0)) for a in args]
        key = (name, len(args))
        f = self.ufs.get(key)
        if f is None:
            f = self.ufs[key] = z3.Function('u!%s!%d' % (name, len(args)), *([z3.IntSort()] * (len(args) + 1))) if args else z3.Int('c!' + name)
        t = f(*args) if args else f
        self.cur.append(t >= 0); self.cur.append(t < (1 << w))
        return t
    def bound(self, t):
        """upper bound of a bit-vector term, from its structure and the unit bounds of the query"""
        w = t.size()
        if isnum(t): return t.as_long()
        k = t.decl().kind()
        m = (1 << w) - 1
        if k == z3.Z3_OP_UNINTERPRETED and t.num_args() == 0: return min(m, self.ub.get(t.decl().name(), m))
        if k == z3.Z3_OP_ZERO_EXT: return self.bound(t.arg(0))
        if k == z3.Z3_OP_CONCAT:
            r = 0; lead = True
            for x in t.children(): r = (r << x.size()) | self.bound(x) if lead and isnum(x) else (r << x.size()) | ((1 << x.size()) - 1)
            return r
        if k == z3.Z3_OP_ITE: return max(self.bound(t.arg(1)), self.bound(t.arg(2)))
        return m
    def linear(self, t, w):
        """-> (const, {id:(coef, atom)}) with coefficients mod 2^w"""
        M = (1 << w) - 1
        if isnum(t): return t.as_long(), {}
        k = t.decl().kind()
        if k == z3.Z3_OP_BADD:
            c, m = 0, {}
            for x in t.children():
                c2, m2 = self.linear(x, w)
                c += c2
                for i, (q, a) in m2.items(): m[i] = ((m[i][0] if i in m else 0) + q, a)
            return c & M, {i: (q & M, a) for i, (q, a) in m.items() if q & M}
        if k == z3.Z3_OP_BMUL and t.num_args() == 2 and isnum(t.arg(0)):
            q0 = t.arg(0).as_long()
            c, m = self.linear(t.arg(1), w)
            return (c * q0) & M, {i: ((q * q0) & M, a) for i, (q, a) in m.items() if (q * q0) & M}
        if k == z3.Z3_OP_BSUB and t.num_args() == 2:
            c1, m = self.linear(t.arg(0), w); c2, m2 = self.linear(t.arg(1), w)
            m = dict(m)
            for i, (q, a) in m2.items(): m[i] = ((m[i][0] if i in m else 0) - q, a)
            return (c1 - c2) & M, {i: (q & M, a) for i, (q, a) in m.items() if q & M}
        if k == z3.Z3_OP_BNEG:
            c, m = self.linear(t.arg(0), w)
            return (-c) & M, {i: ((-q) & M, a) for i, (q, a) in m.items()}
        return 0, {t.get_id(): (1, t)}
    def term(self, t):
        i = t.get_id()
        e = self.tc.get(i)
        if e is None:
            sv, self.cur = self.cur, []
            r = self.term_(t)
            e = self.tc[i] = (t, r, tuple(dict((x.get_id(), x) for x in self.cur).values()))
            self.cur = sv
        self.cur.extend(e[2])
        return e[1]
    def term_(self, t):
        if z3.is_fp(t) or not (z3.is_bv(t) or z3.is_bool(t)):
            return self.uf('fp%d' % t.get_id(), [], 64) if not self.keep.append(t) else None
        w = t.size()
        if isnum(t): return z3.IntVal(t.as_long())
        k = t.decl().kind()
        if k in (z3.Z3_OP_BADD, z3.Z3_OP_BSUB, z3.Z3_OP_BNEG) or (k == z3.Z3_OP_BMUL and t.num_args() == 2 and isnum(t.arg(0))):
            c, m = self.linear(t, w)
            sg = lambda x: x - (1 << w) if x >> (w - 1) else x
            c = sg(c)
            E = z3.IntVal(c)
            lo = hi = c
            for q, a in m.values():
                x = self.term(a)
                q = sg(q)
                E = E + (x if q == 1 else q * x)
                u = self.bound(a)
                if q > 0: hi += q * u
                else: lo += q * u
            W = 1 << w
            klo, khi = lo // W, hi // W
            if klo == khi: return E - W * klo if klo else E
            if khi - klo <= 3:
                r = E - W * khi
                for kk in range(khi - 1, klo - 1, -1): r = z3.If(E < W * (kk + 1), E - W * kk, r)
                return r
            self.nv += 1
            kv = z3.Int('k!%d' % self.nv)
            r = E - W * kv
            self.cur += [r >= 0, r < W, kv >= klo, kv <= khi]
            return r
        if k == z3.Z3_OP_ITE:
            return z3.If(self.boolean(t.arg(0)), self.term(t.arg(1)), self.term(t.arg(2)))
        if k == z3.Z3_OP_ZERO_EXT: return self.term(t.arg(0))
        if k == z3.Z3_OP_CONCAT:
            r = z3.IntVal(0)
            for x in t.children(): r = r * (1 << x.size()) + self.term(x)
            return r
        if k == z3.Z3_OP_EXTRACT and t.arg(0).size() == 64 and t.params()[1] == 0 and w >= 16:
            x = self.term(t.arg(0))
            u = self.bound(t.arg(0))
            if u < (1 << w): return x
            self.nv += 1
            kv = z3.Int('k!%d' % self.nv)
            r = x - (1 << w) * kv
            self.cur += [r >= 0, r < (1 << w), kv >= 0, kv <= u >> w]
            return r
        if k in (z3.Z3_OP_BUDIV, z3.Z3_OP_BUDIV_I, z3.Z3_OP_BUREM, z3.Z3_OP_BUREM_I, z3.Z3_OP_BSDIV, z3.Z3_OP_BSDIV_I) and isnum(t.arg(1)) and 0 < t.arg(1).as_long() < (1 << (w - 1)):
            c = t.arg(1).as_long()
            x = self.term(t.arg(0))
            q = self.uf('div%d:%d' % (c, w), [x], w)
            if k in (z3.Z3_OP_BSDIV, z3.Z3_OP_BSDIV_I):
                r = self.uf('sdiv%d:%d' % (c, w), [x], w)
                H = 1 << (w - 1)
                self.cur += [z3.Implies(x < H, z3.And(r * c <= x, x < r * c + c)), z3.Implies(x >= H, z3.Or(r == 0, z3.And(r >= H, (r - (1 << w)) * c >= x - (1 << w), (r - (1 << w)) * c < x - (1 << w) + c)))]
                return r
            self.cur += [q * c <= x, x < q * c + c]
            return q if k in (z3.Z3_OP_BUDIV, z3.Z3_OP_BUDIV_I) else x - q * c
        if k in (z3.Z3_OP_FPA_TO_UBV, z3.Z3_OP_FPA_TO_SBV) and t.arg(0).decl().kind() == z3.Z3_OP_FPA_RM_TOWARD_ZERO:
            a = self.real(t.arg(1))
            if a is not None and a[1] >= 0 and a[2] < 1 << (w - (k == z3.Z3_OP_FPA_TO_SBV)):
                self.nv += 1
                q = z3.Int('i!%d' % self.nv)
                self.cur += [z3.ToReal(q) <= a[0], a[0] < z3.ToReal(q) + 1, q >= 0, q < (1 << w)]
                return q
            if a is not None:
                # in range only as far as the query says so
                self.nv += 1
                q = z3.Int('i!%d' % self.nv)
                self.cur += [z3.Implies(z3.And(a[0] >= 0, a[0] < 1 << (w - (k == z3.Z3_OP_FPA_TO_SBV))), z3.And(z3.ToReal(q) <= a[0], a[0] < z3.ToReal(q) + 1)), q >= 0, q < (1 << w)]
                return q
        if k == z3.Z3_OP_UNINTERPRETED:
            return self.uf(t.decl().name() + ':%d' % w, [self.term(x) for x in t.children()], w)
        name = t.decl().name() + '_'.join(str(p) for p in t.params()) + ':' + ','.join(str(x.size()) if z3.is_bv(x) else 'b' for x in t.children())
        args = []
        for x in t.children():
            args.append(self.boolean(x) if z3.is_bool(x) else self.term(x))
        return self.uf(name, args, w)
    # ---- floating point as reals with rounding errors
    def real(self, t):
        """-> (real term, lo, hi, k) with value a multiple of 2^k when k is not None; or None"""
        i = ('r', t.get_id())
        e = self.tc.get(i)
        if e is None:
            sv, self.cur = self.cur, []
            r = self.real_(t)
            e = self.tc[i] = (t, r, tuple(self.cur))
            self.cur = sv
        self.cur.extend(e[2])
        return e[1]
    def rounded(self, x, lo, hi, k, p):
        M = max(abs(lo), abs(hi))
        if M >= 2 ** (126 if p == 24 else 1022): return None
        if k is not None and M <= Fraction(2) ** (k + p) and k >= (-149 if p == 24 else -1074): return (x, lo, hi, k)
        e = M / 2 ** p + Fraction(1, 2 ** (150 if p == 24 else 1075))
        self.nv += 1
        v = z3.Real('f!%d' % self.nv)
        self.cur += [v - x <= rv(e), x - v <= rv(e)]
        # rounding is monotone
        lo, hi = rn(lo, p), rn(hi, p)
        self.cur += [v >= rv(lo), v <= rv(hi), z3.Implies(x >= 0, v >= 0), z3.Implies(x <= 0, v <= 0)]
        return (v, lo, hi, None)
    def real_(self, t):
        p = t.sort().sbits()
        c = fpconst(t)
        if c is not None: return (rv(c), c, c, lsb(c))
        k = t.decl().kind()
        n = t.num_args()
        if k in (z3.Z3_OP_FPA_TO_FP, z3.Z3_OP_FPA_TO_FP_UNSIGNED) and n == 2:
            x = t.arg(1)
            if z3.is_fp(x):
                a = self.real(x)
                return a and self.rounded(*a, p)
            if not z3.is_bv(x): return None
            w = x.size()
            if k == z3.Z3_OP_FPA_TO_FP_UNSIGNED or self.bound(x) < (1 << (w - 1)):
                return self.rounded(z3.ToReal(self.term(x)), Fraction(0), Fraction(self.bound(x)), 0, p)
            return self.rounded(z3.ToReal(self.signed(x)), Fraction(-(1 << (w - 1))), Fraction((1 << (w - 1)) - 1), 0, p)
        if k in (z3.Z3_OP_FPA_ADD, z3.Z3_OP_FPA_SUB) and n == 3:
            a, b = self.real(t.arg(1)), self.real(t.arg(2))
            if a is None or b is None: return None
            kk = None if a[3] is None or b[3] is None else min(a[3], b[3])
            if k == z3.Z3_OP_FPA_ADD: return self.rounded(a[0] + b[0], a[1] + b[1], a[2] + b[2], kk, p)
            return self.rounded(a[0] - b[0], a[1] - b[2], a[2] - b[1], kk, p)
        if k == z3.Z3_OP_FPA_MUL and n == 3:
            a, b = self.real(t.arg(1)), self.real(t.arg(2))
            if a is None or b is None: return None
            if a[1] == a[2]: a, b = b, a
            if b[1] != b[2]: return None
            q = [a[1] * b[1], a[2] * b[1]]
            return self.rounded(a[0] * rv(b[1]), min(q), max(q), None if a[3] is None or b[3] is None else a[3] + b[3], p)
        if k == z3.Z3_OP_FPA_DIV and n == 3:
            a, b = self.real(t.arg(1)), self.real(t.arg(2))
            if a is None or b is None or b[1] != b[2] or b[1] == 0: return None
            q = [a[1] / b[1], a[2] / b[1]]
            kk = a[3] - b[3] if a[3] is not None and b[3] is not None and abs(b[1]) == Fraction(2) ** b[3] else None
            return self.rounded(a[0] * rv(1 / b[1]), min(q), max(q), kk, p)
        if k == z3.Z3_OP_FPA_NEG:
            a = self.real(t.arg(0))
            return a and (-a[0], -a[2], -a[1], a[3])
        if k == z3.Z3_OP_FPA_ROUND_TO_INTEGRAL:
            a = self.real(t.arg(1))
            if a is None or max(abs(a[1]), abs(a[2])) >= Fraction(2) ** (p - 1): return None
            rm = t.arg(0).decl().kind()
            self.nv += 1
            v = z3.ToReal(z3.Int('i!%d' % self.nv))
            if rm in (z3.Z3_OP_FPA_RM_NEAREST_TIES_TO_AWAY, z3.Z3_OP_FPA_RM_NEAREST_TIES_TO_EVEN): self.cur += [v - a[0] <= rv(Fraction(1, 2)), a[0] - v <= rv(Fraction(1, 2))]
            elif rm == z3.Z3_OP_FPA_RM_TOWARD_NEGATIVE or (rm == z3.Z3_OP_FPA_RM_TOWARD_ZERO and a[1] >= 0): self.cur += [v <= a[0], a[0] < v + 1]
            elif rm == z3.Z3_OP_FPA_RM_TOWARD_POSITIVE or (rm == z3.Z3_OP_FPA_RM_TOWARD_ZERO and a[2] <= 0): self.cur += [v >= a[0], a[0] > v - 1]
            else: return None
            return (v, a[1] - 1, a[2] + 1, 0)
        if k == z3.Z3_OP_ITE:
            a, b = self.real(t.arg(1)), self.real(t.arg(2))
            if a is None or b is None: return None
            return (z3.If(self.boolean(t.arg(0)), a[0], b[0]), min(a[1], b[1]), max(a[2], b[2]), None if a[3] is None or b[3] is None else min(a[3], b[3]))
        b = self.fb.get(t.get_id())
        if b is not None and b[0] is not None and b[1] is not None:
            v = z3.Real('x!%d' % t.get_id())
            self.keep.append(t)
            self.cur += [v >= rv(b[0]), v <= rv(b[1])]
            return (v, b[0], b[1], None)
        return None
    def fpunits(self, conds):
        """bounds of floating point terms from the query: only terms that a true comparison shows to be numbers"""
        conds = [c for c in conds if type(c) is not bool and self.hasfp(c)]
        if not conds: return {}
        CMP = {z3.Z3_OP_FPA_LT: 'lt', z3.Z3_OP_FPA_LE: 'le', z3.Z3_OP_FPA_GT: 'gt', z3.Z3_OP_FPA_GE: 'ge', z3.Z3_OP_FPA_EQ: 'eq'}
        pos, neg = [], []
        st = [(c, True) for c in conds]
        while st:
            c, s = st.pop()
            if type(c) is bool: continue
            if z3.is_not(c): st.append((c.arg(0), not s)); continue
            if (z3.is_and(c) and s) or (z3.is_or(c) and not s): st += [(x, s) for x in c.children()]; continue
            if c.num_args() == 2 and c.decl().kind() in CMP: (pos if s else neg).append((CMP[c.decl().kind()], c.arg(0), c.arg(1)))
        B = {}
        FLIP = {'lt': 'gt', 'le': 'ge', 'gt': 'lt', 'ge': 'le', 'eq': 'eq'}
        NOT = {'lt': 'ge', 'le': 'gt', 'gt': 'le', 'ge': 'lt', 'eq': None}
        for lst, negd in ((pos, False), (neg, True)):
            for op, a, b in lst:
                for op2, x, y in ((op, a, b), (FLIP[op], b, a)):
                    c = fpconst(y)
                    if c is None or fpconst(x) is not None: continue
                    i = x.get_id()
                    if negd:
                        if i not in B: continue
                        op2 = NOT[op2]
                        if op2 is None: continue
                    self.keep.append(x)
                    lo, hi = B.get(i, (None, None))
                    if op2 in ('gt', 'ge', 'eq'): lo = c if lo is None else max(lo, c)
                    if op2 in ('lt', 'le', 'eq'): hi = c if hi is None else min(hi, c)
                    B[i] = (lo, hi)
        return {i: b for i, b in B.items() if b[0] is not None and b[1] is not None}
    def signed(self, t):
        w = t.size()
        x = self.term(t)
        if isnum(t): return z3.IntVal(t.as_long() - (1 << w) if t.as_long() >> (w - 1) else t.as_long())
        if self.bound(t) < (1 << (w - 1)): return x
        return z3.If(x >= (1 << (w - 1)), x - (1 << w), x)
    def boolean(self, c):
        if type(c) is bool: return z3.BoolVal(c)
        i = c.get_id()
        e = self.bc.get(i)
        if e is None:
            sv, self.cur = self.cur, []
            r = self.boolean_(c)
            e = self.bc[i] = (c, r, tuple(dict((x.get_id(), x) for x in self.cur).values()))
            self.cur = sv
        self.cur.extend(e[2])
        return e[1]
    def boolean_(self, c):
        if z3.is_true(c) or z3.is_false(c): return c
        k = c.decl().kind()
        ch = c.children()
        if k == z3.Z3_OP_AND: return z3.And(*[self.boolean(x) for x in ch])
        if k == z3.Z3_OP_OR: return z3.Or(*[self.boolean(x) for x in ch])
        if k == z3.Z3_OP_NOT: return z3.Not(self.boolean(ch[0]))
        if k == z3.Z3_OP_IMPLIES: return z3.Implies(self.boolean(ch[0]), self.boolean(ch[1]))
        if k == z3.Z3_OP_ITE: return z3.If(self.boolean(ch[0]), self.boolean(ch[1]), self.boolean(ch[2]))
        if k == z3.Z3_OP_EQ and z3.is_bool(ch[0]): return self.boolean(ch[0]) == self.boolean(ch[1])
        if k == z3.Z3_OP_EQ and z3.is_bv(ch[0]): return self.term(ch[0]) == self.term(ch[1])
        if k == z3.Z3_OP_DISTINCT and len(ch) == 2 and z3.is_bv(ch[0]): return self.term(ch[0]) != self.term(ch[1])
        if k == z3.Z3_OP_ULEQ: return self.term(ch[0]) <= self.term(ch[1])
        if k == z3.Z3_OP_ULT: return self.term(ch[0]) < self.term(ch[1])
        if k == z3.Z3_OP_UGEQ: return self.term(ch[0]) >= self.term(ch[1])
        if k == z3.Z3_OP_UGT: return self.term(ch[0]) > self.term(ch[1])
        if k in (z3.Z3_OP_SLEQ, z3.Z3_OP_SLT, z3.Z3_OP_SGEQ, z3.Z3_OP_SGT):
            x, y = self.signed(ch[0]), self.signed(ch[1])
            return x <= y if k == z3.Z3_OP_SLEQ else x < y if k == z3.Z3_OP_SLT else x >= y if k == z3.Z3_OP_SGEQ else x > y
        if k in (z3.Z3_OP_FPA_LT, z3.Z3_OP_FPA_LE, z3.Z3_OP_FPA_GT, z3.Z3_OP_FPA_GE, z3.Z3_OP_FPA_EQ):
            a, b = self.real(ch[0]), self.real(ch[1])
            if a is not None and b is not None:
                x, y = a[0], b[0]
                return x < y if k == z3.Z3_OP_FPA_LT else x <= y if k == z3.Z3_OP_FPA_LE else x > y if k == z3.Z3_OP_FPA_GT else x >= y if k == z3.Z3_OP_FPA_GE else x == y
        if k in (z3.Z3_OP_FPA_IS_NAN, z3.Z3_OP_FPA_IS_INF) and self.real(ch[0]) is not None: return z3.BoolVal(False)
        if k == z3.Z3_OP_UNINTERPRETED and not ch: return c
        if all(z3.is_bv(x) for x in ch):
            name = 'b' + c.decl().name() + '_'.join(str(p) for p in c.params()) + ':' + ','.join(str(x.size()) for x in ch)
            return self.uf(name, [self.term(x) for x in ch], 1) == 1
        self.nv += 1
        return z3.Bool('o!%d' % self.nv)
    def info(self, c):
        """(term, symbols, has floating point, unit bounds), cached"""
        e = self.inf.get(c.get_id())
        if e is not None: return e
        if len(self.inf) > 200000: self.inf.clear()
        names, fp, seen, st = set(), False, set(), [c]
        while st:
            x = st.pop()
            j = x.get_id()
            if j in seen: continue
            seen.add(j)
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED: names.add(x.decl().name())
            if isinstance(x, z3.FPRef): fp = True
            st.extend(x.children())
        us, st = [], [c]
        while st:
            x = st.pop()
            if z3.is_and(x): st.extend(x.children())
            elif x.decl().kind() == z3.Z3_OP_ULEQ:
                a, b = x.arg(0), x.arg(1)
                if isnum(b) and a.num_args() == 0 and not isnum(a): us.append((a.decl().name(), b.as_long()))
        e = self.inf[c.get_id()] = (c, frozenset(names), fp, us)
        return e
    def hasfp(self, c): return self.info(c)[2]
    def unit(self, c, ub):
        for n, k in self.info(c)[3]:
            if k < ub.get(n, k + 1): ub[n] = k
    def relevant(self, conds, focus):
        """the conditions that share unknowns, directly or through others, with focus (a contradiction found in them is one of all)"""
        names = set()
        for c in focus: names |= self.info(c)[1]
        rest = [(c, self.info(c)[1]) for c in conds]
        keep = set()
        while True:
            left = []
            for i, (c, n) in enumerate(rest):
                if n & names: keep.add(c.get_id()); names |= n
                else: left.append((c, n))
            if len(left) == len(rest): break
            rest = left
        return [c for c in conds if c.get_id() in keep]
    def check(self, conds, focus=()):
        """'unsat' (trustworthy), 'sat' (abstract), 'unknown'"""
        t0 = time.time()
        conds = [c for c in conds if type(c) is not bool]
        focus = [c for c in focus if type(c) is not bool]
        if focus: conds = self.relevant(conds, focus) + focus
        ub = {}
        for c in conds: self.unit(c, ub)
        self.enter(ub, self.fpunits(conds))
        self.cur = []
        fs = [self.boolean(c) for c in conds]
        side = dict((x.get_id(), x) for x in self.cur).values()
        s = self.s = z3.Solver()
        s.set('timeout', self.timeout)
        s.add(*fs)
        s.add(*side)
        r = s.check()
        self.stats.solver_s += time.time() - t0
        self.stats.lia += 1
        return str(r)
    def model_false(self, c):
        """does the last abstract model make c false?"""
        self.cur = []
        return z3.is_false(self.m.eval(self.boolean(c), model_completion=True))
