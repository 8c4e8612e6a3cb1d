"""Symbolic terms, memory and solver for the VC generator.

Integers are Python ints (constants) or z3 bit-vectors; i1 is Python bool or z3 Bool; pointers are (object, offset)
pairs; memory is a set of objects, either byte-addressed cell maps (concrete size) or buffers of symbolic length with
functional content (no quantifiers, no array theory)."""
import z3, time

class Unsupported(Exception):
    pass
class OutOfBudget(Exception):
    pass

def isint(x):
    return type(x) is int

def mask(w):
    return (1 << w) - 1

def bv(x, w):
    return z3.BitVecVal(x, w) if type(x) is int else x

def bl(x):
    return z3.BoolVal(x) if type(x) is bool else x

def unwrap(e):
    """z3 numeral/bool constant -> python"""
    if isinstance(e, z3.BitVecNumRef):
        return e.as_long()
    if isinstance(e, z3.BoolRef):
        if z3.is_true(e): return True
        if z3.is_false(e): return False
    return e

def simp(e):
    if type(e) in (int, bool): return e
    if isinstance(e, (z3.BitVecRef, z3.BoolRef)):
        return unwrap(z3.simplify(e, bv_le2extract=False))
    return e

def sgn(x, w):
    return x - (1 << w) if x >> (w - 1) else x

# ---------------------------------------------------------------- integer operations
def add(a, b, w):
    if isint(a):
        if isint(b): return (a + b) & mask(w)
        if a == 0: return b
    elif isint(b) and b == 0: return a
    return simp(bv(a, w) + bv(b, w))
def sub(a, b, w):
    if isint(b):
        if isint(a): return (a - b) & mask(w)
        if b == 0: return a
    return simp(bv(a, w) - bv(b, w))
def mul(a, b, w):
    if isint(a) and isint(b): return (a * b) & mask(w)
    if isint(a) and a == 1: return b
    if isint(b) and b == 1: return a
    return simp(bv(a, w) * bv(b, w))
def band(a, b, w):
    if isint(a) and isint(b): return a & b
    return simp(bv(a, w) & bv(b, w))
def bor(a, b, w):
    if isint(a) and isint(b): return a | b
    return simp(bv(a, w) | bv(b, w))
def bxor(a, b, w):
    if isint(a) and isint(b): return a ^ b
    return simp(bv(a, w) ^ bv(b, w))
def shl(a, b, w):
    if isint(b):
        if b >= w: return 0
        if isint(a): return (a << b) & mask(w)
        if b == 0: return a
    return simp(bv(a, w) << bv(b, w))
def lshr(a, b, w):
    if isint(b):
        if b >= w: return 0
        if isint(a): return a >> b
        if b == 0: return a
    return simp(z3.LShR(bv(a, w), bv(b, w)))
def ashr(a, b, w):
    if isint(a) and isint(b): return (sgn(a, w) >> min(b, w - 1)) & mask(w)
    return simp(bv(a, w) >> bv(b, w))
def udiv(a, b, w):
    if isint(a) and isint(b) and b: return a // b
    if isint(b) and b and (b & (b - 1)) == 0: return lshr(a, b.bit_length() - 1, w)
    return simp(z3.UDiv(bv(a, w), bv(b, w)))
def urem(a, b, w):
    if isint(a) and isint(b) and b: return a % b
    if isint(b) and b and (b & (b - 1)) == 0: return band(a, b - 1, w)
    return simp(z3.URem(bv(a, w), bv(b, w)))
def sdiv(a, b, w):
    if isint(a) and isint(b) and b:
        x, y = sgn(a, w), sgn(b, w)
        q = abs(x) // abs(y)
        return (q if (x < 0) == (y < 0) else -q) & mask(w)
    return simp(bv(a, w) / bv(b, w))
def srem(a, b, w):
    if isint(a) and isint(b) and b:
        x, y = sgn(a, w), sgn(b, w)
        r = abs(x) % abs(y)
        return (r if x >= 0 else -r) & mask(w)
    return simp(z3.SRem(bv(a, w), bv(b, w)))
def zext(a, w, w2):
    if isint(a): return a
    return simp(z3.ZeroExt(w2 - w, a))
def sext(a, w, w2):
    if isint(a): return sgn(a, w) & mask(w2)
    return simp(z3.SignExt(w2 - w, a))
def extract(a, hi, lo, w):
    if isint(a): return (a >> lo) & mask(hi - lo + 1)
    if lo == 0 and hi == w - 1: return a
    return simp(z3.Extract(hi, lo, a))
def concat(parts):
    """[(val,width)...] high to low"""
    if len(parts) == 1: return parts[0][0]
    if all(isint(p) for p, _ in parts):
        r = 0
        for p, w in parts: r = (r << w) | p
        return r
    return simp(z3.Concat(*[bv(p, w) for p, w in parts]))
def ite(c, a, b, w):
    if type(c) is bool: return a if c else b
    if a is b: return a
    if isint(a) and isint(b) and a == b: return a
    return simp(z3.If(c, bv(a, w), bv(b, w)))
def eq(a, b, w):
    if isint(a) and isint(b): return a == b
    if a is b: return True
    return simp(bv(a, w) == bv(b, w))
def ult(a, b, w):
    if isint(a) and isint(b): return a < b
    return simp(z3.ULT(bv(a, w), bv(b, w)))
def ule(a, b, w):
    if isint(a) and isint(b): return a <= b
    return simp(z3.ULE(bv(a, w), bv(b, w)))
def slt(a, b, w):
    if isint(a) and isint(b): return sgn(a, w) < sgn(b, w)
    return simp(bv(a, w) < bv(b, w))
def sle(a, b, w):
    if isint(a) and isint(b): return sgn(a, w) <= sgn(b, w)
    return simp(bv(a, w) <= bv(b, w))
def lnot(c):
    if type(c) is bool: return not c
    return simp(z3.Not(c))
def land(*cs):
    r = []
    for c in cs:
        if type(c) is bool:
            if not c: return False
        else: r.append(c)
    if not r: return True
    if len(r) == 1: return r[0]
    return simp(z3.And(*r))
def lor(*cs):
    r = []
    for c in cs:
        if type(c) is bool:
            if c: return True
        else: r.append(c)
    if not r: return False
    if len(r) == 1: return r[0]
    return simp(z3.Or(*r))

# ---------------------------------------------------------------- pointers
class Ptr:
    __slots__ = ('obj', 'off')
    def __init__(self, obj, off):
        self.obj = obj; self.off = off
    def __repr__(self): return 'Ptr(%s,%s)' % (self.obj, self.off)
class Fn:
    __slots__ = ('name',)
    def __init__(self, name): self.name = name
    def __repr__(self): return 'Fn(%s)' % self.name
NULL = Ptr(0, 0)

_addr = {}
def addr_of(objid):
    if objid == 0: return 0
    a = _addr.get(objid)
    if a is None:
        a = _addr[objid] = z3.BitVec('addr!%d' % objid, 64)
    return a

# ---------------------------------------------------------------- buffer contents
_cons = {}
class Content:
    __slots__ = ('k', 'a', 'uid', 'fn')
    n = 0
def tkey(t):
    if isinstance(t, z3.ExprRef): return ('z', t.get_id())
    if isinstance(t, Ptr): return ('p', t.obj, tkey(t.off))
    if isinstance(t, Fn): return ('fn', t.name)
    if isinstance(t, Content): return ('C', t.uid)
    if isinstance(t, tuple): return tuple(tkey(x) for x in t)
    return t
def content(k, *a):
    key = (k,) + tuple(tkey(x) for x in a)
    c = _cons.get(key)
    if c is None:
        c = Content(); c.k = k; c.a = a; c.fn = None
        Content.n += 1
        c.uid = Content.n
        _cons[key] = c
        if k == 'base':
            c.fn = z3.Function('B!%s' % a[0], z3.BitVecSort(64), z3.BitVecSort(8))
    return c
_undefn = [0]
def undef_content():
    _undefn[0] += 1
    return content('base', 'undef%d' % _undefn[0], 0xFF)
ZERO = content('zero')

def grain(c, idx):
    """size of the value stored exactly at idx, as far as that is syntactically plain (else 1)"""
    while True:
        if c.k == 'store':
            d = sub(idx, c.a[1], 64)
            if not isint(d): return 1
            if d == 0: return c.a[2]
            if d < c.a[2]: return 1
            c = c.a[0]
        elif c.k == 'copy' and isint(c.a[2]):
            d = sub(idx, c.a[1], 64)
            if not isint(d): return 1
            if d < c.a[2]: idx = add(c.a[4], d, 64); c = c.a[3]
            else: c = c.a[0]
        elif c.k == 'cells':
            if not isint(idx): return 1
            for o, z, v in c.a[1]:
                if o == idx: return z
            return 1
        else: return 1

def cread(c, idx, n, decide):
    """read n bytes (little endian) at idx from a content; decide(cond)->True/False/None"""
    w = 8 * n
    while True:
        k = c.k
        if k == 'base':
            parts = []
            for j in range(n - 1, -1, -1):
                v = c.fn(bv(add(idx, j, 64), 64))
                if c.a[1] != 0xFF: v = band(v, c.a[1], 8)
                parts.append((v, 8))
            return concat(parts)
        if k == 'zero':
            return 0
        if k == 'store':
            prev, i, m, val = c.a
            d = sub(idx, i, 64)
            if isint(d):
                if d == 0 and m == n: return val
                if d >= m and d <= (1 << 64) - n:
                    c = prev; continue
                if isinstance(val, (Ptr, Fn)): raise Unsupported('partial pointer read in buffer')
                if d + n <= m:
                    return extract(val, 8 * (d + n) - 1, 8 * d, 8 * m)
                # overlap partially: bytewise
                return concat([(cread(c, add(idx, j, 64), 1, decide), 8) for j in range(n - 1, -1, -1)])
            if n == 1 and m == 1:
                q = decide(eq(idx, i, 64))
                if q is True: return val
                if q is False:
                    c = prev; continue
                return ite(simp(bv(idx, 64) == bv(i, 64)), val, cread(prev, idx, 1, decide), 8)
            # fully disjoint?
            q = decide(land(ule(m, d, 64), ule(d, (1 << 64) - n, 64)))
            if q is True:
                c = prev; continue
            if n == m:
                q = decide(eq(d, 0, 64))
                if q is True: return val
            if n > 1:
                return concat([(cread(c, add(idx, j, 64), 1, decide), 8) for j in range(n - 1, -1, -1)])
            # single byte read from a multi-byte store
            if isinstance(val, (Ptr, Fn)): raise Unsupported('partial pointer read in buffer')
            r = cread(prev, idx, 1, decide)
            for j in range(m):
                r = ite(eq(d, j, 64), extract(val, 8 * j + 7, 8 * j, 8 * m), r, 8)
            return r
        if k in ('copy', 'fill'):
            prev, dst, ln = c.a[0], c.a[1], c.a[2]
            d = sub(idx, dst, 64)
            if n == 1:
                inside = ult(d, ln, 64)
            else:
                inside = land(ule(n, ln, 64), ule(d, sub(ln, n, 64), 64))
            q = inside if type(inside) is bool else decide(inside)
            if q is True:
                if k == 'fill':
                    return concat([(c.a[3], 8)] * n)
                idx = add(c.a[4], d, 64); c = c.a[3]
                continue
            if n == 1:
                if q is False:
                    c = prev; continue
                inner = c.a[3] if k == 'fill' else cread(c.a[3], add(c.a[4], d, 64), 1, decide)
                return ite(inside, inner, cread(prev, idx, 1, decide), 8)
            out = land(ule(ln, d, 64), ule(d, (1 << 64) - n, 64)) if True else None
            q = out if type(out) is bool else decide(out)
            if q is True:
                c = prev; continue
            return concat([(cread(c, add(idx, j, 64), 1, decide), 8) for j in range(n - 1, -1, -1)])
        if k == 'cells':
            size, cells = c.a
            return cells_read(dict((o, (s, v)) for o, s, v in cells), size, idx, n, decide)
        if k == 'ite':
            cond, x, y = c.a
            q = decide(cond)
            if q is True: c = x; continue
            if q is False: c = y; continue
            return ite(cond, cread(x, idx, n, decide), cread(y, idx, n, decide), w)
        raise Unsupported('content ' + k)

_fresh = [0]
def fresh(w, name='u'):
    _fresh[0] += 1
    return z3.BitVec('%s!%d' % (name, _fresh[0]), w)

def to_int(v, n):
    """cell value -> integer term of 8n bits"""
    if isinstance(v, z3.FPRef):
        return simp(z3.fpToIEEEBV(v))
    if isinstance(v, Ptr):
        return add(addr_of(v.obj), v.off, 64)
    return v

def cells_read_conc(cells, off, n):
    c = cells.get(off)
    if c is not None and c[0] == n:
        return c[1]
    if c is not None and c[0] > n:
        return extract(to_int(c[1], c[0]), 8 * n - 1, 0, 8 * c[0])
    # assemble
    parts = []
    pos = off
    end = off + n
    while pos < end:
        c = cells.get(pos)
        if c is not None:
            s, v = c
            if pos + s <= end:
                if isinstance(v, Fn): raise Unsupported('partial read of function pointer')
                parts.append((to_int(v, s), 8 * s)); pos += s; continue
            k = end - pos
            parts.append((extract(to_int(v, s), 8 * k - 1, 0, 8 * s), 8 * k)); pos = end; continue
        # inside another cell?
        found = False
        for back in range(1, 16):
            c = cells.get(pos - back)
            if c is not None:
                if c[0] > back:
                    k = min(c[0] - back, end - pos)
                    if isinstance(c[1], Fn): raise Unsupported('partial read of function pointer')
                    parts.append((extract(to_int(c[1], c[0]), 8 * (back + k) - 1, 8 * back, 8 * c[0]), 8 * k))
                    pos += k; found = True
                break
        if not found:
            parts.append((fresh(8, 'undef'), 8)); pos += 1
    parts.reverse()
    return concat(parts)

def cells_read(cells, size, off, n, decide):
    if isint(off):
        return cells_read_conc(cells, off, n)
    cands = [o for o in range(0, size - n + 1)]
    if n > 1:
        if decide(eq(urem(off, n, 64), 0, 64)) is True:
            cands = [o for o in cands if o % n == 0]
    cands2 = [o for o in cands if decide(eq(off, o, 64)) is not False] if len(cands) <= 64 else cands
    if len(cands2) > 600: raise Unsupported('symbolic offset read over large object')
    if not cands2: cands2 = cands[:1]
    r = None
    for o in reversed(cands2):
        v = cells_read_conc(cells, o, n)
        if isinstance(v, (Ptr, Fn)):
            if len(cands2) == 1: return v
            raise Unsupported('symbolic offset read of pointers')
        v = to_int(v, n)
        r = v if r is None else ite(eq(off, o, 64), v, r, 8 * n)
    return r

def cells_clear(cells, off, n):
    """remove/split the cells overlapping [off,off+n)"""
    end = off + n
    c = cells.get(off)
    if c is not None and c[0] == n:
        del cells[off]; return
    for o in [o for o in range(off - 15, end) if o in cells]:
        s, v = cells[o]
        if o + s <= off: continue
        if o >= off and o + s <= end:
            del cells[o]; continue
        if isinstance(v, (Ptr, Fn)) : raise Unsupported('partial overwrite of pointer')
        v = to_int(v, s)
        del cells[o]
        if o < off:
            cells[o] = (off - o, extract(v, 8 * (off - o) - 1, 0, 8 * s))
        if o + s > end:
            cells[end] = (o + s - end, extract(v, 8 * s - 1, 8 * (end - o), 8 * s))

class Obj:
    __slots__ = ('id', 'kind', 'size', 'cells', 'content', 'name', 'ro', 'owner', 'heap')
    def __init__(self, id, kind, size, name='', ro=False, heap=False):
        self.id = id; self.kind = kind; self.size = size; self.cells = {} if kind == 'cells' else None
        self.content = None; self.name = name; self.ro = ro; self.owner = None; self.heap = heap
    def clone(self, owner):
        o = Obj.__new__(Obj)
        o.id = self.id; o.kind = self.kind; o.size = self.size
        o.cells = dict(self.cells) if self.cells is not None else None
        o.content = self.content; o.name = self.name; o.ro = self.ro; o.owner = owner; o.heap = self.heap
        return o

# ---------------------------------------------------------------- solver
class Stats:
    def __init__(self):
        self.queries = 0; self.solver_s = 0.0; self.fresh = 0; self.lia = 0; self.lia_unsat = 0; self.unknown = 0

import os
class SolverPool:
    def __init__(self, stats, inc_timeout=3000, hard_timeout=60000, max_queries=4000):
        self.max_queries = max_queries
        self.stats = stats
        self.inc_timeout = inc_timeout
        self.hard_timeout = hard_timeout
        self.lia = None
        self.reset()
    def reset(self):
        self.s = z3.Solver()
        self.s.set('timeout', self.inc_timeout)
        self.lits = {}
        self.keep = []
        self.nq = 0
    def lit(self, c):
        i = c.get_id()
        l = self.lits.get(i)
        if l is None:
            l = z3.Bool('l!%d' % len(self.keep))
            self.s.add(z3.Implies(l, c))
            self.lits[i] = l
            self.keep.append(c)
        return l
    def check(self, pc, extra=(), want_model=True, hard=False, lia=False):
        """pc: iterable of z3 bools. returns ('sat',model)/('unsat',None)/('unknown',None)"""
        self.stats.queries += 1
        t0 = time.time()
        try:
            pc = list(pc)
            if any(c is False for c in extra): return ('unsat', None)
            if lia and self.lia_check(pc, extra) == 'unsat': return ('unsat', None)
            self.nq += 1
            if self.nq > self.max_queries: self.reset()
            ls = [self.lit(c) for c in pc] + [self.lit(c) for c in extra if type(c) is not bool]
            r = self.s.check(*ls)
            if r == z3.unsat: return ('unsat', None)
            if r == z3.sat: return ('sat', self.s.model() if want_model else None)
            if not hard:
                self.stats.unknown += 1
                return ('unknown', None)
            return self.hard(list(pc) + [c for c in extra if type(c) is not bool])
        finally:
            self.stats.solver_s += time.time() - t0
    def lia_check(self, pc, extra):
        if self.lia is None:
            import lia
            self.lia = lia.LIA(self.stats)
        t0 = self.stats.solver_s
        r = self.lia.check(list(pc), extra)
        self.stats.solver_s = t0
        if r == 'unsat': self.stats.lia_unsat += 1
        return r
    def lia_session(self, base, cands):
        """-> test(kept indices, i): do base and the kept candidates imply candidate i (in the integer abstraction)?"""
        if self.lia is None:
            import lia
            self.lia = lia.LIA(self.stats)
        L = self.lia
        ub = {}
        for c in base: L.unit(c, ub)
        L.enter(ub)
        L.cur = []
        s = z3.Solver(); s.set('timeout', 500)
        s.add(*[L.boolean(c) for c in base])
        pos, neg = [], []
        for i, c in enumerate(cands):
            f = L.boolean(c)
            p, n = z3.Bool('p!%d' % i), z3.Bool('n!%d' % i)
            s.add(z3.Implies(p, f), z3.Implies(n, z3.Not(f)))
            pos.append(p); neg.append(n)
        s.add(*dict((x.get_id(), x) for x in L.cur).values())
        def test(kept, i):
            t0 = time.time()
            r = s.check(*([pos[j] for j in kept] + [neg[i]]))
            self.stats.solver_s += time.time() - t0; self.stats.lia += 1
            return r == z3.unsat
        return test
    def hard(self, conds):
        self.stats.fresh += 1
        ab = abstract_nonlinear(conds)
        if ab is not None:
            # products and quotients of two unknowns as uninterpreted values: unsat carries over
            s = z3.Solver(); s.set('timeout', min(10000, self.hard_timeout)); s.add(*ab)
            if s.check() == z3.unsat: return ('unsat', None)
        s = z3.Solver()
        s.set('timeout', self.hard_timeout)
        s.add(*conds)
        r = s.check()
        if r == z3.unsat: return ('unsat', None)
        if r == z3.sat: return ('sat', s.model())
        self.stats.unknown += 1
        return ('unknown', None)

NONLIN = {z3.Z3_OP_BMUL, z3.Z3_OP_BUDIV, z3.Z3_OP_BUREM, z3.Z3_OP_BSDIV, z3.Z3_OP_BSREM, z3.Z3_OP_BUDIV_I, z3.Z3_OP_BUREM_I, z3.Z3_OP_BSDIV_I, z3.Z3_OP_BSREM_I}
def abstract_nonlinear(conds):
    """replace every nonlinear bit-vector term by a fresh constant (same term, same constant); None when there is none"""
    seen, subs, ranges = set(), {}, []
    stack = list(conds)
    while stack:
        t = stack.pop()
        i = t.get_id()
        if i in seen: continue
        seen.add(i)
        if z3.is_app(t):
            if t.decl().kind() in NONLIN and sum(not z3.is_bv_value(c) for c in t.children()) >= 2:
                if t.decl().kind() == z3.Z3_OP_BMUL:
                    ks = [c for c in t.children() if z3.is_bv_value(c)]
                    vs = sorted((c for c in t.children() if not z3.is_bv_value(c)), key=lambda c: c.get_id())
                    r = z3.BitVec('nl!m%s' % '_'.join(str(c.get_id()) for c in vs), t.size())
                    lo, hi = 1, 1
                    for c in vs:
                        a, b = srange(c)
                        q = [lo * a, lo * b, hi * a, hi * b]; lo, hi = min(q), max(q)
                    if lo >= -(1 << t.size() - 1) and hi < 1 << t.size() - 1: ranges.append(z3.And(r >= lo, r <= hi))
                    for c in vs: ranges.append(z3.Implies(c == 0, r == 0))
                    for k in ks: r = k * r
                    subs[i] = (t, r); continue
                subs[i] = (t, z3.BitVec('nl!%d' % i, t.size())); continue
            stack.extend(t.children())
    if not subs: return None
    return [z3.substitute(c, *subs.values()) for c in conds] + ranges

def srange(t):
    """signed interval of a bit-vector term"""
    w = t.size()
    full = (-(1 << w - 1), (1 << w - 1) - 1)
    if z3.is_bv_value(t):
        v = t.as_signed_long(); return v, v
    k = t.decl().kind()
    if k == z3.Z3_OP_CONCAT:
        c = t.children()
        if z3.is_bv_value(c[0]) and c[0].as_long() == 0: return 0, (1 << w - c[0].size()) - 1
    if k in (z3.Z3_OP_BADD, z3.Z3_OP_BSUB):
        lo = hi = None
        for c in t.children():
            a, b = srange(c)
            if lo is None: lo, hi = a, b
            elif k == z3.Z3_OP_BADD: lo, hi = lo + a, hi + b
            else: lo, hi = lo - b, hi - a
        if lo >= full[0] and hi <= full[1]: return lo, hi
    if k == z3.Z3_OP_ITE:
        a, b = srange(t.arg(1)), srange(t.arg(2))
        return min(a[0], b[0]), max(a[1], b[1])
    if k == z3.Z3_OP_SIGN_EXT: return srange(t.arg(0))
    return full
