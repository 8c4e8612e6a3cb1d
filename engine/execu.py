"""Forward VC generator over LLVM IR: every path of a contract is explored symbolically, calls are either replaced by
the callee's contract (a stub named in the contract file), or expanded; loops are unrolled while that is complete and
otherwise cut by inferred-and-then-checked inductive invariants (see loops.py)."""
import z3, time, sys
from sym import *
import sym
import ir as irmod

sys.setrecursionlimit(20000)

class State:
    __slots__ = ('pc', 'npc', 'mem', 'trace', 'model', 'ghosts', 'depth', 'history')
    def __init__(self):
        self.pc = None       # linked list (parent, cond)
        self.npc = 0
        self.mem = {}
        self.trace = None    # linked list of nondet choices
        self.model = None
        self.ghosts = ()
        self.depth = 0
        self.history = False
    def fork(self):
        s = State.__new__(State)
        s.pc = self.pc; s.npc = self.npc; s.mem = dict(self.mem); s.trace = self.trace
        s.model = self.model; s.ghosts = self.ghosts; s.depth = self.depth; s.history = self.history
        for o in s.mem.values(): 
            if o.owner is self: o.owner = None
        return s
    def assume(self, c):
        if c is True: return
        self.pc = (self.pc, c)
        self.npc += 1
    def pcs(self):
        r = []
        p = self.pc
        while p is not None:
            r.append(p[1]); p = p[0]
        r.reverse()
        return r
    def pcs_since(self, base):
        r = []
        p = self.pc
        while p is not base:
            if p is None: return None
            r.append(p[1]); p = p[0]
        r.reverse()
        return r
    def traces(self):
        r = []
        p = self.trace
        while p is not None:
            r.append(p[1]); p = p[0]
        r.reverse()
        return r
    def wobj(self, oid):
        o = self.mem[oid]
        if o.owner is not self:
            o = o.clone(self)
            self.mem[oid] = o
        return o

class Fr:
    """execution point inside one function activation"""
    __slots__ = ('st', 'env', 'blk', 'idx', 'prev', 'visits', 'allocas', 'inloops')
    def __init__(self, st, env, blk, idx, prev, visits, allocas):
        self.st = st; self.env = env; self.blk = blk; self.idx = idx; self.prev = prev
        self.visits = visits; self.allocas = allocas; self.inloops = ()

class Obligation:
    __slots__ = ('kind', 'label', 'where', 'n', 'triv', 'failed', 'undecided', 'cex', 'query_s')
    def __init__(self, kind, label, where):
        self.kind = kind; self.label = label; self.where = where
        self.n = 0; self.triv = 0; self.failed = 0; self.undecided = 0; self.cex = None; self.query_s = 0.0

SIZE_LIMIT = 1 << 40

UNSIGNED = {'slt': 'ult', 'sle': 'ule', 'sgt': 'ugt', 'sge': 'uge'}
def lowring(v, w):
    """a 64 bit term whose low w bits are v, if v is a linear combination of truncated 64 bit terms"""
    if isint(v): return v
    k = v.decl().kind()
    if isinstance(v, z3.BitVecNumRef): return v.as_long()
    if k == z3.Z3_OP_EXTRACT:
        x = v.arg(0)
        return unwrap(x) if x.size() == 64 and v.params() == [w - 1, 0] else None
    if k == z3.Z3_OP_BADD:
        r = 0
        for x in v.children():
            y = lowring(x, w)
            if y is None: return None
            if isint(y) and y >> (w - 1): y = (y - (1 << w)) & mask(64)
            r = add(r, y, 64)
        return r
    if k == z3.Z3_OP_BMUL and v.num_args() == 2 and isinstance(v.arg(0), z3.BitVecNumRef):
        y = lowring(v.arg(1), w)
        if y is None: return None
        q = v.arg(0).as_long()
        if q >> (w - 1): q = (q - (1 << w)) & mask(64)
        return mul(q, y, 64)
    return None

class Engine:
    def __init__(self, mod, replace=None, opts=None):
        self.m = mod
        self.opts = opts or {}
        self.replace = replace or {}
        self.stats = Stats()
        self.pool = SolverPool(self.stats, hard_timeout=self.opts.get('hard_timeout', 60000), max_queries=40 if self.opts.get('join') else 4000)
        self.nobj = 0
        self.globals = {}
        self.globals_by_id = {}
        self.obl = {}
        self.covers = {}
        self.kills = 0
        self.paths = 0
        self.deadline = None
        self.joined = 0
        self.maxpaths = self.opts.get('maxpaths', 200000)
        self.headers_cache = {}
        self.entered = set()
        self.replaced = {}
        self.assumed_ext = set()
        self.loop_reports = []
        self.reqs = {}
        self.quiet = 0       # >0: obligations are tentative (loop inference)
        self.tent = None
        self.unroll = self.opts.get('unroll', 20)
        self.hard_unroll = self.opts.get('hard_unroll', 4000)
        self.bounded = self.opts.get('bounded', False)   # cut loops instead of inferring invariants
        self.cut = 0
        self.fninfo = {}
        self.where_stack = []
        self.need = []
        self.hist_loops = set()
        self.inloop = False

    # ------------------------------------------------------------ objects
    def new_obj(self, st, kind, size, name='', ro=False, heap=False):
        self.nobj += 1
        o = Obj(self.nobj, kind, size, name, ro, heap)
        o.owner = st
        if kind == 'buf': o.content = undef_content()
        st.mem[o.id] = o
        return o

    def global_ptr(self, st, name):
        if name in self.m.aliases:
            v = self.m.aliases[name]
            return self.constval(st, PTRT, v)
        if name in self.m.funcs or name in self.m.decls:
            return Fn(name)
        g = self.globals.get(name)
        if g is None:
            if name not in self.m.globals: raise Unsupported('unknown global ' + name)
            t, init, const = self.m.globals[name]
            self.nobj += 1
            o = Obj(self.nobj, 'cells', self.m.size_of(t), name, ro=const)
            g = self.globals[name] = o
            self.globals_by_id[o.id] = o
            if init is not None:
                self.init_cells(st, o, 0, t, init)
        if g.id not in st.mem:
            st.mem[g.id] = g
        return Ptr(g.id, 0)

    def init_cells(self, st, o, off, t, c):
        t = self.m.resolve(t)
        if c[0] == 'zero':
            n = self.m.size_of(t); k = 0
            while k + 8 <= n and (off + k) % 8 == 0:
                o.cells[off + k] = (8, 0); k += 8
            while k < n:
                o.cells[off + k] = (1, 0); k += 1
            return
        if c[0] == 'undef': return
        if t[0] == 'arr':
            es = self.m.size_of(t[2])
            if c[0] == 'bytes':
                for k, b in enumerate(c[1]): o.cells[off + k] = (1, b)
                return
            for k, (et, ev) in enumerate(c[1]): self.init_cells(st, o, off + k * es, et, ev)
            return
        if t[0] == 'struct':
            for k, (et, ev) in enumerate(c[1]): self.init_cells(st, o, off + self.m.field_off(t, k), et, ev)
            return
        v = self.constval(st, t, c)
        o.cells[off] = (self.m.size_of(t), self.tomem(v, t))

    def constval(self, st, t, c):
        k = c[0]
        if k == 'c':
            t = self.m.resolve(t)
            if t == ('i', 1): return bool(c[1])
            return c[1]
        if k == 'g': return self.global_ptr(st, c[1])
        if k == 'null': return NULL
        if k == 'f':
            return z3.FPVal(c[1], fsort(self.m.resolve(t)))
        if k == 'undef': return self.undef(t)
        if k == 'zero': return self.zero(t)
        if k == 'gep': return self.gep(st, c[1], [(it, self.constval(st, it, iv)) for it, iv in c[2]])
        if k == 'agg': return [self.constval(st, et, ev) for et, ev in c[1]]
        if k == 'bytes': return list(c[1])
        if k == 'cast':
            v = self.constval(st, c[2], c[3])
            return self.cast(c[1], self.m.resolve(c[2]), v, self.m.resolve(c[4]))
        if k == 'cbin':
            w = self.m.resolve(c[2])[1]
            return {'sub': sub, 'add': add, 'xor': bxor, 'mul': mul, 'shl': shl}[c[1]](self.constval(st, c[2], c[3]), self.constval(st, c[2], c[4]), w)
        raise Unsupported('const ' + k)

    def undef(self, t):
        t = self.m.resolve(t)
        if t == ('i', 1): return z3.Bool('undefb!%d' % self.nid())
        if t[0] == 'i': return fresh(t[1], 'undef')
        if t[0] == 'ptr': return NULL
        if t[0] in ('float', 'double'): return z3.fpBVToFP(fresh(32 if t[0] == 'float' else 64, 'undef'), fsort(t))
        if t[0] == 'struct': return [self.undef(x) for x in t[1]]
        if t[0] == 'arr': return [self.undef(t[2]) for _ in range(t[1])]
        raise Unsupported('undef')
    def nid(self):
        sym._fresh[0] += 1
        return sym._fresh[0]
    def zero(self, t):
        t = self.m.resolve(t)
        if t == ('i', 1): return False
        if t[0] == 'i': return 0
        if t[0] == 'ptr': return NULL
        if t[0] in ('float', 'double'): return z3.FPVal(0.0, fsort(t))
        if t[0] == 'struct': return [self.zero(x) for x in t[1]]
        if t[0] == 'arr': return [self.zero(t[2]) for _ in range(t[1])]
        raise Unsupported('zero')

    # ------------------------------------------------------------ conditions
    def budget(self):
        if self.deadline and time.time() > self.deadline: raise OutOfBudget('time')

    def feasible(self, st, c):
        """is pc & c satisfiable? returns (bool, model or None)"""
        if type(c) is bool: return c, st.model
        if st.model is not None:
            try:
                if z3.is_true(st.model.eval(c, model_completion=True)): return True, st.model
            except z3.Z3Exception:
                pass
        self.budget()
        if self.opts.get('lia'):   # integer reasoning decides paths: what it cannot exclude is explored
            return self.pool.lia_check(st.pcs(), (c,)) != 'unsat', None
        r, mdl = self.pool.check(st.pcs(), (c,), lia=self.inloop)
        if r == 'unknown':
            r, mdl = self.pool.check(st.pcs(), (c,), hard=True) if self.opts.get('hard_feas', False) else (r, None)
        return (r != 'unsat'), mdl

    def decider(self, st):
        def decide(c):
            if type(c) is bool: return c
            t, m1 = self.feasible(st, c)
            if not t: return False
            nc = lnot(c)
            if type(nc) is bool: return not nc
            f, m2 = self.feasible(st, nc)
            if not f: return True
            if st.model is None: st.model = m1 or m2
            return None
        return decide

    def split(self, st, c):
        """-> list of (bool, state)"""
        c = simp(c) if type(c) is not bool else c
        if type(c) is bool: return [(c, st)]
        t, m1 = self.feasible(st, c)
        nc = lnot(c)
        if not t:
            return [(False, st)]   # pc implies not c
        f, m2 = self.feasible(st, nc)
        if not f:
            return [(True, st)]
        s2 = st.fork()
        st.assume(c); st.model = m1
        s2.assume(nc); s2.model = m2
        return [(True, st), (False, s2)]

    def prove(self, st, c, kind, label, fatal=True):
        """obligation: pc => c.  Afterwards c is assumed on this path. returns False when the path cannot continue"""
        key = (kind, label, self.where())
        o = self.obl.get(key)
        if o is None: o = self.obl[key] = Obligation(*key)
        o.n += 1
        c = simp(c) if type(c) is not bool else c
        if c is True:
            o.triv += 1
            return True
        t0 = time.time()
        try:
            if type(c) is bool:   # False
                if st.model is None:
                    r, st.model = self.pool.check(st.pcs(), (), hard=True)
                    if r == 'unsat': return False
                    if r == 'unknown':
                        o.undecided += 1; return False
                self.fail(st, o, st.model)
                return False
            nc = lnot(c)
            if st.model is not None and z3.is_true(st.model.eval(nc, model_completion=True)):
                r, mdl = 'sat', st.model
            else:
                self.budget()
                r, mdl = self.pool.check(st.pcs(), (nc,), hard=True, lia=self.inloop or bool(self.opts.get('lia')))
            if r == 'unsat': return True
            if r == 'sat': self.fail(st, o, mdl, nc)
            else: o.undecided += 1
            st.assume(c)
            self.kills += 1
            st.model = None
            if type(c) is bool: return c
            ok, st.model = self.feasible(st, z3.BoolVal(True)) if False else self._sat(st)
            return ok
        finally:
            o.query_s += time.time() - t0
    def _sat(self, st):
        if self.opts.get('lia'): return self.pool.lia_check(st.pcs(), ()) != 'unsat', None
        r, m = self.pool.check(st.pcs(), ())
        return r != 'unsat', m

    def fail(self, st, o, mdl, nc=None):
        o.failed += 1
        if o.cex is None and not self.quiet:
            o.cex = self.concretize(st, mdl, nc)

    def concretize(self, st, mdl, nc=None):
        """nondet choices along the path as concrete values, preferring small buffers"""
        tr = st.traces()
        if any(x[0] == 'abs' for x in tr): return None
        lens = [x[2] for x in tr if x[0] == 'buf' and not isint(x[2])]
        if lens:
            for lim in (8, 24, 64, 300, 5000):
                r, m2 = self.pool.check(st.pcs() + ([nc] if nc is not None else []), [ule(l, lim, 64) for l in lens])
                if r == 'sat':
                    mdl = m2; break
        if mdl is None:
            r, mdl = self.pool.check(st.pcs() + ([nc] if nc is not None else []), ())
            if mdl is None: return None
        out = []
        def ev(t, w):
            if type(t) in (int, bool): return int(t)
            v = mdl.eval(t, model_completion=True)
            if isinstance(v, z3.BoolRef): return int(z3.is_true(v))
            return v.as_long()
        for x in tr:
            if x[0] == 'u': out.append(ev(x[2], x[1]))
            elif x[0] == 'buf':
                n = ev(x[2], 64)
                if n > 200000: return None
                out.append([ev(cread(x[1], x[3] + i if isint(x[3]) else add(x[3], i, 64), 1, lambda c: None), 8) for i in range(n)])
        return out

    def where(self):
        if not self.where_stack: return ''
        # innermost repo-level function
        return self.where_stack[-1]

    # ------------------------------------------------------------ memory access
    def deref(self, st, p, n, what):
        """check an access of n bytes; returns obj or None when the path ends"""
        if isinstance(p, Fn): raise Unsupported('data access through function pointer')
        if not isinstance(p, Ptr): raise Unsupported('dereference of integer')
        if p.obj == 0:
            self.prove(st, False, 'memory', what + ' through null pointer')
            return None
        o = st.mem.get(p.obj)
        if o is None and p.obj in self.globals_by_id:   # first touched (through another global) in a sibling state
            o = st.mem[p.obj] = self.globals_by_id[p.obj]
        if o is None:
            self.prove(st, False, 'memory', what + ' of dead object')
            return None
        if isint(p.off) and isint(o.size) and isint(n):
            ok = p.off + n <= o.size
        else:
            ok = land(ule(n, o.size, 64), ule(p.off, sub(o.size, n, 64), 64))
        if ok is not True:
            if not self.prove(st, ok, 'memory', what + ' out of bounds'): return None
        if what == 'store' and o.ro:
            self.prove(st, False, 'memory', 'store to constant')
            return None
        return o

    def tomem(self, v, t):
        if type(v) is bool: return int(v)
        if isinstance(v, z3.BoolRef): return ite(v, 1, 0, 8)
        return v
    def frommem(self, v, t):
        if t == ('i', 1):
            if isint(v): return bool(v & 1)
            return eq(extract(v, 0, 0, 8), 1, 1)
        if t[0] == 'i':
            n = t[1]
            s = self.store_size(t) * 8
            v = to_int(v, s // 8)
            if isinstance(v, Fn): raise Unsupported('function pointer as integer')
            if n < s: return extract(v, n - 1, 0, s)
            return v
        if t[0] == 'ptr':
            if isinstance(v, (Ptr, Fn)): return v
            if isint(v) and v == 0: return NULL
            return self.int2ptr(v)
        if t[0] in ('float', 'double'):
            if isinstance(v, z3.FPRef): return v
            return simpf(z3.fpBVToFP(bv(v, 32 if t[0] == 'float' else 64), fsort(t)))
        raise Unsupported('frommem ' + str(t))
    def int2ptr(self, v):
        if isint(v): return Ptr(0, v)
        for oid, a in sym._addr.items():
            d = sub(v, a, 64)
            if isint(d): return Ptr(oid, d)
            if 'addr!' not in str(d): return Ptr(oid, d)
        if 'addr!' not in str(v): return Ptr(0, v)   # not derived from any object: dereferencing it is an error
        raise Unsupported('int to pointer')

    def load(self, st, p, t):
        t = self.m.resolve(t)
        if t[0] == 'struct':
            return [self.load(st, self.padd(p, self.m.field_off(t, k)), x) for k, x in enumerate(t[1])]
        if t[0] == 'arr':
            es = self.m.size_of(t[2])
            return [self.load(st, self.padd(p, k * es), t[2]) for k in range(t[1])]
        n = self.store_size(t)
        o = self.deref(st, p, n, 'load')
        if o is None: return None
        d = self.decider(st)
        if o.kind == 'cells':
            v = cells_read(o.cells, o.size, p.off, n, d)
        else:
            v = cread(o.content, p.off, n, d)
        return self.frommem(v, t)

    def store_size(self, t):
        # bytes a load or store touches (i40 touches 5 bytes although an array of them has stride 8)
        return (t[1] + 7) // 8 if t[0] == 'i' else self.m.size_of(t)
    def padd(self, p, k):
        return Ptr(p.obj, add(p.off, k, 64))

    def store(self, st, p, v, t):
        t = self.m.resolve(t)
        if t[0] == 'struct':
            for k, x in enumerate(t[1]):
                if not self.store(st, self.padd(p, self.m.field_off(t, k)), v[k], x): return False
            return True
        if t[0] == 'arr':
            es = self.m.size_of(t[2])
            for k in range(t[1]):
                if not self.store(st, self.padd(p, k * es), v[k], t[2]): return False
            return True
        n = self.store_size(t)
        o = self.deref(st, p, n, 'store')
        if o is None: return False
        v = self.tomem(v, t)
        if t[0] == 'i' and t[1] % 8 and t[1] != 1:
            v = zext(v, t[1], 8 * n)
        if isinstance(v, Ptr) and v.obj == 0 and isint(v.off) and v.off == 0: v = 0
        self.put(st, p, n, v)
        return True

    def put(self, st, p, n, v):
        o = st.wobj(p.obj)
        if o.kind == 'cells':
            if isint(p.off):
                cells_clear(o.cells, p.off, n)
                o.cells[p.off] = (n, v)
            else:
                d = self.decider(st)
                cands = range(0, o.size - n + 1)
                if n > 1 and d(eq(urem(p.off, n, 64), 0, 64)) is True:
                    cands = range(0, o.size - n + 1, n)
                cands = [c for c in cands if len(cands) > 64 or d(eq(p.off, c, 64)) is not False]
                if len(cands) > 300: raise Unsupported('symbolic store over large object')
                if isinstance(v, (Ptr, Fn)): raise Unsupported('symbolic store of pointer')
                v = to_int(v, n)
                if n == 1 or all(b - a >= n for a, b in zip(cands, cands[1:])):
                    for c in cands:
                        old = cells_read_conc(o.cells, c, n)
                        nv = ite(eq(p.off, c, 64), v, to_int(old, n), 8 * n)
                        cells_clear(o.cells, c, n)
                        o.cells[c] = (n, nv)
                else:
                    for k in range(n):
                        self.put(st, self.padd(p, k), 1, extract(v, 8 * k + 7, 8 * k, 8 * n))
        else:
            if isinstance(v, z3.FPRef): v = to_int(v, n)
            o.content = content('store', o.content, p.off, n, v)

    def snapshot(self, o):
        if o.kind == 'buf': return o.content
        return content('cells', o.size, tuple((k, s, v) for k, (s, v) in sorted(o.cells.items())))

    def memcpy(self, st, d, s, n):
        if isint(n) and n == 0: return True
        if not isint(n) and (s.obj == 0 or d.obj == 0):
            return self.prove(st, eq(n, 0, 64), 'memory', 'copy through null pointer')
        so = self.deref(st, s, n, 'load')
        if so is None: return False
        do = self.deref(st, d, n, 'store')
        if do is None: return False
        dec = self.decider(st)
        if do.kind == 'cells' and isint(n) and isint(d.off):
            if so.kind == 'cells' and isint(s.off):
                items = []
                pos = s.off; end = s.off + n
                for o in sorted(so.cells):
                    sz, v = so.cells[o]
                    if o + sz <= s.off or o >= end: continue
                    if o >= s.off and o + sz <= end:
                        items.append((o - s.off, sz, v))
                    else:
                        a = max(o, s.off); b = min(o + sz, end)
                        items.append((a - s.off, b - a, cells_read_conc(so.cells, a, b - a)))
                w = st.wobj(d.obj)
                cells_clear(w.cells, d.off, n) if n <= 16 else self.clear_range(w.cells, d.off, n)
                for o, sz, v in items: w.cells[d.off + o] = (sz, v)
                return True
            c = self.snapshot(so)
            k = 0
            vals = []
            while k < n:
                step = 1
                for z in (8, 4):
                    if k + z <= n and (so.kind == 'cells' or grain(c, add(s.off, k, 64)) == z): step = z; break
                vals.append((k, step, cread(c, add(s.off, k, 64), step, dec)))
                k += step
            for k, step, v in vals: self.put(st, self.padd(d, k), step, v)
            return True
        if do.kind == 'buf':
            if so.kind == 'cells' and isint(n) and isint(s.off) and n <= 256:
                items = []
                k = 0
                while k < n:
                    c = so.cells.get(s.off + k)
                    if c is not None and k + c[0] <= n:
                        items.append((k, c[0], c[1])); k += c[0]
                    else:
                        items.append((k, 1, cells_read_conc(so.cells, s.off + k, 1))); k += 1
                for k, z, v in items: self.put(st, self.padd(d, k), z, v)
                return True
            w = st.wobj(d.obj)
            if isint(d.off) and d.off == 0 and tkey(w.size) == tkey(n) and isint(s.off) and s.off == 0 and so.kind == 'buf':
                w.content = so.content
                return True
            w.content = content('copy', w.content, d.off, n, self.snapshot(so), s.off)
            return True
        # cells destination, symbolic length or offset
        if do.size > 512: raise Unsupported('symbolic memcpy into large object')
        c = self.snapshot(so)
        w = st.wobj(d.obj)
        for k in range(do.size):
            rel = sub(k, d.off, 64)
            inside = ult(rel, n, 64)
            q = dec(inside)
            if q is False: continue
            v = cread(c, add(s.off, rel, 64), 1, dec)
            old = to_int(cells_read_conc(w.cells, k, 1), 1)
            nv = v if q is True else ite(inside, v, old, 8)
            cells_clear(w.cells, k, 1)
            w.cells[k] = (1, nv)
        return True

    def clear_range(self, cells, off, n):
        for o in list(cells):
            s = cells[o][0]
            if o + s <= off or o >= off + n: continue
            if o >= off and o + s <= off + n: del cells[o]
            else:
                a = max(o, off); b = min(o + s, off + n)
                cells_clear(cells, a, b - a)

    def memset(self, st, d, v, n):
        if isint(n) and n == 0: return True
        o = self.deref(st, d, n, 'store')
        if o is None: return False
        if o.kind == 'cells' and isint(n) and isint(d.off):
            w = st.wobj(d.obj)
            self.clear_range(w.cells, d.off, n)
            k = 0
            if isint(v) and v == 0:
                while k < n:
                    if (d.off + k) % 8 == 0 and k + 8 <= n: w.cells[d.off + k] = (8, 0); k += 8
                    else: w.cells[d.off + k] = (1, 0); k += 1
            else:
                for k in range(n): w.cells[d.off + k] = (1, v)
            return True
        if o.kind == 'buf':
            w = st.wobj(d.obj)
            w.content = content('fill', w.content, d.off, n, v)
            return True
        for k in range(o.size):
            w = st.wobj(d.obj)
            inside = ult(sub(k, d.off, 64), n, 64)
            old = to_int(cells_read_conc(w.cells, k, 1), 1)
            cells_clear(w.cells, k, 1)
            w.cells[k] = (1, ite(inside, v, old, 8))
        return True

    # ------------------------------------------------------------ expressions
    def gep(self, st, t, items):
        base = items[0][1]
        if isinstance(base, Fn):
            if all(isint(v) and v == 0 for _, v in items[1:]): return base
            raise Unsupported('gep on function pointer')
        off = base.off
        cur = t
        first = True
        for it, iv in items[1:]:
            w = self.m.resolve(it)[1]
            if first:
                k = sext(iv, w, 64) if w < 64 else iv
                off = add(off, mul(k, self.m.size_of(cur), 64), 64)
                first = False
                continue
            rt = self.m.resolve(cur)
            if rt[0] == 'struct':
                off = add(off, self.m.field_off(rt, iv), 64)
                cur = rt[1][iv]
            elif rt[0] == 'arr':
                k = sext(iv, w, 64) if w < 64 else iv
                off = add(off, mul(k, self.m.size_of(rt[2]), 64), 64)
                cur = rt[2]
            else:
                raise Unsupported('gep into ' + str(rt))
        return Ptr(base.obj, off)

    def val(self, fr, t, v):
        if v[0] == 'r':
            return fr.env[v[1]]
        if v[0] == 'c':
            if t == ('i', 1): return bool(v[1])
            return v[1]
        return self.constval(fr.st, t, v)

    def cast(self, op, t, v, t2):
        if op in ('zext', 'sext'):
            if t == ('i', 1):
                one = 1 if op == 'zext' else mask(t2[1])
                if type(v) is bool: return one if v else 0
                return simp(z3.If(v, z3.BitVecVal(one, t2[1]), z3.BitVecVal(0, t2[1])))
            return (zext if op == 'zext' else sext)(v, t[1], t2[1])
        if op == 'trunc':
            if t2 == ('i', 1):
                if isint(v): return bool(v & 1)
                return eq(extract(v, 0, 0, t[1]), 1, 1)
            return extract(v, t2[1] - 1, 0, t[1])
        if op == 'ptrtoint':
            if isinstance(v, Fn): raise Unsupported('ptrtoint of function')
            r = add(addr_of(v.obj), v.off, 64)
            return r if t2[1] == 64 else extract(r, t2[1] - 1, 0, 64)
        if op == 'inttoptr':
            return self.int2ptr(v)
        if op == 'bitcast':
            if t == t2: return v
            if t2[0] in ('float', 'double'): return simpf(z3.fpBVToFP(bv(v, t[1]), fsort(t2)))
            if t[0] in ('float', 'double'): return simp(z3.fpToIEEEBV(v))
            return v
        if op in ('uitofp', 'sitofp'):
            w = 1 if t == ('i', 1) else t[1]
            if t == ('i', 1): v = self.cast('zext', t, v, ('i', 8)); w = 8
            return simpf((z3.fpUnsignedToFP if op == 'uitofp' else z3.fpSignedToFP)(z3.RNE(), bv(v, w), fsort(t2)))
        if op in ('fpext', 'fptrunc'):
            return simpf(z3.fpFPToFP(z3.RNE(), v, fsort(t2)))
        raise Unsupported('cast ' + op)

    def ptr_cmp(self, st, pred, a, b):
        if isinstance(a, Fn) or isinstance(b, Fn):
            if isinstance(a, Fn) and isinstance(b, Fn): same = a.name == b.name
            else: same = False
            if pred == 'eq': return same
            if pred == 'ne': return not same
            raise Unsupported('function pointer order')
        if a.obj == b.obj:
            x, y = a.off, b.off
        elif pred in ('eq', 'ne'):
            return pred == 'ne'
        elif a.obj == 0 or b.obj == 0:
            x, y = add(addr_of(a.obj), a.off, 64), add(addr_of(b.obj), b.off, 64)
            return {'ult': a.obj == 0, 'ule': a.obj == 0, 'ugt': b.obj == 0, 'uge': b.obj == 0}[pred]
        else:
            raise Unsupported('pointer order across objects')
        return self.icmp(pred, x, y, 64)

    def icmp(self, pred, a, b, w):
        if w == 1:
            a = bl(a) if type(a) is not bool or type(b) is not bool else a
            if type(a) is bool and type(b) is bool:
                return a == b if pred == 'eq' else (a != b if pred == 'ne' else self.icmp(pred, int(a), int(b), 8))
            b = bl(b)
            if pred == 'eq': return simp(a == b)
            if pred == 'ne': return simp(z3.Xor(a, b))
            return self.icmp(pred, ite(a, 1, 0, 8), ite(b, 1, 0, 8), 8)
        if pred == 'eq': return eq(a, b, w)
        if pred == 'ne': return lnot(eq(a, b, w))
        if pred == 'ult': return ult(a, b, w)
        if pred == 'ule': return ule(a, b, w)
        if pred == 'ugt': return ult(b, a, w)
        if pred == 'uge': return ule(b, a, w)
        if pred == 'slt': return slt(a, b, w)
        if pred == 'sle': return sle(a, b, w)
        if pred == 'sgt': return slt(b, a, w)
        if pred == 'sge': return sle(b, a, w)
        raise Unsupported(pred)

    # a truncated 64 bit counter is used as the counter itself where the path says that the truncation loses nothing
    def lift(self, st, v, w, lim):
        x = lowring(v, w)
        if x is None: return None
        if isint(x): return x if x <= lim else None
        c = ule(x, lim, 64)
        if c is not True and not self.known(st, c): return None
        return x
    def known(self, st, c):
        f, m = self.feasible(st, lnot(c))
        return not f
    def lift_cmp(self, st, pred, a, b, w):
        if isint(a) and isint(b): return None
        la, lb = lowring(a, w), lowring(b, w)
        if (la is None or isint(la)) and (lb is None or isint(lb)): return None
        sg = pred[0] == 's'
        lim = mask(w - 1) if sg else mask(w)
        out = []
        for v in (a, b):
            if isint(v):
                if v > lim: return None
                out.append(v); continue
            x = self.lift(st, v, w, lim)
            if x is None:
                if sg:
                    c = ule(v, lim, w)
                    if c is not True and not self.known(st, c): return None
                x = zext(v, w, 64)
            out.append(x)
        return out

    def binop(self, st, op, t, a, b, fl):
        if t[0] in ('float', 'double'):
            rm = z3.RNE()
            if op == 'fadd': return simpf(z3.fpAdd(rm, a, b))
            if op == 'fsub': return simpf(z3.fpSub(rm, a, b))
            if op == 'fmul': return simpf(z3.fpMul(rm, a, b))
            if op == 'fdiv': return simpf(z3.fpDiv(rm, a, b))
            raise Unsupported(op)
        if t[0] != 'i': raise Unsupported('vector op')
        w = t[1]
        if w == 1:
            if op == 'and': return land(a, b)
            if op == 'or': return lor(a, b)
            if op in ('xor', 'add', 'sub'):
                if type(a) is bool and type(b) is bool: return a != b
                if b is True: return lnot(a)
                if b is False: return a
                if a is True: return lnot(b)
                if a is False: return b
                return simp(z3.Xor(a, b))
            raise Unsupported('i1 ' + op)
        if op in ('add', 'sub', 'mul') and 'nsw' in fl:
            if isint(a) and isint(b):
                x, y = sgn(a, w), sgn(b, w)
                r = x + y if op == 'add' else x - y if op == 'sub' else x * y
                ok = -(1 << (w - 1)) <= r < (1 << (w - 1))
            else:
                ok = self.no_overflow(op, a, b, w)
            if ok is not True:
                if not self.prove(st, ok, 'arith', 'signed overflow in ' + op): return None
        if op == 'add': return add(a, b, w)
        if op == 'sub': return sub(a, b, w)
        if op == 'mul': return mul(a, b, w)
        if op == 'and': return band(a, b, w)
        if op == 'or': return bor(a, b, w)
        if op == 'xor': return bxor(a, b, w)
        if op in ('shl', 'lshr', 'ashr'):
            ok = ult(b, w, w)
            if ok is not True:
                if not self.prove(st, ok, 'arith', 'shift amount in range'): return None
            return {'shl': shl, 'lshr': lshr, 'ashr': ashr}[op](a, b, w)
        ok = lnot(eq(b, 0, w))
        if ok is not True:
            if not self.prove(st, ok, 'arith', 'division by zero'): return None
        if op == 'sdiv' or op == 'srem':
            if not (isint(b) and sgn(b, w) != -1):
                ok = lor(lnot(eq(b, mask(w), w)), lnot(eq(a, 1 << (w - 1), w)))
                if ok is not True and not self.prove(st, ok, 'arith', 'division overflow'): return None
        return {'udiv': udiv, 'urem': urem, 'sdiv': sdiv, 'srem': srem}[op](a, b, w)

    def no_overflow(self, op, a, b, w):
        if op == 'mul':
            x = bv(a, w); y = bv(b, w)
            (al, ah), (bl_, bh) = srange(x), srange(y)
            q = [al * bl_, al * bh, ah * bl_, ah * bh]
            if min(q) >= -(1 << w - 1) and max(q) < 1 << w - 1: return True
            if isint(a): a, b, x = b, a, y
            if isint(b):
                k = sgn(b, w)
                if k > 0: lo, hi = -((1 << w - 1) // k), ((1 << w - 1) - 1) // k
                elif k < -1: lo, hi = -(((1 << w - 1) - 1) // -k), (1 << w - 1) // -k
                else: return simp(x != z3.BitVecVal(1 << w - 1, w)) if k == -1 else True
                return land(sle(lo & mask(w), a, w), sle(a, hi & mask(w), w))
            r = z3.SignExt(w, x) * z3.SignExt(w, y)
            return simp(z3.SignExt(w, z3.Extract(w - 1, 0, r)) == r)
        x = z3.SignExt(1, bv(a, w)); y = z3.SignExt(1, bv(b, w))
        r = x + y if op == 'add' else x - y
        return simp(z3.Extract(w, w, r) == z3.Extract(w - 1, w - 1, r))

    # ------------------------------------------------------------ running
    def headers(self, f):
        h = self.headers_cache.get(f.name)
        if h is None:
            h = self.headers_cache[f.name] = loop_info(f)
        return h

    def call(self, st, name, args, argt=None):
        """-> list of (state, value)"""
        from intrinsics import INTRINSICS, external
        rep = self.replace.get(name)
        if rep is not None:
            self.replaced[name] = self.replaced.get(name, 0) + 1
            name = rep
        h = INTRINSICS.get(name)
        if h is not None:
            return h(self, st, args)
        f = self.m.funcs.get(name)
        if f is None:
            if name in self.m.aliases:
                v = self.m.aliases[name]
                return self.call(st, v[1], args)
            return external(self, st, name, args)
        return self.run(f, args, st)

    def run(self, f, args, st):
        self.entered.add(f.name)
        st.depth += 1
        if st.depth > 120: raise Unsupported('recursion depth')
        env = {}
        allocas = []
        for (t, r, bvt), a in zip(f.params, args):
            if bvt is not None and isinstance(a, Ptr):
                n = self.m.size_of(bvt)
                o = self.new_obj(st, 'cells', n, 'byval')
                self.memcpy(st, Ptr(o.id, 0), a, n)
                a = Ptr(o.id, 0)
                allocas.append(o.id)
            env[r] = a
        base_pc, base_mem, base_trace, base_ghosts = st.pc, dict(st.mem), st.trace, st.ghosts
        kills0 = self.kills
        fr = Fr(st, env, f.entry, 0, None, {}, allocas)
        info = self.headers(f)
        self.where_stack.append(f.name)
        try:
            exits = self.explore(f, info, [fr], None)
        finally:
            self.where_stack.pop()
        res = []
        for s, v in exits:
            s.depth -= 1
            res.append((s, v))
        if len(res) > 1 and self.opts.get('merge', True):
            res = self.merge(f, base_pc, base_mem, base_trace, base_ghosts, res, self.kills != kills0)
        return res

    def merge(self, f, base_pc, base_mem, base_trace, base_ghosts, res, killed):
        """join the results of a call that left memory alone: one state, result as if-then-else"""
        groups = {}
        out = []
        for s, v in res:
            if s.trace is not base_trace or s.ghosts is not base_ghosts: return res
            for oid, o in s.mem.items():
                b = base_mem.get(oid)
                if b is not o:
                    if b is not None and b.kind == o.kind and tkey(b.size) == tkey(o.size) and b.content is o.content and b.cells == o.cells: continue
                    if b is None and o.name and o.name.startswith('@'): continue
                    return res
            for oid in base_mem:
                if oid not in s.mem: return res
            k = vshape(v)
            if k is None: return res
            groups.setdefault(k, []).append((s, v))
        for k, lst in groups.items():
            if len(lst) == 1:
                out.append(lst[0]); continue
            conds = []
            for s, v in lst:
                c = s.pcs_since(base_pc)
                if c is None: return res
                conds.append(land(*c))
            v = lst[-1][1]
            for (s, x), c in zip(reversed(lst[:-1]), reversed(conds[:-1])):
                v = vite(c, x, v, self.m.resolve(f.ret), self.m)
                if v is FAIL: return res
            s0 = lst[0][0]
            ns = s0.fork()
            ns.pc = base_pc
            ns.npc = 0
            if killed or len(groups) > 1:
                ns.assume(lor(*conds))
            for s, _ in lst:
                for oid, o in s.mem.items():
                    if oid not in ns.mem: ns.mem[oid] = o
            ns.model = s0.model
            out.append((ns, v))
        return out

    def explore(self, f, info, work, loop):
        """run until return. loop: None or LoopCtx collecting header arrivals"""
        results = []
        while work:
            fr = work.pop()
            self.budget()
            while fr is not None or self.need:
                if self.need:
                    if fr is not None: work.append(fr)
                    need, self.need = self.need, []
                    done = []
                    for snap in need:
                        if any(d is snap or d in snap.inloops for d in done): continue
                        done.append(snap)
                        work[:] = [w for w in work if snap not in w.inloops]
                        results[:] = [r for r in results if snap not in r[2]]
                        if loop is not None:
                            loop.exits[:] = [x for x in loop.exits if snap not in x[0].inloops]
                            loop.arrivals[:] = [x for x in loop.arrivals if snap not in x.inloops]
                        for fx, tgt in self.solve_loop(f, info, snap):
                            fx = self.goto(f, info, fx, tgt, work, loop)
                            if fx is not None: work.append(fx)
                    fr = None
                    continue
                ins = f.blocks[fr.blk][fr.idx]
                op = ins[0]
                st = fr.st
                if op == 'ret':
                    v = None if ins[3] is None else self.val(fr, self.m.resolve(ins[2]), ins[3])
                    for oid in fr.allocas: st.mem.pop(oid, None)
                    self.paths += 1
                    if self.paths > self.maxpaths: raise OutOfBudget('paths')
                    results.append((st, v, fr.inloops))
                    fr = None
                    break
                if op == 'jmp':
                    fr = self.goto(f, info, fr, ins[2], work, loop); continue
                if op == 'br':
                    c = self.val(fr, ('i', 1), ins[2])
                    alts = self.split(st, c)
                    if len(alts) == 1:
                        fr = self.goto(f, info, fr, ins[3] if alts[0][0] else ins[4], work, loop); continue
                    if self.opts.get('join') and not self.bounded:
                        fr2 = self.join(f, info, fr, ins, alts, work, loop)
                        if fr2 is not False: fr = fr2; continue
                    f2 = self.fork_fr(fr, alts[1][1])
                    self.note_fork(info, fr)
                    f2 = self.goto(f, info, f2, ins[4], work, loop)
                    if f2 is not None: work.append(f2)
                    fr = self.goto(f, info, fr, ins[3], work, loop); continue
                if op == 'switch':
                    t = self.m.resolve(ins[2])
                    v = self.val(fr, t, ins[3])
                    if isint(v):
                        tgt = ins[4]
                        for c, l in ins[5]:
                            if c == v: tgt = l; break
                        fr = self.goto(f, info, fr, tgt, work, loop); continue
                    self.note_fork(info, fr)
                    bytgt = {}
                    for c, l in ins[5]: bytgt.setdefault(l, []).append(c)
                    cur = fr
                    for l, cs in bytgt.items():
                        if l == ins[4]: continue
                        alts = self.split(cur.st, lor(*[eq(v, c, t[1]) for c in cs]))
                        nxt = None
                        for b, s2 in alts:
                            if b:
                                fx = self.fork_fr(cur, s2) if len(alts) > 1 else cur
                                fx = self.goto(f, info, fx, l, work, loop)
                                if fx is not None: work.append(fx)
                            else:
                                nxt = s2
                        if nxt is None: cur = None; break
                        cur = self.fork_fr(cur, nxt)
                    if cur is not None:
                        fr = self.goto(f, info, cur, ins[4], work, loop)
                    else:
                        fr = None
                    continue
                if op == 'unreachable':
                    self.prove(st, False, 'arith', 'unreachable code reached (undefined behaviour or abort)')
                    self.kills += 1
                    break
                if op == 'call':
                    rs = self.do_call(f, fr, ins)
                    if rs is None:
                        fr.idx += 1; continue
                    if not rs:
                        fr = None; continue
                    first = True
                    keep = None
                    for s2, v in rs:
                        fx = self.fork_fr(fr, s2)
                        if ins[1] is not None: fx.env[ins[1]] = v
                        fx.idx = fr.idx + 1
                        if keep is None: keep = fx
                        else: work.append(fx)
                    fr = keep
                    continue
                if op == 'select':
                    c = self.val(fr, ('i', 1), ins[2])
                    t = self.m.resolve(ins[3])
                    a = self.val(fr, t, ins[4]); b = self.val(fr, t, ins[5])
                    if type(c) is bool:
                        fr.env[ins[1]] = a if c else b
                        fr.idx += 1; continue
                    v = vite(c, a, b, t, self.m)
                    if v is not FAIL:
                        fr.env[ins[1]] = v
                        fr.idx += 1; continue
                    alts = self.split(st, c)
                    for b_, s2 in alts[1:]:
                        f2 = self.fork_fr(fr, s2)
                        f2.env[ins[1]] = a if b_ else b
                        f2.idx += 1
                        work.append(f2)
                    fr.env[ins[1]] = a if alts[0][0] else b
                    fr.idx += 1
                    continue
                if not self.simple(f, fr, ins):
                    self.kills += 1
                    fr = None; continue
                fr.idx += 1
        return [(r[0], r[1]) for r in results]

    # ---- both sides of a branch run up to where they meet again; one state goes on when they differ in unknowns only
    def region(self, f, info, blk):
        """(J, blocks): every path from blk comes to J, through blocks without loops"""
        r = info.regions.get(blk, 0)
        if r == 0: r = info.regions[blk] = self.region_(f, info, blk)
        return r
    def region_(self, f, info, blk):
        order = []
        seen = set()
        st = list(info.succ[blk])
        while st:
            x = st.pop()
            if x in seen: continue
            seen.add(x)
            if len(seen) > 60: break
            st.extend(info.succ[x])
        best = None
        for j in seen:
            if j in info.headers or j == blk: continue
            reach = set()
            st = [x for x in info.succ[blk] if x != j]
            ok = True
            while st and ok:
                x = st.pop()
                if x in reach: continue
                reach.add(x)
                if x in info.headers or x == blk or len(reach) > 12 or not info.succ[x]: ok = False; break
                for y in info.succ[x]:
                    if y != j: st.append(y)
            if ok and (best is None or len(reach) < len(best[1])): best = (j, frozenset(reach))
        return best
    def join(self, f, info, fr, ins, alts, work, loop):
        rg = self.region(f, info, fr.blk)
        if rg is None: return False
        J, blocks = rg
        if loop is not None and (J not in loop.body or not blocks <= loop.body): return False
        ctx = JoinCtx(blocks)
        base_st = fr.st
        base_pc = None
        kills0 = self.kills
        base_env, base_visits, base_allocas = dict(fr.env), fr.visits, list(fr.allocas)
        base_pc = alts[0][1].pc[0]; base_npc = alts[0][1].npc - 1
        base_trace, base_ghosts = base_st.trace, base_st.ghosts
        start = []
        for (b, s2) in alts:
            fx = self.fork_fr(fr, s2)
            fx = self.goto(f, info, fx, ins[3] if b else ins[4], start, ctx)
            if fx is not None: start.append(fx)
        res = self.explore(f, info, start, ctx)
        assert not res
        killed = self.kills != kills0
        ex = [x for x, t in ctx.exits]
        if not ex: return None
        if len(ex) > 1:
            m = self.join_states(f, info, ex, J, base_pc, base_npc, base_env, base_visits, base_allocas, base_trace, base_ghosts, killed)
            if m is not None:
                self.joined += 1
                return m
        self.note_fork(info, fr)
        first = None
        for x in ex:
            x.visits = fr.visits
            x = self.goto(f, info, x, J, work, loop)
            if x is None: continue
            if first is None: first = x
            else: work.append(x)
        return first
    def join_states(self, f, info, ex, J, base_pc, base_npc, base_env, base_visits, base_allocas, base_trace, base_ghosts, killed):
        s0 = ex[0].st
        conds = []
        for x in ex:
            if x.st.trace is not base_trace or x.st.ghosts is not base_ghosts or x.st.history != s0.history: return None
            c = x.st.pcs_since(base_pc)
            if c is None: return None
            conds.append(land(*c))
        def pick(vals, t):
            """one value for all, or FAIL"""
            v = vals[-1]
            for c, x in zip(reversed(conds[:-1]), reversed(vals[:-1])):
                v = vite(c, x, v, t, self.m)
                if v is FAIL: return FAIL
            return v
        phis, i = [], 0
        blk = f.blocks[J]
        while i < len(blk) and blk[i][0] == 'phi':
            p = blk[i]
            t = self.m.resolve(p[2])
            vals = []
            for x in ex:
                for v, l in p[3]:
                    if l == x.blk: vals.append(self.val(x, t, v)); break
                else: return None
            k = [tkey(v) if not isinstance(v, list) else None for v in vals]
            if all(q == k[0] and q is not None for q in k): phis.append((p[1], vals[0]))
            else:
                if any(isinstance(v, (list, Ptr, Fn)) or isint(v) or type(v) is bool for v in vals): return None
                v = pick(vals, t)
                if v is FAIL: return None
                phis.append((p[1], v))
            i += 1
        al = set(base_allocas)
        mem = {}
        ids = set()
        for x in ex: ids |= set(x.st.mem)
        for oid in ids:
            os_ = [x.st.mem.get(oid) for x in ex]
            have = [o for o in os_ if o is not None]
            if len(have) < len(os_):
                if have[0].name and have[0].name.startswith('@'): mem[oid] = have[0]; continue
                return None
            o0 = os_[0]
            if all(o is o0 for o in os_): mem[oid] = o0; continue
            if any(o.kind != o0.kind or tkey(o.size) != tkey(o0.size) for o in os_): return None
            if o0.kind != 'cells':
                if any(o.content is not o0.content for o in os_): return None
                mem[oid] = o0; continue
            n = None
            keys = set(o0.cells)
            for o in os_[1:]:
                if set(o.cells) != keys:
                    if oid not in al: return None
                    keys &= set(o.cells)
            n = o0.clone(None)
            n.cells = {}
            for k in keys:
                cs = [o.cells[k] for o in os_]
                if all(c is cs[0] or (c[0] == cs[0][0] and tkey(c[1]) == tkey(cs[0][1])) for c in cs): n.cells[k] = cs[0]; continue
                if any(c[0] != cs[0][0] for c in cs): return None
                vals = [c[1] for c in cs]
                if any(not isinstance(v, z3.BitVecRef) for v in vals): return None
                v = pick(vals, ('i', 8 * cs[0][0]))
                if v is FAIL: return None
                n.cells[k] = (cs[0][0], v)
            mem[oid] = n
        ns = s0.fork()
        ns.pc = base_pc; ns.npc = base_npc
        ns.mem = mem
        if killed: ns.assume(lor(*conds))
        ns.model = s0.model
        env = base_env
        for r, v in phis: env[r] = v
        fx = Fr(ns, env, J, i, ex[0].blk, base_visits, base_allocas)
        fx.inloops = ex[0].inloops
        return fx

    def note_fork(self, info, fr):
        for h in info.member.get(fr.blk, ()):
            v = fr.visits.get(h)
            if v is not None:
                fr.visits = dict(fr.visits)
                fr.visits[h] = (v[0], v[1] + 1)

    def fork_fr(self, fr, st):
        n = Fr(st, dict(fr.env), fr.blk, fr.idx, fr.prev, fr.visits, list(fr.allocas))
        n.inloops = fr.inloops
        return n

    def goto(self, f, info, fr, tgt, work, loop):
        src = fr.blk
        env = fr.env
        if loop is not None and tgt not in loop.body:
            loop.exits.append((fr, tgt))
            return None
        # phis (parallel)
        blk = f.blocks[tgt]
        i = 0
        vals = []
        while i < len(blk) and blk[i][0] == 'phi':
            ins = blk[i]
            for v, l in ins[3]:
                if l == src:
                    vals.append((ins[1], self.val(fr, self.m.resolve(ins[2]), v)))
                    break
            else:
                raise Unsupported('phi')
            i += 1
        for r, v in vals: env[r] = v
        fr.prev = src
        fr.blk = tgt
        fr.idx = i
        if tgt in info.headers:
            body = info.headers[tgt]
            if loop is not None and loop.header == tgt:
                loop.arrivals.append(fr)
                return None
            if src not in body:
                # entering the loop
                fr.visits = dict(fr.visits)
                fr.visits[tgt] = (0, 0)
                if not self.bounded:
                    snap = self.fork_fr(fr, fr.st.fork())
                    fr.inloops = fr.inloops + (snap,)
                    if fr.st.history:
                        fr.st.history = False
                        snap.st.history = False
                        self.need.append(snap)
                        return None
                elif fr.st.history:
                    fr.st.history = False
                    fr.visits[tgt] = (0, -10 ** 6)
                    self.hist_loops.add((f.name, tgt))
            else:
                n, k = fr.visits.get(tgt, (0, 0))
                fr.visits = dict(fr.visits)
                fr.visits[tgt] = (n + 1, k)
                if self.bounded:
                    lim = self.opts.get('hist_bound', 2) if (f.name, tgt) in self.hist_loops else self.opts.get('bound', 40)
                    if (f.name, tgt) in self.hist_loops: k = n + 1
                    if k > lim or n > self.hard_unroll:
                        self.cut += 1
                        self.kills += 1
                        return None
                elif k > self.unroll or n > self.hard_unroll:
                    for snap in fr.inloops:
                        if snap.blk == tgt: break
                    else: raise Unsupported('loop entry not found')
                    snap = [x for x in fr.inloops if x.blk == tgt][-1]
                    self.need.append(snap)
                    return None
        return fr

    def simple(self, f, fr, ins):
        op = ins[0]
        st = fr.st
        env = fr.env
        if op == 'bin':
            t = self.m.resolve(ins[3])
            v = self.binop(st, ins[2], t, self.val(fr, t, ins[4]), self.val(fr, t, ins[5]), ins[6])
            if v is None: return False
            env[ins[1]] = v
            return True
        if op == 'icmp':
            t = self.m.resolve(ins[3])
            a = self.val(fr, t, ins[4]); b = self.val(fr, t, ins[5])
            if t[0] == 'ptr': env[ins[1]] = self.ptr_cmp(st, ins[2], a, b)
            else:
                if t[1] in (16, 32):
                    n = self.lift_cmp(st, ins[2], a, b, t[1])
                    if n is not None: a, b = n; env[ins[1]] = self.icmp(UNSIGNED.get(ins[2], ins[2]), a, b, 64); return True
                env[ins[1]] = self.icmp(ins[2], a, b, t[1])
            return True
        if op == 'load':
            v = self.load(st, self.val(fr, PTRT, ins[3]), ins[2])
            if v is None: return False
            env[ins[1]] = v
            return True
        if op == 'store':
            return self.store(st, self.val(fr, PTRT, ins[4]), self.val(fr, self.m.resolve(ins[2]), ins[3]), ins[2])
        if op == 'gep':
            items = [(it, self.val(fr, self.m.resolve(it), iv)) for it, iv in ins[3]]
            env[ins[1]] = self.gep(st, ins[2], items)
            return True
        if op == 'cast':
            t = self.m.resolve(ins[3]); t2 = self.m.resolve(ins[5])
            v = self.val(fr, t, ins[4])
            if ins[2] in ('zext', 'sext') and t2 == ('i', 64) and t[1] in (16, 32) and not isint(v):
                x = self.lift(st, v, t[1], mask(t[1]) if ins[2] == 'zext' else mask(t[1] - 1))
                if x is not None: env[ins[1]] = x; return True
            if ins[2] in ('fptoui', 'fptosi'):
                w = t2[1]
                sgnd = ins[2] == 'fptosi'
                s = fsort(t)
                lo = -(1 << (w - 1)) if sgnd else 0
                hi = (1 << (w - 1)) if sgnd else (1 << w)
                # truncation result must be representable: lo-1 < v < hi
                ok = z3.And(z3.fpLT(v, z3.FPVal(hi, s)), z3.fpGT(v, z3.FPVal(lo - 1, s)) if (not sgnd or w < 52) else z3.fpGEQ(v, z3.FPVal(lo, s)))
                ok = simp(z3.simplify(ok))
                if ok is not True and not self.prove(st, ok, 'arith', 'float to integer conversion in range'): return False
                env[ins[1]] = simp((z3.fpToSBV if sgnd else z3.fpToUBV)(z3.RTZ(), v, z3.BitVecSort(w)))
                return True
            env[ins[1]] = self.cast(ins[2], t, v, t2)
            return True
        if op == 'alloca':
            n = self.m.size_of(ins[2])
            if ins[3] is not None:
                k = self.val(fr, ('i', 64), ins[3])
                if not isint(k): raise Unsupported('dynamic alloca')
                n *= k
            o = self.new_obj(st, 'cells', n, f.name + ins[1])
            fr.allocas.append(o.id)
            env[ins[1]] = Ptr(o.id, 0)
            return True
        if op == 'extractvalue':
            v = self.val(fr, ins[2], ins[3])
            for i in ins[4]: v = v[i]
            env[ins[1]] = v
            return True
        if op == 'insertvalue':
            v = deepl(self.val(fr, ins[2], ins[3]))
            x = self.val(fr, self.m.resolve(ins[4]), ins[5])
            c = v
            for i in ins[6][:-1]: c = c[i]
            c[ins[6][-1]] = x
            env[ins[1]] = v
            return True
        if op == 'fcmp':
            t = self.m.resolve(ins[3])
            a = self.val(fr, t, ins[4]); b = self.val(fr, t, ins[5])
            env[ins[1]] = self.fcmp(ins[2], a, b)
            return True
        if op == 'fneg':
            env[ins[1]] = simpf(z3.fpNeg(self.val(fr, self.m.resolve(ins[2]), ins[3])))
            return True
        if op == 'freeze':
            env[ins[1]] = self.val(fr, self.m.resolve(ins[2]), ins[3])
            return True
        if op == 'nop': return True
        raise Unsupported('instruction ' + str(ins)[:300])

    def fcmp(self, p, a, b):
        if p == 'true': return True
        if p == 'false': return False
        nan = z3.Or(z3.fpIsNaN(a), z3.fpIsNaN(b))
        if p == 'ord': return simp(z3.Not(nan))
        if p == 'uno': return simp(nan)
        base = {'eq': z3.fpEQ, 'gt': z3.fpGT, 'ge': z3.fpGEQ, 'lt': z3.fpLT, 'le': z3.fpLEQ,
                'ne': lambda x, y: z3.Not(z3.fpEQ(x, y))}[p[1:]](a, b)
        if p[0] == 'o':
            if p == 'one': return simp(z3.And(z3.Not(nan), base))
            return simp(base)
        return simp(z3.Or(nan, base))

    def do_call(self, f, fr, ins):
        st = fr.st
        tgt = ins[3]
        if tgt[0] == 'g':
            name = tgt[1]
            if name.startswith('@llvm.'):
                if name.startswith(('@llvm.lifetime', '@llvm.dbg', '@llvm.assume', '@llvm.experimental.noalias', '@llvm.donothing', '@llvm.invariant')): return None
        else:
            fp = self.val(fr, PTRT, tgt)
            if isinstance(fp, Fn): name = fp.name
            elif isinstance(fp, Ptr):
                self.prove(st, False, 'memory', 'call through null/invalid pointer')
                return []
            else: raise Unsupported('indirect call')
        args = [None if at == ('metadata',) else self.val(fr, self.m.resolve(at), av) for at, av, bv_ in ins[4]]
        # callee-side byval copies; caller-side nothing
        self.cur_call = ins
        return self.call(st, name, args)

class NeedInvariant(Exception):
    def __init__(self, f, header, fr):
        Exception.__init__(self, '%s %s' % (f.name, header))
        self.f = f; self.header = header; self.fr = fr

PTRT = ('ptr',)
FAIL = object()

def fsort(t):
    return z3.Float32() if t[0] == 'float' else z3.Float64()
def simpf(e):
    return z3.simplify(e)
def deepl(v):
    return [deepl(x) for x in v] if isinstance(v, list) else v

def vshape(v):
    if v is None: return 'v'
    if isinstance(v, list):
        r = tuple(vshape(x) for x in v)
        return None if None in r else r
    if isinstance(v, Ptr): return ('p', v.obj)
    if isinstance(v, Fn): return ('f', v.name)
    if isinstance(v, (bool, z3.BoolRef)): return 'b'
    if isinstance(v, z3.FPRef): return ('fp', v.sort().sbits())
    return 'i'

def vite(c, a, b, t, m=None):
    if a is None and b is None: return None
    if isinstance(a, list):
        if m is None: return FAIL
        ts = [m.resolve(x) for x in t[1]] if t[0] == 'struct' else [m.resolve(t[2])] * len(a)
        r = [vite(c, x, y, tt, m) for x, y, tt in zip(a, b, ts)]
        return FAIL if any(x is FAIL for x in r) else r
    if isinstance(a, Ptr) or isinstance(b, Ptr) or isinstance(a, Fn) or isinstance(b, Fn):
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj:
            return Ptr(a.obj, ite(c, a.off, b.off, 64))
        if isinstance(a, Fn) and isinstance(b, Fn) and a.name == b.name: return a
        return FAIL
    if isinstance(a, (bool, z3.BoolRef)):
        if type(a) is bool and type(b) is bool and a == b: return a
        return simp(z3.If(bl(c), bl(a), bl(b)))
    if isinstance(a, z3.FPRef):
        return z3.If(bl(c), a, b)
    return ite(c, a, b, t[1])

class JoinCtx:
    header = None
    def __init__(self, body):
        self.body = body; self.exits = []; self.arrivals = []
class LoopInfo: pass
def loop_info(f):
    """natural loops by back edges (DFS)"""
    succ = {}
    for l, b in f.blocks.items():
        i = b[-1]
        if i[0] == 'jmp': s = [i[2]]
        elif i[0] == 'br': s = [i[3], i[4]]
        elif i[0] == 'switch': s = [i[4]] + [x for _, x in i[5]]
        else: s = []
        succ[l] = list(dict.fromkeys(s))
    pred = {l: [] for l in f.blocks}
    for l, ss in succ.items():
        for s in ss: pred[s].append(l)
    color = {}
    back = []
    stack = [(f.entry, iter(succ[f.entry]))]
    color[f.entry] = 1
    while stack:
        n, it = stack[-1]
        for s in it:
            if color.get(s, 0) == 0:
                color[s] = 1
                stack.append((s, iter(succ[s])))
                break
            elif color[s] == 1:
                back.append((n, s))
        else:
            color[n] = 2
            stack.pop()
    heads = {}
    for n, h in back:
        body = heads.setdefault(h, {h})
        w = [n]
        while w:
            x = w.pop()
            if x in body: continue
            body.add(x)
            w.extend(pred[x])
    r = LoopInfo()
    r.headers = heads
    r.member = {}
    for h, body in heads.items():
        for b in body: r.member.setdefault(b, []).append(h)
    r.succ = succ
    r.regions = {}
    return r
