"""Loop invariants, inferred and then checked.

A loop that cannot be unrolled completely is cut at its header.  The invariant is a finite disjunction of *shapes*: a
symbolic header state whose post-entry symbols are existential parameters, plus facts about them.  Shapes are found by
least-general generalisation of the header states that actually arise, facts by weakening candidate sets (Houdini).
Nothing of the inference is trusted: the loop is accepted only when every header state produced by running the body
once from every shape is proved (by the solver) to be an instance of a shape whose facts hold, so the disjunction is
inductive, and the entry state is an instance too."""
import z3, time, math, re, os
from execu import *
import sym
import intrinsics

class Refuse(Exception): pass

class LoopCtx:
    def __init__(self, f, header, body):
        self.f = f; self.header = header; self.body = body
        self.exits = []; self.arrivals = []

class Shape:
    __slots__ = ('fr', 'facts', 'core', 'exits', 'obl', 'nid', 'locs', 'sig', 'cover', 'alive', 'objs')

M64 = (1 << 64) - 1
def s64(x):
    x &= M64
    return x - (1 << 64) if x >> 63 else x

def linear(t):
    """64-bit term -> (const, {id: (coeff, atom)})"""
    if isint(t): return t & M64, {}
    if isinstance(t, z3.BitVecNumRef): return t.as_long(), {}
    k = t.decl().kind()
    if k == z3.Z3_OP_BADD:
        c, m = 0, {}
        for x in t.children():
            c2, m2 = linear(x)
            c += c2
            for i, (q, a) in m2.items():
                q0 = m[i][0] if i in m else 0
                m[i] = ((q0 + q) & M64, a)
        return c & M64, {i: v for i, v in m.items() if v[0]}
    if k == z3.Z3_OP_BSUB and t.num_args() == 2:
        c1, m1 = linear(t.arg(0)); c2, m2 = linear(t.arg(1))
        return lin_sub((c1, m1), (c2, m2))
    if k == z3.Z3_OP_BMUL and t.num_args() == 2 and isinstance(t.arg(0), z3.BitVecNumRef):
        q0 = t.arg(0).as_long()
        c, m = linear(t.arg(1))
        return (c * q0) & M64, {i: ((q * q0) & M64, a) for i, (q, a) in m.items() if (q * q0) & M64}
    if k == z3.Z3_OP_BNEG:
        c, m = linear(t.arg(0))
        return (-c) & M64, {i: ((-q) & M64, a) for i, (q, a) in m.items()}
    return 0, {t.get_id(): (1, t)}
def lin_sub(x, y):
    c = (x[0] - y[0]) & M64
    m = dict(x[1])
    for i, (q, a) in y[1].items():
        q0 = m[i][0] if i in m else 0
        r = (q0 - q) & M64
        if r: m[i] = (r, a)
        else: m.pop(i, None)
    return c, m
def direction(l):
    """-> (key, multiple, primitive vector): l = multiple * primitive"""
    g = s64(l[0])
    for q, _ in l[1].values(): g = math.gcd(g, s64(q))
    g = abs(g)
    lead = s64(l[1][min(l[1])][0]) if l[1] else s64(l[0])
    if lead < 0: g = -g
    prim = (s64(l[0]) // g, {i: (s64(q) // g, a) for i, (q, a) in l[1].items()})
    key = (prim[0], tuple(sorted((i, q) for i, (q, a) in prim[1].items())))
    return key, g, prim
def lin_key(l):
    return (l[0], tuple(sorted((i, q) for i, (q, a) in l[1].items())))

_symcache = {}
def symbols(t):
    """names of the uninterpreted constants/functions in t"""
    if type(t) in (int, bool) or t is None: return frozenset()
    if isinstance(t, Ptr): return symbols(t.off)
    if isinstance(t, Fn): return frozenset()
    if isinstance(t, list):
        r = frozenset()
        for x in t: r |= symbols(x)
        return r
    i = t.get_id()
    e = _symcache.get(i)
    if e is not None and e[0].eq(t): return e[1]
    r = set()
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        j = x.get_id()
        if j in seen: continue
        seen.add(j)
        d = x.decl()
        if d.kind() == z3.Z3_OP_UNINTERPRETED: r.add(d.name())
        st.extend(x.children())
    r = frozenset(r)
    _symcache[i] = (t, r)
    return r

_uses = {}
def consts_of(t):
    """uninterpreted constants (0-ary) of t as terms"""
    out = {}
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if type(x) in (int, bool): continue
        j = x.get_id()
        if j in seen: continue
        seen.add(j)
        if x.num_args() == 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED: out[x.decl().name()] = x
        st.extend(x.children())
    return out

class LoopEngine(Engine):
    max_shapes = 300

    # ---------------------------------------------------------------- header states
    def live_phis(self, f, header):
        r = []
        for ins in f.blocks[header]:
            if ins[0] != 'phi': break
            r.append((ins[1], self.m.resolve(ins[2])))
        return r

    def used_after(self, f, info, header):
        key = (f.name, header)
        u = _uses.get(key)
        if u is None:
            seen = {header}; w = [header]
            while w:
                x = w.pop()
                for y in info.succ[x]:
                    if y not in seen: seen.add(y); w.append(y)
            u = set()
            for b in seen:
                for ins in f.blocks[b]: collect_regs(ins, u)
            _uses[key] = u
        return u

    def is_new(self, name):
        """symbol introduced after loop entry?"""
        m = re.match(r'(\w+)!([a-z]*)(\d+)$', name)
        if not m: return False
        if m.group(1) == 'addr': return False
        n = int(m.group(3))
        if m.group(1) == 'B':
            k = m.group(2)
            if k == 'in': return n > self.base_ctr[1]
            if k == 'undef': return n > self.base_ctr[2]
            return n > self.base_ctr[3]
        return n > self.base_ctr[0]

    def locations(self, sh_fr, entry, phis):
        """-> (list of (loc, kind, width, value), objs) describing everything that may differ from the entry"""
        st = sh_fr.st
        locs = []
        for r, t in phis:
            v = sh_fr.env[r]
            self.flat(locs, ('phi', r), v, t)
        reach = list(entry.st.mem.keys())
        seen = set(reach)
        # objects reachable from surviving objects
        order = []
        todo = [oid for oid in reach if oid in st.mem]
        for l in locs:
            if isinstance(l[3], Ptr) and l[3].obj and l[3].obj not in seen and l[3].obj in st.mem:
                seen.add(l[3].obj); todo.append(l[3].obj)
        i = 0
        while i < len(todo):
            oid = todo[i]; i += 1
            o = st.mem[oid]
            e = entry.st.mem.get(oid)
            if e is o: continue
            if e is not None and o.kind == 'cells' and e.cells == o.cells and tkey(e.size) == tkey(o.size): continue
            order.append(oid)
            if o.kind == 'cells':
                for off in sorted(o.cells):
                    v = o.cells[off][1]
                    if isinstance(v, Ptr) and v.obj and v.obj not in seen and v.obj in st.mem:
                        seen.add(v.obj); todo.append(v.obj)
        for oid in sorted(order, key=lambda x: (x not in entry.st.mem, todo.index(x))):
            o = st.mem[oid]
            if o.kind == 'cells':
                for off in sorted(o.cells):
                    n, v = o.cells[off]
                    if isinstance(v, z3.FPRef): v = to_int(v, n)
                    locs.append((('cell', oid, off), 'ptr' if isinstance(v, (Ptr, Fn)) else 'int', 8 * n, v))
            else:
                locs.append((('size', oid), 'int', 64, o.size))
                locs.append((('content', oid), 'content', 0, o.content))
        dead = tuple(oid for oid in entry.st.mem if oid not in st.mem)
        return locs, tuple(order), dead

    def flat(self, locs, loc, v, t):
        if isinstance(v, list):
            ts = [self.m.resolve(x) for x in t[1]] if t[0] == 'struct' else [self.m.resolve(t[2])] * len(v)
            for k, x in enumerate(v): self.flat(locs, loc + (k,), x, ts[k])
            return
        if isinstance(v, (Ptr, Fn)): locs.append((loc, 'ptr', 64, v)); return
        if isinstance(v, z3.FPRef): raise Unsupported('float loop variable')
        if isinstance(v, (bool, z3.BoolRef)): locs.append((loc, 'bool', 1, v)); return
        locs.append((loc, 'int', t[1] if t[0] == 'i' else 64, v))

    def signature(self, locs, objs, dead):
        sig = [objs, dead]
        for loc, k, w, v in locs:
            if k == 'ptr': sig.append((loc, 'p', v.obj) if isinstance(v, Ptr) else (loc, 'f', v.name))
            elif k == 'content': sig.append((loc, 'c'))
            elif k == 'bool': sig.append((loc, v if type(v) is bool else 'S'))
            elif w == 64: sig.append((loc, 'I'))
            else: sig.append((loc, v if isint(v) else 'S'))
        return tuple(sig)

    # ---------------------------------------------------------------- generalisation
    def lgg(self, d, s, entry, force):
        """generalise shape d and header frame s (same signature) -> (new locs values, subst for d, subst for s, new params)"""
        A = {l[0]: l for l in d.locs}; B = {l[0]: l for l in s.locs}
        diffs = []
        # first pass: collect affine differences; those pointing in the same direction share one parameter
        ctx = {'diffs': diffs, 'vars': {}, 't': None, 'units': {}, 'reps': [], 'pa': {}, 'pb': {}, 'force': force, 'contents': {}, 'cb': []}
        for phase in (0, 1):
            ctx['phase'] = phase
            if phase == 1:
                for x in diffs:
                    key, mult, prim = direction(x)
                    u = ctx['units'].get(key)
                    ctx['units'][key] = (math.gcd(u[0] if u else 0, abs(mult)), prim)
                for key, (g, prim) in ctx['units'].items():
                    rep = None
                    if any(any(self.is_new(n) for n in symbols(x)) for q, x in prim[1].values()):
                        for x, a0, b0 in ctx['reps']:
                            k2, mult, _ = direction(x)
                            if k2 == key and abs(mult) == g: rep = (a0, b0, 1 if mult == g else -1); break
                    if rep is not None:
                        pv = fresh(64, 'p')
                        if ctx['t'] is None: ctx['t'] = pv
                        a0, b0, sg_ = rep
                        ctx['pa'][pv.decl().name()] = (pv, a0)
                        ctx['pb'][pv.decl().name()] = (pv, b0)
                        ctx['vars'][('u', key)] = mul(sg_ & M64, sub(pv, a0, 64), 64)
                        continue
                    t = fresh(64, 't')
                    ctx['vars'][('u', key)] = t
                    if ctx['t'] is None: ctx['t'] = t
                    ctx['pa'][t.decl().name()] = (t, 0)
                    v = (g * prim[0]) & M64
                    for q, x in prim[1].values(): v = add(v, mul((g * q) & M64, x, 64), 64)
                    ctx['pb'][t.decl().name()] = (t, v)
            out = {}
            for loc, (_, k, w, a) in A.items():
                b = B[loc][3]
                if k == 'ptr':
                    if isinstance(a, Fn): out[loc] = a
                    else: out[loc] = Ptr(a.obj, self.g64(ctx, a.off, b.off))
                elif k == 'content':
                    if a is b: out[loc] = a
                    else:
                        key = (a.uid, b.uid)
                        c = ctx['contents'].get(key)
                        if c is None:
                            self.gctr += 1
                            c = content('base', 'g%d' % self.gctr, 0xFF)
                            ctx['contents'][key] = c
                        out[loc] = c
                        if phase: ctx['cb'].append((c, a, b))
                elif k == 'bool':
                    out[loc] = self.gbool(ctx, a, b)
                elif w == 64:
                    out[loc] = self.g64(ctx, a, b)
                else:
                    out[loc] = self.gs(ctx, a, b, w)
        return out, ctx

    def pvar(self, ctx, key, mk, a, b):
        v = ctx['vars'].get(key)
        if v is None:
            v = mk()
            ctx['vars'][key] = v
            ctx['pa'][v.decl().name()] = (v, a)
            ctx['pb'][v.decl().name()] = (v, b)
        return v

    def gbool(self, ctx, a, b):
        if tkey(a) == tkey(b): return a
        if type(a) is bool or type(b) is bool:
            if not ctx['force']: raise Refuse()
        return self.pvar(ctx, ('b', tkey(a), tkey(b)), lambda: z3.Bool('pb!%d' % self.nid()), a, b)

    def g64(self, ctx, a, b):
        if tkey(a) == tkey(b): return a
        la, lb = linear(a), linear(b)
        d = lin_sub(lb, la)
        if not d[1] and d[0] == 0: return a
        # both sides single structured atoms?  go structural first
        if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef) and a.num_args() and b.num_args() and a.decl().eq(b.decl()) and \
                a.decl().kind() not in (z3.Z3_OP_BADD, z3.Z3_OP_BMUL, z3.Z3_OP_BSUB, z3.Z3_OP_BNEG) and not ctx['force']:
            return unwrap(self.gz(ctx, a, b, True))
        if ctx['phase'] == 0:
            ctx['diffs'].append(d); ctx['reps'].append((d, a, b)); return a
        key, mult, prim = direction(d)
        u = ctx['units'].get(key)
        if u is None: raise Refuse()
        return add(a, mul((mult // u[0]) & M64, ctx['vars'][('u', key)], 64), 64)

    def gs(self, ctx, a, b, w):
        if tkey(a) == tkey(b): return a
        if isint(a) or isint(b):
            if not ctx['force']: raise Refuse()
            return self.pvar(ctx, ('s', w, tkey(a), tkey(b)), lambda: fresh(w, 'p'), a, b)
        return unwrap(self.gz(ctx, a, b))

    def gz(self, ctx, a, b, structural=False):
        if a.eq(b): return a
        na, nb = a.num_args(), b.num_args()
        if not structural and z3.is_bv(a) and a.size() == 64 and not (na == nb and na and a.decl().eq(b.decl()) and a.decl().kind() == z3.Z3_OP_UNINTERPRETED):
            return bv(self.g64(ctx, unwrap(a), unwrap(b)), 64)
        ca, cb = isinstance(a, z3.BitVecNumRef), isinstance(b, z3.BitVecNumRef)
        if ca or cb:
            if not ctx['force']: raise Refuse()
            return self.pvar(ctx, ('s', a.size(), tkey(a), tkey(b)), lambda: fresh(a.size(), 'p'), unwrap(a), unwrap(b))
        if na and na == nb and a.decl().eq(b.decl()):
            try:
                args = [self.gz(ctx, x, y) for x, y in zip(a.children(), b.children())]
                return a.decl()(*args)
            except Refuse:
                raise
        leaf = lambda x: x.decl().kind() == z3.Z3_OP_UNINTERPRETED
        masked = lambda x: leaf(x) or (x.num_args() >= 1 and any(leaf(y) for y in x.children()) and all(leaf(y) or isinstance(y, z3.BitVecNumRef) for y in x.children()))
        if (leaf(a) and leaf(b)) or ctx['force'] or (masked(a) and masked(b)):
            if z3.is_bool(a):
                return self.pvar(ctx, ('b', tkey(a), tkey(b)), lambda: z3.Bool('pb!%d' % self.nid()), a, b)
            return self.pvar(ctx, ('s', a.size(), tkey(a), tkey(b)), lambda: fresh(a.size(), 'p'), a, b)
        raise Refuse()

    # ---------------------------------------------------------------- matching  s ⊑ d
    def match(self, d, s, entry):
        m = self.binding(d, s, entry)
        if m is None: return False
        goals, fgoals = m
        core = set(c.get_id() for c in d.core)
        g = [x for x in goals if x is not True] + [x[1] for x in fgoals if x[1] is not True and x[0].get_id() in core]
        if any(x is False for x in g): return False
        if not g: return True
        return self.entails(s.fr.st, g)

    def weaken(self, f, d, s, entry, phis):
        """s is an instance of d's values but not of all its facts: keep the facts that survive"""
        m = self.binding(d, s, entry)
        if m is None: return None
        goals, fgoals = m
        g = [x for x in goals if x is not True]
        if any(x is False for x in g): return None
        if g and not self.entails(s.fr.st, g): return None
        keep = self.valid_subset(s.fr.st, [x for x in fgoals if x[1] is not False], 1)
        facts = [x[0] for x in keep]
        fr = self.fork_fr(d.fr, d.fr.st.fork())
        fr.inloops = entry.inloops
        st = fr.st
        st.pc = entry.st.pc; st.npc = entry.st.npc
        st.model = None
        if s.fr.st.trace is not entry.st.trace: st.trace = (entry.st.trace, ('abs',))
        ns = self.mk(fr, entry, phis)
        ns.facts = facts
        ns.core = self.minimise(entry, facts)
        for c in ns.core: st.assume(c)
        return ns

    def binding(self, d, s, entry):
        """values of d's parameters that make d's locations equal s's -> (equations to prove, [(fact, instance)]) or None"""
        if d.sig != s.sig: return None
        bind = {}      # name -> (var, term)
        eqs = []
        cb = {}
        A = {l[0]: l for l in d.locs}; B = {l[0]: l for l in s.locs}
        lin = []
        for loc, (_, k, w, a) in A.items():
            b = B[loc][3]
            if k == 'ptr':
                if isinstance(a, Fn): continue
                lin.append((a.off, b.off))
            elif k == 'content':
                if a.k == 'base' and self.is_new('B!' + a.a[0]):
                    if a.uid in cb and cb[a.uid][1] is not b: return None
                    cb[a.uid] = (a, b)
                elif a is not b: return None
            elif k == 'bool':
                if type(a) is bool: 
                    continue
                if not self.unify(bind, eqs, lin, a, bl(b)): return None
            elif w == 64: lin.append((a, b))
            else:
                if isint(a):
                    continue
                if not self.unify(bind, eqs, lin, a, bv(b, w)): return None
        if cb:
            # contents occurring inside terms must not be re-bound: keep it simple
            names = set('B!' + a.a[0] for a, b in cb.values() if a is not b)
            for l in d.locs:
                if l[1] != 'content' and symbols(l[3]) & names: return None
        # solve the linear equations for the remaining parameters
        pend = list(lin)
        progress = True
        while pend and progress:
            progress = False
            rest = []
            for a, b in pend:
                ca, ma = linear(a)
                unb = [(q, x) for q, x in ma.values() if x.num_args() == 0 and self.is_new(x.decl().name()) and x.decl().name() not in bind]
                if not unb:
                    eqs.append((bv(a, 64), bv(b, 64))); progress = True; continue
                if len(unb) == 1:
                    q, x = unb[0]
                    r = bv(b, 64)
                    c2 = lin_sub(linear(b), (ca, {}))
                    # subtract the bound part
                    tot = sub(b, ca, 64)
                    for q2, y in ma.values():
                        if y.eq(x): continue
                        yv = y
                        sub_y = [(v, bv(t, 64) if not z3.is_bool(v) else bl(t)) for v, t in bind.values()]
                        yv = unwrap(z3.simplify(z3.substitute(y, *sub_y))) if sub_y else y
                        tot = sub(tot, mul(q2, yv, 64), 64)
                    qs = s64(q)
                    if qs == 1: val = tot
                    elif qs == -1: val = sub(0, tot, 64)
                    else:
                        c3, m3 = linear(tot)
                        if s64(c3) % qs == 0 and all(s64(q4) % qs == 0 for q4, _ in m3.values()):
                            val = (s64(c3) // qs) & M64
                            for q4, y in m3.values(): val = add(val, mul((s64(q4) // qs) & M64, y, 64), 64)
                        else:
                            rest.append((a, b)); continue
                    bind[x.decl().name()] = (x, val)
                    progress = True
                    continue
                rest.append((a, b))
            pend = rest
        for a, b in pend:
            # parameters that cannot be solved for directly: try to keep them as they are
            for q, x in linear(a)[1].values():
                if x.num_args() == 0 and self.is_new(x.decl().name()) and x.decl().name() not in bind:
                    bind[x.decl().name()] = (x, x)
            eqs.append((bv(a, 64), bv(b, 64)))
        subs = [(v, self.coerce(v, t)) for v, t in bind.values()]
        goals = []
        for a, b in eqs:
            a2 = z3.substitute(a, *subs) if subs else a
            g = simp(a2 == b)
            if g is True: continue
            if g is False: return None
            goals.append(g)
        bound = set(bind)
        cm = {'B!' + a.a[0]: b for a, b in cb.values()}
        bound |= set(cm)
        dec = self.decider(s.fr.st)
        fg = []
        for fct in d.facts:
            names = [n for n in symbols(fct) if self.is_new(n)]
            if any(n not in bound for n in names):
                fg.append((fct, False)); continue
            fg.append((fct, self.inst(fct, subs, cm, dec)))
        return goals, fg

    def inst(self, fct, subs, cm, dec):
        """a fact with its parameters and generalised buffer contents replaced by what a state has"""
        x = z3.substitute(fct, *subs) if subs else fct
        for _ in range(8):
            rd = [r for r in reads_of(x) if r.decl().name() in cm]
            if not rd: break
            # innermost first
            rd = [r for r in rd if not any(q.decl().name() in cm for q in reads_of(r.arg(0)))]
            ps = []
            for r in rd:
                c = cm[r.decl().name()]
                if c.k == 'base' and c.fn.name() == r.decl().name(): cm = {k: v for k, v in cm.items() if k != r.decl().name()}; continue
                ps.append((r, bv(cread(c, unwrap(z3.simplify(r.arg(0))), 1, dec), 8)))
            if ps: x = z3.substitute(x, *ps)
        return simp(x)

    def coerce(self, v, t):
        if z3.is_bool(v): return bl(t)
        return bv(t, v.size())

    def entails(self, st, goals):
        g = land(*goals)
        if g is True: return True
        if g is False: return False
        ng = lnot(g)
        if st.model is not None:
            try:
                if z3.is_true(st.model.eval(ng, model_completion=True)): return False
            except z3.Z3Exception: pass
        self.budget()
        r, m = self.pool.check(st.pcs(), (ng,), lia=True)
        return r == 'unsat'

    def unify(self, bind, eqs, lin, a, b):
        """a: pattern (z3), b: term"""
        if a.eq(b) and not any(self.is_new(n) for n in symbols(a)): return True
        if a.num_args() == 0 and a.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            n = a.decl().name()
            if self.is_new(n):
                if n in bind:
                    t = self.coerce(a, bind[n][1])
                    if t.eq(b): return True
                    eqs.append((t, b)); return True
                bind[n] = (a, unwrap(b))
                return True
        if not any(self.is_new(n) for n in symbols(a)):
            eqs.append((a, b)); return True
        if z3.is_bv(a) and a.size() == 64 and a.decl().kind() in (z3.Z3_OP_BADD, z3.Z3_OP_BMUL):
            lin.append((a, unwrap(b))); return True
        if a.num_args() == b.num_args() and a.decl().eq(b.decl()):
            return all(self.unify(bind, eqs, lin, x, y) for x, y in zip(a.children(), b.children()))
        # different structure: usable only if every parameter in a is bound elsewhere -> defer
        eqs.append((a, b))
        return True

    # ---------------------------------------------------------------- facts
    def candidates(self, newlocs, ctx, d, s, entry):
        """candidate facts over the new parameters"""
        out = {}
        def put(c):
            c = simp(c)
            if type(c) is bool: return
            out[c.get_id()] = c
        for fct in d.facts: put(fct)
        # path conditions of s, rewritten over the parameters
        inv = [(bv(b, v.size()) if not z3.is_bool(v) else bl(b), v) for v, b in ctx['pb'].values() if not isint(b) and type(b) is not bool]
        newnames = set()
        for loc, k, w, v in newlocs: newnames |= set(n for n in symbols(v if k != 'content' else None) if self.is_new(n))
        for c, a, b in ctx['cb']: newnames.add('B!' + c.a[0])
        spc = s.fr.st.pcs_since(entry.st.pc) or []
        def ok(c): return all((not self.is_new(n)) or n in newnames for n in symbols(c))
        for c in spc:
            parts = c.children() if z3.is_and(c) else [c]
            for x in parts:
                if ok(x): put(x)
                if inv:
                    y = simp(z3.substitute(x, *inv))
                    if type(y) is not bool and ok(y): put(y)
        for fct in d.facts:
            if inv:
                y = simp(z3.substitute(fct, *[(bv(a, v.size()) if not z3.is_bool(v) else bl(a), v) for v, a in ctx['pa'].values() if not isint(a) and type(a) is not bool] or [(z3.BoolVal(True), z3.BoolVal(True))]))
                if type(y) is not bool and ok(y): put(y)
        # bounds
        X = {}
        L = {}
        for loc, k, w, v in newlocs:
            if k == 'ptr' and isinstance(v, Ptr): v = v.off
            elif k == 'content' or w != 64: continue
            if not isinstance(v, z3.BitVecRef):
                continue
            sy = symbols(v)
            if any(self.is_new(n) for n in sy): X[v.get_id()] = v
            elif len(L) < 10: L[v.get_id()] = v
        for c in spc + d.facts + entry.st.pcs()[-60:]:
            for n, x in consts_of(c).items():
                if z3.is_bv(x) and x.size() == 64 and not self.is_new(n) and not n.startswith(('addr', 'w!', 'cap!')) and len(L) < 10: L[x.get_id()] = x
        for st_obj in s.fr.st.mem.values():
            if st_obj.kind == 'buf' and not isint(st_obj.size) and not any(self.is_new(n) for n in symbols(st_obj.size)) and len(L) < 12:
                L[st_obj.size.get_id()] = st_obj.size
        nl = 0
        wide = any(l[0][0] == 'phi' and l[0][1].endswith('.wide') for l in newlocs)   # 16/32 bit counters
        for c in reversed(spc + d.facts) if wide else ():
            for l in bounds_in(c):
                if nl < 6 and l.get_id() not in L and l.num_args() and not any(self.is_new(n) for n in symbols(l)): L[l.get_id()] = l; nl += 1
        Xs = list(X.values())[:14]; Ls = list(L.values())
        consts = set()
        for c in spc + d.facts: small_consts(c, consts)
        if ctx['t'] is not None: Xs.append(ctx['t'])
        for x in Xs:
            put(z3.ULE(x, z3.BitVecVal(1 << 41, 64)))
            if wide: put(z3.ULE(x, z3.BitVecVal(0xFFFFFFFF, 64))); put(z3.ULE(x, z3.BitVecVal(0x7FFFFFFF, 64)))
            put(z3.UGE(x, z3.BitVecVal(1, 64)))
            for n in sorted(consts):
                put(z3.ULE(x, z3.BitVecVal(n, 64)))
                put(z3.Not(z3.ULE(x, z3.BitVecVal(n, 64))))
            for l in Ls:
                put(z3.ULE(x, l)); put(z3.ULT(x, l))
            for y in Xs:
                if not x.eq(y): put(z3.ULE(x, y)); put(z3.ULT(x, y))
        # comparisons that the unrolled steps made with the then concrete value of a counter: (n - 24 <= 13) with i = 24 suggests (n - i <= 13)
        vals = []
        for sub in ('pa', 'pb') if self.opts.get('shift', 1) else ():
            pbi = [(v, z3.BitVecVal(b, v.size()) if isint(b) else b) for v, b in ctx[sub].values() if not z3.is_bool(v)]
            for x in Xs[:6] if pbi else ():
                b = z3.simplify(z3.substitute(x, *pbi))
                if isinstance(b, z3.BitVecNumRef) and 1 < b.as_long() < 256: vals.append((x, b))
        if vals:
            for c in spc + d.facts:
                for a in (c.children() if z3.is_and(c) else [c]):
                    u = a.arg(0) if z3.is_not(a) else a
                    if u.decl().kind() != z3.Z3_OP_ULEQ or u.arg(0).size() != 64 or any(self.is_new(n) for n in symbols(u)): continue
                    for i in (0, 1):
                        t, o = u.arg(i), u.arg(1 - i)
                        if not isinstance(o, z3.BitVecNumRef) or o.as_long() >= 64: continue
                        k, m = linear(t)
                        if len(m) != 1 or not -256 < s64(k) < 0: continue
                        for x, b in vals:
                            y = t + b - x
                            y = z3.ULE(y, o) if i == 0 else z3.ULE(o, y)
                            put(z3.Not(y) if z3.is_not(a) else y)
        # ghost indices: what held for the bytes already visited
        gs = s.fr.st.ghosts
        if gs:
            pa = [(v, bv(a, v.size())) for v, a in ctx['pa'].values() if not z3.is_bool(v)]
            for c in spc:
                rd = reads_of(c)
                if len(rd) > 1:   # reads inside the index of another one do not count
                    inner = {y.get_id() for x in rd for z in x.children() for y in reads_of(z)}
                    rd = [x for x in rd if x.get_id() not in inner]
                if len(rd) != 1: continue
                r = rd[0]
                fn = r.decl().name()
                for g in gs:
                    g = bv(g, 64)
                    cg = z3.substitute(c, (r, r.decl()(g)))
                    for x in Xs:
                        y = z3.Implies(z3.ULT(g, x), cg)
                        if ok(y): put(y)
                        # ... starting at the value of the counter on entry
                        if pa:
                            x0 = z3.simplify(z3.substitute(x, *pa))
                            if not (isinstance(x0, z3.BitVecNumRef) and x0.as_long() == 0):
                                y = z3.Implies(z3.And(z3.ULE(x0, g), z3.ULT(g, x)), cg)
                                if ok(y): put(y)
        if not self.opts.get("nocontent"): self.content_candidates(newlocs, ctx, d, s, entry, put, ok)
        return list(out.values())

    def content_candidates(self, newlocs, ctx, d, s, entry, put, ok):
        if os.environ.get("NOC"): return
        """what stays and what is copied in buffers that the loop changes"""
        size = {l[0][1]: l[3] for l in newlocs if l[0][0] == 'size'}
        ghosts = s.fr.st.ghosts
        for loc, k, w, v in newlocs:
            if k != 'content': continue
            hit = [x for x in ctx['cb'] if x[0] is v]
            if not hit: continue
            c, a, b = hit[0]
            S = size[loc[1]]
            eo = entry.st.mem.get(loc[1])
            S0 = eo.size if eo is not None and eo.kind == 'buf' else 0
            base = S if isint(S) else linear(S)[0]
            nodec = lambda q: None
            for i in range(min(base, 48) if base < (1 << 62) else 0):
                try: x, y = cread(a, i, 1, nodec), cread(b, i, 1, nodec)
                except Unsupported: continue
                if tkey(x) == tkey(y): put(c.fn(z3.BitVecVal(i, 64)) == bv(x, 8))
            for g in ghosts:
                gz = bv(g, 64)
                if eo is not None and eo.kind == 'buf' and not (isint(S0) and S0 == 0):
                    try: e0 = bv(cread(eo.content, g, 1, self.decider(entry.st)), 8)
                    except Unsupported: continue
                    y = z3.Implies(z3.ULT(gz, bv(S0, 64)), c.fn(gz) == e0)
                    if ok(y): put(y)
            seen = set()
            x = b
            n = 0
            while x.k in ('store', 'copy', 'fill') and n < 24:
                n += 1
                tmpl = []
                if x.k == 'store' and not isinstance(x.a[3], (Ptr, Fn)) and x.a[2] == 1:
                    off, val = x.a[1], x.a[3]
                    if isint(val): tmpl.append((None, None, val))
                    else:
                        rd = [r for r in reads_of(val) if not self.is_new(r.decl().name())]
                        inner = set(q.get_id() for r in rd for q in reads_of(r.arg(0)))
                        rd = [r for r in rd if r.get_id() not in inner]
                        if len(rd) == 1: tmpl.append((rd[0], sub(unwrap(rd[0].arg(0)), off, 64), val))
                elif x.k == 'copy' and x.a[3].k == 'base' and not self.is_new('B!' + x.a[3].a[0]):
                    j = z3.BitVecVal(0, 64)
                    r = x.a[3].fn(j)
                    tmpl.append((r, sub(x.a[4], x.a[1], 64), bv(band(r, x.a[3].a[1], 8) if x.a[3].a[1] != 0xFF else r, 8)))
                for r, dl, val in tmpl:
                    key = (r.decl().name() if r is not None else None, tkey(dl) if dl is not None else tkey(val))
                    if key in seen: continue
                    seen.add(key)
                    if dl is not None and any(self.is_new(q) for q in symbols(dl)): continue
                    for g in ghosts:
                        gz = bv(g, 64)
                        rhs = bv(val, 8) if r is None else z3.substitute(bv(val, 8), (r, r.decl()(bv(add(g, dl, 64), 64))))
                        y = z3.Implies(z3.And(z3.ULE(bv(S0, 64), gz), z3.ULT(gz, bv(S, 64))), c.fn(gz) == rhs)
                        if ok(y): put(y)
                x = x.a[0]

    def houdini(self, cands, d, s, ctx, entry, newlocs):
        pa = [(v, self.coerce(v, t)) for v, t in ctx['pa'].values()]
        pb = [(v, self.coerce(v, t)) for v, t in ctx['pb'].values()]
        dst = d.fr.st
        items = []
        cma = {'B!' + c.a[0]: a for c, a, b in ctx['cb']}; cmb = {'B!' + c.a[0]: b for c, a, b in ctx['cb']}
        da, db = self.decider(dst), self.decider(s.fr.st)
        for c in cands:
            ca = self.inst(c, pa, cma, da)
            if ca is False: continue
            cb = self.inst(c, pb, cmb, db)
            if cb is False: continue
            items.append((c, ca, cb))
        items = self.valid_subset(dst, items, 1)
        items = self.valid_subset(s.fr.st, items, 2)
        return [x[0] for x in items]

    def minimise(self, entry, facts):
        """drop facts implied by the others (keeps later queries small)"""
        kept = []
        base = entry.st.pcs()
        strong = lambda c: (not pure64(c), 0 if c.decl().kind() == z3.Z3_OP_ULEQ else 1, len(c.sexpr()))
        order = sorted(facts, key=strong)
        # strict inequalities and tight bounds first, so that weak ones turn out redundant
        order = [c for c in order if z3.is_not(c)] + [c for c in order if not z3.is_not(c)]
        lin = [c for c in order if pure64(c)]
        rest = [c for c in order if not pure64(c)]
        test = self.pool.lia_session(base, lin + rest)
        for i, c in enumerate(lin):
            if test(kept, i): continue
            kept.append(i)
        if len(kept) < 25:
            for i in list(kept):
                r = [x for x in kept if x != i]
                if test(r, i): kept = r
        return [lin[i] for i in kept] + rest

    def valid_subset(self, st, items, k):
        """the items whose formula (index k) is entailed by st, by counterexample-driven elimination"""
        sure = [x for x in items if x[k] is True]
        rest = [x for x in items if x[k] is not True]
        pcs = st.pcs()
        if st.model is not None:
            def f(c):
                try: return z3.is_false(st.model.eval(c, model_completion=True))
                except z3.Z3Exception: return False
            rest = [x for x in rest if not f(x[k])]
        dropped = []
        while rest:
            self.budget()
            r = self.pool.lia_check(pcs, (z3.Not(z3.And(*[x[k] for x in rest])),))
            if r == 'unsat': break
            n = None
            if r == 'sat':
                L = self.pool.lia
                L.m = L.s.model()
                out = [x for x in rest if L.model_false(x[k])]
                ids = set(id(x) for x in out)
                n = [x for x in rest if id(x) not in ids]
                dropped += out
            if n is None or len(n) == len(rest):
                rest = [x for x in rest if self.entails(st, [x[k]])]
                break
            rest = n
        # facts outside linear arithmetic get a second chance
        for x in dropped:
            if not pure64(x[k]) and self.entails(st, [x[k]]): rest.append(x)
        ok = set(id(x) for x in sure) | set(id(x) for x in rest)
        return [x for x in items if id(x) in ok]

    # ---------------------------------------------------------------- main
    def mk(self, fr, entry, phis):
        s = Shape()
        s.fr = fr
        s.locs, objs, dead = self.locations(fr, entry, phis)
        s.objs = objs
        s.sig = self.signature(s.locs, objs, dead)
        s.exits = []; s.facts = []; s.core = []; s.obl = {}; s.alive = True; s.cover = {}
        return s

    def rename_objs(self, fr, entry, d):
        """make post-entry object ids of fr agree with shape d where the pointers correspond"""
        st = fr.st
        new = [o for o in st.mem if o not in entry.st.mem]
        if not new: return False
        mp = {}
        dst = d.fr.st
        todo = []
        def pair(a, b):
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj != b.obj:
                if b.obj in entry.st.mem or a.obj in entry.st.mem: return
                if b.obj in mp: return
                if a.obj in mp.values(): return
                mp[b.obj] = a.obj
                todo.append((a.obj, b.obj))
        for r in fr.env:
            if r in d.fr.env: pair(d.fr.env[r], fr.env[r])
        for oid in entry.st.mem:
            x, y = dst.mem.get(oid), st.mem.get(oid)
            if x is None or y is None or x is y or x.kind != 'cells' or y.kind != 'cells': continue
            for off, (n, v) in y.cells.items():
                c = x.cells.get(off)
                if c is not None: pair(c[1], v)
        while todo:
            a, b = todo.pop()
            x, y = dst.mem.get(a), st.mem.get(b)
            if x is None or y is None or x.kind != 'cells' or y.kind != 'cells': continue
            for off, (n, v) in y.cells.items():
                c = x.cells.get(off)
                if c is not None: pair(c[1], v)
        mp = {k: v for k, v in mp.items() if k != v}
        if not mp: return False
        # complete to a permutation
        for k, v in list(mp.items()):
            if v in st.mem and v not in mp:
                self.nobj += 1
                mp[v] = self.nobj
        def rn(v):
            if isinstance(v, Ptr) and v.obj in mp: return Ptr(mp[v.obj], v.off)
            if isinstance(v, list): return [rn(x) for x in v]
            return v
        nm = {}
        for oid, o in st.mem.items():
            ch = oid in mp or (o.kind == 'cells' and any(isinstance(v, Ptr) and v.obj in mp for _, v in o.cells.values()))
            if ch:
                o = o.clone(st)
                o.id = mp.get(oid, oid)
                if o.kind == 'cells': o.cells = {k: (n, rn(v)) for k, (n, v) in o.cells.items()}
            nm[mp.get(oid, oid)] = o
        st.mem = nm
        for r in list(fr.env): fr.env[r] = rn(fr.env[r])
        fr.allocas = [mp.get(o, o) for o in fr.allocas]
        return True

    def normalise_layout(self, fr, d, entry):
        """give memory objects of fr the same cell boundaries as shape d where possible"""
        st = fr.st
        for oid, x in d.fr.st.mem.items():
            y = st.mem.get(oid)
            if y is None or x is y or x.kind != 'cells' or y.kind != 'cells' or x.size != y.size: continue
            if x.cells.keys() == y.cells.keys() and all(x.cells[k][0] == y.cells[k][0] for k in x.cells): continue
            nc = {}
            try:
                covered = set()
                for off, (n, v) in x.cells.items():
                    c = y.cells.get(off)
                    if c is not None and c[0] == n: nc[off] = c
                    else:
                        if isinstance(v, (Ptr, Fn)):
                            w = cells_read_conc(y.cells, off, n)
                            if isint(w) and w == 0: w = NULL if False else 0
                            nc[off] = (n, w)
                        else:
                            nc[off] = (n, cells_read_conc(y.cells, off, n))
                o = st.wobj(oid)
                o.cells = nc
            except Unsupported:
                pass

    def solve_loop(self, f, info, entry):
        """entry: frame at the header (phis assigned). returns [(frame, exit target)]"""
        header = entry.blk
        body = info.headers[header]
        phis = [(r, t) for r, t in self.live_phis(f, header) if r in self.used_after(f, info, header)]
        saved_ctr = getattr(self, 'base_ctr', None)
        if not hasattr(self, 'gctr'): self.gctr = 0
        self.base_ctr = (sym._fresh[0], intrinsics._nb[0], sym._undefn[0], self.gctr)
        my_ctr = self.base_ctr
        t0 = time.time()
        self.kills += 1
        shapes = []
        lggs = 0
        weak = 0
        outer_inloop = self.inloop
        self.inloop = True
        save_obl, save_covers = self.obl, self.covers
        e0 = self.fork_fr(entry, entry.st.fork())
        e0.inloops = entry.inloops
        W = [(None, e0)]
        try:
            dirty = []
            while W or dirty:
                self.budget()
                if not W:
                    nd = dirty.pop(0)
                    if not nd.alive: continue
                    # run the body once from the shape
                    ctx = LoopCtx(f, header, body)
                    start = self.fork_fr(nd.fr, nd.fr.st.fork())
                    start.inloops = entry.inloops
                    self.obl, self.covers = nd.obl, nd.cover
                    start.visits = {k: v for k, v in entry.visits.items() if k != header}
                    start.prev = entry.prev
                    rets = self.explore(f, info, [start], ctx)
                    self.base_ctr = my_ctr
                    self.obl, self.covers = save_obl, save_covers
                    nd.exits = ctx.exits
                    for a in ctx.arrivals: W.append((nd, a))
                    continue
                origin, fr = W.pop(0)
                if origin is not None and not origin.alive: continue
                self.drop_garbage(fr, entry)
                s = self.mk(fr, entry, phis)
                more = self.settle(fr, s)
                if more is not None:
                    W[:0] = [(origin, x) for x in more]
                    continue
                hit = False
                for d in shapes:
                    s2 = self.align(fr, d, entry, phis)
                    if s2 is not None: s = s2
                    if self.match(d, s, entry): hit = True; break
                if hit: continue
                nd = None
                force = len(shapes) > self.max_shapes // 3
                if len(shapes) > self.max_shapes or lggs + weak > 4 * self.max_shapes: raise Unsupported('loop invariant: too many shapes')
                for d in shapes:
                    s2 = self.align(fr, d, entry, phis)
                    if s2 is not None: s = s2
                    if d.sig != s.sig: continue
                    nd = self.weaken(f, d, s, entry, phis)
                    if nd is not None:
                        weak += 1
                        d.alive = False
                        shapes.remove(d)
                        break
                    sa = self.abstract(s, entry, phis)
                    if d.sig != sa.sig: continue
                    try:
                        vals, ctx = self.lgg(d, sa, entry, force)
                    except Refuse:
                        continue
                    lggs += 1
                    nd = self.build_shape(f, d, sa, vals, ctx, entry, phis)
                    d.alive = False
                    shapes.remove(d)
                    break
                if nd is None: nd = self.abstract(s, entry, phis)
                shapes.append(nd)
                dirty.append(nd)
        finally:
            self.obl, self.covers = save_obl, save_covers
            self.base_ctr = saved_ctr
        res = []
        for d in shapes:
            for k, o in d.obl.items():
                x = self.obl.get(k)
                if x is None: self.obl[k] = o
                else:
                    x.n += o.n; x.triv += o.triv; x.failed += o.failed; x.undecided += o.undecided; x.query_s += o.query_s
                    if x.cex is None: x.cex = o.cex
            for k, v in d.cover.items(): self.covers[k] = self.covers.get(k) or v
            res.extend(d.exits)
        self.loop_reports.append({'function': f.name, 'header': header, 'shapes': len(shapes), 'generalisations': lggs, 'weakenings': weak, 'facts': sum(len(d.core) for d in shapes), 'exits': len(res), 'seconds': round(time.time() - t0, 2)})
        for fx, tgt in res:
            fx.inloops = entry.inloops
        return res

    def abstract(self, s, entry, phis):
        """replace input-dependent subterms of a header state by parameters; keep the path conditions expressible over them.
        The result is more general than s by construction."""
        mp = {}
        def par(t):
            i = t.get_id()
            e = mp.get(i)
            if e is None:
                if t.num_args() == 0 and t.decl().name().startswith(('p!', 'pb!', 't!')): v = t
                else: v = z3.Bool('pb!%d' % self.nid()) if z3.is_bool(t) else fresh(t.size(), 'p')
                e = mp[i] = (t, v)
            return e[1]
        def new(t): return any(self.is_new(n) for n in symbols(t))
        def cut(t):
            if not isinstance(t, z3.ExprRef) or not new(t): return t
            if isinstance(t, z3.BitVecNumRef): return t
            k = t.decl().kind()
            if k in (z3.Z3_OP_CONCAT, z3.Z3_OP_BADD, z3.Z3_OP_ZERO_EXT) or (k == z3.Z3_OP_BMUL and isinstance(t.arg(0), z3.BitVecNumRef)):
                ch = [cut(x) for x in t.children()]
                if k == z3.Z3_OP_BADD:
                    r = ch[0]
                    for x in ch[1:]: r = r + x
                    return r
                if k == z3.Z3_OP_BMUL: return ch[0] * ch[1]
                return z3.Concat(*ch) if k == z3.Z3_OP_CONCAT else z3.ZeroExt(t.size() - ch[0].size(), ch[0])
            if k == z3.Z3_OP_UNINTERPRETED and t.num_args() == 1 and not self.is_new(t.decl().name()):
                return t.decl()(cut(t.arg(0)))       # read of a buffer known before the loop: keep, its index is what matters
            if k == z3.Z3_OP_EXTRACT and t.arg(0).num_args() == 1 and t.arg(0).decl().kind() == z3.Z3_OP_UNINTERPRETED and not self.is_new(t.arg(0).decl().name()):
                return z3.Extract(t.params()[0], t.params()[1], cut(t.arg(0)))
            return par(t)
        changed = False
        fr = self.fork_fr(s.fr, s.fr.st.fork())
        fr.inloops = entry.inloops
        st = fr.st
        vals = {}
        for loc, k, w, v in s.locs:
            if k == 'content': continue
            if isinstance(v, Ptr):
                n = Ptr(v.obj, simp(cut(v.off)) if isinstance(v.off, z3.ExprRef) else v.off)
            elif isinstance(v, z3.ExprRef): n = simp(cut(v))
            else: continue
            vals[loc] = n
        self.assign(fr, vals)
        subs = [(t, v) for t, v in mp.values()]
        # larger terms first
        subs.sort(key=lambda x: -len(x[0].sexpr()))
        ns = self.mk(fr, entry, phis)
        names = set()
        for loc, k, w, v in ns.locs:
            if k == 'content': continue
            names |= set(n for n in symbols(v) if self.is_new(n))
        facts = []
        parts = {}     # symbols of which only slices are kept
        for t, v in mp.values():
            if z3.is_bv(t) and t.decl().kind() == z3.Z3_OP_EXTRACT and t.arg(0).num_args() == 0 and t.arg(0).decl().kind() == z3.Z3_OP_UNINTERPRETED:
                parts.setdefault(t.arg(0).get_id(), (t.arg(0), []))[1].append((t.params()[1], t.params()[0], v))
        split = []
        for x, l in parts.values():
            l.sort(key=lambda e: e[0])
            pos = 0; out = []
            for lo, hi, v in l:
                if lo < pos: continue
                if lo > pos: out.append(fresh(lo - pos, 'junk'))
                out.append(v); pos = hi + 1
            if pos < x.size(): out.append(fresh(x.size() - pos, 'junk'))
            split.append((x, z3.Concat(*reversed(out)) if len(out) > 1 else out[0]))
        for c in (s.fr.st.pcs_since(entry.st.pc) or []):
            for x in (c.children() if z3.is_and(c) else [c]):
                y = simp(z3.substitute(x, *subs)) if subs else x
                if type(y) is bool: continue
                if all((not self.is_new(n)) or n in names for n in symbols(y)): facts.append(y); continue
                if split:
                    y = simp(z3.substitute(y, *split))
                    if type(y) is not bool and all(not n.startswith('junk') and ((not self.is_new(n)) or n in names) for n in symbols(y)): facts.append(y)
        for t, v in mp.values():   # sizes and capacities stay bounded
            if t.num_args() and not z3.is_bool(t) and t.size() == 64 and v.decl().name() in names:
                if self.entails(s.fr.st, [z3.ULT(t, z3.BitVecVal(SIZE_LIMIT, 64))]): facts.append(z3.ULT(v, z3.BitVecVal(SIZE_LIMIT, 64)))
        st.pc = entry.st.pc; st.npc = entry.st.npc
        st.ghosts = entry.st.ghosts
        st.model = None
        for c in facts: st.assume(c)
        if s.fr.st.trace is not entry.st.trace: st.trace = (entry.st.trace, ('abs',))
        ns.facts = facts
        ns.core = facts
        return ns

    def assign(self, fr, vals):
        st = fr.st
        for loc, v in vals.items():
            if loc[0] == 'phi':
                if len(loc) == 2: fr.env[loc[1]] = v
                else:
                    x = deepl(fr.env[loc[1]]); y = x
                    for k in loc[2:-1]: y = y[k]
                    y[loc[-1]] = v
                    fr.env[loc[1]] = x
            elif loc[0] == 'cell':
                o = st.wobj(loc[1]); o.cells[loc[2]] = (o.cells[loc[2]][0], v)
            elif loc[0] == 'size':
                st.wobj(loc[1]).size = v
            elif loc[0] == 'content':
                st.wobj(loc[1]).content = v

    def settle(self, fr, s):
        """resolve conditional values the path already decides; split on undecided 64-bit ones"""
        st = fr.st
        subs = []
        decided = {}
        dec = self.decider(st)
        for loc, k, w, v in s.locs:
            if k == 'content': continue
            if isinstance(v, Ptr): v = v.off
            if not isinstance(v, z3.ExprRef): continue
            for t in ites_of(v):
                if not z3.is_bv(t): continue
                if t.size() != 64:   # control states stay concrete
                    if not (t.eq(v) and isinstance(t.arg(1), z3.BitVecNumRef) and isinstance(t.arg(2), z3.BitVecNumRef)): continue
                elif any(n.startswith('cap!') for n in symbols(t)): continue
                c = t.arg(0)
                i = c.get_id()
                if i not in decided: decided[i] = dec(c)
                d = decided[i]
                if d is None:
                    out = []
                    for b, s2 in self.split(st, c):
                        out.append(self.fork_fr(fr, s2))
                    return out
                subs.append((t, t.arg(1) if d else t.arg(2)))
        if subs:
            def rw(v):
                if isinstance(v, Ptr): return Ptr(v.obj, rw(v.off))
                if isinstance(v, list): return [rw(x) for x in v]
                if not isinstance(v, (z3.BitVecRef, z3.BoolRef)): return v
                for _ in range(4):
                    n = z3.substitute(v, *subs)
                    if n.eq(v): break
                    v = n
                return simp(v)
            for loc, k, w, v in s.locs:
                if k == 'content': continue
                n = rw(v)
                if loc[0] == 'phi': fr.env[loc[1]] = rw(fr.env[loc[1]])
                elif loc[0] == 'cell':
                    o = st.wobj(loc[1]); o.cells[loc[2]] = (o.cells[loc[2]][0], n)
                elif loc[0] == 'size': st.wobj(loc[1]).size = n
            return [fr]
        return None

    def align(self, fr, d, entry, phis):
        ch = self.rename_objs(fr, entry, d)
        self.normalise_layout(fr, d, entry)
        return self.mk(fr, entry, phis)

    def drop_garbage(self, fr, entry):
        pass

    def build_shape(self, f, d, s, vals, ctx, entry, phis):
        fr = self.fork_fr(d.fr, d.fr.st.fork())
        fr.inloops = entry.inloops
        st = fr.st
        self.assign(fr, vals)
        st.pc = entry.st.pc; st.npc = entry.st.npc
        st.trace = (entry.st.trace, ('abs',))
        st.model = None
        ns = self.mk(fr, entry, phis)
        cands = self.candidates(ns.locs, ctx, d, s, entry)
        facts = self.houdini(cands, d, s, ctx, entry, ns.locs)
        ns.facts = facts
        ns.core = self.minimise(entry, facts)
        for c in ns.core: st.assume(c)
        return ns

def small_consts(c, out):
    st = [c]
    while st:
        x = st.pop()
        if x.decl().kind() == z3.Z3_OP_ULEQ and x.arg(0).size() == 64:
            for y in x.children():
                if isinstance(y, z3.BitVecNumRef) and 1 < y.as_long() < 64: out.add(y.as_long()); out.add(y.as_long() - 1)
        elif z3.is_not(x) or z3.is_and(x) or z3.is_or(x): st.extend(x.children())

def bounds_in(c):
    """64-bit terms that c compares with"""
    out = []
    st = [c]
    while st:
        x = st.pop()
        if x.decl().kind() in (z3.Z3_OP_ULEQ, z3.Z3_OP_EQ) and z3.is_bv(x.arg(0)) and x.arg(0).size() in (16, 32, 64):
            for y in x.children():
                y = y if y.size() == 64 else z3.simplify(z3.ZeroExt(64 - y.size(), y))
                if not isinstance(y, z3.BitVecNumRef): out.append(y)
        elif z3.is_not(x) or z3.is_and(x) or z3.is_or(x): st.extend(x.children())
    return out

def pure64(c):
    """only linear arithmetic over 64-bit constants?"""
    st = [c]
    while st:
        x = st.pop()
        if z3.is_bool(x):
            if x.num_args() == 0 and not (z3.is_true(x) or z3.is_false(x)): return False
        elif not z3.is_bv(x) or x.size() != 64: return False
        elif x.num_args() and x.decl().kind() not in (z3.Z3_OP_BADD, z3.Z3_OP_BMUL, z3.Z3_OP_BSUB, z3.Z3_OP_BNEG): return False
        st.extend(x.children())
    return True

def ites_of(v):
    out = []
    seen = set()
    st = [v]
    while st:
        x = st.pop()
        j = x.get_id()
        if j in seen: continue
        seen.add(j)
        if x.decl().kind() == z3.Z3_OP_ITE: out.append(x)
        st.extend(x.children())
    return out

def reads_of(c):
    out = {}
    seen = set()
    st = [c]
    while st:
        x = st.pop()
        j = x.get_id()
        if j in seen: continue
        seen.add(j)
        if x.num_args() == 1 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED: out[j] = x
        st.extend(x.children())
    return list(out.values())

def collect_regs(x, out):
    if isinstance(x, tuple):
        if len(x) == 2 and x[0] == 'r' and isinstance(x[1], str): out.add(x[1]); return
        for y in x: collect_regs(y, out)
    elif isinstance(x, list):
        for y in x: collect_regs(y, out)
