"""Harness intrinsics (__vp_*), libc/libm/LLVM intrinsics: the only functions with built-in semantics."""
import z3
from sym import *
from sym import _undefn
import execu
from execu import simpf, fsort, PTRT

_nb = [0]
def _u(w):
    def h(e, st, a):
        v = fresh(w, 'n')
        st.trace = (st.trace, ('u', w, v))
        return [(st, v)]
    return h
def _bool(e, st, a):
    v = fresh(8, 'nb')
    st.trace = (st.trace, ('u', 8, v))
    st.assume(ule(v, 1, 8))
    c = eq(v, 1, 8)
    return [(st, c)]
def _int64(e, st, a):
    return [(st, fresh(64, 'k'))]
def _tobool(x):
    if type(x) is int: return bool(x & 1)
    if isinstance(x, z3.BitVecRef): return lnot(eq(x, 0, x.size()))
    return x
def cstr(e, st, p):
    o = st.mem[p.obj]
    r = ''
    k = p.off
    while True:
        c = o.cells.get(k)
        v = c[1] if c and c[0] == 1 else (cells_read_conc(o.cells, k, 1))
        if not isint(v) or v == 0: return r
        r += chr(v); k += 1
def _assume(e, st, a):
    c = _tobool(a[0])
    if c is True: return [(st, None)]
    if c is False:
        e.kills += 1
        return []
    e.kills += 1
    ok, m = e.feasible(st, c)
    if not ok: return []
    st.assume(c); st.model = m
    return [(st, None)]
def _assert(e, st, a):
    ok = e.prove(st, _tobool(a[0]), 'ensures', cstr(e, st, a[1]))
    return [(st, None)] if ok else []
def _require(e, st, a):
    """precondition of a replaced callee, proved at the call site"""
    ok = e.prove(st, _tobool(a[0]), 'requires', cstr(e, st, a[1]))
    return [(st, None)] if ok else []
def _cover(e, st, a):
    l = cstr(e, st, a[0])
    if not e.covers.get(l) and not e.quiet:
        if st.model is not None: e.covers[l] = True
        else:
            r, m = e.pool.check(st.pcs(), (), hard=True)
            if r == 'sat': e.covers[l] = True; st.model = m
            else: e.covers.setdefault(l, False)
    return [(st, None)]
def _bytes(e, st, a):
    """__vp_bytes(p, n, mask): [p,p+n) becomes arbitrary bytes (& mask), recorded as one choice"""
    p, n, m = a
    if isint(n) and n == 0:
        st.trace = (st.trace, ('buf', ZERO, 0, 0)); return [(st, None)]
    o = e.deref(st, p, n, 'store')
    if o is None: return []
    _nb[0] += 1
    c = content('base', 'in%d' % _nb[0], m & 0xFF)
    st.trace = (st.trace, ('buf', c, n, 0))
    w = st.wobj(p.obj)
    if w.kind == 'buf':
        if isint(p.off) and p.off == 0 and tkey(n) == tkey(w.size): w.content = c
        else: w.content = content('copy', w.content, p.off, n, c, 0)
    else:
        if not isint(n) or not isint(p.off): raise Unsupported('symbolic nondet bytes in cells')
        e.clear_range(w.cells, p.off, n)
        for k in range(n): w.cells[p.off + k] = (1, cread(c, k, 1, lambda c: None))
    return [(st, None)]
def _buf_new(e, st, a):
    o = e.new_obj(st, 'buf', a[0], 'buf', heap=True)
    if isint(a[0]) and a[0] == 0: o.content = ZERO
    return [(st, Ptr(o.id, 0))]
def _buf_len(e, st, a):
    p, n = a
    o = e.deref(st, p, 0, 'store')
    if o is None: return []
    w = st.wobj(p.obj)
    w.size = n
    if isint(n) and n == 0:
        w.content = ZERO
    return [(st, None)]
def _free(e, st, a):
    p = a[0]
    if p.obj == 0: return [(st, None)]
    if p.obj not in st.mem:
        e.prove(st, False, 'memory', 'double free'); return []
    del st.mem[p.obj]
    return [(st, None)]
def _new(e, st, a):
    n = a[0]
    if isint(n): o = e.new_obj(st, 'cells', n, 'heap', heap=True)
    else: o = e.new_obj(st, 'buf', n, 'heap', heap=True)
    return [(st, Ptr(o.id, 0))]
def _memcpy(e, st, a):
    return [(st, a[0])] if e.memcpy(st, a[0], a[1], a[2]) else []
def _memset(e, st, a):
    v = a[1]
    if not isint(v) and v.size() > 8: v = extract(v, 7, 0, v.size())
    elif isint(v): v &= 255
    return [(st, a[0])] if e.memset(st, a[0], v, a[2]) else []
def _range_eq(e, st, a):
    """1 iff n bytes at p and q are equal"""
    p, q, n = a
    if isint(n) and n == 0: return [(st, True)]
    if p.obj == q.obj and tkey(p.off) == tkey(q.off): return [(st, True)]
    po = e.deref(st, p, n, 'load'); 
    if po is None: return []
    qo = e.deref(st, q, n, 'load')
    if qo is None: return []
    d = e.decider(st)
    pc_, qc_ = e.snapshot(po), e.snapshot(qo)
    if isint(n) and n <= 4096:
        cs = []
        k = 0
        while k < n:
            # compare whole cells when both sides have the same layout there
            step = 1
            if po.kind == 'cells' and qo.kind == 'cells' and isint(p.off) and isint(q.off):
                x = po.cells.get(p.off + k); y = qo.cells.get(q.off + k)
                if x and y and x[0] == y[0] and k + x[0] <= n and not isinstance(x[1], (Ptr, Fn)) and not isinstance(y[1], (Ptr, Fn)): step = x[0]
            cs.append(eq(cread(pc_, add(p.off, k, 64), step, d), cread(qc_, add(q.off, k, 64), step, d), 8 * step))
            k += step
        return [(st, land(*cs))]
    if pc_ is qc_ and tkey(p.off) == tkey(q.off): return [(st, True)]
    # symbolic length: equal -> equal at every watched index; different -> a witness index exists
    # (the answer is a function of the contents and the length, so asking again gives the same value)
    x, y = (pc_.uid, tkey(p.off)), (qc_.uid, tkey(q.off))
    b = None
    for n2, b2, w2, keep in e.reqs.get((x, y), []) + e.reqs.get((y, x), []):
        if tkey(n2) == tkey(n) or d(eq(n, n2, 64)) is True: b, w = b2, w2; break
    if b is None:
        b = z3.Bool('req!%d' % e.nid())
        w = fresh(64, 'w')
        e.reqs.setdefault((x, y), []).append((n, b, w, (pc_, qc_)))
    st.assume(lor(b, land(ult(w, n, 64), lnot(eq(cread(pc_, add(p.off, w, 64), 1, d), cread(qc_, add(q.off, w, 64), 1, d), 8)))))
    for g in st.ghosts:
        st.assume(lor(lnot(b), lnot(ult(g, n, 64)), eq(cread(pc_, add(p.off, g, 64), 1, lambda c: None), cread(qc_, add(q.off, g, 64), 1, lambda c: None), 8)))
    st.model = None
    e.kills += 1   # joins must keep the facts above
    return [(st, b)]
def _memcmp(e, st, a):
    p, q, n = a
    if not isint(n):
        rs = []
        # n symbolic: only the sign of inequality is abstracted
        for s2, b in _range_eq(e, st, a):
            v = fresh(32, 'cmp')
            s2.assume(simp(bl(b) == (v == 0))); s2.model = None
            rs.append((s2, v))
        return rs
    if n == 0: return [(st, 0)]
    po = e.deref(st, p, n, 'load')
    if po is None: return []
    qo = e.deref(st, q, n, 'load')
    if qo is None: return []
    d = e.decider(st)
    r = 0
    for k in range(n - 1, -1, -1):
        x = cread(e.snapshot(po), add(p.off, k, 64), 1, d); y = cread(e.snapshot(qo), add(q.off, k, 64), 1, d)
        r = ite(eq(x, y, 8), r, ite(ult(x, y, 8), mask(32), 1, 32), 32)
    return [(st, r)]
def _strlen(e, st, a):
    p = a[0]
    o = e.deref(st, p, 1, 'load')
    if o is None: return []
    if o.kind != 'cells' or not isint(p.off): raise Unsupported('strlen of symbolic string')
    n = 0
    while True:
        if p.off + n >= o.size:
            e.prove(st, False, 'memory', 'strlen out of bounds'); return []
        v = cells_read_conc(o.cells, p.off + n, 1)
        if not isint(v): raise Unsupported('strlen of symbolic string')
        if v == 0: return [(st, n)]
        n += 1
def _watch(e, st, a):
    """register a ghost index: universally quantified facts are instantiated there"""
    st.ghosts = st.ghosts + (a[0],)
    return [(st, None)]
def _throws(what):
    def h(e, st, a):
        e.prove(st, False, 'memory', 'library precondition violated: ' + what)
        return []
    return h
def _round(e, st, a):
    return [(st, simpf(z3.fpRoundToIntegral(z3.RNA(), a[0])))]
def _floor(e, st, a): return [(st, simpf(z3.fpRoundToIntegral(z3.RTN(), a[0])))]
def _ceil(e, st, a): return [(st, simpf(z3.fpRoundToIntegral(z3.RTP(), a[0])))]
def _trunc(e, st, a): return [(st, simpf(z3.fpRoundToIntegral(z3.RTZ(), a[0])))]
def _fabs(e, st, a): return [(st, simpf(z3.fpAbs(a[0])))]
def _fmuladd(e, st, a): return [(st, simpf(z3.fpAdd(z3.RNE(), z3.fpMul(z3.RNE(), a[0], a[1]), a[2])))]
def _mm(f):
    def h(e, st, a):
        w = e.m.resolve(e.cur_call[2])[1]
        return [(st, ite(f(a[0], a[1], w), a[0], a[1], w))]
    return h
def _abs(e, st, a):
    w = e.m.resolve(e.cur_call[2])[1]
    return [(st, ite(slt(a[0], 0, w), sub(0, a[0], w), a[0], w))]
def _undefint(e, st, a):
    return [(st, fresh(64, 'k'))]
def _is_ghost(e, st, a): return [(st, None)]
def _symbolic(e, st, a): return [(st, True)]
def _float_bits(w):
    def h(e, st, a):
        v = fresh(w, 'n')
        st.trace = (st.trace, ('u', w, v))
        return [(st, simpf(z3.fpBVToFP(v, z3.Float32() if w == 32 else z3.Float64())))]
    return h
def _isc(e, st, a):
    return [(st, isint(a[0]))]

def _grow(e, st, a):
    need, cap = a
    k = ule(need, cap, 64)
    if k is True: return [(st, cap)]
    if isint(need) and need >= execu.SIZE_LIMIT:
        e.kills += 1
        return []
    if not e.opts.get('join') and e.decider(st)(k) is True: return [(st, cap)]
    c = fresh(64, 'cap')
    cond = land(ule(need, c, 64), ule(cap, c, 64), ult(c, execu.SIZE_LIMIT, 64), lor(lnot(k), eq(c, cap, 64)))
    m = st.model
    if m is not None:   # the model extends: the old capacity, or exactly what is needed
        try:
            n0, c0 = (m.eval(bv(x, 64), model_completion=True).as_long() for x in (need, cap))
            v = c0 if n0 <= c0 else n0
            if v < execu.SIZE_LIMIT:
                m2 = m.__copy__()
                m2.update_value(c.decl(), z3.BitVecVal(v, 64))
                e.kills += 1
                st.assume(cond); st.model = m2
                return [(st, c)]
        except (z3.Z3Exception, AttributeError): pass
    ok, m = e.feasible(st, cond)
    if not ok:
        e.kills += 1
        return []
    e.kills += 1
    st.assume(cond); st.model = m
    return [(st, c)]
def _shrink(e, st, a):
    n, cap = a
    c = fresh(64, 'cap')
    cond = land(ule(n, c, 64), ule(c, cap, 64))
    ok, m = e.feasible(st, cond)
    if not ok: return []
    e.kills += 1
    st.assume(cond); st.model = m
    return [(st, c)]

def _history(e, st, a):
    """the next loop entered is cut by invariants right away"""
    st.history = True
    return [(st, None)]

def _width(name):
    return int(name.rsplit('.i', 1)[1])
def _fsh(left):
    def h(e, st, a, w):
        x, y, k = a
        k = urem(k, w, w)
        hi = concat([(x, w), (y, w)])
        s = zext(k, w, 2 * w)
        if left: return extract(shl(hi, s, 2 * w), 2 * w - 1, w, 2 * w)
        return extract(lshr(hi, s, 2 * w), w - 1, 0, 2 * w)
    return h
def _bswap(e, st, a, w):
    return concat([(extract(a[0], 8 * i + 7, 8 * i, w), 8) for i in range(w // 8)])
def _ctpop(e, st, a, w):
    r = 0
    for i in range(w): r = add(r, zext(extract(a[0], i, i, w), 1, w), w)
    return r
def _ctlz(rev):
    def h(e, st, a, w):
        r = w
        for i in range(w):
            b = i if rev is False else w - 1 - i
            r = ite(eq(extract(a[0], b, b, w), 1, 1), w - 1 - i, r, w)
        return r
    return h
def _bitrev(e, st, a, w):
    return concat([(extract(a[0], i, i, w), 1) for i in range(w)])
def _sat(op, signed):
    def h(e, st, a, w):
        x, y = a
        if not signed:
            r = (add if op == 'add' else sub)(x, y, w)
            return ite(ult(r, x, w), mask(w), r, w) if op == 'add' else ite(ult(x, y, w), 0, r, w)
        X, Y = sext(x, w, w + 1), sext(y, w, w + 1)
        r = (add if op == 'add' else sub)(X, Y, w + 1)
        lo, hi = (-(1 << w - 1)) & mask(w + 1), (1 << w - 1) - 1
        return extract(ite(slt(r, lo, w + 1), lo, ite(slt(hi, r, w + 1), hi, r, w + 1), w + 1), w - 1, 0, w + 1)
    return h
def _ovf(op, signed):
    def h(e, st, a, w):
        x, y = a
        ex = sext if signed else zext
        W = 2 * w if op == 'mul' else w + 1
        f = {'add': add, 'sub': sub, 'mul': mul}[op]
        r = f(ex(x, w, W), ex(y, w, W), W)
        lo = extract(r, w - 1, 0, W)
        return [lo, lnot(eq(ex(lo, w, W), r, W))]
    return h
BYWIDTH = [('@llvm.fshl.', _fsh(True)), ('@llvm.fshr.', _fsh(False)), ('@llvm.bswap.', _bswap), ('@llvm.ctpop.', _ctpop), ('@llvm.ctlz.', _ctlz(False)), ('@llvm.cttz.', _ctlz(True)),
           ('@llvm.bitreverse.', _bitrev), ('@llvm.uadd.sat', _sat('add', 0)), ('@llvm.usub.sat', _sat('sub', 0)), ('@llvm.sadd.sat', _sat('add', 1)), ('@llvm.ssub.sat', _sat('sub', 1)),
           ('@llvm.uadd.with', _ovf('add', 0)), ('@llvm.usub.with', _ovf('sub', 0)), ('@llvm.umul.with', _ovf('mul', 0)), ('@llvm.sadd.with', _ovf('add', 1)), ('@llvm.ssub.with', _ovf('sub', 1)), ('@llvm.smul.with', _ovf('mul', 1))]
INTRINSICS = {
    '@__vp_history': _history,
    '@__vp_grow': _grow, '@__vp_shrink': _shrink,
    '@__vp_u8': _u(8), '@__vp_u16': _u(16), '@__vp_u32': _u(32), '@__vp_u64': _u(64), '@__vp_bool': _bool,
    '@__vp_f32': _float_bits(32), '@__vp_f64': _float_bits(64),
    '@__vp_havoc64': _int64, '@__vp_assume': _assume, '@__vp_assert': _assert, '@__vp_pre': _require, '@__vp_cover': _cover,
    '@__vp_bytes': _bytes, '@__vp_buf_new': _buf_new, '@__vp_buf_len': _buf_len, '@__vp_free': _free,
    '@__vp_range_eq': _range_eq, '@__vp_watch': _watch,
    '@_Znwm': _new, '@_Znam': _new, '@_ZdlPv': _free, '@_ZdaPv': _free, '@_ZdlPvm': _free, '@_ZdaPvm': _free,
    '@memcpy': _memcpy, '@memmove': _memcpy, '@memset': _memset, '@memcmp': _memcmp, '@bcmp': _memcmp, '@strlen': _strlen,
    '@round': _round, '@roundf': _round, '@floor': _floor, '@floorf': _floor, '@ceil': _ceil, '@ceilf': _ceil, '@trunc': _trunc, '@truncf': _trunc,
    '@fabs': _fabs, '@fabsf': _fabs,
    '@_ZSt25__throw_bad_function_callv': _throws('call of empty std::function'),
    '@_ZSt20__throw_length_errorPKc': _throws('length_error'),
    '@_ZSt20__throw_out_of_rangePKc': _throws('out_of_range'),
    '@_ZSt24__throw_out_of_range_fmtPKcz': _throws('out_of_range'),
    '@_ZSt17__throw_bad_allocv': _throws('bad_alloc'),
    '@_ZSt28__throw_bad_array_new_lengthv': _throws('bad_array_new_length'),
    '@_ZSt19__throw_logic_errorPKc': _throws('logic_error'),
    '@abort': _throws('abort'), '@__assert_fail': _throws('assert'), '@_ZSt9terminatev': _throws('terminate'),
    '@__cxa_pure_virtual': _throws('pure virtual call'), '@llvm.trap': _throws('trap'), '@_ZSt21__glibcxx_assert_failPKciS0_S0_': _throws('libstdc++ assertion'),
}
PREFIX = [
    ('@llvm.memcpy', _memcpy), ('@llvm.memmove', _memcpy), ('@llvm.memset', _memset),
    ('@llvm.umin', _mm(ult)), ('@llvm.umax', _mm(lambda a, b, w: ult(b, a, w))), ('@llvm.smin', _mm(slt)), ('@llvm.smax', _mm(lambda a, b, w: slt(b, a, w))),
    ('@llvm.abs', _abs), ('@llvm.round.', _round), ('@llvm.floor.', _floor), ('@llvm.ceil.', _ceil), ('@llvm.trunc.f', _trunc), ('@llvm.fabs', _fabs), ('@llvm.fmuladd', _fmuladd),
    ('@llvm.is.constant', lambda e, st, a: [(st, False)]),
    ('@llvm.expect', lambda e, st, a: [(st, a[0])]),
    ('@llvm.stacksave', lambda e, st, a: [(st, NULL)]), ('@llvm.stackrestore', lambda e, st, a: [(st, None)]),
    ('@llvm.trap', _throws('trap')), ('@llvm.ubsantrap', _throws('trap')),
]
def external(e, st, name, args):
    for p, h in BYWIDTH:
        if name.startswith(p): return [(st, h(e, st, args, _width(name)))]
    for p, h in PREFIX:
        if name.startswith(p): return h(e, st, args)
    raise Unsupported('call of external function ' + name)
