import sys, os, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import z3, ir, execu, build, re
from sym import *

def load(path, out, variant='A'):
    ll = build.build_ir(path, out, variant[0])
    ir.WIDEN = variant[1:] != 'n'
    m = ir.parse(open(ll).read())
    names = list(m.funcs) + list(m.decls)
    dm = build.demangle(names)
    return m, dm

def replacements(path, contract, m, dm):
    fo = build.file_opts(path)
    rep = {}
    miss = []
    for pat, target, stub in fo['replace']:
        if not re.fullmatch(pat, contract): continue
        hit = [n for n, d in dm.items() if re.fullmatch(target, d)]
        if not hit: miss.append(target)
        for n in hit: rep[n] = '@' + stub
    return rep, miss

def run_contract(m, dm, path, contract, budget=100, extra=None):
    import loops
    fo = build.file_opts(path)
    rep, miss = replacements(path, contract, m, dm)
    opts = {}
    for pat, o in fo['opts'].items():
        if re.fullmatch(pat, contract): opts.update(o)
    opts.update(extra or {})
    e = loops.LoopEngine(m, rep, opts)
    e.dm = dm
    e.deadline = time.time() + budget
    st = execu.State()
    err = None
    try:
        res = e.call(st, '@vpc_' + contract, [])
        if not res and not e.loop_reports: pass
    except (Unsupported, ir.Unsupported, OutOfBudget, execu.NeedInvariant) as x:
        err = '%s: %s' % (type(x).__name__, x)
    e.err = err
    e.miss = miss
    return e

if __name__ == '__main__':
    path = os.path.abspath(sys.argv[1])
    t0 = time.time()
    m, dm = load(path, "/tmp/w/one%d" % os.getpid(), os.environ.get('VARIANT', 'A'))
    print('build %.1fs' % (time.time() - t0))
    sel = sys.argv[2:] or build.contracts_in(m)
    extra = {}
    for c in sel:
        t0 = time.time()
        e = run_contract(m, dm, path, c, budget=float(os.environ.get('BUDGET', '200')))
        n = sum(o.n for o in e.obl.values()); bad = [o for o in e.obl.values() if o.failed or o.undecided]
        print('%-40s %s paths=%d obl=%d sites=%d queries=%d solver=%.1fs total=%.1fs covers=%s' % (c, 'ERR ' + e.err if e.err else ('FAIL' if bad else 'ok'), e.paths, n, len(e.obl), e.stats.queries, e.stats.solver_s, time.time() - t0, e.covers))
        for l in e.loop_reports: print('   loop', l)
        for o in bad:
            print('   ', o.kind, o.label, '|', dm.get(o.where, o.where)[:100], 'failed=%d undecided=%d' % (o.failed, o.undecided), str(o.cex)[:300])
