"""check <property>: decide one property. Builds the contracts of the property together with /repo's current sources,
discharges every obligation (one contract per process), replays counterexamples on the real library."""
import sys, os, time, json, glob, re, subprocess, signal, select, pickle, traceback, shutil
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE + '/engine')
sys.setrecursionlimit(20000)
import build

TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
THOROUGH = TIER == 'thorough'
CORES = int(os.environ.get('VP_CORES', '8'))
T0 = time.time()
LIMIT = {k: v * (5 if THOROUGH else 1) for k, v in dict(primary=600, native=660, retry=670, bounded=730).items()}      # seconds since the start of the check, per stage
OUT = HERE + '/out'

TRUSTED = ['clang 18 front end (C++ to LLVM IR) and opt passes sroa/simplifycfg/internalize/globaldce',
           'engine/*.py: IR semantics, memory model, loop rule (each loop: entry establishes, body preserves, exits use the inferred invariant)',
           'z3 (bit-vectors, floating point, linear integer abstraction)',
           'stubs/{vector,string}: contracts of std::vector/std::basic_string assumed in place of libstdc++ bodies (native replay and fuzzing use libstdc++)']
ASSUME = ['memory allocation never fails; sizes of containers stay below 2^40',
          'preconditions written as VP_REQUIRES in the contract files (valid group/channel/field widths, lengths up to 2^32)',
          'NDEBUG build: assert() is not part of the verified behaviour',
          'single-threaded use of each object; callbacks do not re-enter the object that calls them']

def log(*a):
    print(*a, flush=True)

# ------------------------------------------------------------------ worker processes
class Job:
    def __init__(self, key, fn, limit):
        self.key = key; self.fn = fn; self.limit = limit; self.res = None; self.pid = None

def run_jobs(jobs, phase, stop=None):
    """each job in a forked child; returns when all are done (or stop() says so)"""
    todo = list(jobs); live = {}
    while todo or live:
        if stop and stop(): todo = []
        if time.time() - T0 > LIMIT[phase]:
            for j in todo: j.res = {'status': 'undecided', 'why': 'check time limit'}
            todo = []
        while todo and len(live) < CORES:
            j = todo.pop(0)
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    os.setpgid(0, 0)
                    os.close(r)
                    try: res = j.fn()
                    except BaseException as x:
                        res = {'status': 'undecided', 'why': 'engine: %s: %s' % (type(x).__name__, str(x)[:300]), 'trace': traceback.format_exc()[-1500:]}
                    data = pickle.dumps(res)
                    with os.fdopen(w, 'wb') as f: f.write(data)
                finally:
                    os._exit(0)
            os.close(w)
            j.pid = pid; j.t0 = time.time(); j.fd = r; j.buf = b''
            live[r] = j
        if not live: break
        rd, _, _ = select.select(list(live), [], [], 0.5)
        for fd in rd:
            j = live[fd]
            d = os.read(fd, 1 << 20)
            if d: j.buf += d
            else:
                os.close(fd); del live[fd]
                os.waitpid(j.pid, 0)
                try: j.res = pickle.loads(j.buf)
                except Exception: j.res = {'status': 'undecided', 'why': 'worker died'}
        now = time.time()
        for fd, j in list(live.items()):
            if now - j.t0 > j.limit or now - T0 > LIMIT[phase] or (stop and stop()):
                try: os.killpg(j.pid, signal.SIGKILL)
                except ProcessLookupError: pass
                os.waitpid(j.pid, 0); os.close(fd); del live[fd]
                j.res = {'status': 'undecided', 'why': 'time limit'}

# ------------------------------------------------------------------ one contract
def contract_opts(path, c):
    opts = {}
    for pat, o in build.file_opts(path)['opts'].items():
        if re.fullmatch(pat, c): opts.update(o)
    return opts

def verify(mod, dm, path, c, budget, extra):
    import one
    t0 = time.time()
    e = one.run_contract(mod, dm, path, c, budget=budget, extra=extra)
    obl = []
    for o in e.obl.values():
        obl.append(dict(kind=o.kind, label=o.label, where=dm.get(o.where, o.where) or '', n=o.n, failed=o.failed, undecided=o.undecided, cex=o.cex, s=round(o.query_s, 2)))
    bad = [o for o in obl if o['failed'] or o['undecided']]
    ens = sum(o['n'] for o in obl if o['kind'] == 'ensures')
    st, why = 'proved', ''
    if [o for o in bad if o['failed']]: st = 'failed'
    elif bad: st, why = 'undecided', 'solver gave no answer for: ' + bad[0]['label']
    if e.err and st == 'proved': st, why = 'undecided', e.err
    if st == 'proved' and e.miss: st, why = 'undecided', 'callee to replace not found: %s' % e.miss
    if st == 'proved' and not ens: st, why = 'undecided', 'vacuous: no postcondition reached'
    if st == 'proved' and e.bounded and e.cut: st, why = 'bounded', '%d loops cut' % e.cut
    if st == 'proved' and c.startswith('bounded_'): st, why = 'bounded', 'every obligation discharged, but the contract itself bounds its inputs (stated in the contract file)'
    return dict(status=st, why=why, obl=obl, paths=e.paths, queries=e.stats.queries, solver_s=e.stats.solver_s, lia=e.stats.lia_unsat,
                functions=sorted({dm.get(f, f) for f in e.entered}), replaced=sorted({dm.get(f, f) for f in e.replaced}), ext=sorted(e.assumed_ext), loops=e.loop_reports, covers=e.covers, seconds=time.time() - t0, err=e.err)

class File:
    def __init__(self, path):
        self.path = path; self.name = os.path.basename(path)[:-4]
        self.out = OUT + '/' + self.name
        self.mods = {}; self.err = None; self.exe = None; self.exe_err = None
    def load(self, variant):
        import ir
        if variant in self.mods: return self.mods[variant]
        # A, B: pass pipelines; n: narrow loop counters are not widened to 64 bits
        ll = build.build_ir(self.path, self.out, variant[0])
        ir.WIDEN = variant[1:] != 'n'
        m = ir.parse(open(ll).read())
        dm = build.demangle(list(m.funcs) + list(m.decls))
        self.mods[variant] = (m, dm)
        return m, dm
    def native(self):
        if self.exe is None and self.exe_err is None:
            try: self.exe = build.build_native(self.path, self.out)
            except build.BuildError as x: self.exe_err = str(x)
        return self.exe

# ------------------------------------------------------------------ native replay
def native_run(exe, args, limit):
    env = dict(os.environ, UBSAN_OPTIONS='print_stacktrace=0', ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1')
    try:
        p = subprocess.run([exe] + args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=limit, env=env)
        return p.returncode, p.stdout.decode(errors='replace'), p.stderr.decode(errors='replace')
    except subprocess.TimeoutExpired as x:
        return None, (x.stdout or b'').decode(errors='replace'), ''

def write_script(path, head, values):
    with open(path, 'w') as f:
        for h in head: f.write('# ' + h.replace('\n', '\n# ') + '\n')
        for v in values:
            f.write('b ' + ' '.join(map(str, v)) + '\n' if isinstance(v, list) else 'v %d\n' % v)

def replay(exe, c, script):
    rc, out, err = native_run(exe, ['replay', c, script], 60)
    if rc is None: return 'hang', out
    if 'FAILED' in out: return 'violated', out.strip()
    if 'runtime error' in err or 'AddressSanitizer' in err or rc not in (0, 1): return 'violated', (err[:1500] or 'exit %s' % rc)
    return 'held', out.strip()

def fuzz_job(f, c, seed, secs):
    def go():
        rc, out, err = native_run(f.exe, ['fuzz', c, str(seed), str(secs)], secs + 90)
        m = re.search(r'FAILED (.*) seed=(\d+)', out) or re.search(r'()CRASH seed=(\d+)', out)
        if m is None:
            n = re.search(r'RUNS (\d+)', out)
            return {'status': 'held' if n else 'undecided', 'runs': int(n.group(1)) if n else 0, 'why': '' if n else 'native run ended without result'}
        what = m.group(1) or err[:800]
        rc, out, err2 = native_run(f.exe, ['seed', c, m.group(2)], 90)
        vals = []
        for l in out.split('\n'):
            if l.startswith('V '): vals.append(int(l[2:]))
            elif l.startswith('B'): vals.append([int(x) for x in l[1:].split()])
        return {'status': 'violated', 'values': vals, 'what': what}
    return go

# ------------------------------------------------------------------ check
def main(prop, only=None):
    files = [File(p) for p in sorted(glob.glob(HERE + '/contracts/%s_*.cpp' % prop.lower()))]
    if not THOROUGH: files = [f for f in files if '//@thorough' not in open(f.path).read()]
    if not files:
        log('no contracts for', prop); return 2
    shutil.rmtree(OUT + '/' + prop, ignore_errors=True)
    os.makedirs(OUT + '/' + prop, exist_ok=True)
    # phase 0: build
    from concurrent.futures import ThreadPoolExecutor
    def pre(f):
        try: build.build_ir(f.path, f.out, 'A')
        except build.BuildError as x: f.err = str(x)
    with ThreadPoolExecutor(4) as ex: list(ex.map(pre, files))
    results = {}     # (file, contract) -> result
    pending = []
    native_only = []
    for f in files:
        if f.err:
            log('note: %s does not build for the verifier:\n%s' % (f.name, f.err[-1500:]))
            if f.native() is None:
                log('note: nor natively:\n%s' % f.exe_err[-1500:]); return 2
            rc, out, err = native_run(f.exe, ['list'], 30)
            for c in out.split():
                results[(f, c)] = {'status': 'undecided', 'why': 'contract file does not build for the verifier', 'obl': []}
            continue
        m, dm = f.load('A')
        for c in build.contracts_in(m):
            if only and not re.fullmatch(only, c): continue
            o = contract_opts(f.path, c)
            if o.get('thorough') and not THOROUGH: continue
            pending.append((f, c, o))
    violations = []
    def confirm(f, c, r, src):
        """try to reproduce the failed obligations of r on the real library"""
        for o in r.get('obl', []):
            if not o['failed'] or o['cex'] is None: continue
            if f.native() is None: return False
            p = '%s/%s/%s.%s.replay' % (OUT, prop, f.name, c)
            write_script(p, ['property %s contract %s (%s)' % (prop, c, f.name), 'failed obligation: %s %s in %s' % (o['kind'], o['label'], o['where']),
                             'found by: %s' % src, 'replay: %s replay %s %s' % (f.exe, c, p)], o['cex'])
            st, out = replay(f.exe, c, p)
            if st == 'violated':
                violations.append((f, c, o['label'], p, '')); log('  reproduced on the real library: %s: %s' % (c, out.split('\n')[0][:300])); return True
        return False
    budget_scale = 6 if THOROUGH else 1
    # phase 1 (configured variant) and 2 (alternatives)
    def stage(items, name):
        jobs = []
        for f, c, o, var, extra in items:
            m, dm = f.load(var)
            b = o.get('budget', 60) * budget_scale
            jobs.append(Job((f, c), (lambda m=m, dm=dm, f=f, c=c, b=b, extra=extra: verify(m, dm, f.path, c, b, extra)), b * 2 + 30))
        jobs.sort(key=lambda j: -contract_opts(j.key[0].path, j.key[1]).get('budget', 60))
        run_jobs(jobs, name)
        for j in jobs:
            f, c = j.key
            r = j.res or {'status': 'undecided', 'why': 'not run'}
            r.setdefault('obl', [])
            old = results.get((f, c))
            r['stage'] = name
            if old is not None and old['status'] in ('proved', 'bounded'): pass
            elif old is None or old['status'] != 'failed' or r['status'] in ('proved', 'bounded', 'failed'): results[(f, c)] = r
            log('  %-34s %-9s %s obl=%d paths=%d queries=%d solver=%.1fs %s' % (c, r['status'], name, sum(o['n'] for o in r['obl']), r.get('paths', 0), r.get('queries', 0), r.get('solver_s', 0), r.get('why', '')[:200]))
            if r['status'] not in ('proved', 'bounded'):
                for o in r['obl']:
                    if o['failed'] or o['undecided']: log('      %s %s: %s | in %s | %s' % ('failed' if o['failed'] else 'undecided', o['kind'], o['label'], o['where'][:120], str(o['cex'])[:160]))
    first = [(f, c, o, o.get('variant', 'A'), {}) for f, c, o in pending]
    for f, c, o, v, x in first:
        try: f.load(v)
        except build.BuildError as e: log(str(e)); return 2
    stage(first, 'primary')
    for (f, c), r in list(results.items()):
        if r['status'] == 'failed': confirm(f, c, r, 'verifier counterexample')
    def open_items():
        return [(f, c) for (f, c), r in results.items() if r['status'] not in ('proved', 'bounded') and not any(v[0] is f and v[1] == c for v in violations)]
    fuzzed = {}
    if open_items() and not violations:
        # search a failing input on the real library; then bounded unrolling
        jobs = []
        secs = 120 if THOROUGH else 15
        items = [(f, c) for f, c in open_items() if f.native() is not None]
        for k in range(max(1, CORES // max(1, len(items)))):
            for f, c in items: jobs.append(Job((f, c), fuzz_job(f, c, SEED + 7 * k, secs), secs + 200))
        run_jobs(jobs, 'native')
        for j in jobs:
            f, c = j.key
            r = j.res or {}
            if r.get('runs') and (f, c) in fuzzed: r['runs'] += fuzzed[(f, c)].get('runs') or 0
            if fuzzed.get((f, c), {}).get('status') == 'violated': continue
            fuzzed[(f, c)] = r
            log('  %-34s native search: %s %s' % (c, r.get('status'), r.get('what', '') or 'runs=%s' % r.get('runs')))
            if r.get('status') == 'violated':
                p = '%s/%s/%s.%s.replay' % (OUT, prop, f.name, c)
                write_script(p, ['property %s contract %s (%s)' % (prop, c, f.name), 'failed obligation: %s' % r['what'], 'found by: native search after the proof failed', 'replay: %s replay %s %s' % (f.exe, c, p)], r['values'])
                violations.append((f, c, r['what'], p, ''))
    if open_items() and not violations:
        alts = []
        for f, c in open_items():
            if f.err: continue
            o = contract_opts(f.path, c)
            v = o.get('variant', 'A')
            alts.append((f, c, o, 'B', {}) if v[0] == 'A' else (f, c, o, 'B', {'unroll': 2 if o.get('unroll', 20) > 2 else 20}))
            alts.append((f, c, o, v[0] if v[1:] == 'n' else v[0] + 'n', {}))
        stage(alts, 'retry')
        for f, c in open_items():
            if results[(f, c)]['status'] == 'failed': confirm(f, c, results[(f, c)], 'verifier counterexample')
    if open_items() and not violations:
        bnd = []
        for f, c in open_items():
            if f.err: continue
            o = dict(contract_opts(f.path, c)); o['budget'] = 60
            bnd.append((f, c, o, 'B', {'bounded': True, 'unroll': 20, 'bound': 12, 'hist_bound': 3}))
        keep = dict(results)
        stage(bnd, 'bounded')
        for f, c, *_ in bnd:
            r = results[(f, c)]
            if r['status'] == 'failed' and confirm(f, c, r, 'bounded unrolling'): continue
            if keep[(f, c)]['status'] == 'failed' and r['status'] not in ('proved', 'bounded'): results[(f, c)] = keep[(f, c)]
    # definite but unreproduced failures
    for f, c in open_items():
        r = results[(f, c)]
        if r['status'] == 'failed':
            bad = [o for o in r['obl'] if o['failed']]
            definite = [o for o in bad if o['cex'] is not None]
            if not definite:
                r['status'] = 'undecided'; r['why'] = 'obligation not discharged under the inferred invariants: ' + bad[0]['label']; continue
            o = definite[0]
            p = '%s/%s/%s.%s.replay' % (OUT, prop, f.name, c)
            write_script(p, ['property %s contract %s (%s)' % (prop, c, f.name), 'failed obligation: %s %s in %s' % (o['kind'], o['label'], o['where']),
                             'verifier output: ' + json.dumps(bad)[:4000], 'not reproduced by a native run'], o['cex'])
            violations.append((f, c, o['label'], p, ' no-failing-input-found'))
    # known findings
    known = []
    try: known = json.load(open(HERE + '/known_findings.json'))
    except FileNotFoundError: pass
    def is_known(v):
        for k in known:
            if k.get('status') == 'known' and k['property'] == prop and re.fullmatch(k['contract'], v[1]) and k['obligation'] in v[2]: return k
    real = []
    for v in violations:
        k = is_known(v)
        if k: log('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
        else: real.append(v)
    # evidence
    R = list(results.values())
    total = sum(o['n'] for r in R for o in r['obl'])
    disch = sum(max(0, o['n'] - o['failed'] - o['undecided']) for r in R if r['status'] == 'proved' for o in r['obl'])
    unproved = ['%s: %s' % (c, r.get('why') or r['status']) for (f, c), r in results.items() if r['status'] != 'proved']
    fns = sorted({x for r in R for x in r.get('functions', []) if 'midi::' in x and not x.startswith('vpc_')})
    ev = {'property': prop, 'tier': 'thorough' if THOROUGH else 'quick', 'seed': SEED, 'level': 'proof',
          'coverage': {'obligations': total, 'discharged': disch, 'checker_cmd': 'bin/check ' + prop,
                       'trusted_base': TRUSTED,
                       'contracts': len(R), 'contracts_proved': sum(r['status'] == 'proved' for r in R),
                       'bounded_or_undecided': unproved,
                       'bounded_search': {c: r for (f, c), r in ((k, {'runs': x.get('runs'), 'status': x.get('status')}) for k, x in fuzzed.items())},
                       'functions_under_contract': fns, 'replaced_callees': sorted({x for r in R for x in r.get('replaced', [])}),
                       'external_functions_assumed': sorted({x for r in R for x in r.get('ext', [])}),
                       'obligation_sites': sum(len(r['obl']) for r in R), 'paths': sum(r.get('paths', 0) for r in R),
                       'back_end': 'z3 (QF_ABV/FP) + linear-integer abstraction of bit-vector queries', 'solver_queries': sum(r.get('queries', 0) for r in R),
                       'lia_discharged': sum(r.get('lia', 0) for r in R), 'solver_s': round(sum(r.get('solver_s', 0) for r in R), 2),
                       'loops_with_inferred_invariants': [l for r in R for l in r.get('loops', [])][:40],
                       'by_contract': {f.name + '/' + c: {'status': r['status'], 'stage': r.get('stage'), 'obligations': sum(o['n'] for o in r['obl']), 'seconds': round(r.get('seconds', 0), 2)} for (f, c), r in results.items()}},
          'assumptions': ASSUME, 'wall_s': round(time.time() - T0, 2), 'violations': len(real)}
    if unproved: ev['coverage']['explanation'] = 'contracts listed under bounded_or_undecided are not proved on this tree; for them only the bounded native search and bounded unrolling were done'
    os.makedirs(HERE + '/evidence', exist_ok=True)
    json.dump(ev, open(HERE + '/evidence/%s.json' % prop, 'w'), indent=1)
    log('%s: %d contracts, %d proved, obligations %d, discharged %d, %.1fs' % (prop, len(R), sum(r['status'] == 'proved' for r in R), total, disch, time.time() - T0))
    if not R:
        log('no contract ran'); return 2
    for v in real: log('VIOLATION property=%s replay=%s%s' % (prop, v[3], v[4]))
    return 1 if real else 0

if __name__ == '__main__':
    sys.exit(main(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else None))
