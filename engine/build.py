"""Compile contract files together with /repo's current sources to LLVM IR (verifier) or native code (replay)."""
import os, re, subprocess, glob, hashlib, shutil, tempfile
REPO = os.environ.get('VP_REPO', '/repo')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLANG = 'clang++-18'

built = {}
class BuildError(Exception): pass

def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode != 0:
        raise BuildError(' '.join(cmd) + '\n' + p.stdout[-4000:])
    return p.stdout

def sources():
    return sorted(glob.glob(REPO + '/src/**/*.cpp', recursive=True))

def contracts_in(m):
    return [f[5:] for f in m.funcs if f.startswith('@vpc_')]

def file_opts(path):
    """//@ directives in a contract file"""
    txt = open(path).read()
    o = {'replace': [], 'std': 'c++17', 'defs': [], 'opts': {}, 'stubs': re.findall(r'^//@stubs\s+(\S+)', txt, re.M)}
    for m in re.finditer(r'^//@replace\s+(\S+)\s+target="([^"]+)"\s+stub=(\w+)', txt, re.M):
        o['replace'].append((m.group(1), m.group(2), m.group(3)))
    m = re.search(r'^//@std\s+(\S+)', txt, re.M)
    if m: o['std'] = m.group(1)
    o['defs'] = re.findall(r'^//@def\s+(\S+)', txt, re.M)
    for m in re.finditer(r'^//@opt\s+(\S+)\s+(.*)$', txt, re.M):
        for k, v in re.findall(r'(\w+)=(\S+)', m.group(2)): o['opts'].setdefault(m.group(1), {})[k] = eval(v)
    return o

def flags(fo):
    return ['-std=' + fo['std'], '-DNDEBUG', '-I' + REPO + '/inc', '-I' + HERE + '/contracts', '-fmacro-prefix-map=' + HERE + '/contracts/='] + ['-D' + d for d in fo['defs']]

def build_ir(path, out, variant='A', workers=6):
    """-> path of .ll"""
    from concurrent.futures import ThreadPoolExecutor
    fo = file_opts(path)
    if variant != 'A' and os.path.exists(out + '/all.bc') and built.get(out): return optimise(path, out, variant)
    os.makedirs(out, exist_ok=True)
    built[out] = True
    base = [CLANG] + flags(fo) + ['-O1', '-Xclang', '-disable-llvm-passes', '-fno-exceptions', '-fno-rtti', '-fno-threadsafe-statics',
            '-fno-vectorize', '-fno-slp-vectorize', '-gline-tables-only', '-Wno-everything', '-c', '-emit-llvm']
    stub = ['-I' + HERE + '/' + d for d in fo['stubs'] + ['stubs']]
    def comp(job):
        src, o, must = job
        try:
            run(base + stub + ['-o', o, src]); return o
        except BuildError as e:
            if must: raise
            # code on top of library parts that are not modelled (iostreams): left out, calls into it are 'external'
            run(base + ['-o', o, src])
            return None
    jobs = [(path, out + '/contract.bc', True)]
    for i, s in enumerate(sources()):
        jobs.append((s, '%s/src%d.bc' % (out, i), False))
    with ThreadPoolExecutor(workers) as ex:
        objs = [o for o in ex.map(comp, jobs) if o]
    run(['llvm-link', '-o', out + '/all.bc'] + objs)
    return optimise(path, out, variant)

PASSES = {'A': 'internalize,globaldce,function(sroa,simplifycfg<no-switch-to-lookup;no-sink-common-insts>)',
          # no speculation of instructions: overflow and conversion obligations only where the source evaluates them
          'B': 'internalize,globaldce,function(sroa)'}
def optimise(path, out, variant):
    fo = file_opts(path)
    names = [r[2] for r in fo['replace']] + ['main']  # contracts are kept through llvm.used
    ll = '%s/all_%s.ll' % (out, variant)
    run(['opt', '-passes=' + PASSES[variant], '-internalize-public-api-list=' + ','.join(names), '-S', '-o', ll, out + '/all.bc'])
    return ll


def demangle(names):
    p = subprocess.run(['llvm-cxxfilt'], input='\n'.join(n.lstrip('@') for n in names), stdout=subprocess.PIPE, text=True)
    return dict(zip(names, p.stdout.split('\n')))

def build_native(path, out, san=True):
    fo = file_opts(path)
    os.makedirs(out, exist_ok=True)
    exe = out + '/native'
    cmd = ['g++'] + flags(fo) + ['-DVP_NATIVE', '-O1', '-g', '-w', '-o', exe, path, HERE + '/engine/native.cpp'] + sources()
    if san:
        cmd += ['-fsanitize=address,undefined,float-cast-overflow', '-fno-sanitize-recover=all']
    run(cmd)
    return exe
