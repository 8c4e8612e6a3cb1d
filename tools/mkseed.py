"""helper to write seeded/<id>/ (patch.diff, demo.sh, demo.cpp, meta.json)"""
import difflib, json, os
R = os.environ.get('VP_REPO', '/repo')
DEMO = '''#!/bin/bash
# exit 0: behaves as the property says; nonzero: broken.   run with cwd = repository root
here="$(cd "$(dirname "$0")" && pwd)"
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
g++ -std=c++17 -O1 -DNDEBUG -w -Iinc "$here/demo.cpp" src/*.cpp -o "$t/demo" || exit 99
"$t/demo"
'''
def mk(id, prop, edits, needs, breaks, demo):
    """edits: list of (file, old, new)"""
    d = '/verif/seeded/' + id
    os.makedirs(d, exist_ok=True)
    out = ''
    files = {}
    for f, old, new in edits:
        s = files.get(f) or open(R + '/' + f).read()
        assert s.count(old) == 1, (id, f, s.count(old))
        files[f] = s.replace(old, new)
    for f, s in files.items():
        a = open(R + '/' + f).read()
        out += ''.join(difflib.unified_diff(a.splitlines(1), s.splitlines(1), 'a/' + f, 'b/' + f))
    open(d + '/patch.diff', 'w').write(out)
    open(d + '/demo.sh', 'w').write(DEMO); os.chmod(d + '/demo.sh', 0o755)
    open(d + '/demo.cpp', 'w').write(demo)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
