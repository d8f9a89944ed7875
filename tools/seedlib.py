"""Helpers to write seeded changes: seed(id, prop, edits, needs, breaks, demo) creates /verif/seeded/<id>/."""
import os, subprocess, json, tempfile, shutil
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def diff(edits):
    d = tempfile.mkdtemp(prefix='seed-')
    subprocess.check_call(['git', 'clone', '-q', '/repo', d + '/r'])
    for f, old, new in edits:
        p = os.path.join(d, 'r', f)
        s = open(p).read()
        assert s.count(old) == 1, (f, s.count(old), old)
        open(p, 'w').write(s.replace(old, new))
    r = subprocess.check_output(['git', '-C', d + '/r', 'diff'], text=True)
    shutil.rmtree(d)
    return r


def seed(id, prop, edits, needs, breaks, demo, flags='', lib=False, timeout=60, sh=None):
    p = os.path.join(ROOT, 'seeded', id)
    os.makedirs(p, exist_ok=True)
    open(os.path.join(p, 'patch.diff'), 'w').write(diff(edits))
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(os.path.join(p, 'meta.json'), 'w'), indent=1)
    if demo:
        open(os.path.join(p, 'demo.cpp'), 'w').write(demo.lstrip('\n'))
    if sh is None:
        l = '-L/repo/_build -Wl,-rpath,/repo/_build -lboost_sync ' if lib else ''
        sh = '''#!/bin/bash
# compiles demo.cpp against /repo and runs it; exit 0: behaviour as promised
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
g++ -std=gnu++17 -w -O1 -g -I/repo/include %s "$D/demo.cpp" -o "$T/demo" %s-lboost_system -lboost_chrono -lpthread || exit 2
timeout %d "$T/demo"
''' % (flags, l, timeout)
    open(os.path.join(p, 'demo.sh'), 'w').write(sh)
    os.chmod(os.path.join(p, 'demo.sh'), 0o755)
