#!/usr/bin/env python3
"""mut.py FILE [NAME...]: mutation tests of the checks.  FILE defines M = [(name, props, [(file, old, new)...])]; names starting with 'ok' are
behaviour-preserving edits on which the checks must be quiet, all others must be caught by each listed check.  Works on scratch copies (VF_REPO)."""
import sys, os, subprocess, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
g = {}
exec(open(sys.argv[1]).read(), g)
names = sys.argv[2:]


def one(m):
    name, props, edits = m
    d = tempfile.mkdtemp(prefix='mut-')
    try:
        for x in ('include', 'src'):
            shutil.copytree('/repo/' + x, d + '/' + x)
        for f, old, new in edits:
            p = os.path.join(d, f)
            s = open(p).read()
            if old not in s:
                return name, 'OLD TEXT NOT FOUND in ' + f
            open(p, 'w').write(s.replace(old, new) if name.endswith('*') else s.replace(old, new, 1))
        out = []
        for p in props.split(','):
            neg = p.startswith('-')        # must stay quiet
            p = p.lstrip('-')
            r = subprocess.run([sys.executable, os.path.join(ROOT, 'check.py'), p], env=dict(os.environ, VF_REPO=d, VF_EVIDENCE=d), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=1800)
            good = (r.returncode == 0) if (neg or name.startswith('ok')) else r.returncode == 1 and 'VIOLATION property=%s ' % p in r.stdout
            first = [l for l in r.stdout.splitlines() if l.startswith('  [')][:1] or r.stdout.splitlines()[-3:]
            out.append('%s %s rc=%d %s' % ('ok  ' if good else 'BAD ', p, r.returncode, ' '.join(first)[:260]))
        return name, '\n      '.join(out)
    finally:
        shutil.rmtree(d, ignore_errors=True)


with ThreadPoolExecutor(int(os.environ.get('MUTJ', '3'))) as ex:
    for n, r in ex.map(one, [m for m in g['M'] if not names or m[0] in names]):
        print('%-26s%s' % (n, r), flush=True)
