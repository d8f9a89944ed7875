#!/usr/bin/env python3
"""seedcheck.py [-n] [ID...]: in scratch copies of /repo (bind-mounted in a private mount namespace): apply each seeded change,
build, run the tests, the demo and the property's check.  -n: skip build and tests.  A path to a .diff file with PROPERTY ids after a colon
(file.diff:C01,C02) runs those checks on that change only."""
import sys, os, subprocess, json, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SD = os.path.join(ROOT, 'seeded')


def ns(d, script, timeout=900):
    s = 'mount --bind %s/repo /repo && mkdir -p %s/ev && mkdir -p /verif/evidence && mount --bind %s/ev /verif/evidence && %s' % (d, d, d, script)
    return subprocess.run(['unshare', '-m', 'bash', '-c', s], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, errors='replace')


def one(id, fast):
    d = tempfile.mkdtemp(prefix='sc-')
    out = []
    try:
        subprocess.check_call(['cp', '-a', '/repo', d + '/repo'])
        if ':' in id:
            patch, props = id.split(':')
            props = props.split(',')
            demo = None
            patch = os.path.abspath(patch)
        else:
            patch = os.path.join(SD, id, 'patch.diff')
            props = [json.load(open(os.path.join(SD, id, 'meta.json')))['property']]
            demo = os.path.join(SD, id)
            if not fast:
                shutil.copytree(demo, d + '/demo')
                r = ns(d, 'cd /repo && bash %s/demo/demo.sh' % d)
                out.append('clean-demo:%s' % ('ok' if r.returncode == 0 else 'BAD(%d) %s' % (r.returncode, r.stdout[-600:])))
        r = subprocess.run(['git', '-C', d + '/repo', 'apply', patch], capture_output=True, text=True)
        if r.returncode:
            return id, 'patch does not apply: ' + r.stderr
        if not fast:
            r = ns(d, 'bash /opt/vp/build.sh')
            out.append('build:%s' % ('ok' if r.returncode == 0 else 'BAD ' + r.stdout[-1500:]))
            r = ns(d, 'bash /opt/vp/test.sh %s/o.json' % d)
            o = json.load(open(d + '/o.json'))
            out.append('tests:%s' % ('ok' if not o['failed'] and len(o['passed']) >= 51 else 'FAILED %s' % o['failed']))
            if demo:
                r = ns(d, 'cd /repo && bash %s/demo/demo.sh' % d)
                out.append('demo:%s' % ('fails-ok' if r.returncode not in (0, 2) else 'NOT-FAILING(%d) %s' % (r.returncode, r.stdout[-600:])))
        for p in props:
            r = ns(d, 'cd %s && python3 check.py %s' % (ROOT, p))
            hit = r.returncode == 1 and ('VIOLATION property=%s ' % p) in r.stdout
            out.append('%s:%s' % (p, 'caught' if hit else 'quiet' if r.returncode == 0 else 'NO-ANSWER'))
            out.append(r.stdout[-1200:])
        return id, ' | '.join(out)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    a = sys.argv[1:]
    fast = '-n' in a
    ids = [x for x in a if x != '-n'] or sorted(os.listdir(SD))
    w = 4 if fast else 2
    with ThreadPoolExecutor(w) as ex:
        for id, r in ex.map(lambda i: one(i, fast), ids):
            print('%-24s %s' % (id, r))


main()
