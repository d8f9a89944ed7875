#!/usr/bin/env python3
"""automut.py FILE-REGEX [--seed N] [--max N]: mechanical mutation of the library's sources (statement deletion, negated conditions, changed
relations, constants, memory orders, swapped operations).  Prints the mutants none of the checks for that file reports (to be triaged by hand:
equivalent, or a miss).  Works on scratch copies (VF_REPO)."""
import sys, os, re, subprocess, tempfile, shutil, random, argparse
from concurrent.futures import ThreadPoolExecutor, as_completed
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ap = argparse.ArgumentParser()
ap.add_argument('file')
ap.add_argument('--seed', type=int, default=1)
ap.add_argument('--max', type=int, default=10 ** 9)
ap.add_argument('--skip', type=int, default=0)
ap.add_argument('--list', action='store_true')
a = ap.parse_args()
I = 'include/boost/sync/'
MAP = [
    ('src/tss|detail/tss|thread_specific|notify_all_at', 'C22 C19 C20 C21'),
    ('detail/mutexes/spin_mutex|mutexes/spin_mutex', 'C02 C25 C18 C23 C24'),
    ('shared_spin_mutex', 'C03 C25 C18 C23'),
    ('mutex_posix|mutexes/mutex|pthread_mutex_locks|detail/pthread|auto_handle', 'C01 C26 C18 C17 C08 C10 C15 C24 C23 C14 C21'),
    ('timed_mutex', 'C01 C26 C18 C17 C15 C23'),
    ('condition_variable_any|lockable_wrapper', 'C10 C09 C21 C15 C18 C23 C08'),
    ('condition_variable', 'C08 C09 C15 C26 C17 C18 C10 C23 C24'),
    ('semaphore/|sync/semaphore', 'C11 C26 C18 C17 C15 C14 C25 C21 C23'),
    ('events/auto', 'C12 C14 C25 C13 C15 C17 C26 C18 C21 C23'),
    ('events/manual', 'C13 C14 C25 C15 C17 C26 C18 C21 C23'),
    ('futex', 'C14 C15 C12 C13 C17'),
    ('locks/', 'C07 C06 C04 C05 C23'),
    ('time_units|waitable_timer|time_traits|support/', 'C16 C15 C18 C23'),
    ('exception|system_error', 'C18 C06 C23'),
    ('pause|config', 'C23 C02'),
]
BAD = re.compile(r'(?i)windows|mach\b|dispatch|winapi|waitable_timer|auto_handle')
files = []
for d in ('include', 'src'):
    for p, _, fs in os.walk('/repo/' + d):
        for f in fs:
            q = os.path.relpath(os.path.join(p, f), '/repo')
            if not BAD.search(q) and re.search(a.file, q):
                files.append(q)
SWAP = [(' < ', ' <= '), (' > ', ' >= '), (' <= ', ' < '), (' >= ', ' > '), (' == ', ' != '), (' != ', ' == '), (' && ', ' || '), (' || ', ' && '),
        ('return true;', 'return false;'), ('return false;', 'return true;'), (' = true', ' = false'), (' = false', ' = true'), ('(true)', '(false)'), ('(false)', '(true)'),
        (' + ', ' - '), (' - ', ' + '), (' & ', ' | '), (' | ', ' & '), (' / ', ' * '), (' * ', ' / '), ('+=', '-='), ('-=', '+='), ('++', '--'), ('>> ', '<< '), ('<< ', '>> '),
        ('memory_order_acquire', 'memory_order_relaxed'), ('memory_order_release', 'memory_order_relaxed'), ('memory_order_acq_rel', 'memory_order_acquire'), ('memory_order_acq_rel', 'memory_order_release'),
        ('pthread_cond_signal', 'pthread_cond_broadcast'), ('pthread_cond_broadcast', 'pthread_cond_signal'), ('notify_all', 'notify_one'), ('notify_one()', 'notify_all()'),
        ('EINTR', 'EAGAIN'), ('ETIMEDOUT', 'EBUSY'), ('EBUSY', 'ETIMEDOUT'), ('EAGAIN', 'EBUSY'), ('cv_status::timeout', 'cv_status::no_timeout'), ('cv_status::no_timeout', 'cv_status::timeout'),
        ('m_is_locked', '!m_is_locked'), ('fetch_add', 'fetch_sub'), ('fetch_or', 'fetch_add'), ('compare_exchange_weak', 'compare_exchange_strong'), ('while (', 'if ('),
        ('INT_MAX', '1'), ('::lock()', '::try_lock()'), ('->lock()', '->unlock()'), ('->unlock()', '->lock()'), ('.lock()', '.unlock()'), ('.unlock()', '.lock()'),
        ('1000000000', '1000000'), ('NULL', '(&errno - 0 ? NULL : NULL)')]
SWAP.pop()
M = []
for f in sorted(files):
    L = open('/repo/' + f).read().split('\n')
    off = []
    for i, l in enumerate(L):
        s = l.strip()
        # skip branches for other platforms
        if re.match(r'#\s*(if|ifdef|ifndef)\b', s):
            off.append(bool(re.search(r'(?i)windows|mach|dispatch|__APPLE__|_WIN32|MSVC|DOXYGEN', s) and '!' not in s))
            continue
        if re.match(r'#\s*endif', s):
            if off: off.pop()
            continue
        if any(off) or not s or s[0] in '#/*' or s.startswith('BOOST_ASSERT') or s.startswith('typedef') or s.startswith('using ') or 'static_assert' in s or s.startswith('template') or s.startswith('BOOST_NORETURN'):
            continue
        mk = lambda new, what: M.append((f, i, l, new, what))
        ind = l[:len(l) - len(l.lstrip())]
        if re.match(r'^(?!return|break|continue|throw|else|case|default|public|private|protected|friend|goto|virtual|explicit|static|extern|struct|class|namespace)[A-Za-z_:>\-\.\(\)\*&\[\]0-9, =|+!<\'"~\?%/]+;$', s) and (re.match(r'^[\w:\.\->\(\)\*\[\]]+ ?(\(|[-+|&]?= |\+\+|--)', s) or s.startswith('++') or s.startswith('--')):
            mk(ind + ';', 'delete')
        if s in ('break;', 'continue;'):
            mk(ind + ';', 'delete')
        m = re.match(r'^(if|while|else if|\}? ?while) ?\((.*)\)( *\{)?(;)?$', s)
        if m:
            mk(ind + '%s (!(%s))%s%s' % (m.group(1), m.group(2), m.group(3) or '', m.group(4) or ''), 'negate')
        for x, y in SWAP:
            if x in (' < ', ' > ', '>> ', '<< ', ' <= ', ' >= ') and re.search(r'\w< |<< "', l) or x == ' & ' and '&)' in l: continue
            for k in [z.start() for z in re.finditer(re.escape(x), l)]:
                mk(l[:k] + y + l[k + len(x):], x.strip() + '=>' + y.strip())
        for z in re.finditer(r'(?<![\w\.])(\d+)u?(?![\w\.])', l):
            n = int(z.group(1))
            mk(l[:z.start(1)] + str(n + 1) + l[z.end(1):], '%d=>%d' % (n, n + 1))
random.Random(a.seed).shuffle(M)
M = M[a.skip:a.skip + a.max]
print(len(M), 'mutants in', len(files), 'files', flush=True)
if a.list:
    for m in M:
        print('%s:%d [%s] %s' % (m[0], m[1] + 1, m[4], m[3].strip()))
    sys.exit()


def one(m):
    f, i, old, new, what = m
    props = next((p for r, p in MAP if re.search(r, f)), 'C23').split()
    if not re.search('enable_if|is_specialized|DELETED|BOOST_MOV|template|_tag', old):
        props = [p for p in props if p != 'C23'] or props
    d = tempfile.mkdtemp(prefix='am-')
    try:
        for x in ('include', 'src'):
            shutil.copytree('/repo/' + x, d + '/' + x)
        L = open(os.path.join(d, f)).read().split('\n')
        assert L[i] == old
        L[i] = new
        open(os.path.join(d, f), 'w').write('\n'.join(L))
        res = []
        for p in props:
            try:
                r = subprocess.run([sys.executable, os.path.join(ROOT, 'check.py'), p], env=dict(os.environ, VF_REPO=d, VF_EVIDENCE=d), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=900)
            except subprocess.TimeoutExpired:
                res.append(p + ':timeout')
                continue
            if r.returncode == 1:
                return m, 'caught ' + p
            if r.returncode == 2:
                if 'error:' in r.stdout and p not in ('C23',):
                    return m, 'nocompile'
                res.append(p + ':2(' + ' '.join(r.stdout.split('\n')[-3:])[:120] + ')')
        return m, 'SURVIVED ' + ' '.join(res)
    finally:
        shutil.rmtree(d, ignore_errors=True)


n = {}
with ThreadPoolExecutor(int(os.environ.get('MUTJ', '3'))) as ex:
    for fu in as_completed([ex.submit(one, m) for m in M]):
        m, r = fu.result()
        k = r.split()[0]
        n[k] = n.get(k, 0) + 1
        print('%-10s %s:%d [%s] %s%s' % (r.split()[0], m[0].replace(I, ''), m[1] + 1, m[4], m[3].strip(), '   ' + r if k != 'nocompile' else ''), flush=True)
print(n)
