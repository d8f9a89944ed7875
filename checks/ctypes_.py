"""C23: misuse that the types forbid does not compile and legal use does.  C24: constant initialization.

Decided by the compiler front ends on /repo's current headers (-fsyntax-only, nothing is linked or run): every witness of
misuse is a one-statement program that must be rejected, paired with a control that differs only in the offending type or
form and must be accepted (so a rejection for an unrelated reason cannot count); legal use is one large translation unit that
instantiates every operation with every supported time type."""
import os, re, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor
from vf import sh, DRV, REPO, INC, NPROC, Job, run_jobs, outdated, skip

PRE = ['-w', '-I' + DRV] + INC


class Wit:
    """ok: statements that have to compile, bad: statements that must not; both see the same declarations"""

    def __init__(self, name, where, decl, ok, bad, msg, cfgs=None):
        self.name, self.where, self.decl, self.ok, self.bad, self.msg, self.cfgs = name, where, decl, ok, bad, msg, cfgs


B = 'boost/sync/'
D = 'boost/sync/detail/'
PRIM = [('boost::sync::mutex', D + 'mutexes/mutex_posix.hpp'), ('timed_mutex', D + 'mutexes/timed_mutex_posix.hpp'), ('spin_mutex', D + 'mutexes/spin_mutex.hpp'),
        ('shared_spin_mutex', D + 'mutexes/shared_spin_mutex.hpp'), ('semaphore', B + 'semaphore.hpp'), ('auto_reset_event', B + 'events/auto_reset_event.hpp'),
        ('manual_reset_event', B + 'events/manual_reset_event.hpp'), ('condition_variable', D + 'condition_variables/condition_variable_posix.hpp'),
        ('condition_variable_any', D + 'condition_variables/condition_variable_any_generic.hpp'), ('thread_specific_ptr< int >', B + 'thread_specific/thread_specific_ptr.hpp')]
GUARD = [('lock_guard< boost::sync::mutex >', B + 'locks/lock_guard.hpp'), ('shared_lock_guard< shared_spin_mutex >', B + 'locks/shared_lock_guard.hpp'),
         ('unlock_guard< boost::sync::mutex >', B + 'locks/unlock_guard.hpp'), ('unlock_guard< unique_lock< boost::sync::mutex > >', B + 'locks/unlock_guard.hpp')]
WRAP = [('unique_lock', B + 'locks/unique_lock.hpp'), ('shared_lock', B + 'locks/shared_lock.hpp'), ('upgrade_lock', B + 'locks/upgrade_lock.hpp')]
# supported types; name, durations?, needs C++11
DUR = ['std::chrono::nanoseconds', 'std::chrono::hours', 'boost::chrono::milliseconds', 'boost::posix_time::time_duration', 'std::chrono::duration< double >']
PT = ['std::chrono::system_clock::time_point', 'std::chrono::steady_clock::time_point', 'boost::chrono::system_clock::time_point', 'boost::chrono::steady_clock::time_point',
      'boost::posix_time::ptime', 'struct ::timespec']
BADT = ['int', 'unsigned long', 'double', 'bool', 'struct ::timeval', 'void*', 'char const*', 'struct ::tm', 'std::string', 'boost::gregorian::date', 'vf::pred']


def witnesses(cxx98=False):
    w = []

    def add(*a, **k):
        w.append(Wit(*a, **k))
    for t, f in PRIM + GUARD:
        decl = '%s& a = any< %s >(); %s& b = any< %s >(); %s const& c = a; (void)b; (void)c;' % (t, t, t, t, t)
        n = t.replace('boost::sync::', '')
        add('copy %s' % n, f, decl, '', '%s x(c);' % t, '%s can be copied' % n)
        add('copy non-const %s' % n, f, decl, '', '%s x(a);' % t, '%s can be copied from a non-const object' % n)
        add('assign %s' % n, f, decl, '', 'b = c;', '%s can be copy-assigned' % n)
        add('assign non-const %s' % n, f, decl, '', 'b = a;', '%s can be assigned from a non-const object' % n)
        add('move %s' % n, f, decl, '', '%s x(boost::move(a));' % t, '%s can be moved' % n)
        add('move-assign %s' % n, f, decl, '', 'b = boost::move(a);', '%s can be move-assigned' % n)
        if not cxx98:
            add('std::move %s' % n, f, decl, '', '%s x(std::move(a));' % t, '%s can be moved' % n)
            add('std::move-assign %s' % n, f, decl, '', 'b = std::move(a);', '%s can be move-assigned' % n)
            add('return %s' % n, f, decl, 'struct f { static %s& g(%s& x) { return x; } };' % (t, t), 'struct f { static %s g(%s& x) { return static_cast< %s&& >(x); } };' % (t, t, t), '%s can be returned by value from an existing object' % n)
    for t, f in WRAP:
        for m in ('vf::full_mutex', 'shared_spin_mutex'):
            if t == 'upgrade_lock' and m != 'vf::full_mutex':
                continue
            T = '%s< %s >' % (t, m)
            decl = '%s& a = any< %s >(); %s& b = any< %s >(); %s const& c = a; (void)b; (void)c;' % (T, T, T, T, T)
            add('copy %s' % T, f, decl, '%s x(boost::move(a));' % T, '%s x(c);' % T, '%s can be copied' % t)
            add('copy non-const %s' % T, f, decl, '%s x(boost::move(a));' % T, '%s x(a);' % T, '%s can be copied from a non-const object' % t)
            add('assign %s' % T, f, decl, 'b = boost::move(a);', 'b = c;', '%s can be copy-assigned' % t)
            add('assign non-const %s' % T, f, decl, 'b = boost::move(a);', 'b = a;', '%s can be assigned from a non-const object' % t)
            if not cxx98:
                add('move const %s' % T, f, decl, '%s x(std::move(a));' % T, '%s x(std::move(c));' % T, '%s can be moved from a const object' % t)
                add('move-assign const %s' % T, f, decl, 'b = std::move(a);', 'b = std::move(c);', '%s can be move-assigned from a const object' % t)
        for u, _ in WRAP:
            if u == t:
                continue
            T, U = '%s< vf::full_mutex >' % t, '%s< vf::full_mutex >' % u
            decl = '%s& a = any< %s >(); %s& o = any< %s >(); %s const& c = o; (void)c; (void)a;' % (T, T, U, U, U)
            blocking = (u, t) in (('unique_lock', 'shared_lock'), ('unique_lock', 'upgrade_lock'), ('upgrade_lock', 'unique_lock'), ('upgrade_lock', 'shared_lock'))
            if blocking and cxx98:
                continue        # Boost.Move emulation lets rv<T>& bind to a non-const lvalue here; not a promise of the library
            if blocking:
                add('convert lvalue %s to %s' % (u, t), f, decl, '%s x(boost::move(o));' % T, '%s x(o);' % T, '%s is constructible from an lvalue %s without a move' % (t, u))
                add('convert const %s to %s' % (u, t), f, decl, '%s x(boost::move(o));' % T, '%s x(c);' % T, '%s is constructible from a const %s' % (t, u))
                add('assign lvalue %s to %s' % (u, t), f, decl, 'a = boost::move(o);', 'a = o;', '%s is assignable from an lvalue %s without a move' % (t, u))
            else:
                add('blocking conversion %s to %s' % (u, t), f, decl, '%s x(boost::move(o), try_to_lock);' % T, '%s x(boost::move(o));' % T,
                    '%s can be constructed from a %s without a try or a timeout (two such conversions deadlock)' % (t, u))
                add('blocking assignment %s to %s' % (u, t), f, decl, '', 'a = boost::move(o);', '%s can be assigned from a %s without a try or a timeout' % (t, u))
    # shared and upgrade operations need a mutex that offers them
    add('shared_lock of an exclusive mutex', B + 'locks/shared_lock.hpp', '', 'shared_lock< shared_spin_mutex > x(any< shared_spin_mutex >());', 'shared_lock< spin_mutex > x(any< spin_mutex >());', 'shared_lock accepts a mutex without shared locking')
    add('shared_lock_guard of an exclusive mutex', B + 'locks/shared_lock_guard.hpp', '', 'shared_lock_guard< shared_spin_mutex > x(any< shared_spin_mutex >());', 'shared_lock_guard< boost::sync::mutex > x(any< boost::sync::mutex >());', 'shared_lock_guard accepts a mutex without shared locking')
    # condition_variable and its locks
    cf = D + 'condition_variables/condition_variable_posix.hpp'
    forms = [('wait', '%s'), ('wait', '%s, vf::pred()')]
    for fn, t in (('timed_wait', 'boost::chrono::milliseconds'), ('timed_wait', 'boost::chrono::system_clock::time_point'), ('wait_for', 'boost::chrono::milliseconds'), ('wait_until', 'boost::chrono::system_clock::time_point'),
                  ('wait_until', 'boost::chrono::steady_clock::time_point')):
        forms += [(fn, '%s, any< ' + t + ' >()'), (fn, '%s, any< ' + t + ' >(), vf::pred()')]
    locks = ['unique_lock< spin_mutex >', 'unique_lock< shared_spin_mutex >', 'unique_lock< vf::full_mutex >', 'unique_lock< vf::lockable >', 'unique_lock< vf::native_mutex >', 'shared_lock< shared_spin_mutex >', 'shared_lock< boost::sync::mutex >',
             'lock_guard< boost::sync::mutex >', 'boost::sync::mutex', 'spin_mutex', 'upgrade_lock< vf::full_mutex >', 'unique_lock< boost::sync::mutex > const', 'unique_lock< semaphore >', 'int']
    if not cxx98:
        locks += ['std::unique_lock< std::mutex >', 'std::unique_lock< boost::sync::mutex >']
    for fn, a in forms:
        for l in locks:
            n = l.replace('boost::sync::', '')
            add('condition_variable::%s(%s) with %s' % (fn, a % 'lock', n), cf, 'condition_variable& cv = any< condition_variable >();', 'cv.%s(%s);' % (fn, a % 'any< unique_lock< boost::sync::mutex > >()'),
                'cv.%s(%s);' % (fn, a % ('any< %s >()' % l)), 'condition_variable::%s accepts %s' % (fn, n))
        add('condition_variable::%s(%s) with timed_mutex' % (fn, a % 'lock'), cf, 'condition_variable& cv = any< condition_variable >();', 'cv.%s(%s);' % (fn, a % 'any< unique_lock< boost::sync::mutex > >()'),
            'cv.%s(%s);' % (fn, a % 'any< unique_lock< timed_mutex > >()'), 'condition_variable::%s accepts the lock of an emulated timed_mutex, which has no native mutex to wait with' % fn, cfgs=('no timed lock',))
        add('condition_variable::%s(%s) without a lock object' % (fn, a % 'lock'), cf, 'condition_variable& cv = any< condition_variable >();', 'cv.%s(%s);' % (fn, a % 'any< unique_lock< boost::sync::mutex > >()'),
            'cv.%s(%s);' % (fn, a % 'unique_lock< boost::sync::mutex >(any< boost::sync::mutex >())'), 'condition_variable::%s accepts a temporary lock' % fn)
    for a, n in (('any< unique_lock< boost::sync::mutex > >()', 'an lvalue lock'), ('boost::move(any< unique_lock< timed_mutex > >())', 'a lock of timed_mutex'), ('boost::move(any< unique_lock< spin_mutex > >())', 'a lock of spin_mutex'),
                 ('any< boost::sync::mutex >()', 'a mutex')):
        add('notify_all_at_thread_exit with ' + n, B + 'condition_variables/notify_all_at_thread_exit.hpp', 'condition_variable& cv = any< condition_variable >();',
            'notify_all_at_thread_exit(cv, boost::move(any< unique_lock< boost::sync::mutex > >()));', 'notify_all_at_thread_exit(cv, %s);' % a, 'notify_all_at_thread_exit accepts ' + n)
    # time arguments
    timed = []     # (name, file, decl, format with the time argument, which: d, p, both)
    for t, f in (('semaphore', B + 'semaphore.hpp'), ('auto_reset_event', B + 'events/auto_reset_event.hpp'), ('manual_reset_event', B + 'events/manual_reset_event.hpp')):
        for fn, k in (('wait_for', 'd'), ('wait_until', 'p'), ('timed_wait', 'b')):
            timed.append(('%s::%s' % (t, fn), f, '', 'any< %s >().%s(%%s);' % (t, fn), k))
    for fn, k in (('try_lock_for', 'd'), ('try_lock_until', 'p'), ('timed_lock', 'b')):
        timed.append(('timed_mutex::' + fn, D + 'mutexes/timed_mutex_posix.hpp', '', 'any< timed_mutex >().%s(%%s);' % fn, k))
        for t, f in WRAP:
            ms = ('timed_mutex', 'vf::full_mutex') if t == 'unique_lock' else ('vf::full_mutex',)
            for m in ms:
                timed.append(('%s< %s >::%s' % (t, m, fn), f, '', 'any< %s< %s > >().%s(%%s);' % (t, m, fn), k))
    for t, f, l in (('condition_variable', cf, 'unique_lock< boost::sync::mutex >'), ('condition_variable_any', D + 'condition_variables/condition_variable_any_generic.hpp', 'unique_lock< spin_mutex >')):
        for fn, k in (('wait_for', 'd'), ('wait_until', 'p'), ('timed_wait', 'b')):
            for pr in ('', ', vf::pred()'):
                timed.append(('%s::%s%s' % (t, fn, ' with predicate' if pr else ''), f, '', 'any< %s >().%s(any< %s >(), %%s%s);' % (t, fn, l, pr), k))
    for t, f in WRAP:
        timed.append((t + ' constructor', f, '', '%s< vf::full_mutex > x(any< vf::full_mutex >(), %%s);' % t, 'b'))
    for t in ('unique_lock', 'upgrade_lock'):
        timed.append((t + ' timed conversion', dict(WRAP)[t], '', '%s< vf::full_mutex > x(boost::move(any< shared_lock< vf::full_mutex > >()), %%s);' % t, 'b'))

    def usable(ts):
        return [t for t in ts if not (cxx98 and 'std::chrono' in t)]
    for n, f, decl, fmt, k in timed:
        okt = 'boost::chrono::milliseconds' if k != 'p' else 'boost::chrono::system_clock::time_point'
        ok = fmt % ('any< %s >()' % okt)
        wrong = []
        if k == 'd':
            wrong += [(t, 'the time point ') for t in usable(PT)[:6 if not cxx98 else 2]]
        if k == 'p':
            wrong += [(t, 'the duration ') for t in usable(DUR)]
        wrong += [(t, 'the unsupported type ') for t in (BADT[:3] if cxx98 else BADT)]
        for t, kind in wrong:
            add('%s(%s)' % (n, t), f, decl, ok, fmt % ('any< %s >()' % t), '%s accepts %s%s' % (n, kind, t))
    return w


CF = [('clang++', 'default', ['-std=gnu++17']), ('clang++', 'no timed lock', ['-std=gnu++17', '-DVF_NO_TIMEDLOCK']), ('clang++', 'C++98', ['-std=gnu++98'])]
CFT = CF + [('clang++', 'emulated', ['-std=gnu++17', '-DVF_EMU']), ('clang++', 'semaphore-based', ['-std=gnu++17', '-DBOOST_SYNC_USE_PTHREAD']), ('clang++', 'C++20', ['-std=gnu++20'])]
LEGAL = []
for _c in ('clang++', 'g++'):
    for _s in ('98', '11', '14', '17', '20'):
        LEGAL.append((_c, 'C++' + _s, ['-std=gnu++' + _s]))
    for _n, _f in (('NDEBUG', ['-DNDEBUG']), ('no timed lock', ['-DVF_NO_TIMEDLOCK']), ('no static initializers', ['-DVF_NO_STATIC_INIT']),
                   ('no static initializers, no timed lock', ['-DVF_NO_STATIC_INIT', '-DVF_NO_TIMEDLOCK']), ('emulated', ['-DVF_EMU']), ('semaphore-based', ['-DBOOST_SYNC_USE_PTHREAD']),
                   ('EINTR workaround', ['-DBOOST_SYNC_HAS_PTHREAD_EINTR_BUG']), ('EINTR workaround, NDEBUG', ['-DBOOST_SYNC_HAS_PTHREAD_EINTR_BUG', '-DNDEBUG']),
                   ('std::system_error', ['-DBOOST_SYNC_USE_STD_SYSTEM_ERROR']),
                   ('library sources', ['-DVF_TSS', '-I' + os.path.join(REPO, 'src')]), ('library sources, compiler TLS', ['-DVF_TSS', '-I' + os.path.join(REPO, 'src'), '-DBOOST_SYNC_USE_COMPILER_TLS'])):
        LEGAL.append((_c, _n, ['-std=gnu++17'] + _f))


def body(w, text):
    return '%s\n%s\n' % (w.decl, text)


def diag_errors(txt):
    """-> [(file, line, message)] of the error diagnostics"""
    out = []
    for m in re.finditer(r'^(\S+?):(\d+):(?:\d+:)? (?:fatal )?error: (.*)$', txt, re.M):
        out.append((m.group(1), int(m.group(2)), m.group(3)))
    return out


def lib(path):
    return path[len(REPO) + 1:] if path.startswith(REPO + '/') else path


def c23(out):
    tmp = tempfile.mkdtemp(prefix='vf-')
    tier = os.environ.get('VERIF_TIER', 'quick')
    nwit = nctl = 0
    rules = {'rejected': 0, 'accepted': 0, 'legal': 0, 'self-contained': 0}
    sites = set()
    try:
        jobs = []
        # legal use
        for cxx, name, fl in LEGAL:
            jobs.append(('legal', cxx, name, [cxx] + fl + PRE + ['-fsyntax-only', '-ferror-limit=0' if cxx == 'clang++' else '-fmax-errors=0', os.path.join(DRV, 'api.cpp')], None))
        # every public header on its own
        hdr = []
        root = os.path.join(REPO, 'include')
        for d, _, fs in os.walk(os.path.join(root, 'boost/sync')):
            for f in sorted(fs):
                p = os.path.relpath(os.path.join(d, f), root)
                if f.endswith('.hpp') and '/detail/' not in p:
                    hdr.append(p)
        hdr.sort()
        for h in hdr:
            p = os.path.join(tmp, 'h_' + re.sub(r'\W', '_', h) + '.cpp')
            open(p, 'w').write('#include <%s>\n#include <%s>\nint main() {}\n' % (h, h))
            jobs.append(('self', 'clang++', h, ['clang++', '-std=gnu++17'] + PRE + ['-fsyntax-only', p], h))

        def comp(j):
            r = sh(j[3])
            return j, r
        with ThreadPoolExecutor(NPROC) as ex:
            res = list(ex.map(comp, jobs))
        default = {j[1]: r.returncode == 0 for j, r in res if j[0] == 'legal' and j[2] == 'C++17'}
        for (kind, cxx, name, cmd, h), r in res:
            rules['legal' if kind == 'legal' else 'self-contained'] += 1
            if r.returncode == 0:
                continue
            errs = diag_errors(r.stdout)
            inlib = [e for e in errs if e[0].startswith(REPO + '/')] or errs
            if not errs:
                out.errors.append('%s: %s' % (' '.join(cmd), r.stdout[-1500:]))
                continue
            e = inlib[0]
            d = [x for x in re.findall(r'(api\.cpp:\d+)', r.stdout)]
            if kind == 'legal' and outdated(cmd, '\n'.join(l for l in r.stdout.split('\n') if 'api.cpp' not in l or 'error:' not in l)) and default[cxx]:
                skip('%s [%s]' % (cxx, name))
                continue
            what = ('does not compile on its own' if kind == 'self' else 'legal use does not compile (used at drivers/%s)' % (d[0] if d else 'api.cpp'))
            where = '%s:%d %s' % (lib(e[0]), e[1], h or '')
            if e[0].endswith('api.cpp'):
                src = open(os.path.join(DRV, 'api.cpp')).read().split('\n')
                where = 'include/boost/sync (use: `%s`)' % src[e[1] - 1].strip()[:120]
            out.violations.append(dict(rule='legal', where=where.strip(), msg='%s: %s' % (what, e[2][:300]), job='%s [%s]' % (cxx, name), stack=[], trace=r.stdout.split('\n')[:25]))
        if out.violations:
            return explain(out, rules, sites, 0, 0, hdr)
        # misuse
        todo = []
        pchs = {}
        for cxx, name, fl in (CFT if tier == 'thorough' else CF):
            key = re.sub(r'\W', '_', name)
            pch = os.path.join(tmp, key + '.pch')
            h = os.path.join(tmp, key + '.hpp')
            open(h, 'w').write('#include "all.hpp"\n#include <sys/time.h>\nusing namespace boost::sync;\ntemplate< class T > T& any();\n')
            pchs[name] = (cxx, fl, h, pch)

        dropped = []

        def mk(x):
            cxx, fl, h, pch = x
            return sh([cxx] + fl + PRE + ['-x', 'c++-header', h, '-o', pch])
        with ThreadPoolExecutor(NPROC) as ex:
            for (n, x), r in zip(pchs.items(), ex.map(mk, pchs.values())):
                if r.returncode and outdated(x[1], r.stdout):
                    skip('misuse witnesses [%s]' % n)
                    dropped.append(n)
                elif r.returncode:
                    out.errors.append('precompiled header [%s]: %s' % (n, r.stdout[-1500:]))
        for n in dropped:
            del pchs[n]
        if out.errors:
            return explain(out, rules, sites, 0, 0, hdr)
        for name, (cxx, fl, h, pch) in pchs.items():
            ws = [w for w in witnesses(name == 'C++98') if w.cfgs is None or name in w.cfgs]
            if name not in ('default', 'C++98'):
                # only what depends on the configuration
                keep = ('timed_mutex',) if name == 'no timed lock' else ('timed_mutex', 'condition_variable', 'semaphore', 'event')
                ws = [w for w in ws if any(k in w.name for k in keep) and not w.name.startswith('unique_lock')]
            # the controls: all in one translation unit
            ctl = os.path.join(tmp, 'ctl_%s.cpp' % re.sub(r'\W', '_', name))
            seen, lines = {}, []
            for w in ws:
                t = body(w, w.ok)
                if t not in seen:
                    seen[t] = len(seen)
                    lines.append('void c%d() { %s }' % (seen[t], t.replace('\n', ' ')))
            open(ctl, 'w').write('\n'.join(lines) + '\n')
            todo.append((name, None, [cxx] + fl + PRE + ['-include-pch', pch, '-fsyntax-only', '-ferror-limit=0', ctl], lines))
            for i, w in enumerate(ws):
                p = os.path.join(tmp, 'w_%s_%d.cpp' % (re.sub(r'\W', '_', name), i))
                open(p, 'w').write('void f() {\n%s}\n' % body(w, w.bad))
                todo.append((name, w, [cxx] + fl + PRE + ['-include-pch', pch, '-fsyntax-only', p], None))

        def one(t):
            return t, sh(t[2])
        with ThreadPoolExecutor(NPROC) as ex:
            res = list(ex.map(one, todo))
        for (name, w, cmd, lines), r in res:
            if w is None:
                nctl += len(lines)
                rules['accepted'] += len(lines)
                if r.returncode and outdated(cmd, r.stdout):
                    skip('accepted uses [%s]' % name)
                    continue
                for f, ln, m in diag_errors(r.stdout)[:20]:
                    use = lines[ln - 1] if 0 < ln <= len(lines) and 'ctl_' in f else ''
                    out.violations.append(dict(rule='legal', where='%s:%d' % (lib(f), ln) if not use else 'include/boost/sync (use: `%s`)' % use[:200], msg='legal use does not compile: ' + m[:200], job='clang++ [%s]' % name, stack=[], trace=[]))
                if r.returncode and not diag_errors(r.stdout):
                    out.errors.append('controls [%s]: %s' % (name, r.stdout[-1500:]))
                continue
            nwit += 1
            rules['rejected'] += 1
            sites.add(w.where)
            if r.returncode == 0:
                out.violations.append(dict(rule='rejected', where='include/%s' % w.where, msg=w.msg, job='clang++ [%s], witness: %s' % (name, w.bad), stack=[], trace=[w.decl, w.bad]))
            elif not diag_errors(r.stdout):
                out.errors.append('witness %s [%s]: %s' % (w.name, name, r.stdout[-800:]))
        for (name, w, cmd, lines), r in res[:1] + res[7::len(res) // 5 or 1]:
            if w is not None and r.returncode:
                e = diag_errors(r.stdout)
                if e:
                    out.samples.append('[%s] `%s` rejected: %s' % (name, w.bad, e[0][2][:160]))
        return explain(out, rules, sites, nwit, nctl, hdr)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def explain(out, rules, sites, nwit, nctl, hdr):
    out.coverage.update(obligations=sum(rules.values()), obligations_by_rule=rules, obligation_sites=len(sites) + len(hdr), analyses=sum(rules.values()), configurations=sorted({n for _, n, _ in LEGAL} | {n for _, n, _ in CF}),
                        misuse_witnesses=nwit, legal_controls=nctl, headers_compiled_alone=len(hdr), legal_use_configurations=len(LEGAL))
    out.assumptions = ['clang 18 and gcc 13 front ends; Windows, Mach and dispatch headers cannot be compiled here', 'a configuration without exceptions is not a supported one']
    return ('%d one-statement programs that misuse a type (copying or moving a primitive or guard, copying a wrapper, blocking shared-to-exclusive conversions, condition_variable with foreign or incompatible locks, a time point where a duration is '
            'required and vice versa, unsupported time types) must each be rejected by the compiler, and %d controls that differ only in the offending argument must be accepted; every operation of every primitive and wrapper with every supported '
            'time type is instantiated in %d compiler/language/configuration combinations, and each public header is compiled on its own. Accepting a misuse or rejecting a legal use is reported with the declaration file.' % (nwit, nctl, len(LEGAL)))


# ---------------------------------------------------------------- C24
class Res:
    def __init__(self):
        self.reports, self.obligations, self.oblig_sites, self.funcs_seen = [], 0, {}, set()
        self.nstates = self.steps = self.ended = 0
        self.seen, self.samples = {}, []

    def ob(self, rule, where, ok, msg):
        self.obligations += 1
        self.oblig_sites[(rule, where)] = self.oblig_sites.get((rule, where), 0) + 1
        if not ok:
            self.reports.append(dict(rule=rule, where=where, msg=msg, stack=[], trace=[]))


def raw(cells, lo, hi):
    b = {}
    for o, (s, v) in cells.items():
        if isinstance(o, int) and lo <= o < hi:
            if not isinstance(v, int):
                v = 0 if v == ('P', None, 0) else None
            for i in range(s):
                b[o + i - lo] = None if v is None else (v >> (8 * i)) & 255
    return [b.get(i, 0) for i in range(hi - lo)]


FILES = {'mx': D + 'mutexes/mutex_posix.hpp', 'tm': D + 'mutexes/timed_mutex_posix.hpp', 'cv': D + 'condition_variables/condition_variable_posix.hpp', 'cva': D + 'condition_variables/condition_variable_any_generic.hpp'}
NAMES = {'mx': 'mutex', 'tm': 'timed_mutex', 'cv': 'condition_variable', 'cva': 'condition_variable_any'}


def run_static(m, entry, pre):
    from native import Env, seq, SIZES, Interp, AnalysisError
    from absint import Interp
    r = Res()
    where = 'include/%s' % FILES[pre]
    g = m.globals.get('g_' + pre)
    if g is None:
        raise AnalysisError('no global g_' + pre)
    I = Interp(m, {}, None)
    mem = dict(I.gmem('g_' + pre))
    r.ob('static', where, 'init' in g, 'a static %s has no constant initializer' % NAMES[pre])
    env = Env(mem=dict(mem))
    ops = {'mx': ('try', 'unlock', 'lock', 'unlock'), 'tm': ('try', 'unlock', 'lock', 'unlock'), 'cv': ('notify_one', 'notify_all'), 'cva': ('notify_one', 'notify_all')}[pre]
    e = env
    used = {}
    for op in ops:
        e = seq(m, '%s_%s' % (pre, op), e)
        used.update(e.used)
        if e.stopped:
            r.ob('static', where, False, '%s on a static %s that was never used blocks: it does not start in the unlocked state' % (op, NAMES[pre]))
            break
        r.ob('static', where, e.ret != ('threw',), '%s on a static %s that was never used throws' % (op, NAMES[pre]))
        if op == 'try':
            r.ob('static', where, e.ret == 1, 'try_lock() on a static %s that was never used fails: it does not start unlocked' % NAMES[pre])
    nat = 0
    for k, kind in used.items():
        if k[1] == ('obj', 'x') and kind in ('mutex', 'cond'):
            nat += 1
            n = SIZES[kind]
            r.ob('static', where, raw(mem, k[2], k[2] + n) == raw(I.gmem('ref_' + kind), 0, n), 'the native %s inside a static %s does not have the bytes of the platform\'s static initializer' % (kind, NAMES[pre]))
    if not nat:
        raise AnalysisError('no native object found in ' + NAMES[pre])
    r.nstates, r.ended = len(ops), len(ops)
    r.samples = ['static %s: %d native objects compared byte by byte, then %s' % (NAMES[pre], nat, ', '.join(ops))]
    return r


def c24(out):
    tmp = tempfile.mkdtemp(prefix='vf-')
    try:
        cf = [('C++' + s, ['-std=gnu++' + s]) for s in ('11', '14', '17', '20')]
        for n, f in (('NDEBUG', ['-DNDEBUG']), ('no timed lock', ['-DVF_NO_TIMEDLOCK']), ('EINTR workaround', ['-DBOOST_SYNC_HAS_PTHREAD_EINTR_BUG']), ('emulated', ['-DVF_EMU']), ('POSIX', ['-DBOOST_SYNC_USE_PTHREAD'])):
            cf += [(n, ['-std=gnu++17'] + f), (n + ', C++11', ['-std=gnu++11'] + f)]
        todo = [('clang++', n, fl) for n, fl in cf] + [('g++', n, ['-std=gnu++20'] + [x for x in fl if not x.startswith('-std')]) for n, fl in cf if 'C++11' not in n]

        def one(t):
            return t, sh([t[0]] + t[2] + PRE + ['-fsyntax-only', '-ferror-limit=0' if t[0] == 'clang++' else '-fmax-errors=0', os.path.join(DRV, 'statics.cpp')])
        with ThreadPoolExecutor(NPROC) as ex:
            res = list(ex.map(one, todo))
        src = open(os.path.join(DRV, 'statics.cpp')).read().split('\n')
        bad = False
        for (cxx, n, fl), r in res:
            if r.returncode == 0:
                continue
            es = diag_errors(r.stdout)
            mine = [e for e in es if e[0].endswith('statics.cpp')]
            if not mine and outdated(fl, r.stdout):
                skip('statics.cpp [%s %s]' % (cxx, n))
                continue
            if not mine:
                out.errors.append('statics.cpp [%s %s]: %s' % (cxx, n, r.stdout[-1500:]))
                continue
            bad = True
            for f, ln, m in mine[:6]:
                t = src[ln - 1]
                k = 'cva' if 'condition_variable_any' in t else 'cv' if 'condition_variable' in t else 'tm' if 'timed_mutex' in t else 'mx'
                out.violations.append(dict(rule='static', where='include/%s' % FILES[k], msg='an object with static storage duration is not constant-initialized: `%s`: %s' % (t.replace('VF_CI ', '')[:100], m[:160]), job='%s [%s]' % (cxx, n), stack=[], trace=[]))
        if bad:
            return EX24
        F = ('-DBOOST_FORCEINLINE=inline',)
        js = [Job('statics.cpp', p, run_static, F + fl, c, pre=p) for p in ('mx', 'tm', 'cv', 'cva') for c, fl in (('C++17', ()), ('C++11', ('-std=gnu++11',)), ('NDEBUG', ('-DNDEBUG',)), ('no timed lock', ('-DVF_NO_TIMEDLOCK',)),
              ('no timed lock, NDEBUG', ('-DVF_NO_TIMEDLOCK', '-DNDEBUG')), ('POSIX', ('-DBOOST_SYNC_USE_PTHREAD',)))]
        out.absorb(*run_jobs(js), want=lambda r: r == 'static')
        n = len(res) * 12
        out.coverage['obligations'] += n
        out.coverage['obligations_by_rule']['constant-initialization'] = n
        out.coverage['front_end_runs'] = len(res)
        out.assumptions = ['the platform is Linux with glibc; the static initializers compared against are those of its pthread.h', 'a compiler with constexpr constructors (C++11 and later)']
        return EX24
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


EX24 = ('Objects of mutex, timed_mutex, condition_variable and condition_variable_any with static storage duration (namespace scope, static member, array, member of a literal class, function-local) are declared constinit / require_constant_initialization '
        'and must be accepted by both front ends in every language version and configuration; the constant initializers in the LLVM IR are then compared byte by byte with PTHREAD_*_INITIALIZER for each native object found by the analysis, and the '
        'operations are interpreted from exactly that memory: try_lock succeeds, lock and notify neither block nor fail.')
