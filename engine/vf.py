"""Framework: compiles the drivers against /repo's current headers to LLVM IR, runs the analyses in parallel,
collects violations and writes the evidence."""
import os, sys, json, time, subprocess, hashlib, shutil, tempfile, traceback, re
from concurrent.futures import ProcessPoolExecutor, ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = os.environ.get('VF_REPO', '/repo')
BUILD = os.path.join(ROOT, 'build')
DRV = os.path.join(ROOT, 'drivers')
sys.path.insert(0, HERE)
from absint import AnalysisError

CXX = 'clang++'
LLVM = '/usr/lib/llvm-18/bin/llvm-config'
NPROC = max(2, min(8, os.cpu_count() or 4))


class CompileError(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)


def irx():
    """path of the IR exporter, built from engine/irx.cpp when missing"""
    src = os.path.join(HERE, 'irx.cpp')
    h = hashlib.sha1(open(src, 'rb').read()).hexdigest()[:12]
    exe = os.path.join(BUILD, 'irx-' + h)
    if os.path.exists(exe):
        return exe
    os.makedirs(BUILD, exist_ok=True)
    cf = sh([LLVM, '--cxxflags']).stdout.split()
    lf = sh([LLVM, '--ldflags', '--libs']).stdout.split()
    tmp = exe + '.%d' % os.getpid()
    r = sh([CXX, '-O1', '-std=c++17'] + cf + ['-fno-rtti', src, '-o', tmp] + lf)
    if r.returncode:
        raise RuntimeError('cannot build the IR exporter:\n' + r.stdout)
    os.rename(tmp, exe)
    return exe


INC = ['-I' + os.path.join(REPO, 'include')]


def compile_ir(src, flags, tmp):
    """-> path of exported json; raises CompileError"""
    std = [f for f in flags if f.startswith('-std=')] or ['-std=gnu++17']
    rest = [f for f in flags if not f.startswith('-std=')]
    key = hashlib.sha1(repr((src, flags)).encode()).hexdigest()[:12]
    bc = os.path.join(tmp, key + '.bc')
    js = os.path.join(tmp, key + '.json')
    if not os.path.isabs(src):
        src = os.path.join(DRV, src)
    r = sh([CXX] + std + ['-O0', '-Xclang', '-disable-O0-optnone', '-g', '-w', '-emit-llvm', '-c'] + INC + ['-I' + DRV] + rest + [src, '-o', bc])
    if r.returncode:
        raise CompileError('%s %s\n%s' % (os.path.basename(src), ' '.join(flags), r.stdout[-6000:]))
    with open(js, 'w') as f:
        r = subprocess.run([irx(), bc], stdout=f, stderr=subprocess.PIPE, text=True)
    if r.returncode:
        raise AnalysisError('IR export failed for %s: %s' % (src, r.stderr[-2000:]))
    os.unlink(bc)
    return js


class Job:
    """one analysis: driver source + flags + entry points, analysed by fn(module, entry, **kw) -> Interp-like result"""

    def __init__(self, src, entry, fn, flags=(), cfg='', **kw):
        self.src, self.entry, self.fn, self.flags, self.cfg, self.kw = src, entry, fn, tuple(flags), cfg, kw


SKIPPED = []        # language versions the current headers no longer compile in
OLD = ('98', '03', '11', '14')
NEWER = re.compile(r"C\+\+ ?(0x|1[147z]|2[03a])|c\+\+(0x|1[147]|2[03])|gnu\+\+1[147]|nullptr|'auto'|does not name a type|expected expression|expected body of lambda|variable length arrays|initializer list|rvalue reference|defaulted|deleted function|trailing return|lambda|decltype|static_assert|constexpr|range-based|in namespace 'std'|is not a member of 'std'")


def old_std(flags):
    """the configuration selects a language version older than the default one"""
    return any(f.startswith('-std=') and f.endswith(OLD) for f in flags)


def outdated(flags, text):
    """the headers use a language or library feature that this older language version does not have"""
    return old_std(flags) and NEWER.search(text) is not None


def skip(what):
    if what not in SKIPPED:
        SKIPPED.append(what)
        print('NOTE: not analysed, the headers use newer language features: ' + what)


_mods = {}
THOROUGH_STD = ('c++11', 'c++20')


def _run(job, js):
    from absint import Module
    t = time.time()
    m = _mods.get(js)
    if m is None:
        m = _mods[js] = Module(js)
    try:
        I = job.fn(m, job.entry, **job.kw)
        out = dict(ok=True, reports=I.reports, obligations=I.obligations, sites=sorted(I.oblig_sites.items()),
                   funcs=sorted({m.funcs[n].dem for n in I.funcs_seen if '/boost/sync/' in m.funcs[n].file}), states=I.nstates, steps=I.steps, ended=I.ended,
                   joins=sum(len(v) for v in I.seen.values()), samples=getattr(I, 'samples', []), extra=getattr(I, 'extra', None))
    except AnalysisError as e:
        out = dict(ok=False, err='%s' % e)
    except Exception:
        out = dict(ok=False, err=traceback.format_exc())
    out['job'] = '%s:%s%s' % (job.src, job.entry, (' [' + job.cfg + ']') if job.cfg else '')
    out['cfg'] = job.cfg
    out['t'] = time.time() - t
    return out


def run_jobs(jobs, quiet=True):
    """-> (results, compile_errors)"""
    irx()
    if os.environ.get('VERIF_TIER') == 'thorough':      # the same analyses in other language standards, where the headers take other branches
        more = []
        for std in THOROUGH_STD:
            for j in jobs:
                if not any(f.startswith('-std=') for f in j.flags):
                    more.append(Job(j.src, j.entry, j.fn, j.flags + ('-std=' + std,), (j.cfg + ' ' if j.cfg else '') + std, **j.kw))
        jobs = list(jobs) + more
    tmp = tempfile.mkdtemp(prefix='vf-')
    try:
        keys = []
        for j in jobs:
            k = (j.src, j.flags)
            if k not in keys:
                keys.append(k)
        paths, cerr = {}, {}

        def one(k):
            try:
                paths[k] = compile_ir(k[0], list(k[1]), tmp)
            except CompileError as e:
                cerr[k] = str(e)
        with ThreadPoolExecutor(NPROC) as ex:
            list(ex.map(one, keys))
        for k in list(cerr):
            if outdated(k[1], cerr[k]) and any(x[0] == k[0] and not old_std(x[1]) for x in paths):
                skip('%s %s' % (k[0], ' '.join(f for f in k[1] if f.startswith('-std='))))
                del cerr[k]
        res = []
        todo = [j for j in jobs if (j.src, j.flags) in paths]
        if len(todo) == 1 or os.environ.get('VF_SERIAL'):
            res = [_run(j, paths[(j.src, j.flags)]) for j in todo]
        elif todo:
            with ProcessPoolExecutor(NPROC) as ex:
                futs = [ex.submit(_run, j, paths[(j.src, j.flags)]) for j in todo]
                res = [f.result() for f in futs]
        return res, list(cerr.values())
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


# ---------------------------------------------------------------- results
class Outcome:
    """what a check found"""

    def __init__(self):
        self.violations = []    # dicts rule/where/msg/stack/trace
        self.errors = []        # no answer
        self.funcs = set()
        self.coverage = {}
        self.samples = []
        self.assumptions = []

    def absorb(self, results, cerrs, want=None):
        """want(rule) -> bool selects the rules that belong to the property"""
        cov = self.coverage
        for c in cerrs:
            self.errors.append('driver does not compile: ' + c)
        sites = {}
        funcs = set()
        for r in results:
            if not r['ok']:
                self.errors.append('%s: %s' % (r['job'], r['err']))
                continue
            for v in r['reports']:
                if want is None or want(v['rule']):
                    v = dict(v)
                    v['job'] = r['job']
                    self.violations.append(v)
            for (rule, where), n in r['sites']:
                if want is None or want(rule):
                    sites[(rule, where)] = sites.get((rule, where), 0) + n
            funcs.update(f for f in r['funcs'])
            for k in ('states', 'steps', 'ended', 'joins'):
                kk = {'states': 'abstract_states', 'steps': 'abstract_transfer_steps', 'ended': 'paths_ended', 'joins': 'distinct_states_at_joins'}[k]
                cov[kk] = cov.get(kk, 0) + r[k]
            self.samples += r['samples'][:3]
        cov['analyses'] = cov.get('analyses', 0) + len(results)
        cov['configurations'] = sorted(set(cov.get('configurations', [])) | {r['cfg'] or 'default' for r in results})
        cov['obligations'] = cov.get('obligations', 0) + sum(sites.values())
        cov['obligation_sites'] = cov.get('obligation_sites', 0) + len(sites)
        self.funcs |= funcs
        cov['library_functions_analysed'] = len(self.funcs)
        rules = {}
        for (rule, where), n in sites.items():
            rules[rule] = rules.get(rule, 0) + n
        cov.setdefault('obligations_by_rule', {})
        for k, n in rules.items():
            cov['obligations_by_rule'][k] = cov['obligations_by_rule'].get(k, 0) + n
        for (rule, where), n in sorted(sites.items())[:6]:
            self.samples.append('%s at %s: %d obligations' % (rule, where, n))


def known_findings():
    p = os.path.join(ROOT, 'KNOWN_FINDINGS.txt')
    out = []
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\S+) key=(\S+) (.*)', l)
            if m:
                out.append((m.group(1), m.group(2), m.group(3).strip()))
    return out


def vkey(v):
    """identity of a violation, independent of line numbers"""
    w = re.sub(r':\d+ ', ' ', v['where'])
    return hashlib.sha1(('%s|%s|%s' % (v['rule'], w, v['msg'])).encode()).hexdigest()[:12]


def finish(pid, out, t0, explanation, level='other'):
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    ev = os.environ.get('VF_EVIDENCE') or os.path.join(ROOT, 'evidence')
    os.makedirs(ev, exist_ok=True)
    kf = {k: d for p, k, d in known_findings() if p == pid}
    viol, seen, known = [], set(), []
    for v in out.violations:
        k = vkey(v)
        if k in seen:
            continue
        seen.add(k)
        if k in kf:
            known.append(kf[k])
        else:
            viol.append(v)
    cov = dict(out.coverage)
    cov['explanation'] = explanation
    cov['discharged'] = max(0, cov.get('obligations', 0) - len(viol))
    cov['samples'] = list(dict.fromkeys(out.samples))[:12]
    e = {'property': pid, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov, 'assumptions': out.assumptions,
         'wall_s': round(time.time() - t0, 2), 'violations': len(viol)}
    if SKIPPED:
        e['coverage']['not_analysed'] = list(SKIPPED)
    if out.errors:
        e['coverage']['no_answer'] = [x[:500] for x in out.errors[:5]]
    with open(os.path.join(ev, pid + '.json'), 'w') as f:
        json.dump(e, f, indent=1)
    for d in known:
        print('KNOWN-FINDING: property=%s %s' % (pid, d))
    rp = os.path.join(ev, pid + '.violations.txt')
    if viol:
        with open(rp, 'w') as f:
            for v in viol:
                f.write('property %s\nrule: %s\nat: %s\nwhat: %s\nkey: %s\nanalysis: %s\n' % (pid, v['rule'], v['where'], v['msg'], vkey(v), v.get('job', '')))
                if v.get('stack'):
                    f.write('call path (innermost first):\n' + ''.join('  %s\n' % s for s in v['stack']))
                if v.get('trace'):
                    f.write('abstract path:\n' + ''.join('  %s\n' % s for s in v['trace']))
                f.write('\n')
        for v in viol[:8]:
            print('  [%s] %s: %s' % (v['rule'], v['where'], v['msg']))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    if os.path.exists(rp):
        os.unlink(rp)
    if out.errors:
        print('NO ANSWER for %s:' % pid)
        for x in out.errors[:6]:
            print('  ' + x.replace('\n', '\n  ')[:3000])
        return 2
    print('%s: holds; %d obligations at %d sites in %d library functions, %d analyses, %.1f s' % (
        pid, cov.get('obligations', 0), cov.get('obligation_sites', 0), cov.get('library_functions_analysed', 0), cov.get('analyses', 0), e['wall_s']))
    return 0
