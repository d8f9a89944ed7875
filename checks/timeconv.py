"""C16: conversions of time arguments and arithmetic on internal time values are exact, for all values."""
from absint import Interp, AnalysisError, isnum, isptr, ptr, ladd, lsub, lmul, INF
from vf import Job, run_jobs
from common import World, NS, CXXFLAGS
from word import where_of, endob

M = 2 ** 63 - 1
US, MS, S, MIN, H = 1000, 10 ** 6, 10 ** 9, 60 * 10 ** 9, 3600 * 10 ** 9
SEC = M // NS          # seconds whose nanosecond count fits in 64 bits


class ConvObs(World):
    def __init__(self, spec):
        self.spec = spec

    def read_clock(self, I, st, clk, v):
        st.obs['now'] = ('V', clk, v)

    def on_overflow(self, I, st, ins, v):
        I.report(st, 'conv', 'signed overflow for a time value whose nanosecond count fits in 64 bits')

    def on_abort(self, I, st, kind, msg):
        I.report(st, 'conv', 'a valid time value ends in %s' % kind)

    def on_end(self, I, st, how, v):
        def ob(ok, msg):
            endob(I, self, st, 'conv', ok, msg)
        if how != 'return':
            ob(False, 'throws for a valid time value')
            return
        want = st.obs['want'][1]
        if self.spec.out:
            s, n = I.load_at(st, ptr(('out',)), 0, 'i64'), I.load_at(st, ptr(('out',)), 8, 'i64')
            if not isnum(s) or not isnum(n):
                ob(False, 'the converted time is not determined by the argument')
                return
            lo, hi = st.rng(n)
            ob(lo >= 0 and hi < NS, 'the converted time is not normalized')
            r = ladd(lmul(s, NS), n)
            if self.spec.kind == 'now':
                want = st.obs['now'][2]
                ob(st.obs['now'][1] == 'rt', 'the current time is taken from another clock than the system clock')
        else:
            r = v
        if not isnum(r):
            ob(False, 'the result is not determined by the argument')
            return
        d = lsub(r, want)
        if self.spec.trunc:
            # finer than a nanosecond: the remainder has to be smaller than one nanosecond
            lo, hi = st.rng(lsub(lmul(r, self.spec.trunc), want))
            ok = -self.spec.trunc < lo and hi < self.spec.trunc
        else:
            ok = st.must_be(d, 0)
        ob(ok, 'the result is not the %s of the argument' % self.spec.what)


class Spec:
    def __init__(self, entry, out, kind, trunc=0, what='exact number of nanoseconds', **kw):
        self.entry, self.out, self.kind, self.trunc, self.what, self.kw = entry, out, kind, trunc, what, kw


def args(st, spec):
    """-> (arguments, expected nanoseconds)"""
    k, kw = spec.kind, spec.kw
    if k == 'unit':
        u = kw['u']
        lim = min(M // u if not spec.trunc else M, kw.get('max', M))
        a = st.fresh('arg', -lim, lim)
        return (a,), lmul(a, u)
    if k == 'raw':
        a = st.fresh('arg', -M, M)
        return (a,), a

    def sn(nm, lim):
        s, n = st.fresh(nm + '.sec', -lim, lim), st.fresh(nm + '.nsec', 0, NS - 1)
        return s, n, ladd(lmul(s, NS), n)
    if k == 'ts':
        s, n, v = sn('arg', SEC - 1)
        return (s, n), v
    if k == 'now':
        return (), 0
    if k in ('tadd', 'tsub'):
        s, n, v = sn('arg', SEC - 1)
        d = st.fresh('dur', -M, M)
        return (s, n, d), (ladd(v, d) if k == 'tadd' else lsub(v, d))
    if k == 'tdiff':
        s, n, v = sn('left', SEC // 2 - 1)
        s2, n2, v2 = sn('right', SEC // 2 - 1)
        return (s, n, s2, n2), lsub(v, v2)
    a, b = st.fresh('a', -M // 2 + 1, M // 2), st.fresh('b', -M // 2 + 1, M // 2)
    if k == 'dneg':
        return (a,), lmul(a, -1)
    return (a, b), (ladd(a, b) if k == 'dadd' else lsub(a, b))


def run_conv(m, entry, spec):
    o = ConvObs(spec)
    o.where = where_of(m, entry)
    I = Interp(m, o.models() if hasattr(o, 'models') else o.base_models(), o)

    def init(I, st):
        a, want = args(st, spec)
        st.mem[('out',)] = {}
        st.obs['want'] = ('V', want)
        e = st.frames[0].env
        n = 0
        if spec.out:
            e[0] = ptr(('out',))
            n = 1
        for j, x in enumerate(a):
            e[n + j] = x
    I.start(entry, (), init)
    if not I.obligations and not I.reports:
        raise AnalysisError('%s: nothing was analysed' % entry)
    return I


def specs(ns=False):
    out = []
    for lib in ('std', 'bst'):
        for nm, u in (('ns', 1), ('us', US), ('ms', MS), ('s', S), ('min', MIN), ('h', H)):
            out.append(Spec('d_%s_%s' % (lib, nm), False, 'unit', u=u))
        out.append(Spec('d_%s_i32ms' % lib, False, 'unit', u=MS, max=2 ** 31 - 1))
        out.append(Spec('d_%s_ps' % lib, False, 'unit', trunc=1000, u=1))
        for nm, u in (('ns', 1), ('us', US), ('ms', MS), ('s', S), ('h', H)):
            out.append(Spec('t_%s_%s' % (lib, nm), True, 'unit', u=u))
        out.append(Spec('c_%s_ns' % lib, False, 'raw', what='same time point'))
    out.append(Spec('c_std_s', False, 'unit', u=S, what='same time point'))
    out.append(Spec('d_std_i16s', False, 'unit', u=S, max=2 ** 15 - 1))
    for nm, u in (('us', US), ('ms', MS), ('s', S)):
        out.append(Spec('d_dt_' + nm, False, 'unit', u=u))
    out.append(Spec('d_dt_min', False, 'unit', u=MIN, max=2 ** 26))
    out.append(Spec('d_dt_h', False, 'unit', u=H, max=2 ** 21))
    out.append(Spec('d_dt_tick', False, 'unit', u=1 if ns else US, max=M - 16))   # the extreme tick counts are Boost.DateTime's special values
    out.append(Spec('t_dt_us', True, 'unit', u=US, max=(M // US) // (2 if ns else 1)))
    out.append(Spec('t_ts', True, 'ts'))
    out.append(Spec('a_ctor', True, 'raw', what='same instant'))
    out.append(Spec('a_ctor2', True, 'ts', what='same instant'))
    out.append(Spec('a_now', True, 'now', what='current time of the system clock'))
    for e, k in (('add', 'tadd'), ('addeq', 'tadd'), ('sub', 'tsub'), ('subeq', 'tsub')):
        out.append(Spec('a_' + e, True, k, what='exact sum' if k == 'tadd' else 'exact difference'))
    out.append(Spec('a_diff', False, 'tdiff', what='exact difference'))
    for e, k in (('dadd', 'dadd'), ('daddeq', 'dadd'), ('dsub', 'dsub'), ('dsubeq', 'dsub'), ('dneg', 'dneg'), ('cadd', 'dadd'), ('csub', 'dsub'), ('cdiff', 'dsub')):
        out.append(Spec('a_' + e, False, k, what={'dadd': 'exact sum', 'dsub': 'exact difference', 'dneg': 'negation'}[k]))
    return out


def jobs():
    js = []
    for c, fl in (('', ()), ('NDEBUG', ('-DNDEBUG',))):
        for s in specs():
            js.append(Job('timeconv.cpp', s.entry, run_conv, CXXFLAGS + fl, c, spec=s))
    for s in specs(True):
        if '_dt_' in s.entry:
            js.append(Job('timeconv.cpp', s.entry, run_conv, CXXFLAGS + ('-DBOOST_DATE_TIME_POSIX_TIME_STD_CONFIG',), 'Boost.DateTime with nanosecond resolution', spec=s))
    return js


def c16(out):
    out.absorb(*run_jobs(jobs()), want=lambda r: r == 'conv')
    # the deadlines that reach the operating system
    from native import mutex_jobs, sem_jobs, cv_jobs, DF
    out.absorb(*run_jobs(mutex_jobs((DF,)) + sem_jobs((DF,)) + cv_jobs(cfgs=(DF,))), want=lambda r: r == 'time')
    out.assumptions = ['clock_gettime returns a normalized time in [0, 2^31] s', 'struct timespec arguments are normalized by the caller (as POSIX requires)',
                       'floating-point durations are not analysed']
    return ('Every conversion of a supported duration or time point type (all units of std::chrono and boost::chrono, Boost.DateTime, struct timespec) and every arithmetic operation on the internal time values is interpreted '
            'with a symbolic argument over the whole range in which the nanosecond count fits in 64 bits; the result is an exact linear form over the argument (quotients and remainders as symbols) that must equal the '
            'expected number of nanoseconds, with 0 <= nsec < 10^9 for absolute times and no signed overflow on the way.')
