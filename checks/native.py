"""Primitives built on native objects (pthread mutexes and condition variables, POSIX semaphores) and their emulations.
Every path of every operation is analysed with every result the native calls can give (C01, C08-C15, C17, C18, C21, C26)."""
import re, functools
from absint import (Interp, Observer, Throw, AnalysisError, isptr, isnum, NULL, ptr, ladd, lsub, lmul, INF)
from vf import Job, run_jobs
from common import *
from word import ACQ, REL, Bad, Live, endob, where_of, fmt

SIZES = {'mutex': 40, 'cond': 48, 'sem': 32}
USER = ('E', 'vf::user_error', None)
UMAX = 2 ** 32 - 1


def key(p):
    if not isptr(p) or not isinstance(p[2], int):
        raise AnalysisError('native object at an unknown address')
    return ('K', p[1], p[2])


class Native(World):
    """dispatch of the native calls; subclasses give them meaning"""
    OBJ, UM = ('obj', 'x'), ('obj', 'm')

    def models(self):
        m = self.base_models()
        for n in ('pthread_mutex_init', 'pthread_mutex_destroy', 'pthread_mutex_lock', 'pthread_mutex_trylock', 'pthread_mutex_timedlock', 'pthread_mutex_clocklock', 'pthread_mutex_unlock',
                  'pthread_cond_init', 'pthread_cond_destroy', 'pthread_cond_wait', 'pthread_cond_timedwait', 'pthread_cond_clockwait', 'pthread_cond_signal', 'pthread_cond_broadcast',
                  'sem_init', 'sem_destroy', 'sem_wait', 'sem_trywait', 'sem_timedwait', 'sem_clockwait', 'sem_post', 'sched_yield'):
            m[n] = self.native(n)
        for n in ('vf_pred', 'vf_ulock', 'vf_state'):
            m[n] = getattr(self, n)
        m[BATOM] = m_boost_atomic
        return m

    def native(self, n):
        def h(I, st, args, i, f):
            return getattr(self, 'n_' + n)(I, st, args)
        return h

    def n_sched_yield(self, I, st, args):
        return [(st, 0)]

    def vf_pred(self, I, st, args, i, f):
        raise AnalysisError('unexpected user predicate')

    def vf_ulock(self, I, st, args, i, f):
        raise AnalysisError('unexpected user lock')

    def vf_state(self, I, st, args, i, f):
        return [(st, None)]


# ---------------------------------------------------------------- sequential derivation
class SeqNat(Native):
    """one thread alone, every native call succeeds; stops where it would block for ever"""

    def __init__(self, mem, held, sems, cells=()):
        self.mem, self.held, self.sems = mem, set(held), dict(sems)
        self.used = {}
        self.stopped = None
        self.result = None
        self.signalled = []
        self.ends = 0

    def use(self, p, kind):
        k = key(p)
        self.used[k] = kind
        return k

    def stop(self, st, why):
        self.stopped = (why, dict(st.mem.get(self.OBJ, {})), frozenset(self.held))
        return [(st, 'END')]

    def n_pthread_mutex_init(self, I, st, a):
        self.use(a[0], 'mutex')
        return [(st, 0)]
    n_pthread_mutex_destroy = n_pthread_mutex_init

    def n_pthread_cond_init(self, I, st, a):
        self.use(a[0], 'cond')
        return [(st, 0)]
    n_pthread_cond_destroy = n_pthread_cond_init

    def n_pthread_mutex_lock(self, I, st, a):
        k = self.use(a[0], 'mutex')
        if k in self.held:
            return self.stop(st, ('lock', k))
        self.held.add(k)
        return [(st, 0)]

    def n_pthread_mutex_timedlock(self, I, st, a):
        return self.n_pthread_mutex_lock(I, st, a)
    n_pthread_mutex_clocklock = n_pthread_mutex_timedlock

    def n_pthread_mutex_trylock(self, I, st, a):
        k = self.use(a[0], 'mutex')
        if k in self.held:
            return [(st, EBUSY)]
        self.held.add(k)
        return [(st, 0)]

    def n_pthread_mutex_unlock(self, I, st, a):
        k = self.use(a[0], 'mutex')
        self.held.discard(k)
        return [(st, 0)]

    def n_pthread_cond_wait(self, I, st, a):
        c, k = self.use(a[0], 'cond'), self.use(a[1], 'mutex')
        return self.stop(st, ('cond', c, k))
    n_pthread_cond_timedwait = n_pthread_cond_clockwait = n_pthread_cond_wait

    def n_pthread_cond_signal(self, I, st, a):
        self.signalled.append(self.use(a[0], 'cond'))
        return [(st, 0)]
    n_pthread_cond_broadcast = n_pthread_cond_signal

    def n_sem_init(self, I, st, a):
        self.sems[self.use(a[0], 'sem')] = a[2]
        return [(st, 0)]

    def n_sem_destroy(self, I, st, a):
        self.use(a[0], 'sem')
        return [(st, 0)]

    def n_sem_wait(self, I, st, a):
        k = self.use(a[0], 'sem')
        if not self.sems.get(k):
            return self.stop(st, ('sem', k))
        self.sems[k] -= 1
        return [(st, 0)]
    n_sem_timedwait = n_sem_clockwait = n_sem_wait

    def n_sem_trywait(self, I, st, a):
        k = self.use(a[0], 'sem')
        if not self.sems.get(k):
            self.set_errno(I, st, EAGAIN)
            return [(st, -1)]
        self.sems[k] -= 1
        return [(st, 0)]

    def n_sem_post(self, I, st, a):
        k = self.use(a[0], 'sem')
        self.sems[k] = self.sems.get(k, 0) + 1
        return [(st, 0)]

    def on_atomic(self, I, st, i, op, p, sz, ty, order, v, exp, weak, ordf, done):
        return None

    def vf_ulock(self, I, st, args, i, f):
        return [(st, None)]

    def vf_pred(self, I, st, args, i, f):
        return [(st, 0)]

    def on_end(self, I, st, how, v):
        self.ends += 1
        self.result = (how, v, dict(st.mem.get(self.OBJ, {})))


class Env:
    def __init__(self, mem=None, held=(), sems=None):
        self.mem, self.held, self.sems = mem or {}, frozenset(held), sems or {}
        self.ret, self.stopped, self.used = None, None, {}
        self.signalled = []


def seq(m, entry, env, args=()):
    o = SeqNat(env.mem, env.held, env.sems)
    I = Interp(m, o.models(), o)

    def init(I, st):
        st.mem[o.OBJ] = dict(env.mem)
        st.mem[o.UM] = {}
    I.start(entry, (ptr(o.OBJ),) + tuple(args), init)
    e = Env()
    if o.result is None and o.stopped:
        e.mem, e.held, e.sems, e.stopped = o.stopped[1], o.stopped[2], o.sems, o.stopped[0]
    elif o.result and o.ends == 1:
        if o.result[0] != 'return':
            e.ret = ('threw',)
            if '_ctor' in entry:
                raise CtorThrows(entry, ())
        else:
            e.ret = o.result[1]
        e.mem, e.held, e.sems = o.result[2], frozenset(o.held), o.sems
    else:
        if not o.ends and not o.stopped:
            raise NotEnding(entry, ())
        raise AnalysisError('%s: not deterministic when executed alone' % entry)
    e.used = dict(env.used)
    e.used.update(o.used)
    e.signalled = o.signalled
    return e


class CtorThrows(NotEnding):
    pass


def ending(rule):
    """an operation that never returns although nothing can block it is a violation"""
    def deco(f):
        @functools.wraps(f)
        def g(m, *a, **kw):
            try:
                return f(m, *a, **kw)
            except NotEnding as e:
                r = rule(e.entry) if callable(rule) else rule
                if isinstance(e, CtorThrows):
                    return Bad(r, where_of(m, e.entry), 'the constructor throws although no native call failed', more=('err',))
                return Bad(r, where_of(m, e.entry), 'does not return when executed by a single thread', lost=True)
        return g
    return deco


def seqs(m, pre, ops, env=None, args=()):
    e = env
    if e is None:
        e = seq(m, pre + '_ctor', Env())
    for op in ops:
        if e.stopped:
            raise AnalysisError('%s: %s blocks' % (pre, ops))
        e = seq(m, pre + '_' + op, e)
    return e


def plain(mem, used, OBJ=('obj', 'x')):
    """cells of the object that are not part of native objects"""
    out = {}
    for o, (s, v) in mem.items():
        if not isinstance(o, int):
            continue
        if any(k[1] == OBJ and k[2] <= o < k[2] + SIZES[kd] for k, kd in used.items()):
            continue
        out[o] = (s, v)
    return out


# ---------------------------------------------------------------- the analysis
class Nat(Timing, Native):
    """obs: held ('H', keys...)   nerr ('V', error, operation)   intr 1: the last native call was interrupted"""
    LOCKRULE = 'ilock'

    def __init__(self, op, eintr=False, faults=()):
        self.op, self.eintr, self.faults = op, eintr, set(faults)
        self.internal = set()       # keys of internal mutexes

    # ---- state helpers
    def held(self, st):
        return st.obs.get('held', ('H',))[1:]

    def sethold(self, st, k, on):
        h = set(self.held(st))
        (h.add if on else h.discard)(k)
        st.obs['held'] = ('H',) + tuple(sorted(h, key=repr))

    def inner(self, st):
        return [k for k in self.held(st) if k in self.internal]

    # ---- hooks
    def acquired(self, I, st, k, how):
        return [st]

    def releasing(self, I, st, k):
        pass

    def failed(self, I, st, k, how):
        """try or timed lock reported busy / timeout"""

    def before_block(self, I, st, c, k, timed):
        pass

    def after_block(self, I, st, c, k, res):
        return [st]

    def notified(self, I, st, c, n):
        pass

    def allow(self, I, st, what, ok):
        """may this operation call this native function at all?"""

    # ---- outcomes
    def err(self, I, st, what, ne=()):
        e = st.fresh(('error', what), 1, 133)
        for x in (EINTR, EBUSY, ETIMEDOUT) + tuple(ne):
            st.assume_ne(e, x)
        st.obs['nerr'] = ('V', e, what)
        I.note(st, '%s fails with an error' % what)
        return e

    def intr(self, I, st, what):
        st.obs['intr'] = 1
        I.note(st, '%s is interrupted by a signal (EINTR)' % what)

    def lockop(self, I, st, p, how, tmo=None):
        k = key(p)
        outs = []
        st.obs['intr'] = 0
        own = k in self.held(st)
        if how != 'try':
            I.ob(st, self.LOCKRULE, not own, 'locks a mutex that the calling thread already holds')
            if own:
                return []
        I.ob(st, self.LOCKRULE, how == 'try' or k in self.internal or not self.inner(st), 'blocks on a mutex while an internal lock is held')
        direct = True
        if how == 'timed':
            direct = self.timearg(I, st, tmo, 'pthread_mutex_timedlock')
        if not own:
            s = st.copy()
            self.sethold(s, k, True)
            if how != 'try' and k not in self.internal:
                self.blocked(s)
            I.note(s, 'acquires the %s' % self.name(k))
            outs += [(x, 0) for x in self.acquired(I, s, k, how)]
        if how == 'try':
            s = st.copy()
            I.note(s, 'the %s is busy' % self.name(k))
            self.failed(I, s, k, how)
            outs.append((s, EBUSY))
        if how == 'timed':
            s = st.copy()
            self.blocked(s)
            if direct:
                s.obs['exp'] = 1
            I.note(s, 'the timed lock times out')
            self.failed(I, s, k, how)
            outs.append((s, ETIMEDOUT))
        if self.eintr and not st.obs.get('seq'):
            s = st.copy()
            self.intr(I, s, 'the lock operation')
            outs.append((s, EINTR))
        if 'lock' in self.faults:
            s = st.copy()
            outs.append((s, self.err(I, s, {'lock': 'pthread_mutex_lock', 'try': 'pthread_mutex_trylock', 'timed': 'pthread_mutex_timedlock'}[how])))
        return outs

    def name(self, k):
        return 'internal mutex' if k in self.internal else 'mutex'

    def timearg(self, I, st, p, what, clk='rt'):
        """obligations of an absolute timeout; -> True when its expiry is the expiry of the operation's own deadline"""
        I.ob(st, 'time', self.op_timed(), 'an operation without a timeout calls %s' % what)
        if not self.op_timed():
            return False
        if not isptr(p):
            raise AnalysisError('timeout not understood')
        s = I.load(st, p, 8, 'i64')
        n = I.load(st, ptr(p[1], ladd(p[2], 8)), 8, 'i64')
        if not isnum(s) or not isnum(n):
            raise AnalysisError('timeout not understood')
        lo, hi = st.rng(n)
        I.ob(st, 'time', lo >= 0 and hi < NS, 'the absolute time passed to %s is not normalized' % what)
        R = ladd(lmul(s, NS), n)
        ok = I.ob(st, 'time', self.deadline_ok(st, clk, R), 'the deadline passed to %s is not the one fixed when the operation started' % what)
        return self.kind(st) != 'st' or clk == 'st'

    def op_timed(self):
        return self.op == 'timed'

    def clkarg(self, v):
        if v not in (0, 1):
            raise AnalysisError('clock %s' % (v,))
        return 'rt' if v == 0 else 'st'

    # ---- pthread
    def n_pthread_mutex_init(self, I, st, a):
        I.report(st, 'life', 'a native object is initialized outside construction')
        return [(st, 0)]
    n_pthread_cond_init = n_sem_init = n_pthread_mutex_init

    def n_pthread_mutex_destroy(self, I, st, a):
        I.report(st, 'life', 'a native object is destroyed outside destruction')
        return [(st, 0)]
    n_pthread_cond_destroy = n_sem_destroy = n_pthread_mutex_destroy

    def n_pthread_mutex_lock(self, I, st, a):
        return self.lockop(I, st, a[0], 'lock')

    def n_pthread_mutex_trylock(self, I, st, a):
        return self.lockop(I, st, a[0], 'try')

    def n_pthread_mutex_timedlock(self, I, st, a):
        return self.lockop(I, st, a[0], 'timed', a[1])

    def n_pthread_mutex_clocklock(self, I, st, a):
        raise AnalysisError('pthread_mutex_clocklock')

    def n_pthread_mutex_unlock(self, I, st, a):
        k = key(a[0])
        outs = []
        st.obs['intr'] = 0
        if self.eintr and not st.obs.get('seq'):
            s = st.copy()
            self.intr(I, s, 'the unlock operation')
            outs.append((s, EINTR))
        if not I.ob(st, self.LOCKRULE if k in self.internal else self.OWNRULE, k in self.held(st), 'unlocks a mutex that the calling thread does not hold'):
            return []
        self.releasing(I, st, k)
        self.sethold(st, k, False)
        I.note(st, 'releases the %s' % self.name(k))
        outs.append((st, 0))
        return outs
    OWNRULE = 'own'

    def condwait(self, I, st, a, timed, tmo=None, clk='rt'):
        c, k = key(a[0]), key(a[1])
        st.obs['intr'] = 0
        I.ob(st, 'wake', k in self.held(st), 'waits on a condition variable without holding the mutex passed to it')
        I.ob(st, self.LOCKRULE, not [x for x in self.inner(st) if x != k], 'blocks while an internal lock is held')
        direct = True
        if timed:
            direct = self.timearg(I, st, tmo, 'pthread_cond_timedwait', clk)
        elif self.op_timed():
            I.ob(st, 'time', False, 'a timed operation blocks without a timeout')
        pre = st.copy() if self.eintr else None
        if self.before_block(I, st, c, k, timed) == 'DROP':
            return []
        outs = []
        if pre is not None:
            # an interrupted wait counts as still blocked: it has to be continued, and nothing was learnt from it
            self.blocked(pre)
            self.intr(I, pre, 'the wait')
            outs.append((pre, EINTR))
        for res in ('ok',) + (('to',) if timed else ()) + (('err',) if 'cond' in self.faults else ()):
            s = st.copy()
            self.blocked(s)
            s.obs.pop('exp', None)
            if res == 'to' and direct:
                s.obs['exp'] = 1
            if res == 'err':
                e = self.err(I, s, 'pthread_cond_timedwait' if timed else 'pthread_cond_wait')
                s.obs['#r'] = ('R', e)
            else:
                I.note(s, 'the condition wait %s' % {'ok': 'is woken (perhaps spuriously)', 'to': 'times out'}[res])
            for x in self.after_block(I, s, c, k, res):
                r = {'ok': 0, 'to': ETIMEDOUT, 'intr': EINTR}.get(res)
                if res == 'err':
                    r = x.obs.pop('#r')[1]
                outs.append((x, r))
        return outs

    def n_pthread_cond_wait(self, I, st, a):
        return self.condwait(I, st, a, False)

    def n_pthread_cond_timedwait(self, I, st, a):
        return self.condwait(I, st, a, True, a[2])

    def n_pthread_cond_clockwait(self, I, st, a):
        return self.condwait(I, st, a, True, a[3], self.clkarg(a[2]))

    def n_pthread_cond_signal(self, I, st, a):
        I.note(st, 'signals a condition variable')
        self.notified(I, st, key(a[0]), 1)
        return [(st, 0)]

    def n_pthread_cond_broadcast(self, I, st, a):
        I.note(st, 'broadcasts a condition variable')
        self.notified(I, st, key(a[0]), 2)
        return [(st, 0)]

    # ---- semaphores
    def n_sem_wait(self, I, st, a):
        raise AnalysisError('unexpected semaphore')
    n_sem_trywait = n_sem_timedwait = n_sem_clockwait = n_sem_post = n_sem_wait

    # ---- end of an operation
    def on_abort(self, I, st, kind, msg):
        I.report(st, 'eintr' if st.obs.get('intr') else self.OWNRULE, 'legal use ends in %s%s' % (kind, ' after an interruption by a signal' if st.obs.get('intr') else ''))

    def end_throw(self, I, st, exc):
        """common part for an operation that throws"""
        o = st.obs

        def ob(rule, ok, msg):
            endob(I, self, st, rule, ok, msg)
        if exc == USER:
            return
        ne = o.get('nerr')
        if not ne:
            if self.throws_ok(I, st, exc):
                return
            ob('err', False, 'throws %s although no native call failed' % exc[1])
            ob(self.OWNRULE, False, 'throws %s although no native call failed' % exc[1])
            if o.get('intr'):
                ob('eintr', False, 'throws after an interruption by a signal')
            return
        want = self.err_type(ne[2])
        ob('err', re.search(r'(^|::)(%s)$' % want, re.sub(r'^boost::wrapexcept<(.*)>$', r'\1', exc[1])) is not None, 'a failure of %s is reported by %s instead of %s' % (ne[2], exc[1], want))
        code = exc[2]
        ok = isinstance(code, tuple) and code[0] == 'EC' and isnum(code[1]) and st.must_be(lsub(code[1], ne[1]), 0)
        ob('err', ok, 'the exception for a failure of %s does not carry the native error code' % ne[2])

    def err_type(self, what):
        if 'cond_init' in what or 'mutex_init' in what or 'sem_init' in what:
            return 'resource_error'
        if what.startswith('pthread_cond'):
            return 'wait_error'
        if what == 'sem_post':
            return 'overflow_error'
        return 'lock_error'

    def throws_ok(self, I, st, exc):
        return False

    def end_common(self, I, st, how, v):
        """-> True when it returned normally"""
        endob(I, self, st, self.LOCKRULE, not self.inner(st), '%s with an internal lock held' % ('returns' if how == 'return' else 'throws'))
        if how != 'return':
            self.end_throw(I, st, v)
            return False
        if st.obs.get('nerr'):
            endob(I, self, st, 'err', False, 'returns normally although %s failed' % st.obs['nerr'][2])
        return True


def result(st, v):
    if isnum(v) and not isinstance(v, int):
        if st.must_be(v, 0):
            return 0
        if st.must_be(v, 1):
            return 1
    if v not in (0, 1):
        raise AnalysisError('unknown result')
    return v


def go(m, o, entry, mem, tk, args=(), extra=None):
    o.where = where_of(m, entry)
    I = Interp(m, o.models(), o)

    def init(I, st):
        a, tm = time_args(st, tk)
        st.obs['tm'] = tm
        n = 1 + len(args)
        for j, x in enumerate(a):
            st.frames[0].env[n + j] = x
        st.mem[o.OBJ] = dict(mem)
        st.mem[o.UM] = {}
        st.obs['held'] = ('H',)
        if extra:
            extra(I, st)
    I.start(entry, (ptr(o.OBJ),) + tuple(args), init)
    if not I.obligations and not I.reports:
        raise AnalysisError('%s: nothing was analysed' % entry)
    return I


# ---------------------------------------------------------------- native mutexes
class MxObs(Nat):
    """the resource is one pthread mutex of the object"""

    def __init__(self, op, res, **kw):
        Nat.__init__(self, op, **kw)
        self.res = res

    def acquired(self, I, st, k, how):
        o = st.obs
        I.ob(st, 'own', k == self.res, 'acquires something other than the mutex')
        I.ob(st, 'own', self.op != 'unlock', 'unlock() acquires the mutex')
        I.ob(st, 'own', self.op != 'try' or how == 'try', 'a non-blocking operation blocks')
        I.ob(st, 'time', self.op != 'timed' or how != 'lock', 'a timed operation blocks without a timeout')
        o['acq'] = min(2, o.get('acq', 0) + 1)
        return [st]

    def failed(self, I, st, k, how):
        st.obs['busy'] = how

    def releasing(self, I, st, k):
        o = st.obs
        I.ob(st, 'own', self.op == 'unlock', 'an operation that must not release the mutex releases it')
        o['rel'] = min(2, o.get('rel', 0) + 1)

    def before_block(self, I, st, c, k, timed):
        raise AnalysisError('a mutex operation waits on a condition variable')

    def on_end(self, I, st, how, v):
        o = st.obs

        def ob(rule, ok, msg):
            endob(I, self, st, rule, ok, msg)
        own = self.res in self.held(st)
        if not self.end_common(I, st, how, v):
            ob('own', own == (self.op == 'unlock'), 'throws after changing the ownership of the mutex')
            ob('err', not own or self.op == 'unlock', 'throws although the mutex was acquired')
            return
        if self.op == 'unlock':
            ob('own', o.get('rel') == 1 and not own, 'does not release the mutex exactly once')
            return
        got = self.op == 'lock' or result(st, v) == 1
        txt = 'returns' if self.op == 'lock' else 'returns true'
        if got:
            ob('own', own and o.get('acq') == 1, '%s without having acquired the mutex exactly once' % txt)
            if o.get('intr'):
                ob('eintr', own, '%s after an interruption by a signal without having acquired the mutex' % txt)
        else:
            ob('own', not own and not o.get('acq'), 'returns false although it acquired the mutex')
            if self.op == 'try':
                ob('own', o.get('busy') == 'try', 'returns false although the mutex was not found busy')
            else:
                ob('own', self.expired(st), 'returns false although the timeout has not expired')
                ob('time', self.expired(st), 'returns false although the deadline has not passed')
            if o.get('intr'):
                ob('eintr', False, 'returns false because of an interruption by a signal')


# ---------------------------------------------------------------- emulations: one plain field guarded by an internal mutex
class EmuObs(Live, Nat):
    """kind 'flag' (two values, taken by a successful wait), 'manual' (two values, left alone by waits), 'count' (an unsigned counter).
    ik: internal mutex, ck: condition variable, off/size: field; empty/avail: its two values; rule: name of the main rule"""
    stay_text = 'it stays available'
    idle = False

    def __init__(self, op, kind, rule, ik, ck, off, size, empty=None, avail=None, names=None, **kw):
        Nat.__init__(self, op, **kw)
        self.k, self.ik, self.ck, self.off, self.size, self.empty, self.avail = kind, ik, ck, off, size, empty, avail
        self.OWNRULE = rule
        self.internal = {ik}
        self.n = dict(take='consume the signal', took='consumed a signal', give='signal the event', gave='signals the event', av='signalled', un='not signalled', it='event')
        self.n.update(names or {})

    def isfield(self, p):
        return isptr(p) and p[1] == self.OBJ and p[2] == self.off

    def get(self, st):
        return st.mem[self.OBJ][self.off][1]

    def on_access(self, I, st, rw, p, sz, ins, v=None):
        if self.isfield(p):
            self.touch(st)
            I.ob(st, 'atomic', self.ik in self.held(st), '%s the shared state without holding the internal lock' % ('reads' if rw == 'r' else 'writes'))
        return None

    def on_atomic(self, I, st, i, op, p, sz, ty, order, v, exp, weak, ordf, done):
        if isptr(p) and p[1] == self.OBJ:
            raise AnalysisError('atomic access in an emulated primitive')
        return None

    def put(self, st, v):
        st.mem.setdefault(self.OBJ, {})[self.off] = (self.size, v)
        st.obs['cur'] = ('V', v)

    def havoc(self, I, st):
        """values other threads may have left"""
        outs = []
        waitop = self.op in ('wait', 'try', 'timed')
        if waitop and self.op != 'try' and not st.obs.get('seq'):
            s = st.copy()
            s.obs['seq'] = 1
            I.note(s, 'from here on %s' % self.stay_text)
            outs += self.fill(I, s)
        outs += self.fill(I, st)
        return outs

    def fill(self, I, st):
        o = st.obs
        if self.k == 'count':
            self.put(st, st.fresh('count', 1 if o.get('seq') else 0, UMAX))
            return [st]
        vals = [self.avail] if o.get('seq') else [self.empty, self.avail]
        if o.get('mine'):
            vals = [self.empty]        # an owned emulated mutex
        outs = []
        for v in vals:
            s = st.copy()
            self.put(s, v)
            I.note(s, 'the %s is %s' % (self.n['it'], self.n['av'] if v == self.avail else self.n['un']))
            outs.append(s)
        return outs

    def acquired(self, I, st, k, how):
        if k != self.ik:
            raise AnalysisError('another mutex')
        if not st.obs.get('gave'):
            st.obs['sg'] = 0
        return self.havoc(I, st)

    def unavailable(self, st):
        v = self.get(st)
        return st.must_be(v, 0) if self.k == 'count' else v == self.empty

    def settle(self, I, st):
        """the internal lock is given up: net change of the critical section"""
        o = st.obs
        old, new = o.pop('cur')[1], self.get(st)
        w = self.op in ('wait', 'try', 'timed')
        R = self.OWNRULE
        if not isnum(new):
            raise AnalysisError('unknown value in the shared state')
        if self.k == 'count':
            dd = lsub(new, old)
            if not isinstance(dd, int):
                I.report(st, R, 'changes the counter by %s' % fmt(dd))
                return
            lo, hi = st.rng(old)
            if dd == 0:
                pass
            elif w:
                # modular: 0 - 1 wraps
                I.ob(st, R, dd == -1 and lo >= 1, 'changes the counter by %s%s' % (fmt(dd), '' if lo >= 1 else ' although it may be zero'))
                o['took'] = min(2, o.get('took', 0) + 1)
            else:
                I.ob(st, R, dd == 1 and hi < UMAX, 'changes the counter by %s%s' % (fmt(dd), '' if hi < UMAX else ' although it may be at its maximum'))
                o['gave'] = min(2, o.get('gave', 0) + 1)
            if w and dd == 0:
                o['sawun'] = 1 if st.must_be(old, 0) else 0
            o['full'] = 1 if st.rng(old)[0] == UMAX else 0
        else:
            I.ob(st, R, new in (self.empty, self.avail), 'the shared state becomes %s, which is neither %s nor %s' % (fmt(new), self.n['av'], self.n['un']))
            if old == new:
                o['sawav' if old == self.avail else 'sawun'] = 1
                if old == self.avail:
                    o['sawun'] = 0
            elif w:
                if self.k == 'manual':
                    I.ob(st, R, False, 'a wait changes the signalled state')
                elif I.ob(st, R, new == self.empty, 'a wait makes the %s %s' % (self.n['it'], self.n['av'])):
                    o['took'] = min(2, o.get('took', 0) + 1)
            elif self.op == 'reset':
                I.ob(st, R, new == self.empty, 'reset() makes the event signalled')
                o['gave'] = 1
            else:
                I.ob(st, R, new == self.avail, '%s makes the %s %s' % (self.op, self.n['it'], self.n['un']))
                o['gave'] = min(2, o.get('gave', 0) + 1)
                o['mine'] = 0
            o['lastv'] = 1 if new == self.avail else 0
        # a blocked thread may have used up the notification of a unit which it then leaves behind
        o['left'] = 1 if o.get('blk') and w and old == new and not (st.must_be(old, 0) if self.k == 'count' else old == self.empty) else 0
        st.mem[self.OBJ].pop(self.off, None)

    def releasing(self, I, st, k):
        if k == self.ik:
            self.settle(I, st)

    def before_block(self, I, st, c, k, timed):
        I.ob(st, 'wake', c == self.ck and k == self.ik, 'blocks on another condition variable or mutex than the one that is notified')
        I.ob(st, 'wake', self.op in ('wait', 'timed'), 'an operation that must not block blocks')
        if k in self.held(st) and self.off in st.mem.get(self.OBJ, {}):
            I.ob(st, 'wake', self.unavailable(st), 'blocks although the %s may already be %s: no later notification is guaranteed to end the wait' % (self.n['it'], self.n['av']))
            if st.obs.get('seq'):
                return 'DROP'
            self.settle(I, st)

    def after_block(self, I, st, c, k, res):
        st.obs['blk'] = 1
        return self.havoc(I, st)

    def notified(self, I, st, c, n):
        I.ob(st, 'wake', c == self.ck, 'notifies another condition variable than the one waited on')
        st.obs['sg'] = max(n, st.obs.get('sg', 0))

    def throws_ok(self, I, st, exc):
        return self.k == 'count' and self.op == 'post' and 'overflow_error' in exc[1] and st.obs.get('full') == 1

    def err_type(self, what):
        if self.n['it'] == 'mutex':
            return 'lock_error'
        return Nat.err_type(self, what)

    def on_end(self, I, st, how, v):
        o = st.obs
        R = self.OWNRULE

        def ob(rule, ok, msg):
            endob(I, self, st, rule, ok, msg)
        if not self.end_common(I, st, how, v):
            ob(R, not o.get('took') and not o.get('gave'), 'throws after changing the state')
            ob('err', not o.get('took') and not o.get('gave'), 'throws after changing the state')
            return
        if o.get('seq'):
            ob('live', True, '')
        op = self.op
        if op in ('post', 'set', 'unlock'):
            if self.k == 'count':
                ob(R, o.get('gave') == 1, 'does not add exactly one unit')
            else:
                ob(R, o.get('gave') == 1 or (o.get('sawav') and op != 'unlock' and not o.get('gave')), 'does not %s' % self.n['give'])
            if o.get('gave'):
                need = 2 if op == 'set' else 1
                ob('wake', o.get('sg', 0) >= need, '%s without waking %s' % (self.n['gave'], 'all blocked threads' if need == 2 else 'a blocked thread'))
                if op == 'unlock':
                    ob(R, o.get('sg', 0) >= need, '%s without waking a blocked thread' % self.n['gave'])
            return
        if op == 'reset':
            ob(R, o.get('lastv') == 0, 'leaves the event signalled')
            return
        got = op == 'wait' or result(st, v) == 1
        txt = 'returns' if op == 'wait' else 'returns true'
        if got:
            if self.k == 'manual':
                ob(R, o.get('sawav') == 1, '%s without having found the event signalled' % txt)
            else:
                ob(R, o.get('took') == 1, '%s without having %s exactly once' % (txt, self.n['took']))
        else:
            ob(R, not o.get('took'), 'returns false although it %s' % self.n['took'])
            if self.k != 'manual':
                ob('wake', not o.get('left'), 'gives up after blocking without looking at the shared state again: a timed out wait may have used up the notification of another blocked thread')
            if o.get('seq'):
                return
            if op == 'try':
                ob(R, o.get('sawun') == 1, 'returns false although the %s was not found %s' % (self.n['it'], self.n['un']))
            else:
                ob(R, self.expired(st), 'returns false although the timeout has not expired')
                ob('time', self.expired(st), 'returns false although the deadline has not passed')
            if o.get('intr'):
                ob('eintr', False, 'returns false because of an interruption by a signal')


# ---------------------------------------------------------------- native semaphore
class SemObs(Nat):
    OWNRULE = 'sem'

    def __init__(self, op, res, **kw):
        Nat.__init__(self, op, **kw)
        self.res = res

    def semop(self, I, st, p, how, tmo=None, clk='rt'):
        k = key(p)
        o = st.obs
        o['intr'] = 0
        I.ob(st, 'sem', k == self.res, 'operates on another semaphore')
        I.ob(st, 'sem', self.op in ('wait', 'timed') or (self.op == 'try' and how == 'try'), 'an operation that must not wait waits')
        direct = True
        if how == 'timed':
            direct = self.timearg(I, st, tmo, 'sem_timedwait', clk)
        elif how == 'wait' and self.op == 'timed':
            I.ob(st, 'time', False, 'a timed wait blocks without a timeout')
        outs = []
        s = st.copy()
        s.obs['took'] = min(2, s.obs.get('took', 0) + 1)
        if how != 'try':
            self.blocked(s)
        I.note(s, 'takes a unit')
        outs.append((s, 0))
        for e in (EINTR,) + ((EAGAIN,) if how == 'try' else ()) + ((ETIMEDOUT,) if how == 'timed' else ()):
            s = st.copy()
            if how != 'try':
                self.blocked(s)
                s.obs.pop('exp', None)
            if e == EINTR:
                self.intr(I, s, 'the wait')
                if how == 'try':
                    s.obs['none'] = 1
            elif e == EAGAIN:
                s.obs['none'] = 1
                I.note(s, 'no unit is available')
            else:
                if direct:
                    s.obs['exp'] = 1
                I.note(s, 'the wait times out')
            self.set_errno(I, s, e)
            outs.append((s, -1))
        return outs

    def n_sem_wait(self, I, st, a):
        return self.semop(I, st, a[0], 'wait')

    def n_sem_trywait(self, I, st, a):
        return self.semop(I, st, a[0], 'try')

    def n_sem_timedwait(self, I, st, a):
        return self.semop(I, st, a[0], 'timed', a[1])

    def n_sem_clockwait(self, I, st, a):
        return self.semop(I, st, a[0], 'timed', a[2], self.clkarg(a[1]))

    def n_sem_post(self, I, st, a):
        I.ob(st, 'sem', key(a[0]) == self.res, 'operates on another semaphore')
        I.ob(st, 'sem', self.op == 'post', 'a wait posts the semaphore')
        s = st.copy()
        s.obs['gave'] = min(2, s.obs.get('gave', 0) + 1)
        I.note(s, 'adds a unit')
        t = st.copy()
        t.obs['nerr'] = ('V', EOVERFLOW, 'sem_post')
        self.set_errno(I, t, EOVERFLOW)
        I.note(t, 'sem_post fails with EOVERFLOW')
        return [(s, 0), (t, -1)]

    def on_end(self, I, st, how, v):
        o = st.obs

        def ob(rule, ok, msg):
            endob(I, self, st, rule, ok, msg)
        if not self.end_common(I, st, how, v):
            ob('sem', not o.get('took') and not o.get('gave'), 'throws after changing the number of units')
            ob('err', not o.get('took') and not o.get('gave'), 'throws after changing the number of units')
            return
        if self.op == 'post':
            ob('sem', o.get('gave') == 1 or o.get('nerr'), 'does not add exactly one unit')
            return
        got = self.op == 'wait' or result(st, v) == 1
        txt = 'returns' if self.op == 'wait' else 'returns true'
        if got:
            ob('sem', o.get('took') == 1, '%s without having taken exactly one unit' % txt)
            ob('eintr', o.get('took') or not o.get('intr'), '%s after an interruption by a signal without having taken a unit' % txt)
        else:
            ob('sem', not o.get('took'), 'returns false although it took a unit')
            if self.op == 'try':
                ob('sem', o.get('none') == 1, 'returns false although a unit could be taken')
            else:
                ob('sem', self.expired(st), 'returns false although the timeout has not expired')
                ob('time', self.expired(st), 'returns false although the deadline has not passed')
                ob('eintr', self.expired(st) or not o.get('intr'), 'reports a timeout after an interruption by a signal')


# ---------------------------------------------------------------- auto-reset event built on a semaphore and a counter of waiters minus posts
class SarObs(Live, SemObs):
    """state word s = registered waiters - posts, never below -1; one semaphore unit belongs to every post.
    post: s >= 0 -> s-1 together with one unit, s = -1 -> nothing.  wait: s+1, then one unit; giving up: s-1 only while s > 0."""
    OWNRULE = 'sig'
    stay_text = 'a unit of the semaphore stays available'
    idle = False
    SMAXV = 2 ** 31 - 2
    seq = False

    def __init__(self, op, res, off, size, d, **kw):
        SemObs.__init__(self, op, res, **kw)
        self.off, self.size, self.d, self.bits = off, size, d, 8 * size

    isword = WordObs.isword
    compute = WordObs.compute
    on_access = WordObs.on_access

    def fresh(self, st, why):
        return st.fresh(('state', why), -1, self.SMAXV)

    def seephase(self, I, st):
        if self.op == 'post' or st.obs.get('seq') or self.op == 'try':
            return []
        s = st.copy()
        s.obs['seq'] = 1
        s.obs['cur'] = ('V', self.fresh(s, 'stable'))
        I.note(s, 'from here on %s and nobody changes the state' % self.stay_text)
        return [s]

    def on_atomic(self, I, st, i, op, p, sz, ty, order, v, exp, weak, ordf, done):
        if not self.isword(p):
            return None
        if sz != self.size:
            raise AnalysisError('the state word is accessed with another size')
        outs = []
        for s in self.seephase(I, st) + [st]:
            sq = s.obs.get('seq')
            if op == 'load':
                w = s.obs['cur'][1] if sq else self.fresh(s, 'load')
                s.obs['lv'] = ('V', w)
                done(s, w)
                outs.append(s)
            elif op == 'store':
                I.report(s, 'sig', 'the state is overwritten by a plain store, which can lose a concurrent change')
            elif op == 'cmpxchg':
                t = s.copy()
                if t.assume(exp, -1, self.SMAXV) and (not sq or t.assume(lsub(t.obs['cur'][1], exp), 0, 0)):
                    self.step(I, t, exp, v, order)
                    done(t, ('A', exp, 1))
                    outs.append(t)
                t = s.copy()
                w = t.obs['cur'][1] if sq else self.fresh(t, 'casfail')
                if (weak and not sq) or t.assume_ne(lsub(w, exp), 0):
                    done(t, ('A', w, 0))
                    outs.append(t)
            else:
                w = s.obs['cur'][1] if sq else self.fresh(s, 'rmw')
                new = self.compute(I, s, op, w, v)
                self.step(I, s, w, new, order)
                done(s, w)
                outs.append(s)
        return outs

    def step(self, I, st, old, new, order):
        o = st.obs
        dd = lsub(new, old)
        if not isinstance(dd, int):
            raise AnalysisError('unknown change of the state')
        dd *= self.d
        if o.get('seq'):
            o['cur'] = ('V', new)
        if order in REL or o.get('relfence'):
            o['relrmw'] = 1
        lo, hi = st.rng(old)
        if self.op == 'post':
            if dd == 0:
                o['noop'] = 1 if hi < 0 else 0
            elif I.ob(st, 'sig', dd == -1, 'changes the state by %d' % dd):
                I.ob(st, 'sig', lo >= 0, 'adds a signal although the event may already be signalled: a post to a signalled event must have no effect')
                o['posted'] = min(2, o.get('posted', 0) + 1)
            return
        if dd == 0:
            return
        if dd == 1:
            I.ob(st, 'wake', not o.get('reg') and not o.get('took'), 'registers as a waiter twice')
            o['reg'] = 1
            o['acqord'] = 1 if order in ACQ else 0
        elif dd == -1:
            I.ob(st, 'wake', o.get('reg') == 1 and not o.get('took'), 'removes a waiter that it did not register')
            I.ob(st, 'sig', lo > 0, 'stops waiting although a signal may have been sent for this waiter: the signal is lost or consumed twice')
            I.ob(st, 'wake', lo > 0, 'gives up waiting while a signal may be pending: the wakeup sent with it is lost')
            o['reg'] = 0
        else:
            I.report(st, 'sig', 'changes the state by %d' % dd)

    def on_fence(self, I, st, order, ins):
        if ins.get('ss', 1) == 1:
            if order in REL:
                st.obs['relfence'] = 1
            if order in ACQ and st.obs.get('reg'):
                st.obs['acqord'] = 1

    def semop(self, I, st, p, how, tmo=None, clk='rt'):
        o = st.obs
        if self.op == 'post':
            I.report(st, 'sig', 'post() takes a unit of the semaphore')
            return []
        for r in ('wake', 'sig'):
            I.ob(st, r, o.get('reg') == 1 and not o.get('took'), 'waits for a signal without being registered as a waiter')
        I.ob(st, 'wake', how == 'try' or self.op != 'try', 'a non-blocking operation blocks')
        states = self.seephase(I, st) + [st]
        outs = []
        for s in states:
            r = SemObs.semop(self, I, s, p, how, tmo, clk)
            outs += [(x, v) for x, v in r if v == 0 or not x.obs.get('seq')]
        return outs

    def n_sem_post(self, I, st, a):
        o = st.obs
        I.ob(st, 'sig', key(a[0]) == self.res, 'operates on another semaphore')
        if I.ob(st, 'sig', self.op == 'post', 'a wait posts the semaphore'):
            o['gave'] = min(2, o.get('gave', 0) + 1)
        I.note(st, 'adds a unit')
        return [(st, 0)]

    def on_end(self, I, st, how, v):
        o = st.obs

        def ob(rule, ok, msg):
            endob(I, self, st, rule, ok, msg)
        if not self.end_common(I, st, how, v):
            ob('sig', False, 'throws')
            return
        if o.get('seq'):
            ob('live', True, '')
        if self.op == 'post':
            if o.get('posted'):
                ob('sig', o['posted'] == 1 and o.get('gave') == 1, 'does not make exactly one wait able to complete')
                ob('wake', o.get('gave'), 'makes a signal available without waking a registered waiter')
                ob('order', o.get('gave'), '')
            else:
                ob('sig', not o.get('gave'), 'lets a wait complete although the event was already signalled')
                ob('sig', o.get('noop') == 1 or ('lv' in o and st.rng(o['lv'][1])[1] < 0), 'returns without posting although the event was not signalled')
                ob('order', o.get('noop') == 1 and o.get('relrmw'), 'returns without a releasing write to the state: what the thread wrote before post() may stay invisible to the thread that consumes the signal')
            return
        got = self.op == 'wait' or result(st, v) == 1
        txt = 'returns' if self.op == 'wait' else 'returns true'
        if got:
            ob('sig', o.get('took') == 1, '%s without consuming exactly one signal' % txt)
            ob('wake', o.get('reg') == 1, '%s after its registration as a waiter was removed' % txt)
            ob('order', o.get('acqord') == 1, 'a successful wait has no acquire ordering')
            ob('eintr', o.get('took') == 1 or not o.get('intr'), 'an interrupted wait reports success')
        else:
            ob('sig', not o.get('took'), 'returns false but consumed a signal')
            ob('wake', not o.get('reg'), 'ends still registered as a waiter')
            if self.op == 'timed':
                ob('sig', self.expired(st), 'returns false although the deadline has not passed')
                ob('time', self.expired(st), 'returns false although the deadline has not passed')
                ob('eintr', self.expired(st), 'reports a timeout that has not happened')


@ending('sig')
def run_sar(m, entry, op, tk=None):
    W = lambda e: where_of(m, 'ar_' + e)
    e0 = seq(m, 'ar_ctor', Env())
    if len(e0.sems) != 1:
        raise AnalysisError('%d native semaphores' % len(e0.sems))
    res, n = next(iter(e0.sems.items()))
    if n != 0:
        return Bad('sig', W('ctor'), 'a new event is signalled')
    w = seqs(m, 'ar', ['wait'], e0)
    p = seqs(m, 'ar', ['post'], e0)
    pt, ptt = seqs(m, 'ar', ['post', 'try'], e0), seqs(m, 'ar', ['post', 'try', 'try'], e0)
    pptt = seqs(m, 'ar', ['post', 'post', 'try', 'try'], e0)
    t = seqs(m, 'ar', ['try'], e0)
    if not w.stopped or w.stopped[0] != 'sem':
        return Bad('sig', W('wait'), 'wait() on a new event does not block')
    if (t.ret, pt.ret, ptt.ret, pptt.ret) != (0, 1, 0, 0):
        return Bad('sig', W('try'), 'try_wait() results on a new event, after post(), after that, and a second time after two posts: %s %s %s %s' % (t.ret, pt.ret, ptt.ret, pptt.ret), lost=pt.ret == 0)
    a, b, c = plain(e0.mem, w.used), plain(w.mem, w.used), plain(p.mem, p.used)
    off = [x for x in b if a.get(x) != b[x]]
    if len(off) != 1:
        raise AnalysisError('%d fields represent the state of the event' % len(off))
    off = off[0]
    size, v0 = a[off]
    dw, dp = b[off][1] - v0, c[off][1] - v0
    if v0 != 0 or dw not in (1, -1):
        raise AnalysisError('representation of the event not understood')
    if dp % 2 ** 32 != -dw % 2 ** 32:
        return Bad('sig', W('post'), 'post() changes the state by %d, wait() by %d' % (dp, dw))
    if dw != 1:
        raise AnalysisError('representation of the event not understood')
    return go(m, SarObs(op, res, off, size, dw), entry, {k: x for k, x in e0.mem.items() if k != off}, tk)


def sar_jobs(cfgs=None):
    js = []
    for c, fl in cfgs or (PT, PTND):
        for e, op, tk in WAITS + [('post', 'post', None)]:
            js.append(J('ar_' + e, run_sar, fl, c, op=op, tk=tk))
    return js


# ---------------------------------------------------------------- condition variables
class CvObs(Nat):
    OWNRULE = 'cv'

    def __init__(self, op, ck, uk, haspred, **kw):
        Nat.__init__(self, op, **kw)
        self.ck, self.uk, self.haspred = ck, uk, haspred

    def lockheld(self, st):
        return self.uk in self.held(st)

    def vf_pred(self, I, st, args, i, f):
        I.ob(st, 'pred', self.lockheld(st), 'evaluates the predicate without the caller\'s lock')
        I.ob(st, 'ilock', not self.inner(st), 'calls the user\'s predicate with an internal lock held')
        # two: before and after finding the timeout expired
        I.ob(st, 'pred', st.obs.get('pn', 0) < 2, 'evaluates the predicate over and over without blocking: nobody else can get the caller\'s lock to make it true')
        outs = []
        for v in (0, 1, 2):
            s = st.copy()
            I.note(s, 'the predicate %s' % {0: 'is false', 1: 'is true', 2: 'throws'}[v])
            if v == 2:
                outs.append((s, Throw(USER)))
                continue
            s.obs['pl'] = v
            s.obs['pf'] = 1
            s.obs['pn'] = min(2, s.obs.get('pn', 0) + 1) if v == 0 else 0
            outs.append((s, v))
        return outs

    def read_clock(self, I, st, clk, v):
        Nat.read_clock(self, I, st, clk, v)
        st.obs['pf'] = 0

    def acquired(self, I, st, k, how):
        if k == self.uk:
            I.report(st, 'cv', 'locks the caller\'s mutex outside of the condition wait')
        return [st]

    def releasing(self, I, st, k):
        if k == self.uk:
            I.report(st, 'cv', 'releases the caller\'s mutex before it blocks: a notification sent in between is lost')

    def before_block(self, I, st, c, k, timed):
        o = st.obs
        I.ob(st, 'cv', c == self.ck, 'blocks on something other than this condition variable')
        I.ob(st, 'cv', k == self.uk, 'blocks with a mutex other than the caller\'s')
        I.ob(st, 'cv', self.op in ('wait', 'timed'), 'an operation that must not block blocks')
        self.pred_block(I, st)

    def pred_block(self, I, st):
        st.obs['pn'] = 0
        if self.haspred:
            I.ob(st, 'pred', st.obs.get('pl') == 0, 'blocks although the predicate was %s' % ('true when it was last evaluated' if st.obs.get('pl') == 1 else 'not evaluated since the last wakeup'))

    def after_block(self, I, st, c, k, res):
        o = st.obs
        o['lastc'] = res
        o.pop('pl', None)
        o['pf'] = 0
        return [st]

    def notified(self, I, st, c, n):
        I.ob(st, 'cv', c == self.ck, 'notifies another condition variable')
        I.ob(st, 'cv', self.op in ('notify_one', 'notify_all'), 'a wait notifies')
        st.obs['sg'] = max(n, st.obs.get('sg', 0))

    def vf_state(self, I, st, args, i, f):
        _, mp, owns, same, _ = args
        ok = owns == 1 and same == 1 and self.uk in self.held(st)
        endob(I, self, st, 'cv', ok, 'the caller\'s lock does not own its mutex when the wait ends')
        st.obs['state'] = 1
        return [(st, None)]

    def end_lock(self, I, st, how):
        endob(I, self, st, 'cv', self.lockheld(st), 'ends without the caller\'s mutex held')

    def on_end(self, I, st, how, v):
        o = st.obs

        def ob(rule, ok, msg):
            endob(I, self, st, rule, ok, msg)
        ret = self.end_common(I, st, how, v)
        if self.op in ('notify_one', 'notify_all'):
            if ret:
                need = 2 if self.op == 'notify_all' else 1
                ob(self.OWNRULE, o.get('sg', 0) >= need, 'does not wake %s' % ('every blocked thread' if need == 2 else 'a blocked thread'))
            return
        self.end_lock(I, st, how)
        if not ret:
            return
        self.end_wait(I, st, v)

    def end_wait(self, I, st, v):
        o = st.obs

        def ob(rule, ok, msg):
            endob(I, self, st, rule, ok, msg)
        if o.get('intr'):
            ob('eintr', False, 'returns because of an interruption by a signal')
        if self.haspred:
            if self.op == 'wait' or result(st, v) == 1:
                ob('pred', o.get('pl') == 1, 'returns%s although the predicate was %s' % (
                    '' if self.op == 'wait' else ' true', 'false when it was last evaluated' if o.get('pl') == 0 else 'not evaluated since the last wakeup'))
            else:
                ob('pred', o.get('pl') == 0, 'returns false although the predicate was %s' % ('true when it was last evaluated' if o.get('pl') == 1 else 'not evaluated after the timeout'))
                ob('pred', self.expired(st) and o.get('pf') == 1, 'returns false without the timeout having expired before the last evaluation of the predicate')
                ob('time', self.expired(st), 'returns false although the deadline has not passed')
            return
        if self.op == 'wait':
            ob(self.OWNRULE, o.get('lastc') == 'ok', 'returns without having been blocked')
        elif result(st, v) == 1:
            ob(self.OWNRULE, o.get('lastc') == 'ok' or (o.get('lastc') == 'to' and self.unexpired(st)), 'reports no timeout although it was not woken')
        else:
            ob(self.OWNRULE, self.expired(st), 'reports a timeout although the deadline has not passed')
            ob('time', self.expired(st), 'reports a timeout although the deadline has not passed')


class CvaObs(CvObs):
    OWNRULE = 'cva'

    def __init__(self, op, ck, ik, haspred, **kw):
        CvObs.__init__(self, op, ck, None, haspred, **kw)
        self.ik = ik
        self.internal = {ik}

    def lockheld(self, st):
        return st.obs.get('ul', 1) == 1

    def vf_ulock(self, I, st, args, i, f):
        o = st.obs
        if args[0] == 0:
            I.ob(st, 'cva', o.get('ul', 1) == 1, 'unlocks the caller\'s lock twice')
            I.ob(st, 'cva', self.ik in self.held(st), 'gives up the caller\'s lock while notifications are not excluded: a notification sent before the thread blocks is lost')
            s = st.copy()
            s.obs['ul'] = 0
            s.obs['win'] = 1
            I.note(s, 'gives up the caller\'s lock')
            t = st.copy()
            I.note(t, 'unlocking the caller\'s lock throws')
            return [(s, None), (t, Throw(USER))]
        I.ob(st, 'cva', o.get('ul', 1) == 0, 'locks the caller\'s lock although it is held')
        I.ob(st, 'ilock', not self.inner(st), 'locks the caller\'s lock with an internal lock held')
        I.ob(st, 'cva', not self.inner(st), 'locks the caller\'s lock with an internal lock held')
        t = st.copy()
        t.obs['rt'] = 2 if t.obs.get('nerr') else 1
        I.note(t, 'locking the caller\'s lock again throws')
        o['ul'] = 1
        I.note(st, 'locks the caller\'s lock')
        return [(st, None), (t, Throw(USER))]

    def acquired(self, I, st, k, how):
        st.obs['iacq'] = 1
        return [st]

    def releasing(self, I, st, k):
        if st.obs.get('win') == 1:
            st.obs['win'] = 2

    def before_block(self, I, st, c, k, timed):
        o = st.obs
        I.ob(st, 'cva', c == self.ck and k == self.ik, 'blocks on another condition variable or mutex than the ones used for notifying')
        I.ob(st, 'cva', o.get('ul', 1) == 0, 'blocks with the caller\'s lock held')
        I.ob(st, 'cva', o.get('win') != 2, 'the internal lock is released between giving up the caller\'s lock and blocking: a notification sent in between is lost')
        I.ob(st, 'cva', self.op in ('wait', 'timed'), 'an operation that must not block blocks')
        self.pred_block(I, st)
        o['win'] = 0

    def notified(self, I, st, c, n):
        I.ob(st, 'cva', c == self.ck, 'notifies another condition variable')
        I.ob(st, 'cva', st.obs.get('iacq') == 1, 'notifies without synchronizing with threads that are about to block: the notification can be lost')
        st.obs['sg'] = max(n, st.obs.get('sg', 0))

    def vf_state(self, I, st, args, i, f):
        return [(st, None)]

    def on_abort(self, I, st, kind, msg):
        rt = st.obs.get('rt')
        if rt and kind == 'terminate':
            # a second exception while one is propagating ends the program
            I.ob(st, 'cva', rt == 2, 'an exception thrown by locking the caller\'s lock again ends the program instead of reaching the caller')
            return
        CvObs.on_abort(self, I, st, kind, msg)

    def end_lock(self, I, st, how):
        if how != 'return' and st.obs.get('rt'):
            return
        endob(I, self, st, 'cva', self.lockheld(st), '%s without the caller\'s lock held' % ('returns' if how == 'return' else 'throws'))


# ---------------------------------------------------------------- construction and destruction
class LifeObs(Nat):
    """ctor / dtor: native objects are initialized / destroyed exactly once"""
    OWNRULE = 'life'

    def __init__(self, op, used, **kw):
        Nat.__init__(self, op, **kw)
        self.used = used

    def init1(self, I, st, p, kind, okattr, what):
        k = key(p)
        I.ob(st, 'life', self.op == 'ctor', '%s outside construction' % what)
        I.ob(st, 'life', k[1] == self.OBJ, '%s of something that is not part of the object' % what)
        I.ob(st, 'life', k not in [x[0] for x in st.obs.get('ini', ())], '%s of an object that is already initialized' % what)
        I.ob(st, 'life', okattr, '%s with attributes other than the default process-private ones' % what)
        outs = []
        if 'init' in self.faults:
            s = st.copy()
            e = self.err(I, s, what)
            s.obs['failed'] = s.obs.get('failed', ()) + ((k, kind),)
            if kind == 'sem':
                self.set_errno(I, s, e)
                outs.append((s, -1))
            else:
                outs.append((s, e))
        st.obs['ini'] = st.obs.get('ini', ()) + ((k, kind),)
        outs.append((st, 0))
        return outs

    def n_pthread_mutex_init(self, I, st, a):
        return self.init1(I, st, a[0], 'mutex', a[1] == NULL, 'pthread_mutex_init')

    def n_pthread_cond_init(self, I, st, a):
        return self.init1(I, st, a[0], 'cond', a[1] == NULL, 'pthread_cond_init')

    def n_sem_init(self, I, st, a):
        want = st.obs.get('arg', ('V', 0))[1]
        I.ob(st, 'life', isnum(a[2]) and st.must_be(lsub(a[2], want), 0), 'the semaphore is initialized with another count than the given one')
        I.ob(st, 'sem', isnum(a[2]) and st.must_be(lsub(a[2], want), 0), 'the semaphore is initialized with another count than the given one')
        return self.init1(I, st, a[0], 'sem', a[1] == 0, 'sem_init')

    def kill(self, I, st, p, kind, what):
        k = key(p)
        outs = []
        st.obs['intr'] = 0
        if self.eintr and kind != 'sem':
            s = st.copy()
            self.intr(I, s, what)
            outs.append((s, EINTR))
        if self.op == 'ctor' and st.obs.get('nerr'):
            # the construction of another part failed
            I.ob(st, 'life', k not in [x[0] for x in st.obs.get('failed', ())], '%s of an object whose initialization failed' % what)
        else:
            I.ob(st, 'life', self.op == 'dtor', '%s outside destruction' % what)
        I.ob(st, 'life', self.used.get(k) == kind, '%s of something that is not such a native object of this primitive' % what)
        I.ob(st, 'life', k not in st.obs.get('dead', ()), '%s of an object that is already destroyed' % what)
        st.obs['dead'] = st.obs.get('dead', ()) + (k,)
        outs.append((st, 0))
        return outs

    def n_pthread_mutex_destroy(self, I, st, a):
        return self.kill(I, st, a[0], 'mutex', 'pthread_mutex_destroy')

    def n_pthread_cond_destroy(self, I, st, a):
        return self.kill(I, st, a[0], 'cond', 'pthread_cond_destroy')

    def n_sem_destroy(self, I, st, a):
        return self.kill(I, st, a[0], 'sem', 'sem_destroy')

    def lockop(self, I, st, p, how, tmo=None):
        I.report(st, 'life', 'a mutex is used during %s' % ('construction' if self.op == 'ctor' else 'destruction'))
        return [(st, 0)]

    def on_end(self, I, st, how, v):
        def ob(rule, ok, msg):
            endob(I, self, st, rule, ok, msg)
        o = st.obs
        if how != 'return':
            self.end_throw(I, st, v)
            return
        if o.get('nerr'):
            ob('err', False, 'construction succeeds although %s failed' % o['nerr'][2])
            ob('life', False, 'construction succeeds although %s failed' % o['nerr'][2])
            return
        for k, kind in sorted(self.used.items(), key=repr):
            nm = {'mutex': 'mutex', 'cond': 'condition variable', 'sem': 'semaphore'}[kind]
            if self.op == 'dtor':
                ob('life', k in o.get('dead', ()), 'the native %s is not destroyed' % nm)
                continue
            if (k, kind) in o.get('ini', ()):
                ob('life', True, '')
                continue
            ok = kind != 'sem'
            for b in range(0, SIZES[kind], 4):
                x = I.load_at(st, ptr(self.OBJ, k[2] + b), 0, 'i32')
                if x != 0:
                    ok = False
            ob('life', ok, 'the native %s is not initialized to its default state' % nm)


# ---------------------------------------------------------------- runs
WAITS = [('wait', 'wait', None), ('try', 'try', None), ('timed_dur', 'timed', 'dur'), ('timed_ts', 'timed', 'ts'), ('timed_sys', 'timed', 'sys'), ('timed_std', 'timed', 'std'),
         ('for', 'timed', 'dur'), ('until_ts', 'timed', 'ts'), ('until_sys', 'timed', 'sys'), ('until_std', 'timed', 'std')]
LOCKS = [(e if e != 'wait' else 'lock', o if o != 'wait' else 'lock', t) for e, o, t in WAITS] + [('unlock', 'unlock', None)]
CVW = [('wait', 'wait', None)] + WAITS[2:]
CVOPS = [(e, o, t, False) for e, o, t in CVW] + [(e + '_p', o, t, True) for e, o, t in CVW] + [('notify_one', 'notify_one', None, False), ('notify_all', 'notify_all', None, False)]


def kinds(m, pre, lock='lock', unlock='unlock'):
    pass


@ending('own')
def run_mutex(m, entry, pre, op, tk=None, eintr=False, faults=()):
    W = lambda e: where_of(m, '%s_%s' % (pre, e))
    e0 = seq(m, pre + '_ctor', Env())
    e1 = seqs(m, pre, ['lock'], e0)
    if e1.stopped:
        return Bad('own', W('lock'), 'lock() on a new mutex does not return')
    e2 = seqs(m, pre, ['lock', 'unlock'], e0)
    et = seqs(m, pre, ['try'], e0)
    elt = seqs(m, pre, ['lock', 'try'], e0)
    if et.ret != 1:
        return Bad('own', W('try'), 'try_lock() on a new mutex does not return true')
    if elt.stopped or elt.ret != 0:
        return Bad('own', W('try'), 'try_lock() on a locked mutex does not return false')
    if e1.held:
        if len(e1.held) != 1:
            return Bad('own', W('lock'), 'lock() leaves %d native mutexes locked' % len(e1.held))
        if e2.held:
            return Bad('own', W('unlock'), 'unlock() after lock() leaves a native mutex locked')
        res = next(iter(e1.held))
        if et.held != e1.held:
            return Bad('own', W('try'), 'try_lock() does not acquire what lock() acquires')
        o = MxObs(op, res, eintr=eintr, faults=faults)

        def extra(I, st):
            if op == 'unlock':
                o.sethold(st, res, True)
        return go(m, o, entry, e0.mem, tk, extra=extra)
    # emulated
    ll = seqs(m, pre, ['lock'], e1)
    if not ll.stopped or ll.stopped[0] != 'cond':
        return Bad('own', W('lock'), 'a second lock() does not block')
    used = dict(ll.used)
    a, b, c = plain(e0.mem, used), plain(e1.mem, used), plain(e2.mem, used)
    off = [x for x in b if a.get(x) != b[x]]
    if len(off) != 1:
        raise AnalysisError('%d fields represent the state of the emulated mutex' % len(off))
    off = off[0]
    free, taken = a.get(off, (0, None))[1], b[off][1]
    if not isinstance(free, int):
        return Bad('own', W('ctor'), 'the state of a new mutex is not initialized')
    if c.get(off) != a[off]:
        return Bad('own', W('unlock'), 'unlock() does not make the mutex free')
    _, ck, ik = ll.stopped
    names = dict(take='acquire the mutex', took='acquired it', give='release the mutex', gave='releases the mutex', av='free', un='locked', it='mutex')
    o = EmuObs({'lock': 'wait'}.get(op, op), 'flag', 'own', ik, ck, off, a[off][0], taken, free, names, eintr=eintr, faults=set(faults) & ({'cond'} if op == 'timed' else set()))
    o.stay_text = 'the mutex stays free'

    def extra(I, st):
        if op == 'unlock':
            st.obs['mine'] = 1
    return go(m, o, entry, {k: v for k, v in e0.mem.items() if k != off}, tk, extra=extra)


@ending('sem')
def run_sem(m, entry, op, tk=None, eintr=False, faults=()):
    pre = 'smp'
    W = lambda e: where_of(m, '%s_%s' % (pre, e))
    e0 = seq(m, 'smp_ctorn', Env(), (3,))
    if e0.sems:
        if len(e0.sems) != 1:
            raise AnalysisError('%d native semaphores' % len(e0.sems))
        res, n = next(iter(e0.sems.items()))
        if n != 3:
            return Bad('sem', W('ctorn'), 'the semaphore is not initialized with the given count')
        return go(m, SemObs(op, res, eintr=eintr, faults=faults), entry, e0.mem, tk)
    z = seq(m, 'smp_ctor', Env())
    w = seqs(m, pre, ['wait'], z)
    if not w.stopped or w.stopped[0] != 'cond':
        return Bad('sem', W('wait'), 'wait() on a semaphore without units does not block')
    p = seqs(m, pre, ['post'], e0)
    used = dict(w.used)
    used.update(p.used)
    a, b, zz = plain(e0.mem, used), plain(p.mem, used), plain(z.mem, used)
    off = [x for x in b if a.get(x) != b[x]]
    if not off:
        return Bad('sem', W('post'), 'post() does not add a unit', lost=True)
    if len(off) != 1:
        raise AnalysisError('%d fields represent the state of the emulated semaphore' % len(off))
    off = off[0]
    if a[off][1] != 3 or zz[off][1] != 0 or b[off][1] != 4:
        return Bad('sem', W('post'), 'the counter is %s after construction with 3 and %s after post()' % (fmt(a[off][1]), fmt(b[off][1])))
    _, ck, ik = w.stopped
    names = dict(take='take a unit', took='taken a unit', give='add a unit', gave='adds a unit', av='available', un='exhausted', it='semaphore')
    o = EmuObs(op, 'count', 'sem', ik, ck, off, a[off][0], names=names, eintr=eintr, faults=faults)
    o.stay_text = 'units stay available'
    return go(m, o, entry, {k: v for k, v in e0.mem.items() if k != off}, tk)


@ending(lambda e: 'sig' if e.startswith('ar') else 'msig')
def run_evemu(m, entry, pre, op, tk=None, eintr=False, faults=()):
    W = lambda e: where_of(m, '%s_%s' % (pre, e))
    rule = 'sig' if pre == 'ar' else 'msig'
    sg = 'post' if pre == 'ar' else 'set'
    e0 = seq(m, pre + '_ctor', Env())
    w = seqs(m, pre, ['wait'], e0)
    if not w.stopped or w.stopped[0] != 'cond':
        return Bad(rule, W('wait'), 'wait() on a new event does not block')
    p = seqs(m, pre, [sg], e0)
    t0, t1 = seqs(m, pre, ['try'], e0), seqs(m, pre, ['try'], p)
    t2 = seqs(m, pre, ['try'], t1)
    if t0.ret != 0 or t1.ret != 1 or t2.ret != (0 if pre == 'ar' else 1):
        return Bad(rule, W('try'), 'try_wait() results on a new event, after %s() and after that: %s %s %s' % (sg, t0.ret, t1.ret, t2.ret), lost=t1.ret == 0)
    if pre == 'mr' and seqs(m, pre, ['reset', 'try'], p).ret != 0:
        return Bad(rule, W('reset'), 'try_wait() returns true after reset()')
    used = dict(w.used)
    used.update(p.used)
    a, b = plain(e0.mem, used), plain(p.mem, used)
    off = [x for x in b if a.get(x) != b[x]]
    if len(off) != 1:
        raise AnalysisError('%d fields represent the state of the emulated event' % len(off))
    off = off[0]
    if not isinstance(a.get(off, (0, None))[1], int):
        return Bad(rule, W('ctor'), 'the state of a new event is not initialized')
    _, ck, ik = w.stopped
    o = EmuObs(op, 'flag' if pre == 'ar' else 'manual', rule, ik, ck, off, a[off][0], a[off][1], b[off][1], eintr=eintr, faults=faults)
    o.stay_text = 'the event stays signalled'
    return go(m, o, entry, {k: v for k, v in e0.mem.items() if k != off}, tk)


@ending(lambda e: 'cva' if e.startswith('cva') else 'cv')
def run_cv(m, entry, pre, op, haspred, tk=None, eintr=False, faults=()):
    W = lambda e: where_of(m, '%s_%s' % (pre, e))
    e0 = seq(m, pre + '_ctor', Env())
    w = seq(m, pre + '_wait', e0, (ptr(Nat.UM),))
    rule = 'cva' if pre == 'cva' else 'cv'
    if not w.stopped or w.stopped[0] != 'cond':
        return Bad(rule, W('wait'), 'wait() does not block')
    _, ck, k = w.stopped
    if ck[1] != Nat.OBJ:
        return Bad(rule, W('wait'), 'wait() blocks on something that is not part of the condition variable')
    if pre == 'cva':
        if k[1] != Nat.OBJ:
            return Bad(rule, W('wait'), 'wait() blocks with a mutex that is not part of the condition variable')
        o = CvaObs(op, ck, k, haspred, eintr=eintr, faults=faults)
    else:
        ul = seq_um(m, 'mx' if pre == 'cv' else 'tm')
        o = CvObs(op, ck, ul, haspred, eintr=eintr, faults=faults)

    def extra(I, st):
        if pre != 'cva':
            o.sethold(st, o.uk, True)
    return go(m, o, entry, e0.mem, tk, args=() if op.startswith('notify') else (ptr(Nat.UM),), extra=extra)


def seq_um(m, pre):
    """native mutex that locking the caller's mutex acquires"""
    e = seqs(m, pre, ['lock'])
    if len(e.held) != 1:
        raise AnalysisError('the caller\'s mutex is not one native mutex')
    k = next(iter(e.held))
    return ('K', Nat.UM, k[2])


@ending('life')
def run_life(m, entry, pre, op, ops, eintr=False, faults=(), arg=False):
    e0 = seq(m, pre + '_ctor', Env())
    used = {}
    for s in ops:
        e = e0
        for x in s:
            e = seq(m, pre + '_' + x, e, (ptr(Nat.UM),) if pre in ('cv', 'cvt', 'cva') and x == 'wait' else ())
            used.update({k: v for k, v in e.used.items() if k[1] == Nat.OBJ})
    if not used:
        raise AnalysisError('no native objects')
    o = LifeObs(op, used, eintr=eintr, faults=faults)

    def extra(I, st):
        if arg:
            a = st.fresh('arg', 0, 2 ** 31 - 1)
            st.frames[0].env[1] = a
            st.obs['arg'] = ('V', a)
    return go(m, o, entry, {} if op == 'ctor' else e0.mem, None, extra=extra)


LIFE = {'mx': [['lock']], 'tm': [['lock', 'lock'], ['lock', 'unlock']], 'smp': [['wait'], ['post']], 'ar': [['wait'], ['post']], 'mr': [['wait'], ['set']],
        'cv': [['wait'], ['notify_one']], 'cva': [['wait'], ['notify_one']]}
F = CXXFLAGS


def J(entry, fn, flags, cfg, **kw):
    return Job('native.cpp', entry, fn, F + tuple(flags), cfg, **kw)


ND = ('NDEBUG', ('-DNDEBUG',))
EI = ('EINTR workaround', ('-DBOOST_SYNC_HAS_PTHREAD_EINTR_BUG',))
NT = ('no timed lock', ('-DVF_NO_TIMEDLOCK',))
NTND = ('no timed lock, NDEBUG', ('-DVF_NO_TIMEDLOCK', '-DNDEBUG'))
NTEI = ('no timed lock, EINTR workaround', ('-DVF_NO_TIMEDLOCK', '-DBOOST_SYNC_HAS_PTHREAD_EINTR_BUG'))
NI = ('no static initializers', ('-DVF_NO_STATIC_INIT',))
NINT = ('no static initializers, no timed lock', ('-DVF_NO_STATIC_INIT', '-DVF_NO_TIMEDLOCK'))
SE = ('std::system_error', ('-DBOOST_SYNC_USE_STD_SYSTEM_ERROR',))
DF = ('', ())
# the forms of the constructors and of throwing that the headers choose before C++11
OLD = ('pre-C++11 forms', ('-DVF_OLD_FORMS',))
EM = ('emulated', ('-DVF_EMU',))
EMND = ('emulated, NDEBUG', ('-DVF_EMU', '-DNDEBUG'))
PT = ('semaphore-based', ('-DBOOST_SYNC_USE_PTHREAD',))
PTND = ('semaphore-based, NDEBUG', ('-DBOOST_SYNC_USE_PTHREAD', '-DNDEBUG'))


def mutex_jobs(cfgs=(DF, ND, EI, NT, NTND, NTEI)):
    js = []
    for c, fl in cfgs:
        ei = 'EINTR' in c
        fa = ('lock', 'cond')
        for e, op, tk in (LOCKS[:2] + LOCKS[-1:]):
            if 'no timed' not in c:
                js.append(J('mx_' + e, run_mutex, fl, c, pre='mx', op=op, tk=tk, eintr=ei, faults=fa))
        for e, op, tk in LOCKS:
            js.append(J('tm_' + e, run_mutex, fl, c, pre='tm', op=op, tk=tk, eintr=ei, faults=fa))
    return js


def sem_jobs(cfgs=(DF, ND, EM, EMND)):
    js = []
    for c, fl in cfgs:
        for e, op, tk in WAITS + [('post', 'post', None)]:
            js.append(J('smp_' + e, run_sem, fl, c, op=op, tk=tk, faults=('lock', 'cond')))
    return js


def evemu_jobs(which=('ar', 'mr'), cfgs=(EM, EMND)):
    js = []
    for c, fl in cfgs:
        for pre in which:
            for e, op, tk in WAITS + ([('post', 'post', None)] if pre == 'ar' else [('set', 'set', None), ('reset', 'reset', None)]):
                js.append(J('%s_%s' % (pre, e), run_evemu, fl, c, pre=pre, op=op, tk=tk, faults=('lock', 'cond')))
    return js


def cv_jobs(which=('cv', 'cvt', 'cva'), cfgs=(DF, ND, EI)):
    js = []
    for c, fl in cfgs:
        for pre in which:
            if pre == 'cvt' and c:
                continue
            for e, op, tk, hp in CVOPS:
                js.append(J('%s_%s' % (pre, e), run_cv, fl, c, pre=pre, op=op, haspred=hp, tk=tk, eintr='EINTR' in c, faults=('lock', 'cond')))
    return js


def life_jobs():
    js = []
    for c, fl in (DF, ND, EI, NT, NTND, NI, NINT, EM, EMND, OLD):
        pres = {'mx', 'tm', 'cv', 'cva', 'smp'}
        if c in ('no timed lock', 'no timed lock, NDEBUG'):
            pres = {'tm'}
        if 'emulated' in c:
            pres = {'smp', 'ar', 'mr'}
        for pre in sorted(pres):
            for op in ('ctor', 'dtor'):
                js.append(J('%s_%s' % (pre, op), run_life, fl, c, pre=pre, op=op, ops=LIFE[pre], eintr='EINTR' in c, faults=('init',)))
            if pre == 'smp':
                js.append(J('smp_ctorn', run_life, fl, c, pre=pre, op='ctor', ops=LIFE[pre], faults=('init',), arg=True))
    return js


ASSUME = ['native calls return only what POSIX and Linux specify for them (success, busy, timeout, interruption, any other error code) and have the specified effect on the native object; '
          'which of the results occurs is left open at every call',
          'the program follows the documented preconditions (unlocks only what it holds, waits with the mutex held, destroys only unused objects) and does not overwrite the objects',
          'clang 18 lowers the headers to LLVM IR faithfully; Linux with glibc']
HOW = 'typestate analysis by abstract interpretation of the LLVM IR of every operation and overload, over all paths, all native results and any number of loop iterations (fixpoint), in every configuration listed. '


def c01(out):
    out.absorb(*run_jobs(mutex_jobs()), want=lambda r: r in ('own', 'atomic', 'live', 'wake', 'ilock'))
    out.assumptions = ASSUME
    return HOW + ('Rules: own - a successful return holds exactly one new acquisition of the mutex and an unsuccessful one none, and a failure is reported only after busy / timeout evidence; atomic - with the emulated '
                  'timed mutex the owner flag is read and changed only under the internal mutex, and set only in the critical section that saw it clear; live - a blocked locker blocks only while the flag was seen set '
                  'in the same critical section; wake - unlock clears the flag and notifies; ilock - no internal mutex stays held')


def c08(out):
    out.absorb(*run_jobs(cv_jobs(('cv', 'cvt'))), want=lambda r: r in ('cv',))
    out.assumptions = ASSUME
    return HOW + ('Rule cv: each blocking call names this condition variable and the native mutex of the caller\'s own lock, nothing else blocks or unlocks, the lock object still owns the held mutex on return and on '
                  'exceptions, timeout is reported only with evidence of expiry (native timeout or a clock reading at or after the deadline) and no_timeout only after a wake-up or with the deadline not shown to have '
                  'passed, and notify_one / notify_all signal at least one / all waiters of this object')


def c09(out):
    out.absorb(*run_jobs(cv_jobs()), want=lambda r: r in ('pred',))
    out.assumptions = ASSUME + ['the predicate may return anything, any number of times, and may throw']
    return HOW + ('Rule pred: the predicate is called with the caller\'s lock held; no blocking call after an evaluation that yielded true or before any evaluation; an untimed wait returns only after true with no '
                  'blocking since; no third evaluation in a row without blocking; true is returned only if the last evaluation was true, false only if expiry was established and a later evaluation yielded false; control is given back to the predicate after every '
                  'wake-up')


def c10(out):
    out.absorb(*run_jobs(cv_jobs(('cva',))), want=lambda r: r in ('cva',))
    out.assumptions = ASSUME + ['lock() and unlock() of the caller\'s lock may do anything allowed to user code and may throw']
    return HOW + ('Rule cva: the caller\'s lock is unlocked once, with the internal mutex held continuously until the blocking call that releases it, and notifications take the same internal mutex before '
                  'signalling; it is locked again exactly once on every exit after a successful unlock, without the internal mutex; notify_one / notify_all signal the condition and hold nothing on return')


def c11(out):
    out.absorb(*run_jobs(sem_jobs()), want=lambda r: r in ('sem', 'atomic'))
    out.assumptions = ASSUME
    return HOW + ('Rules: sem - units taken by the native calls (or by decrements of the counter in the emulation) equal what the operation reports, on every path; false only after "no unit" or timeout evidence; '
                  'construction initializes with the given count; post adds one and wakes a waiter, or reports overflow and adds nothing; atomic - the emulation\'s counter is read and changed only under its mutex, '
                  'decremented only in the critical section that saw it positive, and a waiter blocks only after seeing it zero')


def c18(out):
    import exc
    out.absorb(*run_jobs(mutex_jobs() + sem_jobs((DF, ND, EM, EMND, SE, OLD)) + cv_jobs(cfgs=(DF, ND, SE, OLD)) + life_jobs() + exc.jobs()), want=lambda r: r == 'err')
    out.assumptions = ASSUME + ['boost::system::system_error and std::system_error keep the error code they are constructed with']
    return HOW + ('Rule err: an operation throws exactly when a native call of it failed unexpectedly, with the documented type and that call\'s error code, and then holds and took nothing; each constructor of each '
                  'exception type yields an object whose native_error() and code() are the value it was given, in the system category')


def c26(out):
    out.absorb(*run_jobs(life_jobs() + mutex_jobs() + sem_jobs() + cv_jobs()), want=lambda r: r == 'life')
    out.assumptions = ASSUME
    return HOW + ('Rule life: typestate of each native object of a primitive (raw, attribute, initialized, destroyed): constructors initialize each member once with private attributes (or a static initializer), use no '
                  'raw object, and undo what they initialized when they throw; destructors destroy each initialized object once; other operations neither initialize nor destroy')
