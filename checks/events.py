"""Futex-based events: every path of every operation with the state word havocked at each access (C12, C13, C14, C15, C17, C25)."""
import re
from absint import (Interp, Observer, Throw, AnalysisError, isptr, isnum, NULL, ptr, ladd, lsub, lmul, INF)
from vf import Job, run_jobs
from common import *
from common import u
from word import ACQ, REL, Bad, Live, endob, where_of, finish_run, fmt

SYS_FUTEX = 202
INTMAX = 2 ** 31 - 1


def wake_count(n):
    """number of threads a FUTEX_WAKE argument wakes"""
    return n


class EvObs(Live, Timing, WordObs):
    """base: op in wait/try/timed/post/set/reset"""

    def __init__(self, off, size, fields, op, pvt):
        WordObs.__init__(self, off, size, fields)
        self.op, self.pvt = op, pvt

    # ---- stable phase (liveness)
    def on_atomic(self, I, st, i, op, p, sz, ty, order, v, exp, weak, ordf, done):
        if not self.isword(p):
            return None
        if sz != self.size:
            raise AnalysisError('the state word is accessed with another size')
        if st.obs.get('seq'):
            return self.seq_atomic(I, st, i, op, p, sz, ty, order, v, exp, weak, ordf, done)
        outs = []
        if self.op in ('wait', 'timed', 'post'):
            s = st.copy()
            s.obs['seq'] = 1
            cur = self.stable(I, s)
            if cur is not None:
                I.store(s, p, sz, cur, 0, ty)
                I.note(s, 'from here on %s' % self.stay_text)
                outs += self.seq_atomic(I, s, i, op, p, sz, ty, order, v, exp, weak, ordf, done)
        for s in self.cases(I, st):
            outs += WordObs.on_atomic(self, I, s, i, op, p, sz, ty, order, v, exp, weak, ordf, done)
        for s in outs:
            s.obs.pop('#force', None)
        return outs

    def cases(self, I, st):
        return [st]

    def stable(self, I, st):
        return None

    def on_join(self, I, st, key):
        return Live.on_join(self, I, st, key)

    # ---- futex
    def syscall(self, I, st, args, i, f):
        if args[0] != SYS_FUTEX:
            raise AnalysisError('system call %s' % (args[0],))
        self.touch(st)
        addr, op = args[1], args[2]
        if not isinstance(op, int):
            raise AnalysisError('futex operation unknown')
        cmd = op & 127
        I.ob(st, 'wake', self.isword(addr), 'futex operation on an address other than the state word')
        I.ob(st, 'wake', (op & PVTBIT) == self.pvt, 'futex wait and wake use different (private/shared) keys, so a wake cannot reach the waiter')
        if cmd in (0, 9):
            return self.futex_wait(I, st, args, cmd, op)
        if cmd in (1, 10):
            n = args[3]
            I.ob(st, 'wake', isinstance(n, int) and 1 <= n, 'wakes %s threads' % fmt(n))
            if st.obs.get('posted'):
                st.obs['woke'] = max(st.obs.get('woke', 0), n if isinstance(n, int) else 0)
            I.note(st, 'futex wake %s' % fmt(n))
            return [(st, 0)]
        raise AnalysisError('futex command %d' % cmd)

    def futex_wait(self, I, st, args, cmd, op):
        o = st.obs
        exp, tmo = args[3], args[4]
        I.ob(st, 'wake', self.op in ('wait', 'timed'), 'an operation that must not block blocks')
        timed = tmo != NULL
        st.obs['#e'] = ('E', exp)
        fs = self.decode(I, st, exp) if isnum(exp) else None
        st.obs.pop('#e', None)
        if fs is None and isnum(exp):
            I.report(st, 'wake', 'may block on a value that is not a state of the event with this thread registered (it can carry from one counter into the other)')
            return []
        if fs is None:
            raise AnalysisError('cannot decode the expected value')
        sig = fs[self.SIG]
        I.ob(st, 'wake', st.must_be(sig, 0), 'may block on a value in which the event is signalled: a post made before blocking does not end the wait')
        I.ob(st, 'wake', o.get('reg') == 1, 'blocks without being registered as a waiter: a post made meanwhile does not wake it')
        if self.op == 'timed':
            ok = I.ob(st, 'time', timed, 'a timed wait blocks without a timeout')
        else:
            I.ob(st, 'time', not timed, 'an untimed wait blocks with a timeout')
        if timed and isptr(tmo):
            s = I.load(st, tmo, 8, 'i64')
            n = I.load(st, ptr(tmo[1], tmo[2] + 8), 8, 'i64')
            if not isnum(s) or not isnum(n):
                raise AnalysisError('timeout not understood')
            lo, hi = st.rng(n)
            I.ob(st, 'time', lo >= 0 and hi < NS, 'the timeout passed to futex is not normalized')
            I.ob(st, 'time', st.rng(s)[0] >= 0, 'a negative timeout is passed to futex')
            R = ladd(lmul(s, NS), n)
            if cmd == 0:
                I.ob(st, 'time', self.remaining_ok(st, R), 'the timeout passed to futex is not the time remaining until the deadline fixed when the operation started')
                direct = self.kind(st) != 'st' or ('cl.st' in o and self.same(st, R, lsub(o['tm'][2], o['cl.st'][1])))
            else:
                clk = 'rt' if op & 256 else 'st'
                I.ob(st, 'time', self.deadline_ok(st, clk, R), 'the deadline passed to futex is not the one fixed when the operation started')
                direct = self.kind(st) != 'st' or clk == 'st'
        if o.get('seq'):
            # the word is stable: expected cannot match unless the obligation above failed
            self.set_errno(I, st, EAGAIN)
            st.obs['nseq'] = min(3, st.obs.get('nseq', 0) + 1)
            return [(st, -1)]
        outs = []
        for err in (0, EAGAIN, EINTR) + ((ETIMEDOUT,) if timed else ()):
            s2 = st.copy()
            self.blocked(s2)
            if err == ETIMEDOUT and direct:
                s2.obs['exp'] = 1
            if err:
                self.set_errno(I, s2, err)
            s2.obs['intr'] = 1 if err == EINTR else 0
            I.note(s2, 'futex wait: %s' % {0: 'woken (perhaps spuriously)', EAGAIN: 'EAGAIN', EINTR: 'EINTR', ETIMEDOUT: 'ETIMEDOUT'}[err])
            outs.append((s2, 0 if err == 0 else -1))
        return outs

    def observe(self, I, st, v, order, how):
        st.obs['last'] = ('V', v)
        st.obs['intr'] = 0
        fs = self.decode(I, st, v)
        if fs is None:
            raise AnalysisError('cannot decode the state')
        if how == 'rmw' and order in REL:
            st.obs['relrmw'] = 1
        if how == 'rmw' and st.obs.get('relfence'):
            st.obs['relrmw'] = 1
        self.seen(I, st, fs, order)

    def seen(self, I, st, fs, order):
        pass

    def trans(self, I, st, old, new, order, op):
        st.obs['#n'] = ('N', new)
        fo = self.decode(I, st, old)
        new = st.obs['#n'][1]
        st.obs['#f'] = ('F',) + tuple(fo)
        fn = self.decode(I, st, new)
        fo = list(st.obs['#f'][1:])
        st.obs.pop('#n')
        st.obs.pop('#f')
        if fn is None:
            I.report(st, self.RULE, 'the new state can carry from one counter into the other')
            return
        self.step(I, st, fo, fn, order)

    def on_fence(self, I, st, order, ins):
        if ins.get('ss', 1) != 1:
            return
        if order in REL:
            st.obs['relfence'] = 1
        if order in ACQ:
            if st.obs.get('sig') or st.obs.get('cons'):
                st.obs['acqord'] = 1

    def on_abort(self, I, st, kind, msg):
        I.report(st, 'eintr' if st.obs.get('intr') else self.RULE, 'legal use ends in %s%s' % (kind, ' after an interruption by a signal' if st.obs.get('intr') else ''))


PVTBIT = 128


def d(a, b):
    """constant difference or None"""
    x = lsub(b, a)
    return x if isinstance(x, int) else None


class ArObs(EvObs):
    """auto_reset_event: fields waiters, posts"""
    SIG = 1
    RULE = 'sig'

    def __init__(self, off, size, fields, op, pvt):
        EvObs.__init__(self, off, size, fields, op, pvt)
        self.stay_text = 'the event stays signalled' if op != 'post' else 'the state is stable'

    def rely(self, I, st, fs):
        w, p = fs
        return st.assume(w, 1 if st.obs.get('reg') else 0, self.fields[0].max - 1) and st.assume(lsub(ladd(w, 1), p), 0, INF)

    def stable(self, I, st):
        w = st.fresh(('w', 'stable'), 1 if st.obs.get('reg') else 0, self.fields[0].max - 1)
        if self.op == 'post':
            p = st.fresh(('p', 'stable'), 0, self.fields[1].max - 1)
        else:
            p = st.fresh(('p', 'stable'), 1, self.fields[1].max)
        if not st.assume(lsub(ladd(w, 1), p), 0, INF):
            return None
        return ladd(lmul(w, self.fields[0].one), lmul(p, self.fields[1].one))

    def seen(self, I, st, fs, order):
        # 'full': observed with more posts than waiters
        w, p = fs
        st.obs['f'] = ('F', w, p)

    def step(self, I, st, fo, fn, order):
        o = st.obs
        (w, p), (w2, p2) = fo, fn
        dw, dp = d(w, w2), d(p, p2)
        if (dw, dp) == (0, 0):
            return
        rel = order in REL or o.get('relfence')
        if (dp, dw) == (1, 0) and self.op == 'post':
            I.ob(st, 'sig', st.rng(lsub(w, p))[0] >= 0, 'adds a signal although the event may already be signalled beyond its waiters: a post to a signalled event must have no effect')
            o['posted'] = min(2, o.get('posted', 0) + 1)
            o['pw'] = ('V', w)
            o['woke'] = 0
        elif (dp, dw) == (0, 1) and self.op != 'post':
            I.ob(st, 'wake', not o.get('reg'), 'registers as a waiter twice')
            o['reg'] = 1
        elif dp == -1 and dw in (0, -1) and self.op != 'post':
            I.ob(st, 'sig', st.rng(p)[0] >= 1, 'consumes a signal from an event that may not be signalled')
            o['cons'] = min(2, o.get('cons', 0) + 1)
            o['acqord'] = 1 if order in ACQ else 0
            if dw:
                I.ob(st, 'wake', o.get('reg') == 1, 'removes a waiter that it did not register')
                o['reg'] = 0
        elif (dp, dw) == (0, -1) and self.op != 'post':
            I.ob(st, 'wake', o.get('reg') == 1, 'removes a waiter that it did not register')
            I.ob(st, 'wake', o.get('cons') or st.must_be(p, 0), 'gives up waiting while a signal may be pending: the wakeup sent with it is lost')
            o['reg'] = 0
        else:
            I.report(st, 'sig', 'changes the waiters by %s and the signals by %s in %s' % (fmt(lsub(w2, w)), fmt(lsub(p2, p)), self.op))

    def on_end(self, I, st, how, v):
        o = st.obs

        def ob(rule, ok, msg):
            endob(I, self, st, rule, ok, msg)
        if how != 'return':
            endob(I, self, st, 'sig', False, 'throws')
            return
        op = self.op
        if o.get('seq'):
            ob('live', True, '')
            return
        if op == 'post':
            w, p = o['f'][1:]
            if o.get('posted'):
                ob('sig', o['posted'] == 1, 'adds more than one signal')
                ob('wake', st.rng(o['pw'][1])[1] <= 0 or o.get('woke', 0) >= 1, 'makes a signal available without waking a registered waiter')
            else:
                ob('sig', st.rng(lsub(p, w))[0] >= 1, 'returns without posting although the event was not signalled')
            ob('order', o.get('relrmw') == 1, 'returns without a releasing write to the state: what the thread wrote before post() may stay invisible to the thread that consumes the signal')
            return
        ob('wake', not o.get('reg'), 'ends still registered as a waiter')
        got = op == 'wait' or v == 1
        if op != 'wait' and v not in (0, 1):
            raise AnalysisError('unknown result')
        if got:
            ob('sig', o.get('cons') == 1, '%s without consuming exactly one signal' % ('returns' if op == 'wait' else 'returns true'))
            ob('order', o.get('acqord') == 1, 'a successful wait has no acquire ordering')
            ob('eintr', o.get('cons') == 1 or not o.get('intr'), 'an interrupted wait reports success')
        else:
            ob('sig', not o.get('cons'), 'returns false but consumed a signal')
            if op == 'try':
                ob('sig', st.must_be(o['f'][2], 0), 'returns false although the event was observed signalled')
            else:
                ob('time', self.expired(st), 'returns false although the deadline has not passed')
                ob('sig', self.expired(st), 'returns false although the deadline has not passed')
                ob('eintr', self.expired(st), 'reports a timeout that has not happened')


class MrObs(EvObs):
    """manual_reset_event: fields signal, waiters"""
    SIG = 0
    RULE = 'msig'
    stay_text = 'the event stays signalled'

    def cases(self, I, st):
        out = []
        for k in (0, 1):
            s = st.copy()
            s.obs['#force'] = k
            out.append(s)
        return out

    def rely(self, I, st, fs):
        if '#force' in st.obs and not st.assume(fs[0], st.obs['#force'], st.obs['#force']):
            return False
        return st.assume(fs[1], 1 if st.obs.get('reg') else 0, self.fields[1].max - 1)

    def stable(self, I, st):
        if self.op == 'post':
            return None
        w = st.fresh(('w', 'stable'), 1 if st.obs.get('reg') else 0, self.fields[1].max - 1)
        return ladd(self.fields[0].one, lmul(w, self.fields[1].one))

    def seen(self, I, st, fs, order):
        s, w = fs
        st.obs['f'] = ('F', s, w)
        if st.must_be(s, 1):
            st.obs['sig'] = 1
            if order in ACQ:
                st.obs['acqord'] = 1
        if st.obs.get('sig') and order in ACQ:
            st.obs['acqord'] = 1

    def step(self, I, st, fo, fn, order):
        o = st.obs
        (s, w), (s2, w2) = fo, fn
        op = self.op
        if op in ('set', 'reset'):
            want = 1 if op == 'set' else 0
            I.ob(st, 'msig', st.must_be(s2, want), 'leaves the event %s' % ('non-signalled' if want else 'signalled'))
            I.ob(st, 'wake', d(w, w2) == 0, 'changes the number of waiters')
            o['posted'] = 1
            o['woke'] = 0
            o['po'] = ('P', s, w)
            return
        ok = d(s, s2) == 0
        I.ob(st, 'msig', ok, 'a wait changes the signalled state')
        dw = d(w, w2)
        if dw == 0:
            return
        if dw == 1:
            I.ob(st, 'wake', not o.get('reg'), 'registers as a waiter twice')
            o['reg'] = 1
        elif dw == -1:
            I.ob(st, 'wake', o.get('reg') == 1, 'removes a waiter that it did not register')
            o['reg'] = 0
        else:
            I.report(st, 'wake', 'changes the number of waiters by %s' % fmt(lsub(w2, w)))

    def store_ok(self, I, st, v, order):
        I.report(st, 'wake', 'the state is overwritten by a plain store, which can lose a concurrent registration or signal')

    def issig(self, st):
        return bool(st.obs.get('sig'))

    def on_end(self, I, st, how, v):
        o = st.obs

        def ob(rule, ok, msg):
            endob(I, self, st, rule, ok, msg)
        if how != 'return':
            endob(I, self, st, 'msig', False, 'throws')
            return
        op = self.op
        if o.get('seq'):
            ob('live', True, '')
            return
        if op in ('set', 'reset'):
            ok = o.get('posted') == 1 or ('f' in o and st.must_be(o['f'][1], 1 if op == 'set' else 0))
            ob('msig', ok, 'returns although the event was not observed %s and its state was not changed' % ('signalled' if op == 'set' else 'non-signalled'))
            if op == 'set':
                if o.get('posted'):
                    s, w = o['po'][1:]
                    need = st.can_be(s, 0) and st.rng(w)[1] > 0
                    ob('wake', not need or o.get('woke', 0) >= INTMAX, 'makes the event signalled without waking all registered waiters')
                ob('order', o.get('relrmw') == 1, 'set() has no release ordering')
            return
        ob('wake', not o.get('reg'), 'ends still registered as a waiter')
        got = op == 'wait' or v == 1
        if op != 'wait' and v not in (0, 1):
            raise AnalysisError('unknown result')
        if got:
            ob('msig', self.issig(st), '%s without having observed the event signalled' % ('returns' if op == 'wait' else 'returns true'))
            ob('order', o.get('acqord') == 1, 'a successful wait has no acquire ordering')
            ob('eintr', self.issig(st) or not o.get('intr'), 'an interrupted wait reports success')
        else:
            if op == 'try':
                ob('msig', st.must_be(o['f'][1], 0), 'returns false although the event was observed signalled')
            else:
                ob('time', self.expired(st), 'returns false although the deadline has not passed')
                ob('msig', self.expired(st), 'returns false although the deadline has not passed')
                ob('eintr', self.expired(st), 'reports a timeout that has not happened')


def getword(mem, off):
    return mem[off][1] if off in mem else None


def run_event(m, entry, cls, pre, op, tk=None):
    signal = 'post' if pre == 'ar' else 'set'
    acts = {'p': [signal], 'w': ['wait'], 'pt': [signal, 'try'], 'ptt': [signal, 'try', 'try'], 't': ['try'], 'pp': [signal, signal], 'ppt': [signal, signal, 'try', 'try']}
    if pre == 'mr':
        acts['pr'] = ['set', 'reset']
        acts['prt'] = ['set', 'reset', 'try']
        acts['rt'] = ['reset', 'try']
    try:
        mem0, dd, hits, size = derive(m, pre, acts)
    except NotEnding as e:
        return Bad('sig' if pre == 'ar' else 'msig', where_of(m, e.entry), 'does not return in the sequence %s on a new event' % ', '.join(e.seq), lost=True)
    rule = cls.RULE
    W = lambda e: where_of(m, '%s_%s' % (pre, e))
    if len(hits) != 1:
        raise AnalysisError('the event has %d atomic words' % len(hits))
    off = hits.pop()
    S0, S1, SW = getword(mem0, off), getword(dd['p'][0], off), getword(dd['w'][0], off)
    if not isinstance(S0, int):
        return Bad(rule, W('ctor'), 'the state is not initialized')
    if not dd['w'][2]:
        return Bad(rule, W('wait'), 'wait() on a new event returns')
    if dd['t'][1] != 0:
        return Bad(rule, W('try'), 'try_wait() on a new event returns true')
    if dd['pt'][1] != 1:
        return Bad(rule, W('try'), 'try_wait() after %s() returns false' % signal, lost=True)
    if pre == 'ar':
        if dd['ptt'][1] != 0:
            return Bad(rule, W('try'), 'a second try_wait() after one post() returns true')
        if dd['ppt'][1] != 0:
            return Bad(rule, W('post'), 'two posts to an event without waiters let two waits complete')
    else:
        if dd['ptt'][1] != 1:
            return Bad(rule, W('try'), 'a second try_wait() after set() returns false')
        if dd['prt'][1] != 0:
            return Bad(rule, W('reset'), 'try_wait() after set() and reset() returns true')
    b = 8 * size
    P, Wt = u(S1 - S0, b), u(SW - S0, b)
    if S0 != 0 or not P or not Wt or P & (P - 1) or Wt & (Wt - 1) or P == Wt:
        raise AnalysisError('representation of the event not understood (%#x %#x %#x)' % (S0, S1, SW))
    ps, ws = P.bit_length() - 1, Wt.bit_length() - 1
    if ps < ws:
        pb, wb = ws - ps, b - ws
    else:
        wb, pb = ps - ws, b - ps
    fp, fw = Field('posts', ps, pb), Field('waiters', ws, wb)
    pvt = futex_private(m, '%s_%s' % (pre, 'wait'))
    o = cls(off, size, [fw, fp] if pre == 'ar' else [fp, fw], op, pvt)

    def init(I, st):
        a, tm = time_args(st, tk)
        st.obs['tm'] = tm
        for k, x in enumerate(a):
            st.frames[0].env[1 + k] = x
        st.mem[o.OBJ] = {k: x for k, x in mem0.items() if k != off}
    return finish_run(m, o, entry, init)


def futex_private(m, entry):
    """private bit of the first futex wait (waits and wakes must agree)"""
    from common import SeqWord
    o = SeqWord()
    got = []

    def sc(I, st, args, i, f):
        got.append(args[2] & PVTBIT)
        return [(st, 'END')]
    mods = o.models()
    mods['syscall'] = sc
    I = Interp(m, mods, o)

    def init(I, st):
        st.mem[o.OBJ] = {}
    c, _ = seqrun(m, entry.split('_')[0] + '_ctor', {})
    I.start(entry, (ptr(o.OBJ),), lambda I, st: st.mem.__setitem__(o.OBJ, dict(c.result[0])))
    if not got:
        raise AnalysisError('wait() on a new event does not reach a futex wait')
    return got[0]


WAITS = [('wait', 'wait', None), ('try', 'try', None), ('timed_dur', 'timed', 'dur'), ('timed_ts', 'timed', 'ts'), ('timed_sys', 'timed', 'sys'), ('timed_std', 'timed', 'std'),
         ('for', 'timed', 'dur'), ('until_ts', 'timed', 'ts'), ('until_sys', 'timed', 'sys'), ('until_std', 'timed', 'std')]
CFG = [('', ()), ('NDEBUG', ('-DNDEBUG',))]


def futex_jobs(which=('ar', 'mr'), cfgs=CFG):
    js = []
    for c, fl in cfgs:
        for pre in which:
            cls = ArObs if pre == 'ar' else MrObs
            for e, op, tk in WAITS:
                js.append(Job('word.cpp', '%s_%s' % (pre, e), run_event, CXXFLAGS + fl, c, cls=cls, pre=pre, op=op, tk=tk))
            for e in (('post',) if pre == 'ar' else ('set', 'reset')):
                js.append(Job('word.cpp', '%s_%s' % (pre, e), run_event, CXXFLAGS + fl, c, cls=cls, pre=pre, op=e))
    return js


ASSUME = ['fewer than 2^22-1 (auto-reset) / 2^31-1 (manual-reset) simultaneous waiters; FUTEX_WAIT/FUTEX_WAKE behave as documented by Linux',
          'other threads change the word only through the library\'s own operations, whose transitions are checked by the same rules (rely/guarantee)',
          'time values within +-2^61 ns, clock readings within [0, 2^31] s']


def c12(out):
    import native as n
    out.absorb(*run_jobs(futex_jobs(('ar',)) + n.evemu_jobs(('ar',)) + n.sar_jobs()), want=lambda r: r in ('sig', 'atomic'))
    out.assumptions = ASSUME
    return ('For every operation of auto_reset_event (futex-based, semaphore-based and emulated implementation) every path was followed with every value other threads can leave in the state between any two '
            'steps. Rule: each normal/true return is preceded on its path by exactly one indivisible consumption of one signal from an event that is signalled, a false return by none; post adds at most one signal and only '
            'when the signals do not already exceed the waiters; a plain or non-atomic write to the state is a violation.')


def c13(out):
    import native as n
    out.absorb(*run_jobs(futex_jobs(('mr',)) + n.evemu_jobs(('mr',))), want=lambda r: r in ('msig', 'atomic'))
    out.assumptions = ASSUME
    return ('For every operation of manual_reset_event (futex-based and emulated) every path with every interference: a true return requires an observation of the signalled state in the same call; waits never change the '
            'signalled state; set and reset leave exactly the signalled / non-signalled state and the number of waiters alone.')


def c14(out):
    import native as n
    out.absorb(*run_jobs(futex_jobs() + n.evemu_jobs() + n.sar_jobs() + n.sem_jobs((n.EM, n.EMND))), want=lambda r: r in ('wake', 'live', 'atomic', 'ilock'))
    out.assumptions = ASSUME
    return ('Rules: a futex wait compares against a value observed non-signalled and with this waiter registered, so that a later signal changes the word; a condition wait happens only with the guarding internal lock held '
            'continuously since the state was found unavailable; a signal that becomes available while waiters are registered is followed by a wake (of all for manual-reset) on the same word/condition variable; registrations '
            'are undone exactly once; and once the event stays signalled every wait ends (no abstract state repeats).')


def c15(out):
    import native as n
    out.absorb(*run_jobs(futex_jobs() + n.mutex_jobs() + n.sem_jobs() + n.evemu_jobs() + n.sar_jobs() + n.cv_jobs()), want=lambda r: r == 'time')
    out.assumptions = ASSUME[1:]
    return ('Every deadline handed to the operating system, in every iteration of every retry loop of every timed operation, is compared (as an exact linear form over the argument and the clock readings) with the deadline '
            'determined by the argument and, for durations, the first clock reading; every false/timeout result needs evidence on its path that this deadline passed; absolute times are normalized; no timed operation '
            'blocks without a timeout.')


def c17(out):
    import native as n
    out.absorb(*run_jobs(futex_jobs() + n.mutex_jobs() + n.sem_jobs() + n.sar_jobs() + n.cv_jobs() + n.life_jobs()), want=lambda r: r == 'eintr')
    out.assumptions = ASSUME[1:]
    return ('Every native call that can be interrupted is given the additional result EINTR at every call: no path may then end normally as if it had succeeded, report a timeout or throw, or fail an assertion. '
            'With the EINTR workaround enabled this covers the pthread mutex and condition variable functions too.')


def c25(out):
    import native as n
    from word import spin_jobs, sspin_jobs, SPIN_CFG
    out.absorb(*run_jobs(futex_jobs() + n.sar_jobs() + spin_jobs(SPIN_CFG) + sspin_jobs(SPIN_CFG[:2])), want=lambda r: r == 'order')
    out.assumptions = ASSUME[1:2] + ['the C++11 memory model: a release read-modify-write or store synchronizes with an acquire read-modify-write or load that reads from its release sequence']
    return ('On every path, the write that releases (unlock, unlock_shared, post, set - also a post that finds the event signalled) has release ordering or follows a release fence, and the access by which ownership or a '
            'signal was obtained has acquire ordering or is followed by an acquire fence.')
