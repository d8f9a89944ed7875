"""C04-C07: typestate of the lock wrappers and guards over a most general client."""
import re
from absint import Interp, Observer, Throw, AnalysisError, isptr, NULL, ptr
from vf import Job, run_jobs

(CTOR, DTOR, LOCK, TRY, TIMED_D, TIMED_P, FOR, UNTIL, UNLOCK, RELEASE, SWAP, FSWAP, MOVECTOR, MOVEASSIGN,
 CTOR_LOCK, CTOR_ADOPT, CTOR_DEFER, CTOR_TRY, CTOR_DUR, CTOR_TP,
 CONV, CONV_ASSIGN, CONV_TRY, CONV_DUR, CONV_TP) = range(1, 26)
NAMES = ['', 'default construction', 'destruction', 'lock()', 'try_lock()', 'timed_lock(duration)', 'timed_lock(time point)', 'try_lock_for()',
         'try_lock_until()', 'unlock()', 'release()', 'swap()', 'swap(a, b)', 'move construction', 'move assignment',
         'construction(mutex)', 'construction(adopt_lock)', 'construction(defer_lock)', 'construction(try_to_lock)', 'construction(duration)',
         'construction(time point)', 'converting construction', 'converting assignment', 'converting construction(try_to_lock)',
         'converting construction(duration)', 'converting construction(time point)']
MODE = {0: 'nothing', 1: 'exclusive', 2: 'shared', 3: 'upgrade'}
KIND = {0: 'blocking', 1: 'try', 2: 'timed', 3: 'for', 4: 'until'}
DUR, TP = 777, 1000000 + 888
EPERM, EDEADLK = 1, 35


def nm(p):
    if p == NULL or p is None:
        return 'no mutex'
    if isptr(p) and isinstance(p[1], tuple):
        m = re.search(r'(m\d?)$', str(p[1][1]))
        return 'mutex %s' % (p[1][1].split('m')[-1] if 0 else p[1][1][-8:])
    return str(p)


class LockObs(Observer):
    """abstract wrapper i: st.obs[('w', i)] = None | (mutex pointer or NULL, owned 0/1)"""

    def __init__(self, modes):
        self.modes = modes

    # -- models
    def models(self):
        return {'vf_nondet': self.nondet, 'vf_mx': self.mx, 'vf_op': self.op, 'vf_done': self.done, 'vf_threw': self.threw,
                'vf_state': self.state, 'vf_forget': self.forget}

    def nondet(self, I, st, args, i, f):
        return [(st.copy() if k else st, k) for k in range(args[0])]

    def forget(self, I, st, args, i, f):
        m = st.mem.get(args[0][1])
        if m:
            for o in [o for o in m if isinstance(o, int) and args[0][2] <= o < args[0][2] + args[1]]:
                del m[o]
        return [(st, None)]

    def w(self, st, i):
        return st.obs.get(('w', i))

    def op(self, I, st, args, i, f):
        code, a, b, m = args
        if code == 100:
            st.obs['rel'] = ('R', m)
            return [(st, None)]
        I.note(st, '%s on %s lock #%d%s' % (NAMES[code], MODE[self.modes[a]], a, (' with #%d' % b) if code in (SWAP, FSWAP, MOVECTOR, MOVEASSIGN, CONV, CONV_ASSIGN, CONV_TRY, CONV_DUR, CONV_TP) else ''))
        for k in ('last', 'conv'):
            st.obs.pop(k, None)
        st.obs['op'] = ('O', code, a, b, m)
        st.obs['ev'] = ()
        st.obs['thrown'] = None
        return [(st, None)]

    def mx(self, I, st, args, i, f):
        m, frm, to, kind, tk = args
        outs = []
        if to == 0:
            st.obs['ev'] = st.obs.get('ev', ()) + (('V', m, frm, to, kind, tk, 'ok'),)
            return [(st, 1)]
        for res in ('ok', 'false', 'throw'):
            if res == 'false' and kind == 0:
                continue
            s = st.copy()
            s.obs['ev'] = s.obs.get('ev', ()) + (('V', m, frm, to, kind, tk, res),)
            I.note(s, '  mutex operation %s %s->%s: %s' % (KIND.get(kind, kind), MODE[frm], MODE[to], {'ok': 'succeeds', 'false': 'returns false', 'throw': 'throws'}[res]))
            if res == 'throw':
                s.obs['thrown'] = ('E', 'vf::mutex_error', None)
                outs.append((s, Throw(('E', 'vf::mutex_error', None))))
            else:
                outs.append((s, 1 if res == 'ok' else 0))
        return outs

    def on_throw(self, I, st, exc):
        st.obs['thrown'] = exc

    def on_abort(self, I, st, kind, msg):
        I.report(st, 'own', 'the operation ends in %s' % kind)

    # -- specification
    def expect(self, I, st):
        """-> list of alternatives (events predicate list, post function per outcome)"""
        _, code, a, b, m = st.obs['op']
        w = self.w(st, a)
        mode = self.modes[a]
        src = self.w(st, b)
        return code, a, b, m, w, mode, src

    def acq_args(self, code):
        return {LOCK: ((0,), 0), CTOR_LOCK: ((0,), 0), TRY: ((1,), 0), CTOR_TRY: ((1,), 0),
                TIMED_D: ((2, 3), DUR), FOR: ((2, 3), DUR), CTOR_DUR: ((2, 3), DUR),
                TIMED_P: ((2, 4), TP), UNTIL: ((2, 4), TP), CTOR_TP: ((2, 4), TP),
                CONV: ((0,), 0), CONV_ASSIGN: ((0,), 0), CONV_TRY: ((1,), 0), CONV_DUR: ((2, 3), DUR), CONV_TP: ((2, 4), TP)}[code]

    def match_acq(self, ev, m, frm, to, code):
        kinds, tk = self.acq_args(code)
        return len(ev) == 1 and ev[0][1] == m and ev[0][2] == frm and ev[0][3] == to and ev[0][4] in kinds and ev[0][5] == tk

    def evs(self, ev):
        return '; '.join('%s %s->%s (argument %s): %s' % (KIND.get(e[4], e[4]), MODE.get(e[2]), MODE.get(e[3]), e[5], e[6]) for e in ev) or 'none'

    def finish(self, I, st, ret):
        """ret None when it threw"""
        code, a, b, m, w, mode, src = self.expect(I, st)
        ev = st.obs.get('ev', ())
        thrown = st.obs.get('thrown') if ret is None else None
        name = NAMES[code]
        post = {a: w, b: src} if code in (SWAP, FSWAP, MOVECTOR, MOVEASSIGN, CONV, CONV_ASSIGN, CONV_TRY, CONV_DUR, CONV_TP) else {a: w}
        if ret is None and thrown is None:
            raise AnalysisError('exception of unknown origin in %s' % name)
        mxthrow = bool(ev) and ev[-1][6] == 'throw'

        def ob(rule, ok, msg):
            return I.ob(st, rule, ok, '%s: %s' % (name, msg))

        def nothrow():
            return ob('own', ret is not None, 'throws %s where it must not' % (thrown[1] if thrown else ''))

        if code in (CTOR, CTOR_ADOPT, CTOR_DEFER):
            nothrow()
            ob('own', not ev, 'performs mutex operations: ' + self.evs(ev))
            post[a] = ('W', NULL if code == CTOR else m, 1 if code == CTOR_ADOPT else 0)
        elif code in (CTOR_LOCK, CTOR_TRY, CTOR_DUR, CTOR_TP):
            ok = ob('own', self.match_acq(ev, m, 0, mode, code), 'must call exactly one acquisition of its mutex in %s mode with its argument; mutex operations: %s' % (MODE[mode], self.evs(ev)))
            if ok and mxthrow:
                ob('own', ret is None, 'the exception of the mutex operation is lost')
                post[a] = None
            else:
                nothrow()
                post[a] = ('W', m, 1 if ok and ev[0][6] == 'ok' else 0) if ret is not None else None
        elif code in (LOCK, TRY, TIMED_D, TIMED_P, FOR, UNTIL):
            if w[1] == NULL or w[2]:
                want = EPERM if w[1] == NULL else EDEADLK
                self.misuse(I, st, name, ret, thrown, ev, want)
            else:
                ob('misuse', not (ret is None and not mxthrow), 'throws %s although the call is legal' % (thrown[1:] if thrown else '',))
                ok = ob('own', self.match_acq(ev, w[1], 0, mode, code), 'must call exactly one acquisition of its mutex in %s mode with its argument; mutex operations: %s' % (MODE[mode], self.evs(ev)))
                if ok:
                    r = ev[0][6]
                    ob('own', (ret is None) == (r == 'throw'), 'mutex operation %s but the call %s' % (r, 'throws' if ret is None else 'returns'))
                    if r != 'throw' and ret is not None:
                        if code != LOCK:
                            ob('own', ret == (1 if r == 'ok' else 0), 'returns %s although the mutex operation %s' % (bool(ret), 'acquired' if r == 'ok' else 'did not acquire'))
                    post[a] = ('W', w[1], 1 if r == 'ok' else 0)
        elif code == UNLOCK:
            if w[1] == NULL or not w[2]:
                self.misuse(I, st, name, ret, thrown, ev, EPERM)
            else:
                ob('misuse', ret is not None, 'throws although the call is legal')
                ob('own', len(ev) == 1 and ev[0][1] == w[1] and ev[0][2] == mode and ev[0][3] == 0, 'must release its mutex once in %s mode; mutex operations: %s' % (MODE[mode], self.evs(ev)))
                post[a] = ('W', w[1], 0)
        elif code == DTOR:
            nothrow()
            if w[2]:
                ob('own', len(ev) == 1 and ev[0][1] == w[1] and ev[0][2] == mode and ev[0][3] == 0, 'must release its mutex once in %s mode; mutex operations: %s' % (MODE[mode], self.evs(ev)))
            else:
                ob('own', not ev, 'of a lock that owns nothing performs mutex operations: ' + self.evs(ev))
            post[a] = None
        elif code == RELEASE:
            nothrow()
            ob('own', not ev, 'performs mutex operations: ' + self.evs(ev))
            r = st.obs.get('rel')
            ob('own', r is not None and r[1] == w[1], 'must return the associated mutex')
            post[a] = ('W', NULL, 0)
        elif code in (SWAP, FSWAP):
            nothrow()
            ob('own', not ev, 'performs mutex operations: ' + self.evs(ev))
            post[a], post[b] = src, w
        elif code == MOVECTOR:
            nothrow()
            ob('own', not ev, 'performs mutex operations: ' + self.evs(ev))
            post[a], post[b] = src, ('W', NULL, 0)
        elif code == MOVEASSIGN:
            nothrow()
            if a == b:
                ob('own', not ev, 'to itself performs mutex operations: ' + self.evs(ev))
            elif not ev:
                if w[2]:
                    post[a], post[b] = src, w        # swapped
                else:
                    post[a] = src
                    post[b] = ('any', ('W', NULL, 0), w)
            else:
                ok = ob('own', w[2] and len(ev) == 1 and ev[0][1] == w[1] and ev[0][2] == mode and ev[0][3] == 0, 'may only release what the target owned; mutex operations: ' + self.evs(ev))
                post[a], post[b] = src, ('W', NULL, 0)
        elif code in (CONV, CONV_ASSIGN, CONV_TRY, CONV_DUR, CONV_TP):
            self.conversion(I, st, code, a, b, w, src, mode, ev, ret, thrown, mxthrow, post, ob)
        else:
            raise AnalysisError('operation %s' % code)
        for k, v in post.items():
            st.obs[('w', k)] = v
        st.obs['conv'] = 1 if code >= CONV else 0
        for k in ('op', 'ev', 'thrown', 'rel'):
            st.obs.pop(k, None)
        st.obs['last'] = code
        return [(st, None)]

    def conversion(self, I, st, code, a, b, w, src, mode, ev, ret, thrown, mxthrow, post, ob):
        smode = self.modes[b]
        rel = []
        cv = ev
        if code == CONV_ASSIGN and w[2]:
            # the previous hold of the target is given up once
            rel = [e for e in ev if e[3] == 0]
            cv = tuple(e for e in ev if e[3] != 0)
        if src[2]:
            ok = ob('conv', self.match_acq(cv, src[1], smode, mode, code), 'from an owning %s lock must call exactly the %s->%s operation of its mutex; mutex operations: %s' % (MODE[smode], MODE[smode], MODE[mode], self.evs(ev)))
            r = cv[0][6] if ok else 'ok'
        else:
            ob('conv', not cv, 'from a lock that owns nothing performs mutex operations: ' + self.evs(ev))
            r = 'none'
        if r == 'throw':
            ob('conv', ret is None, 'the exception of the mutex operation is lost')
            ob('conv', not rel, 'that fails gives up what the target owned')
            if code != CONV_ASSIGN:
                post[a] = None
            return                      # source and target unchanged
        ob('conv', ret is not None, 'throws %s' % (thrown[1] if thrown else ''))
        if r == 'false':
            post[a] = ('W', NULL, 0)
            return                      # source unchanged
        post[a] = ('W', src[1], 1 if r == 'ok' else 0)
        post[b] = ('W', NULL, 0)
        if code == CONV_ASSIGN and w[2]:
            ob('conv', len(rel) == 1 and rel[0][1] == w[1] and rel[0][2] == mode, 'must release what the target owned exactly once; mutex operations: ' + self.evs(ev))

    def misuse(self, I, st, name, ret, thrown, ev, want):
        n = {EPERM: 'operation_not_permitted', EDEADLK: 'resource_deadlock_would_occur'}[want]
        ok = ret is None and thrown is not None and re.search(r'(^|::)lock_error$', thrown[1]) is not None and thrown[2] is not None and thrown[2][1] == want
        I.ob(st, 'misuse', ok, '%s: misuse must throw lock_error with %s; it %s' % (name, n, 'returns' if ret is None and not thrown else ('throws %s %s' % (thrown[1], thrown[2]) if thrown else 'returns')))
        I.ob(st, 'misuse', not ev, '%s: misuse performs mutex operations: %s' % (name, self.evs(ev)))

    def done(self, I, st, args, i, f):
        return self.finish(I, st, args[0])

    def threw(self, I, st, args, i, f):
        return self.finish(I, st, None)

    def state(self, I, st, args, i, f):
        idx, m, owns, b, nb = args
        w = self.w(st, idx)
        rule = 'conv' if st.obs.get('conv') else 'own'
        last = NAMES[st.obs.get('last', 0)]
        if w is None:
            raise AnalysisError('state of a dead lock')
        if w[0] == 'any':
            for c in w[1:]:
                if (m, owns) == (c[1], c[2]):
                    w = c
                    break
            else:
                w = w[1]
            st.obs[('w', idx)] = w
        mis = st.obs.get('last') in (LOCK, TRY, TIMED_D, TIMED_P, FOR, UNTIL, UNLOCK)
        ok = I.ob(st, rule, m == w[1] and owns == w[2], 'after %s lock #%d reports mutex %s, owns_lock %s; it must report mutex %s, owns_lock %s' % (last, idx, m, owns, w[1], w[2]))
        if mis and not ok:
            I.report(st, 'misuse', 'after %s the state of the lock is wrong' % last)
        I.ob(st, rule, b == owns and nb == 1 - (owns if isinstance(owns, int) else 0), 'operator bool / operator! disagree with owns_lock()')
        return [(st, None)] if ok else [(st, 'END')]


def wrap(m, entry, modes):
    o = LockObs(modes)
    I = Interp(m, o.models(), o)
    I.start(entry)
    if not I.obligations:
        raise AnalysisError('%s: nothing was analysed' % entry)
    return I


class GuardObs(Observer):
    def models(self):
        return {'vf_mx': self.mx, 'vf_body': self.body, 'vf_guard': self.guard}

    def mx(self, I, st, args, i, f):
        m, frm, to, kind, tk = args
        outs = []
        for res in ('ok',) if to == 0 else ('ok', 'throw') if kind == 0 else ('ok', 'throw', 'false'):
            s = st.copy()
            s.obs['ev'] = s.obs.get('ev', ()) + (('V', m, frm, to, kind, res),)
            I.note(s, 'mutex operation %s->%s %s' % (MODE[frm], MODE[to], res))
            outs.append((s, Throw(('E', 'vf::mutex_error', None)) if res == 'throw' else int(res == 'ok')))
        return outs

    def body(self, I, st, args, i, f):
        s = st.copy()
        I.note(s, 'the protected block throws')
        st.obs['body'] = 1
        s.obs['body'] = 2
        return [(st, None), (s, Throw(('E', 'vf::body_error', None)))]

    def on_abort(self, I, st, kind, msg):
        ev = st.obs.get('ev', ())
        # re-acquisition that throws while unwinding terminates: outside the contract
        if not (ev and ev[-1][5] == 'throw' and st.obs.get('body') == 2):
            I.report(st, 'guard', 'the guard ends in %s' % kind)

    def guard(self, I, st, args, i, f):
        ph, m, how = args
        mode, kind = how % 10, how // 10      # kind 0 acquire, 1 adopt, 2 release
        ev = st.obs.get('ev', ())
        if ph == 0:
            st.obs['ev'] = ()
            return [(st, None)]
        seq = [(e[1] == m, e[2], e[3], e[4], e[5]) for e in ev]
        acq = (True, 0, mode, 0, 'ok')
        rel = (True, mode, 0, 0, 'ok')
        bad = (True, 0, mode, 0, 'throw')
        d = '; '.join('%s->%s %s' % (MODE[e[2]], MODE[e[3]], e[5]) for e in ev) or 'none'
        if ph in (1, 2):
            want = [[acq], [], [rel]][kind]
            I.ob(st, 'guard', seq == want, 'inside the guarded block the mutex operations must be %s; they are: %s' % (['one acquisition', 'none', 'one release'][kind], d))
        else:
            body = st.obs.get('body', 0)
            if not body:
                # construction threw
                I.ob(st, 'guard', kind == 0 and seq == [bad], 'construction that throws must leave nothing acquired and release nothing; mutex operations: %s' % d)
            else:
                full = [[[acq, rel]], [[rel]], [[rel, acq], [rel, bad]]][kind]
                I.ob(st, 'guard', seq in full, 'over the whole scope the mutex operations must be %s; they are: %s' % (['acquire, release', 'release', 'release, acquire'][kind], d))
                if kind != 2:
                    I.ob(st, 'guard', (ph == 4) == (body == 2), 'an exception of the guarded block is lost or invented')
        return [(st, None)]


def guards(m, entry):
    o = GuardObs()
    I = Interp(m, o.models(), o)
    I.start(entry)
    if not I.obligations:
        raise AnalysisError('%s: nothing was analysed' % entry)
    return I


STD = [('', ()), ('NDEBUG', ('-DNDEBUG',)), ('std::system_error', ('-DBOOST_SYNC_USE_STD_SYSTEM_ERROR',)), ('C++11', ('-std=gnu++11',)), ('C++98', ('-std=gnu++98',))]
ASSUME = ['the mutex models the documented lockable interface: acquisitions succeed, report failure or throw, releases do not throw',
          'clang 18 front end and LLVM IR semantics; x86-64 Linux']


def jobs_single(cfgs):
    return [Job('locks.cpp', e, wrap, fl, c, modes=md) for c, fl in cfgs
            for e, md in (('drv_unique', (1, 1)), ('drv_shared', (2, 2)), ('drv_upgrade', (3, 3)), ('drv_self_unique', (1, 1)), ('drv_self_shared', (2, 2)), ('drv_self_upgrade', (3, 3)))]


def jobs_conv(cfgs):
    return [Job('locks.cpp', e, wrap, fl, c, modes=md) for c, fl in cfgs
            for e, md in (('drv_conv_us', (1, 2)), ('drv_conv_ug', (1, 3)), ('drv_conv_sg', (2, 3)))]


def c04(out):
    out.absorb(*run_jobs(jobs_single(STD)), want=lambda r: r == 'own')
    out.assumptions = ASSUME
    return ('typestate analysis over all paths of every operation of unique_lock, shared_lock and upgrade_lock, from every abstract state reachable by any '
            'sequence of operations on two wrappers and two mutexes (fixpoint of a most general client loop); rule: each operation performs exactly the mutex '
            'operations its specification allows and mutex()/owns_lock()/operator bool report exactly the specified ownership afterwards, for every outcome of the mutex operation')


def c05(out):
    out.absorb(*run_jobs(jobs_conv(STD)), want=lambda r: r == 'conv')
    out.assumptions = ASSUME
    return ('typestate analysis of every conversion between the lock types from every reachable pair of wrapper states; rule: exactly the one atomic '
            'mode-changing mutex operation iff the source owns, and the specified ownership of source and target after success, failure and exception')


def c06(out):
    out.absorb(*run_jobs(jobs_single(STD)), want=lambda r: r == 'misuse')
    out.assumptions = ASSUME
    return ('typestate analysis of every operation of the three lock types in every reachable state; rule: misuse throws lock_error with the specified '
            'code before any mutex operation and without changing the wrapper, and legal calls throw nothing but the mutex\'s own exception')


def c07(out):
    ents = ('drv_lock_guard', 'drv_lock_guard_adopt', 'drv_shared_lock_guard', 'drv_shared_lock_guard_adopt', 'drv_unlock_guard', 'drv_unlock_guard_ul')
    out.absorb(*run_jobs([Job('locks.cpp', e, guards, fl, c) for c, fl in STD for e in ents]), want=lambda r: r == 'guard')
    out.assumptions = ASSUME
    return ('path-sensitive analysis of each guard around a block that returns or throws, with acquisitions that succeed or throw; rule: the sequence of '
            'mutex operations on every path is exactly the specified pairing')
