"""Primitives built on one atomic word: spin_mutex, shared_spin_mutex, futex-based events (C02, C03, C12, C13, C14, C15, C17, C25)."""
import re
from absint import (State, Frame, Interp, Observer, Throw, AnalysisError, isptr, isnum, NULL, ptr, ladd, lsub, lmul, INF)
from vf import Job, run_jobs
from common import *
from common import u

ACQ = ('acquire', 'acq_rel', 'seq_cst')
REL = ('release', 'acq_rel', 'seq_cst')
PVT = 128


class Bad:
    """result of a derivation that already shows a violation"""

    def __init__(self, rule, where, msg, lost=False, more=()):
        # lost: the signal is lost as well
        rs = [rule] + (['wake'] if lost else []) + [r for r in more if r != rule]
        self.reports = [{'rule': r, 'where': where, 'msg': msg, 'stack': [], 'trace': []} for r in rs]
        self.obligations, self.oblig_sites, self.funcs_seen, self.nstates, self.steps, self.ended, self.seen = 1, {(rule, where): 1}, set(), 0, 0, 0, {}


class Live:
    """mixin: 'stays' phase in which nobody else changes the word; the operation must then end.
    The joins passed are the nodes of a graph; a cycle of it is a way to loop for ever."""
    idle = True          # also report loops in which the state is not read at all
    graph = None

    def touch(self, st):
        if st.aux and not st.aux[1]:
            self.exits.add(st.aux[0])
            st.aux = (st.aux[0], True)

    def on_join(self, I, st, key):
        if self.graph is None:
            self.graph, self.exits = {}, set()
        seq = st.obs.get('seq') == 1
        if not seq and not self.idle:
            return None
        n = hash((key, seq))
        if st.aux:
            e = self.graph.setdefault(st.aux[0], (seq, False, {}, None))[2]
            e[n] = e.get(n, False) or st.aux[1]
        if n not in self.graph or self.graph[n][3] is None:
            s = State()
            s.trace = st.trace
            for fr in st.frames:
                f = Frame(fr.fn)
                f.blk, f.idx, f.call = fr.blk, fr.idx, fr.call
                s.frames.append(f)
            wid = any(isinstance(x, tuple) and x[:1] == ('widen',) for x in st.lab.values())
            self.graph[n] = (seq, wid, self.graph[n][2] if n in self.graph else {}, s)
        st.aux = (n, False)
        return None

    def on_finish(self, I):
        g = self.graph or {}
        for phase in (True, False):
            if phase:
                adj = {n: [m for m in d[2] if m in g and g[m][0]] for n, d in g.items() if d[0]}
            else:
                adj = {n: [m for m, acc in d[2].items() if not acc and m in g and not g[m][0]] for n, d in g.items() if not d[0]}
            for comp in sccs(adj):
                inner = [(a, b) for a in comp for b in adj[a] if b in comp]
                if not inner:
                    continue
                wid = any(g[a][1] for a in comp)
                acc = any(g[a][2][b] for a, b in inner)
                # a counter that was widened may end a loop which does not look at the state
                if wid and not acc and any(a in self.exits or any(b not in comp for b in g[a][2]) for a in comp):
                    continue
                n = min(comp, key=lambda a: len(g[a][3].frames))
                if phase:
                    I.report(g[n][3], 'live', 'the operation keeps looping although %s' % self.stay_text)
                else:
                    I.report(g[n][3], 'live', 'the operation keeps looping without looking at the state again')


def sccs(adj):
    """strongly connected components (iterative Tarjan)"""
    idx, low, stack, on, out = {}, {}, [], set(), []
    for r in adj:
        if r in idx:
            continue
        idx[r] = low[r] = len(idx)
        stack.append(r)
        on.add(r)
        work = [(r, iter(adj[r]))]
        while work:
            n, it = work[-1]
            for m in it:
                if m not in idx:
                    idx[m] = low[m] = len(idx)
                    stack.append(m)
                    on.add(m)
                    work.append((m, iter(adj[m])))
                    break
                if m in on:
                    low[n] = min(low[n], idx[m])
            else:
                work.pop()
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[n])
                if low[n] == idx[n]:
                    c = set()
                    while True:
                        m = stack.pop()
                        on.discard(m)
                        c.add(m)
                        if m == n:
                            break
                    out.append(c)
    return out


# ---------------------------------------------------------------- spin mutexes
class SpinObs(Live, WordObs):
    """spin_mutex: two values S0 (free) and L (held)"""
    stay_text = 'the mutex stays free'

    def __init__(self, off, size, S0, L, op):
        WordObs.__init__(self, off, size, [])
        self.S0, self.L, self.op = S0, L, op

    def values(self, st):
        if st.obs['own']:
            return [self.L]
        return [self.S0, self.L]

    def on_atomic(self, I, st, i, op, p, sz, ty, order, v, exp, weak, ordf, done):
        if not self.isword(p):
            return None
        if sz != self.size:
            raise AnalysisError('the state word is accessed with another size')
        outs = []
        states = []
        if not st.obs.get('seq') and self.op == 'lock':
            s = st.copy()
            s.obs['seq'] = 1
            s.obs['cur'] = self.S0
            I.note(s, 'from here on the mutex stays free')
            states.append(s)
        states.append(st)
        for s0 in states:
            for old in ([s0.obs['cur']] if s0.obs.get('seq') else self.values(s0)):
                s = s0.copy()
                if op == 'load':
                    self.see(I, s, old)
                    done(s, old)
                    outs.append(s)
                    continue
                if op == 'store':
                    I.ob(s, 'own', s.obs['own'] == 1, 'stores to the state of a mutex that the thread may not own (a concurrent change is lost)')
                    self.write(I, s, old, v, order)
                    if i['op'] == 'store':
                        s.frames[-1].idx += 1
                    else:
                        done(s, None)
                    outs.append(s)
                    continue
                if op == 'cmpxchg':
                    if not isinstance(exp, int):
                        raise AnalysisError('compare with an unknown value')
                    eq = u(exp, self.bits) == u(old, self.bits)
                    if eq:
                        if weak and not s.obs.get('seq'):
                            s2 = s.copy()
                            done(s2, ('A', old, 0))      # spurious failure
                            outs.append(s2)
                        self.see(I, s, old)
                        self.write(I, s, old, v, order)
                        done(s, ('A', old, 1))
                    else:
                        self.see(I, s, old)
                        done(s, ('A', old, 0))
                    outs.append(s)
                    continue
                self.see(I, s, old)
                new = self.compute(I, s, op, old, v)
                self.write(I, s, old, new, order)
                done(s, old)
                outs.append(s)
        return outs

    def see(self, I, s, old):
        if u(old, self.bits) == u(self.L, self.bits) and not s.obs['own']:
            s.obs['held'] = 1

    def write(self, I, s, old, new, order):
        if not isinstance(new, int):
            raise AnalysisError('unknown value stored')
        old, new = u(old, self.bits), u(new, self.bits)
        S0, L = u(self.S0, self.bits), u(self.L, self.bits)
        if s.obs.get('seq'):
            s.obs['cur'] = new
        I.ob(s, 'own', new in (S0, L), 'the state becomes %#x, which is neither free nor held' % new)
        if old == new:
            return
        if not s.obs['own']:
            if I.ob(s, 'own', (old, new) == (S0, L), 'a thread that does not own the mutex makes it free'):
                s.obs['own'] = 1
                s.obs['acq'] = min(2, s.obs['acq'] + 1)
                s.obs['acqord'] = 1 if order in ACQ else 0
        else:
            if (old, new) == (L, S0):
                s.obs['own'] = 0
                s.obs['rel'] = min(2, s.obs['rel'] + 1)
                s.obs['relord'] = 1 if order in REL or s.obs.get('relfence') else 0

    def on_fence(self, I, st, order, ins):
        if ins.get('ss', 1) != 1:
            return
        if order in REL:
            st.obs['relfence'] = 1
        if order in ACQ and st.obs['own']:
            st.obs['acqord'] = 1

    def on_abort(self, I, st, kind, msg):
        I.report(st, 'own', 'legal use ends in %s' % kind)

    def on_end(self, I, st, how, v):
        o = st.obs
        if how != 'return':
            I.report(st, 'own', 'throws')
            return
        # the frame is gone: attribute to the operation
        op = self.op

        def ob(rule, ok, msg):
            endob(I, self, st, rule, ok, msg)
        if op in ('lock', 'try'):
            got = op == 'lock' or v == 1
            if op == 'try' and v not in (0, 1):
                raise AnalysisError('unknown result')
            if got:
                ob('own', o['own'] == 1 and o['acq'] == 1, '%s although it did not make the free-to-held transition' % ('returns' if op == 'lock' else 'returns true'))
                ob('order', o.get('acqord') == 1, 'acquires the mutex without acquire ordering')
            else:
                ob('own', o['own'] == 0 and o['acq'] == 0, 'returns false but the mutex was taken')
                ob('own', o.get('held') == 1, 'returns false although the mutex was never observed held')
        elif op == 'unlock':
            ob('own', o['own'] == 0 and o['rel'] == 1, 'does not make the mutex free exactly once')
            ob('order', o.get('relord') == 1, 'releases the mutex without release ordering')
        elif op == 'dtor':
            pass


def endob(I, obs, st, rule, ok, msg):
    """obligation at the end of an operation (no frame left)"""
    I.obligations += 1
    k = (rule, obs.where)
    I.oblig_sites[k] = I.oblig_sites.get(k, 0) + 1
    if not ok:
        tr, t = [], st.trace
        while t and len(tr) < 60:
            tr.append(t[1])
            t = t[0]
        key = (rule, obs.where, msg)
        if key not in I._rkeys:
            I._rkeys.add(key)
            I.reports.append({'rule': rule, 'where': obs.where, 'msg': msg, 'stack': [], 'trace': list(reversed(tr))})


def where_of(m, entry):
    """location of the library operation an entry point calls (the last member function called by the driver entry)"""
    f = m.funcs[entry]
    best = None
    for b in f.blocks:
        for i in b:
            if i['op'] in ('call', 'invoke') and i['fn'][0] == 'g':
                g = m.funcs.get(i['fn'][1])
                if g and not g.decl and '/boost/sync/' in g.file:
                    best = g
    if best is None:
        return entry
    from absint import short
    return '%s:%s (%s)' % (best.file, best.line, short(best.dem))


def finish_run(m, o, entry, init, args=()):
    I = Interp(m, o.models(), o)
    o.where = where_of(m, entry)
    I.start(entry, (ptr(o.OBJ),) + tuple(args), init)
    if not I.obligations and not I.reports:
        raise AnalysisError('%s: nothing was analysed' % entry)
    return I


def spin(m, entry, op):
    try:
        return spin_(m, entry, op)
    except NotEnding as e:
        return Bad('own', where_of(m, e.entry), 'does not return in the sequence %s on a new mutex' % ', '.join(e.seq))


def spin_(m, entry, op):
    mem0, d, hits, size = derive(m, 'spin', {'l': ['lock'], 'lu': ['lock', 'unlock'], 'lt': ['lock', 'try'], 't': ['try']})
    w = where_of(m, 'spin_lock')
    if len(hits) != 1:
        raise AnalysisError('spin_mutex has %d atomic words' % len(hits))
    off = hits.pop()

    def word(mm):
        if off not in mm:
            return None
        return mm[off][1]
    S0, L = word(mem0), word(d['l'][0])
    if not isinstance(S0, int) or not isinstance(L, int):
        return Bad('own', w, 'the state is not initialized')
    if S0 == L:
        return Bad('own', w, 'lock() on a new mutex leaves it unchanged: a second lock() would also succeed')
    if word(d['lu'][0]) != S0:
        return Bad('own', where_of(m, 'spin_unlock'), 'unlock() does not restore the free state')
    if d['lt'][1] != 0:
        return Bad('own', where_of(m, 'spin_try'), 'try_lock() on a held mutex returns true')
    if d['t'][1] != 1:
        return Bad('own', where_of(m, 'spin_try'), 'try_lock() on a free mutex returns false')
    o = SpinObs(off, size, S0, L, op)

    def init(I, st):
        st.obs.update(own=1 if op == 'unlock' else 0, acq=0, rel=0)
        st.mem[o.OBJ] = {k: v for k, v in mem0.items()}
        I.obligations += 5
        I.oblig_sites[('own', w)] = 5
    return finish_run(m, o, entry, init)


class SSpinObs(Live, WordObs):
    """shared_spin_mutex: writer bit and reader count.  own: 0 none, 1 exclusive, 2 shared"""

    def __init__(self, off, size, S0, L, one, op):
        rs = one.bit_length() - 1
        wsft = u(L - S0, 8 * size).bit_length() - 1
        self.rb = (wsft - rs) if wsft > rs else 8 * size - rs
        WordObs.__init__(self, off, size, [Field('readers', rs, self.rb), Field('writer', wsft, 1 if wsft > rs and wsft == 8 * size - 1 else 1)])
        self.S0, self.L, self.op = S0, L, op
        self.stay_text = 'the mutex stays free' if op == 'lock' else 'no writer holds the mutex and its state is stable'

    def cases(self, I, st, why):
        """possible current contents -> [(state, value)]"""
        own = st.obs['own']
        out = []
        R, W = self.fields
        if own != 2:
            s = st.copy()
            out.append((s, u(self.L, self.bits)))
        if own != 1:
            s = st.copy()
            r = s.fresh(('readers', why), 1 if own == 2 else 0, R.max - 1)
            out.append((s, lmul(r, R.one)))
        res = []
        for s, v in out:
            prev = s.obs.get('last')
            s.obs['prev'] = prev if prev is not None else 0
            s.obs['last'] = ('V', v)
            res.append((s, v))
        return res

    def see(self, I, s):
        v = s.obs['last'][1]
        if s.obs['own']:
            return
        fs = self.decode(I, s, v)
        if fs[1] == 1:
            s.obs['writer'] = 1
        if s.rng(s.obs['last'][1])[0] > 0:
            s.obs['busy'] = 1
        pv = s.obs.get('prev')
        if pv:
            d = lsub(s.obs['last'][1], pv[1])
            if not s.can_be(d, 0):
                s.obs['changed'] = 1

    def on_atomic(self, I, st, i, op, p, sz, ty, order, v, exp, weak, ordf, done):
        if not self.isword(p):
            return None
        if sz != self.size:
            raise AnalysisError('the state word is accessed with another size')
        outs = []
        if st.obs.get('seq'):
            return self.seq_atomic(I, st, i, op, p, sz, ty, order, v, exp, weak, ordf, done)
        if self.op in ('lock', 'lock_shared'):
            s = st.copy()
            s.obs['seq'] = 1
            if self.op == 'lock':
                cur = self.S0
            else:
                cur = lmul(s.fresh(('readers', 'stable'), 0, self.fields[0].max - 1), self.fields[0].one)
            for k in ('last', 'prev', 'busy', 'changed', 'writer'):
                s.obs.pop(k, None)
            I.store(s, p, sz, cur, 0, ty)
            I.note(s, 'from here on %s' % self.stay_text)
            r = self.seq_atomic(I, s, i, op, p, sz, ty, order, v, exp, weak, ordf, done)
            outs += r
        for s, cur in self.cases(I, st, op):
            if op == 'load':
                self.see(I, s)
                done(s, s.obs['last'][1])
                outs.append(s)
            elif op == 'store':
                I.ob(s, 'own', s.obs['own'] == 1, 'stores to the state while other threads may change it (their change is lost)')
                self.write(I, s, s.obs['last'][1], v, order)
                if i['op'] == 'store':
                    s.frames[-1].idx += 1
                else:
                    done(s, None)
                outs.append(s)
            elif op == 'cmpxchg':
                d = lsub(cur, exp)
                if isinstance(d, int):
                    d %= 1 << self.bits
                    d = 0 if d == 0 else d
                s2 = s.copy()
                s2.obs['#x'] = ('X', v)
                if s2.assume(d, 0, 0):
                    self.see(I, s2)
                    nv = s2.obs.pop('#x')[1]
                    self.write(I, s2, s2.obs['last'][1], nv, order)
                    done(s2, ('A', s2.obs['last'][1], 1))
                    outs.append(s2)
                if weak:
                    s3 = s.copy()
                    if not (isinstance(d, int) and d != 0):
                        # spurious failure: the value may equal the expected one
                        self.see(I, s3)
                        done(s3, ('A', s3.obs['last'][1], 0))
                        outs.append(s3)
                if s.assume_ne(d, 0):
                    self.see(I, s)
                    done(s, ('A', s.obs['last'][1], 0))
                    outs.append(s)
            else:
                self.see(I, s)
                new = self.compute(I, s, op, s.obs['last'][1], v)
                self.write(I, s, s.obs['last'][1], new, order)
                done(s, s.obs['last'][1])
                outs.append(s)
        return outs

    def write(self, I, s, old, new, order):
        """ownership transition"""
        R, W = self.fields
        d = lsub(new, old)
        if isinstance(d, int) and d % (1 << self.bits) == 0:
            return
        own = s.obs['own']
        S0, L = u(self.S0, self.bits), u(self.L, self.bits)
        free = isinstance(old, int) and u(old, self.bits) == S0 or (not isinstance(old, int) and s.must_be(old, S0))
        newL = isinstance(new, int) and u(new, self.bits) == L
        lo, hi = s.rng(old)
        readers_only = (not isinstance(old, int) and hi < W.one or isinstance(old, int) and u(old, self.bits) < W.one) if W.shift > R.shift else True
        if own == 0:
            if newL:
                if I.ob(s, 'own', free, 'exclusive ownership is taken although the mutex may not be free'):
                    pass
                s.obs['own'] = 1
            elif isinstance(d, int) and u(d, self.bits) == R.one:
                I.ob(s, 'own', readers_only, 'a reader is added although a writer may hold the mutex')
                I.ob(s, 'own', s.rng(old)[1] < R.max * R.one, 'the reader count can overflow')
                s.obs['own'] = 2
            else:
                I.report(s, 'own', 'a thread that owns nothing changes the state from %s by %s' % (fmt(old), fmt(d)))
                return
            s.obs['acq'] = min(2, s.obs['acq'] + 1)
            s.obs['acqord'] = 1 if order in ACQ else 0
        elif own == 1:
            ok = I.ob(s, 'own', isinstance(new, int) and u(new, self.bits) == S0, 'releasing exclusive ownership leaves the state %s, not completely free' % fmt(new))
            s.obs['own'] = 0
            s.obs['rel'] = min(2, s.obs['rel'] + 1)
            s.obs['relord'] = 1 if order in REL or s.obs.get('relfence') else 0
        else:
            ok = I.ob(s, 'own', isinstance(d, int) and u(-d, self.bits) == R.one, 'releasing shared ownership changes the state by %s instead of removing exactly one reader' % fmt(d))
            s.obs['own'] = 0
            s.obs['rel'] = min(2, s.obs['rel'] + 1)
            s.obs['relord'] = 1 if order in REL or s.obs.get('relfence') else 0

    on_fence = SpinObs.on_fence
    on_abort = SpinObs.on_abort

    def on_end(self, I, st, how, v):
        o = st.obs
        if how != 'return':
            I.report(st, 'own', 'throws')
            return
        op = self.op

        def ob(rule, ok, msg):
            endob(I, self, st, rule, ok, msg)
        if o.get('seq'):
            ob('live', True, '')
            return
        want = {'lock': 1, 'try': 1, 'lock_shared': 2, 'try_shared': 2}.get(op)
        if want:
            got = op.startswith('lock') or v == 1
            if not op.startswith('lock') and v not in (0, 1):
                raise AnalysisError('unknown result')
            nm = 'exclusive' if want == 1 else 'shared'
            if got:
                ob('own', o['own'] == want and o['acq'] == 1, '%s although it did not take %s ownership' % ('returns' if v is None else 'returns true', nm))
                ob('order', o.get('acqord') == 1, 'takes %s ownership without acquire ordering' % nm)
            else:
                ob('own', o['own'] == 0 and o['acq'] == 0, 'returns false but changed the state')
                ok = o.get('busy') == 1 if want == 1 else (o.get('writer') == 1 or o.get('changed') == 1)
                ob('own', ok, 'returns false although no conflicting or changing owner was observed')
        elif op in ('unlock', 'unlock_shared'):
            ob('own', o['own'] == 0 and o['rel'] == 1, 'does not release the mutex exactly once')
            ob('order', o.get('relord') == 1, 'releases the mutex without release ordering')


def fmt(v):
    if isinstance(v, int):
        return hex(v) if abs(v) > 9 else str(v)
    return 'a variable value'


def sspin(m, entry, op):
    try:
        return sspin_(m, entry, op)
    except NotEnding as e:
        return Bad('own', where_of(m, e.entry), 'does not return in the sequence %s on a new mutex' % ', '.join(e.seq))


def sspin_(m, entry, op):
    mem0, d, hits, size = derive(m, 'sspin', {'l': ['lock'], 'lu': ['lock', 'unlock'], 'lt': ['lock', 'try'], 't': ['try'], 's': ['lock_shared'], 'ss': ['lock_shared', 'lock_shared'],
                                             'su': ['lock_shared', 'unlock_shared'], 'ssu': ['lock_shared', 'lock_shared', 'unlock_shared'], 'st': ['lock_shared', 'try'], 'ls': ['lock', 'try_shared'], 'ts': ['try_shared'], 'sts': ['lock_shared', 'try_shared']})
    if len(hits) != 1:
        raise AnalysisError('shared_spin_mutex has %d atomic words' % len(hits))
    off = hits.pop()

    def word(mm):
        return mm[off][1] if off in mm else None
    S0, L, S1, S2 = word(mem0), word(d['l'][0]), word(d['s'][0]), word(d['ss'][0])
    W = where_of
    if not all(isinstance(x, int) for x in (S0, L, S1, S2)):
        return Bad('own', W(m, 'sspin_lock'), 'the state is not initialized')
    b = 8 * size
    one = u(S1 - S0, b)
    checks = [
        (S0 == 0, 'sspin_ctor', 'a new mutex is not free (state 0 expected by no holder)') if False else (True, 'sspin_ctor', ''),
        (S0 != L, 'sspin_lock', 'lock() on a new mutex leaves it unchanged'),
        (one != 0 and one & (one - 1) == 0, 'sspin_lock_shared', 'lock_shared() does not add one reader'),
        (u(S2 - S1, b) == one, 'sspin_lock_shared', 'a second reader does not change the state like the first'),
        (word(d['lu'][0]) == S0, 'sspin_unlock', 'unlock() does not restore the free state'),
        (word(d['su'][0]) == S0, 'sspin_unlock_shared', 'unlock_shared() of the only reader does not restore the free state'),
        (word(d['ssu'][0]) == S1, 'sspin_unlock_shared', 'unlock_shared() of one of two readers does not leave one reader'),
        (d['lt'][1] == 0, 'sspin_try', 'try_lock() succeeds on a mutex held exclusively'),
        (d['st'][1] == 0, 'sspin_try', 'try_lock() succeeds on a mutex held by a reader'),
        (d['ls'][1] == 0, 'sspin_try_shared', 'try_lock_shared() succeeds on a mutex held exclusively'),
        (d['ts'][1] == 1, 'sspin_try_shared', 'try_lock_shared() fails on a free mutex'),
        (d['sts'][1] == 1, 'sspin_try_shared', 'try_lock_shared() fails beside another reader'),
        (d['t'][1] == 1, 'sspin_try', 'try_lock() fails on a free mutex'),
    ]
    for ok, e, msg in checks:
        if not ok:
            return Bad('own', W(m, e), msg)
    if u(S0, b) != 0 or u(L, b) & (u(L, b) - 1):
        raise AnalysisError('shared_spin_mutex: representation not understood (free=%#x exclusive=%#x)' % (u(S0, b), u(L, b)))
    o = SSpinObs(off, size, S0, L, one, op)

    def init(I, st):
        st.obs.update(own={'unlock': 1, 'unlock_shared': 2}.get(op, 0), acq=0, rel=0)
        st.mem[o.OBJ] = {k: v for k, v in mem0.items() if k != off}
        I.obligations += len(checks)
        I.oblig_sites[('own', W(m, entry))] = len(checks)
    return finish_run(m, o, entry, init)


SPIN_OPS = (('spin_lock', 'lock'), ('spin_try', 'try'), ('spin_unlock', 'unlock'))
SSPIN_OPS = (('sspin_lock', 'lock'), ('sspin_try', 'try'), ('sspin_unlock', 'unlock'), ('sspin_lock_shared', 'lock_shared'), ('sspin_try_shared', 'try_shared'), ('sspin_unlock_shared', 'unlock_shared'))
SPIN_CFG = [('', ()), ('NDEBUG', ('-DNDEBUG',)), ('test-and-test-and-set', ('-DATOMIC_BOOL_LOCKFREE=2',)), ('test-and-test-and-set NDEBUG', ('-DATOMIC_BOOL_LOCKFREE=2', '-DNDEBUG'))]
ASSUME = ['C++11 memory model as implemented by clang 18 for the atomic operations; fewer than 2^31-1 simultaneous readers',
          'other threads change the word only through the library\'s own operations, whose transitions are checked by the same rules (rely/guarantee)']


def spin_jobs(cfgs):
    return [Job('word.cpp', e, spin, CXXFLAGS + fl, c, op=op) for c, fl in cfgs for e, op in SPIN_OPS]


def sspin_jobs(cfgs):
    return [Job('word.cpp', e, sspin, CXXFLAGS + fl, c, op=op) for c, fl in cfgs for e, op in SSPIN_OPS]


def c02(out):
    out.absorb(*run_jobs(spin_jobs(SPIN_CFG)), want=lambda r: r in ('own', 'live', 'atomic'))
    out.assumptions = ASSUME
    return ('rely/guarantee typestate analysis of every path of spin_mutex operations with the state word havocked at each access to any value other threads can leave; '
            'rules: ownership changes only by one atomic free-to-held transition of this thread, results match it, false only after observing the mutex held, and lock() leaves no loop once the mutex stays free')


def c03(out):
    out.absorb(*run_jobs(sspin_jobs(SPIN_CFG[:2])), want=lambda r: r in ('own', 'live', 'atomic'))
    out.assumptions = ASSUME
    return ('rely/guarantee typestate analysis of every path of shared_spin_mutex operations over a symbolic (writer, reader count) word havocked at each access; '
            'rules: exclusive ownership only from completely free, shared only by +1 with no writer, releases restore exactly, results match, loops end when the state permits')
