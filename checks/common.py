"""Shared observer: time, errno, clocks and the atomic word of a primitive."""
import re
from absint import (Interp, Observer, Throw, AnalysisError, isptr, isnum, NULL, UNDEF, ptr, ladd, lsub, lmul, latom, parts, mklin, INF, tsize)
from vf import Job, run_jobs

NS = 1000000000
EINTR, EAGAIN, EBUSY, EINVAL, EDEADLK, ETIMEDOUT, EPERM, EOVERFLOW, ENOMEM = 4, 11, 16, 22, 35, 110, 1, 75, 12
ERRNO = ('errno',)
# representable range of time values: +-292 years in nanoseconds, kept a little inside so that sums are exact
TMAX = 2 ** 62
CXXFLAGS = ('-DBOOST_FORCEINLINE=inline',)


def always(v):
    return lambda I, st, a, i, f: [(st, v)]


class World(Observer):
    """time and errno.  st.obs keys:
       'now'  last clock reading ('T', clock, ns value)      'nreads' number of clock readings (0,1,2=many)
    """

    def base_models(self):
        return {
            '__errno_location': lambda I, st, a, i, f: [(st, ptr(ERRNO))],
            'clock_gettime': self.clock_gettime,
            'nanosleep': self.sleep, 'usleep': self.sleep,
            'pthread_self': lambda I, st, a, i, f: [(st, ptr(('obj', 'self')))],
            re.compile(r'^(std::chrono::_V2::)(system|steady)_clock::now\(\)$'): self.chrono_now,
            re.compile(r'^boost::chrono::(system|steady)_clock::now\('): self.chrono_now,
            re.compile(r'^boost::sync::detail::pause\(\)$'): self.pause,
        }

    def pause(self, I, st, args, i, f):
        return [(st, None)]

    def sleep(self, I, st, args, i, f):
        if hasattr(self, 'blocked'):
            self.blocked(st)
        return [(st, 0)]

    def set_errno(self, I, st, v):
        I.store(st, ptr(ERRNO), 4, v, 0, 'i32')

    def clock_gettime(self, I, st, args, i, f):
        clk = args[0]
        if not isinstance(clk, int):
            raise AnalysisError('clock_gettime with an unknown clock')
        s = st.fresh(('clock', clk, 's'), 0, SMAX)
        n = st.fresh(('clock', clk, 'n'), 0, NS - 1)
        I.store(st, args[1], 8, s, 0, 'i64')
        I.store(st, args[1], 8, n, 8, 'i64')
        self.read_clock(I, st, {0: 'rt', 1: 'st'}.get(clk, 'clock%d' % clk), ladd(lmul(s, NS), n))
        return [(st, 0)]

    def chrono_now(self, I, st, args, i, f):
        clk = 'rt' if 'system_clock' in f.dem else 'st'
        v = st.fresh(('clock', clk), 0, SMAX * NS)
        self.read_clock(I, st, clk, v)
        if i['ty'] == 'void' or (args and isptr(args[0]) and i['ty'] == 'void'):
            I.store(st, args[0], 8, v, 0, 'i64')
            return [(st, None)]
        return [(st, v)]

    def read_clock(self, I, st, clk, v):
        pass


class Timing:
    """mixin: what a timed operation knows about its deadline.  st.obs:
       tm            ('TM', kind, argument in ns); kind 'dur' (duration), 'rt' / 'st' (time point of the realtime / steady clock), 'none' (untimed)
       c1.<clk>      first reading of a clock, made before anything blocked     cl.<clk> last reading     cf.<clk> 1: nothing blocked since
       ra.<clk>      reading of the realtime clock that followed the last reading of the steady clock with nothing blocking in between
       nblk          something blocked        exp  1: the native call reported that the deadline had passed"""

    def read_clock(self, I, st, clk, v):
        o = st.obs
        if clk not in ('rt', 'st'):
            return
        I.note(st, 'reads the %s clock' % {'rt': 'system', 'st': 'steady'}[clk])
        if not o.get('nblk') and 'c1.' + clk not in o:
            o['c1.' + clk] = ('V', v)
        o['cl.' + clk] = ('V', v)
        o['cf.' + clk] = 1
        o['exp'] = o.get('exp', 0)
        if clk == 'st':
            o.pop('ra.rt', None)
        elif 'ra.rt' not in o and o.get('cf.st'):
            o['ra.rt'] = ('V', v)

    def blocked(self, st):
        o = st.obs
        o['nblk'] = 1
        for k in ('cf.rt', 'cf.st'):
            if k in o:
                o[k] = 0
        # an anchor of an earlier round stays valid only together with its steady reading, which is kept in cl.st

    def kind(self, st):
        return st.obs['tm'][1]

    def deadlines(self, st):
        """acceptable absolute deadlines -> [(clock, value)]"""
        o = st.obs
        _, k, a = o['tm']
        out = []
        if k in ('rt', 'st'):
            out.append((k, a))
        if k == 'dur':
            for c in ('rt', 'st'):
                if 'c1.' + c in o:
                    out.append((c, ladd(o['c1.' + c][1], a)))
        if k == 'st' and 'ra.rt' in o and 'cl.st' in o:
            out.append(('rt', ladd(o['ra.rt'][1], lsub(a, o['cl.st'][1]))))
        return out

    def same(self, st, a, b):
        return st.must_be(lsub(a, b), 0)

    def deadline_ok(self, st, clk, v):
        """is the absolute time v of the clock an acceptable deadline now?"""
        return any(c == clk and self.same(st, v, d) for c, d in self.deadlines(st))

    def remaining_ok(self, st, v):
        """is v an acceptable remaining time for a wait that starts now?"""
        o = st.obs
        for c, d in self.deadlines(st):
            if o.get('cf.' + c) and self.same(st, v, lsub(d, o['cl.' + c][1])):
                return True
        return o['tm'][1] == 'dur' and not o.get('nblk') and self.same(st, v, o['tm'][2])

    def unexpired(self, st):
        """a reading of the clock since the last blocking shows that the deadline has not passed"""
        o = st.obs
        k = o['tm'][1]
        return any(o.get('cf.' + c) and not (k == 'st' and c != 'st') and st.rng(lsub(d, o['cl.' + c][1]))[0] >= 1 for c, d in self.deadlines(st))

    def expired(self, st):
        """evidence that the deadline has passed"""
        o = st.obs
        if o.get('exp') == 1:
            return True
        _, k, a = o['tm']
        for c, d in self.deadlines(st):
            if k == 'st' and c != 'st':
                continue
            if 'cl.' + c in o and st.rng(lsub(d, o['cl.' + c][1]))[1] <= 0:
                return True
        if k == 'dur' and st.rng(a)[1] <= 0:
            return True
        return False


SMAX = 2 ** 31
AMAX = 2 ** 61


def time_args(st, entry_kind):
    """arguments of a timed entry point and the timing descriptor -> (args, ('TM', kind, ns))"""
    if entry_kind is None:
        return (), ('TM', 'none', 0)
    if entry_kind == 'ts':
        s = st.fresh('arg.sec', -SMAX, SMAX)
        n = st.fresh('arg.nsec', 0, NS - 1)
        return (s, n), ('TM', 'rt', ladd(lmul(s, NS), n))
    a = st.fresh('arg', -AMAX, AMAX)
    return (a,), ('TM', {'dur': 'dur', 'sys': 'rt', 'std': 'st'}[entry_kind], a)


class StopPath(Exception):
    pass


# ---------------------------------------------------------------- boost::atomic member functions
BORD = {0: 'relaxed', 1: 'acquire', 2: 'acquire', 4: 'release', 6: 'acq_rel', 14: 'seq_cst'}
BATOM = re.compile(r'^boost::atomics::detail::base_atomic<[^()]*>::(load|store|exchange|compare_exchange_weak|compare_exchange_strong|fetch_add|fetch_sub|fetch_and|fetch_or|fetch_xor|'
                   r'add|sub|bitwise_and|bitwise_or|bitwise_xor|opaque_add|opaque_sub|opaque_and|opaque_or|opaque_xor|fetch_negate|add_and_test|sub_and_test|and_and_test|or_and_test)\(')


def m_boost_atomic(I, st, args, i, f):
    """member functions of boost::atomic<T>, at their documented meaning (their x86 code is inline assembly)"""
    op = BATOM.match(f.dem).group(1)
    m = re.search(r'base_atomic<(unsigned int|int|bool|unsigned char|unsigned long|long)', f.dem)
    if not m:
        raise AnalysisError('boost::atomic of ' + f.dem)
    sz = {'unsigned int': 4, 'int': 4, 'bool': 1, 'unsigned char': 1, 'unsigned long': 8, 'long': 8}[m.group(1)]
    ty = 'i%d' % (8 * sz)
    p = args[0]

    def order(v):
        if v not in BORD:
            raise AnalysisError('memory order %s' % (v,))
        return BORD[v]
    res = []

    def run(op2, v, ordr, fin, exp=None, weak=False, ordf=None):
        def done(s, r):
            # finish the call: the top frame sits at the call instruction
            s.obs['#ret'] = fin(s, r)
        out = I.atomic(st, i, op2, p, sz, ty, ordr, v, exp, weak, ordf, done=done)
        outs = [st] if out is None else out
        return [(s, s.obs.pop('#ret', None)) for s in outs]

    if op == 'load':
        return run('load', None, order(args[1]), lambda s, r: r)
    if op == 'store':
        return run('store', args[1], order(args[2]), lambda s, r: None)
    if op.startswith('compare_exchange'):
        e = I.load(st, args[1], sz, ty)
        of = order(args[4]) if len(args) > 4 else {'acq_rel': 'acquire', 'release': 'relaxed'}.get(order(args[3]), order(args[3]))

        def fin(s, r):
            if r[2] == 0:
                I.store(s, args[1], sz, r[1], 0, ty)
            return r[2]
        return run('cmpxchg', args[2], order(args[3]), fin, e, op.endswith('weak'), of)
    base = op.replace('opaque_', '').replace('fetch_', '').replace('bitwise_', '').replace('_and_test', '')
    base = {'exchange': 'xchg'}.get(base, base)
    v = args[1]
    if op.startswith('fetch_') or op == 'exchange':
        return run(base, v, order(args[2]), lambda s, r: r)
    if op.startswith('opaque_'):
        return run(base, v, order(args[2]), lambda s, r: None)
    if op in ('add', 'sub'):
        return run(base, v, order(args[2]), lambda s, r: ladd(r, v, 1 if op == 'add' else -1))
    raise AnalysisError('boost::atomic operation %s' % op)


# ---------------------------------------------------------------- the atomic word
class Field:
    def __init__(self, name, shift, bits):
        self.name, self.shift, self.bits = name, shift, bits

    @property
    def one(self):
        return 1 << self.shift

    @property
    def max(self):
        return (1 << self.bits) - 1


class WordObs(World):
    """An object with one atomic word that other threads change at any time subject to the rely condition.
    Subclasses: fields, rely(st, fields), trans(...), and per-operation end rules."""

    OBJ = ('obj', 'x')

    def __init__(self, off, size, fields):
        self.off, self.size, self.fields = off, size, fields
        self.seq = False            # sequential phase: nobody else changes the word
        self.bits = 8 * size

    def models(self):
        m = self.base_models()
        m[BATOM] = m_boost_atomic
        m['syscall'] = self.syscall
        return m

    def isword(self, p):
        return isptr(p) and p[1] == self.OBJ and p[2] == self.off

    # decode / encode
    def fresh(self, I, st, why):
        fs = [st.fresh((f.name, why), 0, f.max) for f in self.fields]
        v = 0
        for f, x in zip(self.fields, fs):
            v = ladd(v, lmul(x, f.one))
        st.obs['last'] = ('V', v)
        if not self.rely(I, st, fs):
            return None
        return st.obs['last'][1]

    def decode(self, I, st, v):
        """fields of a word value; may split symbols of st"""
        if isinstance(v, int):
            v %= 1 << self.bits
            if v & ((1 << min(f.shift for f in self.fields)) - 1):
                return None
            return [(v >> f.shift) & f.max for f in self.fields]
        st.obs['#dec'] = ('D', v)
        low = min(f.shift for f in self.fields)
        if low:
            # bits below the counters that no state uses
            x = I.getfield(st, v, 0, low)
            if x is None or not st.must_be(x, 0):
                st.obs.pop('#dec')
                return None
        for f in self.fields:
            v = st.obs['#dec'][1]
            lo, hi = st.rng(v)
            if lo < 0 or hi >= 1 << self.bits:
                r = I.window(st, v, self.bits, False)
                if not isinstance(r, list):
                    st.obs.pop('#dec')
                    return None
                v = r[0][1]
                st.obs['#dec'] = ('D', v) + st.obs['#dec'][2:]
            x = I.getfield(st, v, f.shift, f.bits)
            if x is None:
                st.obs.pop('#dec')
                return None
            st.obs['#dec'] = st.obs['#dec'] + (I.resub(st, x),)
        return list(st.obs.pop('#dec')[2:])

    def delta(self, old, new):
        """constant change per field, or None"""
        d = lsub(new, old)
        if not isinstance(d, int):
            return None
        M = 1 << self.bits
        d %= M
        if d >= M // 2:
            d -= M
        n = len(self.fields)

        def rec(k, rest):
            if k == n:
                return [] if rest % M == 0 else None
            f = self.fields[k]
            for x in (0, 1, -1, 2, -2):
                r = rec(k + 1, rest - x * f.one)
                if r is not None:
                    return [x] + r
            return None
        return rec(0, d)

    # hooks
    def rely(self, I, st, fs):
        return True

    def trans(self, I, st, old, new, order, op):
        """old,new: values; called after a successful write of this thread"""

    def store_ok(self, I, st, v, order):
        I.report(st, 'atomic', 'the state is overwritten by a plain store, which can lose a concurrent change')

    def syscall(self, I, st, args, i, f):
        raise AnalysisError('system call %s' % (args[0],))

    def on_access(self, I, st, rw, p, sz, ins, v=None):
        if self.isword(p) and not st.obs.get('init'):
            I.report(st, 'atomic', 'non-atomic %s of the shared state' % ('read' if rw == 'r' else 'write'))
        return None

    def compute(self, I, st, op, old, v):
        """new value of a read-modify-write"""
        if op == 'add':
            return ladd(old, v)
        if op == 'sub':
            return lsub(old, v)
        if op == 'xchg':
            return v
        if not isinstance(v, int):
            raise AnalysisError('atomic %s with a variable operand' % op)
        if isinstance(old, int):
            return {'or': old | v, 'and': old & v, 'xor': old ^ v}[op]
        # bitwise with a constant: via fields of runs
        mask = v % (1 << self.bits)
        from absint import bitruns
        if op == 'and':
            acc, runs = 0, bitruns(mask)
            st.obs['#b'] = ('B', old, 0)
            for lo, n in runs:
                _, o, a = st.obs['#b']
                x = I.getfield(st, o, lo, n)
                x = I.resub(st, x)
                o, a = st.obs['#b'][1:]
                st.obs['#b'] = ('B', o, ladd(a, lmul(x, 1 << lo)))
            return st.obs.pop('#b')[2]
        st.obs['#b'] = ('B', old, 0)
        for lo, n in bitruns(mask):
            x = I.getfield(st, st.obs['#b'][1], lo, n)
            x = I.resub(st, x)
            _, o, a = st.obs['#b']
            full = (1 << n) - 1
            d = lsub(full, x) if op == 'or' else lsub(full, lmul(x, 2))
            st.obs['#b'] = ('B', o, ladd(a, lmul(d, 1 << lo)))
        _, o, a = st.obs.pop('#b')
        return ladd(o, a)

    def on_atomic(self, I, st, i, op, p, sz, ty, order, v, exp, weak, ordf, done):
        if not self.isword(p):
            return None
        if sz != self.size:
            raise AnalysisError('the state word is accessed with another size')
        if self.seq:
            return self.seq_atomic(I, st, i, op, p, sz, ty, order, v, exp, weak, ordf, done)
        if op == 'load':
            w = self.fresh(I, st, 'load')
            if w is None:
                return []
            self.observe(I, st, w, order, 'load')
            done(st, w)
            return [st]
        if op == 'store':
            self.store_ok(I, st, v, order)
            if i['op'] == 'store':
                st.frames[-1].idx += 1
            return [st]
        if op == 'cmpxchg':
            outs = []
            s = st.copy()
            s.obs['#x'] = ('X', exp, v)
            fs = self.decode(I, s, exp)
            if fs is None:
                raise AnalysisError('cannot decode the expected value')
            if self.rely(I, s, fs):
                _, e2, v2 = s.obs.pop('#x')
                s.obs['last'] = ('V', e2)
                self.observe(I, s, e2, order, 'rmw')
                self.trans(I, s, e2, v2, order, 'cmpxchg')
                e3 = s.obs['last'][1]
                done(s, ('A', e3, 1))
                outs.append(s)
            s = st.copy()
            w = self.fresh(I, s, 'casfail')
            if w is not None:
                ok = True
                if not weak:
                    ok = s.assume_ne(lsub(w, exp), 0)
                if ok:
                    self.observe(I, s, s.obs['last'][1], ordf, 'load')
                    done(s, ('A', s.obs['last'][1], 0))
                    outs.append(s)
            return outs
        w = self.fresh(I, st, 'rmw')
        if w is None:
            return []
        new = self.compute(I, st, op, w, v)
        w = st.obs['last'][1]
        self.observe(I, st, w, order, 'rmw')
        self.trans(I, st, w, new, order, op)
        done(st, st.obs['last'][1])
        return [st]

    def observe(self, I, st, v, order, how):
        pass

    # sequential phase: nobody else changes the word
    def seq_atomic(self, I, st, i, op, p, sz, ty, order, v, exp, weak, ordf, done):
        if op == 'load':
            done(st, I.load(st, p, sz, ty))
            return [st]
        if op == 'store':
            I.store(st, p, sz, v, 0, ty)
            if i['op'] == 'store':
                st.frames[-1].idx += 1
            else:
                done(st, None)
            return [st]
        old = I.load(st, p, sz, ty)
        if op == 'cmpxchg':
            outs = []
            d = lsub(old, exp)
            if isinstance(d, int):
                d %= 1 << self.bits
            s = st.copy()
            if s.assume(d, 0, 0):
                I.store(s, p, sz, v, 0, ty)
                done(s, ('A', I.load(s, p, sz, ty) if False else exp, 1))
                outs.append(s)
            if d != 0:
                s = st.copy()
                if s.assume_ne(d, 0):
                    done(s, ('A', I.load(s, p, sz, ty), 0))
                    outs.append(s)
            return outs
        new = self.compute(I, st, op, old, v)
        I.store(st, p, sz, new, 0, ty)
        done(st, old)
        return [st]


class SeqWord(WordObs):
    """derivation pass: purely sequential, stops at a futex wait"""

    def __init__(self):
        WordObs.__init__(self, 0, 4, [])
        self.seq = True
        self.hits = set()
        self.result = None
        self.stopped = None

    def isword(self, p):
        if isptr(p) and p[1] == self.OBJ:
            self.hits.add(p[2])
            return True
        return False

    def on_atomic(self, I, st, i, op, p, sz, ty, order, v, exp, weak, ordf, done):
        if not self.isword(p):
            return None
        self.size = sz
        self.bits = 8 * sz
        return self.seq_atomic(I, st, i, op, p, sz, ty, order, v, exp, weak, ordf, done)

    def on_access(self, I, st, rw, p, sz, ins, v=None):
        return None

    def syscall(self, I, st, args, i, f):
        if len(args) > 3 and args[2] & 127 in (0, 9):
            self.stopped = dict(st.mem.get(self.OBJ, {}))
            return [(st, 'END')]
        return [(st, 0)]

    def on_end(self, I, st, how, v):
        self.result = (dict(st.mem.get(self.OBJ, {})), v)

    def on_abort(self, I, st, kind, msg):
        self.result = None


def seqrun(m, entry, mem, args=()):
    """-> (memory of the object after, return value, memory at a blocking call, atomically accessed offsets, size)"""
    o = SeqWord()
    I = Interp(m, o.models(), o)

    def init(I, st):
        st.mem[o.OBJ] = dict(mem)
    I.start(entry, (ptr(o.OBJ),) + tuple(args), init)
    return o, I


def u(v, bits):
    return v % (1 << bits)


class NotEnding(AnalysisError):
    """an operation in a sequence executed by one thread does not return"""

    def __init__(self, entry, seq):
        AnalysisError.__init__(self, '%s does not end when executed alone' % entry)
        self.entry, self.seq = entry, seq


def derive(m, prefix, acts, size_hint=None):
    """runs ctor and then each action sequentially; returns dict name -> (word value, return value), offset, size"""
    o, I = seqrun(m, prefix + '_ctor', {})
    if o.result is None:
        raise AnalysisError('%s: constructor has no normal end' % prefix)
    mem0 = o.result[0]
    out = {}
    hits, size = set(o.hits), o.size
    for name, seq in acts.items():
        mem = dict(mem0)
        ret = None
        blocked = False
        for e in seq:
            o, I = seqrun(m, prefix + '_' + e, mem)
            hits |= {h for h in o.hits}
            size = o.size or size
            if o.stopped is not None and o.result is None:
                mem, ret, blocked = o.stopped, None, True
                break
            if o.result is None:
                raise NotEnding(prefix + '_' + e, seq)
            mem, ret = o.result
        out[name] = (mem, ret, blocked)
    return mem0, out, hits, size
