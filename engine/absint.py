"""Path-sensitive abstract interpretation of LLVM IR (exported by irx).

Values are integers, linear forms over symbols (taken modulo 2^width), base+offset pointers and
aggregates; a state also carries a constraint store (intervals and exclusions on linear forms).
Nothing is executed and no solver is used: undecided comparisons split the abstract state, states are
merged modulo renaming of symbols at control-flow joins, and a fixpoint is reached because the set of
abstract states at each join is finite or is widened.
"""
import itertools, json, re, sys, os
from functools import lru_cache
from math import gcd
sys.setrecursionlimit(20000)

INF = float('inf')
ECOFF = 1 << 40          # pseudo offset holding the error code of an exception object


class AnalysisError(Exception):
    """the analysis cannot give an answer (unsupported construct, vanished anchor)"""


# ---------------------------------------------------------------- linear forms
@lru_cache(maxsize=None)
def akey(a):
    return (0, a[1], '') if a[0] == 's' else (1, 0, repr(a))


def mklin(c, d):
    ts = [(a, k) for a, k in d.items() if k]
    if not ts:
        return c
    ts.sort(key=lambda t: akey(t[0]))
    return ('L', c, tuple(ts))


def isnum(v):
    return isinstance(v, int) or (isinstance(v, tuple) and v and v[0] == 'L')


def parts(v):
    if isinstance(v, int):
        return v, ()
    return v[1], v[2]


def ladd(a, b, kb=1):
    if isinstance(a, int) and isinstance(b, int):
        return a + kb * b
    ca, ta = parts(a)
    cb, tb = parts(b)
    d = dict(ta)
    for x, k in tb:
        d[x] = d.get(x, 0) + kb * k
    return mklin(ca + kb * cb, d)


def lsub(a, b):
    return ladd(a, b, -1)


def lmul(a, k):
    if isinstance(a, int):
        return a * k
    if k == 0:
        return 0
    return ('L', a[1] * k, tuple((x, n * k) for x, n in a[2]))


def latom(a):
    return ('L', 0, ((a, 1),))


def form(v):
    """-> (terms normalised to positive leading coefficient, sign, const)"""
    c, t = v[1], v[2]
    if t[0][1] < 0:
        return tuple((x, -k) for x, k in t), -1, c
    return t, 1, c


def ptr(base, off=0):
    return ('P', base, off)


NULL = ('P', None, 0)
UNDEF = ('U',)


def isptr(v):
    return isinstance(v, tuple) and v and v[0] == 'P'


class Throw:
    __slots__ = ('exc',)

    def __init__(self, exc):
        self.exc = exc


LIBDIR = os.environ.get('VF_REPO', '/repo') + '/'

class Frame:
    __slots__ = ('fn', 'blk', 'idx', 'env', 'prev', 'ret', 'allocs', 'call', 'tag')

    def __init__(self, fn):
        self.fn = fn
        self.blk = 0
        self.idx = 0
        self.env = {}
        self.prev = -1
        self.allocs = []
        self.call = None
        self.tag = None

    def copy(self):
        f = Frame(self.fn)
        f.blk, f.idx, f.prev, f.call, f.tag = self.blk, self.idx, self.prev, self.call, self.tag
        f.env = dict(self.env)
        f.allocs = list(self.allocs)
        return f


class State:
    __slots__ = ('frames', 'mem', 'cons', 'nsym', 'lab', 'obs', 'exc', 'trace', 'steps', 'aux', 'last')

    def __init__(self):
        self.frames = []
        self.mem = {}
        self.cons = {}
        self.nsym = 0
        self.lab = {}
        self.obs = {}
        self.exc = ()       # stack of in-flight / caught exceptions
        self.trace = None
        self.steps = 0
        self.last = None     # the library function left last
        self.aux = None      # observer data that is not part of the abstract state

    def copy(self):
        s = State()
        s.frames = [f.copy() for f in self.frames]
        s.mem = {b: dict(m) for b, m in self.mem.items()}
        s.cons = dict(self.cons)
        s.nsym = self.nsym
        s.lab = dict(self.lab)
        s.obs = dict(self.obs)
        s.exc = self.exc
        s.trace = self.trace
        s.steps = self.steps
        s.aux = self.aux
        s.last = self.last
        return s

    # ---- symbols and constraints
    def fresh(self, label=None, lo=-INF, hi=INF):
        n = self.nsym
        self.nsym += 1
        a = ('s', n)
        self.lab[n] = label
        if lo != -INF or hi != INF:
            self.cons[((a, 1),)] = (lo, hi, frozenset())
        return latom(a)

    def fresh_int(self, w, label=None, signed=True):
        if signed:
            return self.fresh(label, -(1 << (w - 1)), (1 << (w - 1)) - 1)
        return self.fresh(label, 0, (1 << w) - 1)

    def arange(self, a):
        c = self.cons.get(((a, 1),))
        lo, hi = (c[0], c[1]) if c else (-INF, INF)
        if a[0] == 'd':
            if a[1] == 'div':
                l, h = self.rng(a[2])
                C = a[3]
                if l != -INF:
                    lo = max(lo, tdiv(l, C))
                if h != INF:
                    hi = min(hi, tdiv(h, C))
            elif a[1] == 'fld':
                lo = max(lo, 0)
                hi = min(hi, (1 << a[4]) - 1)
        return lo, hi

    def rng(self, v):
        if isinstance(v, int):
            return v, v
        if len(v[2]) == 1:
            a, k = v[2][0]
            lo, hi = self.arange(a)
            if k > 0:
                return v[1] + k * lo, v[1] + k * hi
            return v[1] + k * hi, v[1] + k * lo
        lo = hi = v[1]
        for a, k in v[2]:
            l, h = self.arange(a)
            if k > 0:
                lo += k * l
                hi += k * h
            else:
                lo += k * h
                hi += k * l
        f, s, c = form(v)
        cc = self.cons.get(f)
        if cc:
            if s > 0:
                lo = max(lo, c + cc[0])
                hi = min(hi, c + cc[1])
            else:
                lo = max(lo, c - cc[1])
                hi = min(hi, c - cc[0])
        # a multiple of a stored form
        else:
            g = 0
            for _, k in f:
                g = gcd(g, abs(k))
            if g > 1:
                cc = self.cons.get(tuple((x, k // g) for x, k in f))
                if cc:
                    if s > 0:
                        lo = max(lo, c + g * cc[0])
                        hi = min(hi, c + g * cc[1])
                    else:
                        lo = max(lo, c - g * cc[1])
                        hi = min(hi, c - g * cc[0])
        if len(f) > 2 and (lo < -(1 << 30) or hi > (1 << 30)):
            # a known form plus the rest
            t = dict(v[2])
            for g, cc in self.cons.items():
                n = len(g)
                if n < 2 or n >= len(t) or g[0][0] not in t:
                    continue
                m, r = divmod(t[g[0][0]], g[0][1])
                if r or not m or any(t.get(x) != k * m for x, k in g):
                    continue
                gl, gh = cc[0] * m, cc[1] * m
                if m < 0:
                    gl, gh = gh, gl
                dd = dict(t)
                for x, _ in g:
                    del dd[x]
                rl, rh = self.rng(mklin(v[1], dd))
                lo, hi = max(lo, gl + rl), min(hi, gh + rh)
        return lo, hi

    def excl(self, v):
        """set of integers v is known to differ from (finite part)"""
        if isinstance(v, int):
            return ()
        f, s, c = form(v)
        cc = self.cons.get(f)
        if cc is None and len(f) > 1 and all(x[1] % 2 == 0 for x in f):
            g = 0
            for _, k in f:
                g = gcd(g, abs(k))
            cc = self.cons.get(tuple((x, k // g) for x, k in f))
            if cc and cc[2]:
                return [s * g * e + c for e in cc[2]]
        if not cc or not cc[2]:
            return ()
        return [s * e + c for e in cc[2]]

    def can_be(self, v, c):
        lo, hi = self.rng(v)
        return lo <= c <= hi and c not in self.excl(v)

    def must_be(self, v, c):
        lo, hi = self.rng(v)
        return lo == hi == c

    def assume(self, v, lo=-INF, hi=INF):
        """assume lo <= v <= hi; False when infeasible"""
        l, h = self.rng(v)
        if l > hi or h < lo:
            return False
        if isinstance(v, int):
            return True
        if l >= lo and h <= hi:
            return True
        return self._tighten(v, lo, hi, 0)

    def _tighten(self, v, lo, hi, depth):
        f, s, c = form(v)
        if s > 0:
            a, b = lo - c, hi - c
        else:
            a, b = c - hi, c - lo
        if len(f) == 1:
            k = f[0][1]
            f = ((f[0][0], 1),)
            if a != -INF:
                a = -((-a) // k)
            if b != INF:
                b = b // k
        elif all(x[1] % 2 == 0 for x in f):
            g = 0
            for _, k in f:
                g = gcd(g, abs(k))
            f = tuple((x, k // g) for x, k in f)
            if a != -INF:
                a = -((-a) // g)
            if b != INF:
                b = b // g
        cc = self.cons.get(f)
        if cc:
            a, b, ex = max(a, cc[0]), min(b, cc[1]), cc[2]
        else:
            ex = frozenset()
        if len(f) == 1:
            l, h = self.arange(f[0][0])
            a, b = max(a, l), min(b, h)
        while a in ex:
            a += 1
        while b in ex:
            b -= 1
        if a > b:
            return False
        self.cons[f] = (a, b, ex)
        if a == b:
            # substitute
            if len(f) == 1:
                return self.subst({f[0][0]: a})
            for x, k in reversed(f):
                if abs(k) == 1 and x[0] == 's':
                    rest = mklin(0, {y: kk for y, kk in f if y != x})
                    inner = []
                    syms_of(rest, inner)
                    if x[1] in inner:
                        continue
                    # k*x + rest == a  ->  x = (a - rest)/k
                    e = lmul(lsub(a, rest), k)
                    return self.subst({x: e})
            return True
        if depth < 3:
            # propagate to single atoms of this form
            if len(f) > 1:
                for x, k in f:
                    rest = mklin(0, {y: kk for y, kk in f if y != x})
                    rl, rh = self._plain(rest)
                    # a <= k*x + rest <= b
                    xl, xh = a - rh, b - rl
                    if k < 0:
                        xl, xh = -xh, -xl
                    kk = abs(k)
                    xl = -((-xl) // kk) if xl not in (-INF, INF) else xl
                    xh = xh // kk if xh not in (-INF, INF) else xh
                    if xl != xl or xh != xh:
                        continue
                    l, h = self.arange(x)
                    if xl > h or xh < l:
                        return False
                    if xl > l or xh < h:
                        if not self._tighten(latom(x), xl, xh, depth + 1):
                            return False
                        if f not in self.cons:
                            return True    # substituted away
            else:
                x = f[0][0]
                for g in list(self.cons):
                    if len(g) > 1 and g in self.cons and any(y == x for y, _ in g):
                        ga, gb, _ = self.cons[g]
                        l, h = self.rng(mklin(0, dict(g)))
                        if l > h:
                            return False
                        if not self._tighten(mklin(0, dict(g)), ga, gb, depth + 1):
                            return False
        return True

    def _plain(self, v):
        return self.rng(v)

    def assume_ne(self, v, c):
        if isinstance(v, int):
            return v != c
        lo, hi = self.rng(v)
        if c < lo or c > hi:
            return True
        if lo == hi:
            return False
        f, s, k = form(v)
        e = s * (c - k)
        if len(f) == 1:
            kk = f[0][1]
            if e % kk:
                return True
            e //= kk
            f = ((f[0][0], 1),)
        elif all(x[1] % 2 == 0 for x in f):
            g = 0
            for _, kk in f:
                g = gcd(g, abs(kk))
            if e % g:
                return True
            e //= g
            f = tuple((x, kk // g) for x, kk in f)
        cc = self.cons.get(f)
        if cc:
            a, b, ex = cc
        else:
            a, b, ex = -INF, INF, frozenset()
        if e < a or e > b:
            return True
        self.cons[f] = (a, b, ex | {e})
        return self._tighten(mklin(0, dict(f)), a, b, 0)

    def assume_eq(self, a, b):
        d = lsub(a, b)
        return self.assume(d, 0, 0)

    def subst(self, m):
        """substitute atoms by values everywhere"""
        def sv(v):
            return subst_val(v, m)
        for fr in self.frames:
            e = fr.env
            for k, v in e.items():
                if not isinstance(v, int):
                    e[k] = sv(v)
        for b, mm in self.mem.items():
            for o, (sz, v) in mm.items():
                if not isinstance(v, int):
                    mm[o] = (sz, sv(v))
        for k, v in self.obs.items():
            if not isinstance(v, int):
                self.obs[k] = sv(v)
        self.exc = tuple(sv(x) for x in self.exc)
        old = self.cons
        self.cons = {}
        todo = []
        for f, (a, b, ex) in old.items():
            v = mklin(0, dict(f))
            nv = sv(v)
            if nv == v:
                self.cons[f] = (a, b, ex)
            else:
                todo.append((nv, a, b, ex))
        for nv, a, b, ex in todo:
            if not self.assume(nv, a, b):
                return False
            for e in ex:
                if not self.assume_ne(nv, e):
                    return False
        return True


def tdiv(a, b):
    if a in (INF, -INF):
        return a
    q = abs(a) // abs(b)
    return q if (a >= 0) == (b >= 0) else -q


def subst_val(v, m):
    if isinstance(v, tuple):
        if not v:
            return v
        t = v[0]
        if t == 'L':
            hit = False
            r = v[1]
            acc = {}
            for a, k in v[2]:
                na = subst_atom(a, m)
                if na is not None:
                    hit = True
                    r = ladd(r, na, k)
                else:
                    acc[a] = acc.get(a, 0) + k
            if not hit:
                return v
            return ladd(mklin(0, acc), r)
        out = tuple(subst_val(x, m) if isinstance(x, (tuple, frozenset)) else x for x in v)
        return out if out != v else v
    if isinstance(v, frozenset):
        return frozenset(subst_val(x, m) for x in v)
    return v


def subst_atom(a, m):
    """None if unchanged, else the replacing value"""
    if a in m:
        return m[a]
    if a[0] == 'd':
        na = tuple(subst_val(x, m) if isinstance(x, tuple) else x for x in a)
        if na != a:
            return simp_atom(na)
    return None


def simp_atom(a):
    op = a[1]
    if op == 'div' and isinstance(a[2], int):
        return tdiv(a[2], a[3])
    if op == 'fld' and isinstance(a[2], int):
        return (a[2] >> a[3]) & ((1 << a[4]) - 1)
    if op == 'mul':
        if isinstance(a[2], int):
            return lmul(a[3], a[2])
        if isinstance(a[3], int):
            return lmul(a[2], a[3])
    return latom(a)


def syms_of(v, out):
    if isinstance(v, tuple):
        if len(v) == 2 and v[0] == 's' and isinstance(v[1], int):
            out.append(v[1])
            return
        for x in v:
            if isinstance(x, (tuple, frozenset)):
                syms_of(x, out)
    elif isinstance(v, frozenset):
        for x in sorted(v, key=repr):
            syms_of(x, out)


def ren(v, m):
    """rename symbols s n -> s m[n]; re-sorts linear terms"""
    if isinstance(v, tuple):
        if not v:
            return v
        if len(v) == 2 and v[0] == 's' and isinstance(v[1], int):
            return ('s', m[v[1]])
        if v[0] == 'L':
            return mklin(v[1], {ren(a, m): k for a, k in v[2]})
        return tuple(ren(x, m) if isinstance(x, (tuple, frozenset)) else x for x in v)
    if isinstance(v, frozenset):
        return frozenset(ren(x, m) for x in v)
    return v


# ---------------------------------------------------------------- module
class Func:
    def __init__(self, name, j):
        self.name = name
        self.dem = j['dem']
        self.decl = j.get('decl', False)
        self.nounwind = j.get('nounwind')
        self.ret = j['ret']
        self.file = j.get('file', '')
        self.line = j.get('line', 0)
        if self.decl:
            return
        self.args = j['args']
        self.blocks = j['blocks']
        self.heads = set(j['heads'])
        self.vararg = j.get('vararg')
        self._types = None
        self._live()

    def types(self):
        if self._types is None:
            self._types = {i['id']: i.get('ty') for b in self.blocks for i in b if 'id' in i}
        return self._types

    def _live(self):
        n = len(self.blocks)
        use = [set() for _ in range(n)]
        dfn = [set() for _ in range(n)]
        succ = [[] for _ in range(n)]
        phiuse = [dict() for _ in range(n)]     # pred -> set used by phi in this block
        npred = [0] * n
        for b, ins in enumerate(self.blocks):
            for i in ins:
                if i['op'] == 'phi':
                    for p, v in i['in']:
                        s = phiuse[b].setdefault(p, set())
                        collect(v, s)
                    dfn[b].add(i['id'])
                    continue
                s = set()
                for k in ('ops', 'args', 'base', 'fn', 'idx'):
                    if k in i:
                        collect(i[k], s)
                i['_u'] = s
                use[b] |= (s - dfn[b])
                dfn[b].add(i['id'])
            t = ins[-1]
            if t['op'] == 'br':
                succ[b] = t['ops'][1:] if len(t['ops']) == 3 else t['ops']
            elif t['op'] == 'switch':
                succ[b] = [t['def']] + [c[1] for c in t['cases']]
            elif t['op'] == 'invoke':
                succ[b] = [t['to'], t['unw']]
            for x in set(succ[b]):
                npred[x] += 1
        live = [set(u) for u in use]
        ch = True
        while ch:
            ch = False
            for b in range(n - 1, -1, -1):
                out = set()
                for x in succ[b]:
                    out |= live[x] | phiuse[x].get(b, set())
                new = use[b] | (out - dfn[b])
                if new != live[b]:
                    live[b] = new
                    ch = True
        self.livein = live
        self.liveout = []
        for b in range(n):
            out = set()
            for x in succ[b]:
                out |= live[x] | phiuse[x].get(b, set())
            self.liveout.append(out)
        self.npred = npred
        self.succ = succ
        self._lc = {}

    def live_at(self, b, idx):
        """live before executing instruction idx of block b"""
        k = (b, idx)
        r = self._lc.get(k)
        if r is None:
            ins = self.blocks[b]
            r = set(self.liveout[b])
            for i in reversed(ins[idx:]):
                r.discard(i['id'])
                if i['op'] != 'phi':
                    r |= i['_u']
            self._lc[k] = r
        return r


def collect(v, s):
    if isinstance(v, list):
        if len(v) == 2 and v[0] == 'l':
            s.add(v[1])
            return
        for x in v:
            if isinstance(x, list):
                collect(x, s)


class Module:
    def __init__(self, path):
        with open(path) as f:
            j = json.load(f)
        self.funcs = {n: Func(n, x) for n, x in j['funcs'].items()}
        self.globals = j['globals']
        self.bydem = {}
        for n, f in self.funcs.items():
            self.bydem.setdefault(f.dem, n)

    def find(self, rx):
        r = re.compile(rx)
        return [f for f in self.funcs.values() if r.search(f.dem)]


def tsize(t):
    if isinstance(t, str):
        if t == 'p':
            return 8
        if t[0] == 'i':
            return (int(t[1:]) + 7) // 8
        if t == 'f64':
            return 8
        if t == 'f32':
            return 4
        return 16
    if t[0] == 'a' or t[0] == 'v':
        return t[1] * t[2]
    if t[0] == 's':
        if len(t) == 1:
            return 0
        return t[-1][0] + tsize(t[-1][1])
    return 0


def flat(t, off=0):
    """list of (offset, scalar type)"""
    if isinstance(t, str):
        return [(off, t)]
    out = []
    if t[0] in ('a', 'v'):
        for i in range(min(t[1], 4096)):
            out += flat(t[3], off + i * t[2])
    elif t[0] == 's':
        for o, e in t[1:]:
            out += flat(e, off + o)
    return out


ORD = {'monotonic': 'relaxed'}


class Interp:
    """worklist abstract interpreter"""

    def __init__(self, mod, models=None, observer=None, max_steps=4000000, max_states=200000):
        self.m = mod
        self.models = dict(BASE_MODELS)
        self.rx_models = list(BASE_RX)
        if models:
            for k, h in models.items():
                if isinstance(k, str):
                    self.models[k] = h
                else:
                    self.rx_models.insert(0, (k, h))
        self.obs = observer
        self.reports = []
        self._rkeys = set()
        self.steps = 0
        self.nstates = 0
        self.max_steps = max_steps
        self.max_states = max_states
        self.seen = {}
        self.funcs_seen = set()
        self.calls_seen = set()
        self.ginit = {}
        self.mcache = {}
        self.typeids = {}
        self.ended = 0
        self.obligations = 0
        self.oblig_sites = {}
        self.heap_sites = {}
        self.widened = 0
        self.whist = {}
        self.wide = {}
        self.loc_count = {}
        self.max_join = 20000
        self.widening = True

    # ---- reporting
    def loc(self, st):
        """innermost /repo location and the stack of locations"""
        locs = []
        for fr in reversed(st.frames):
            if fr.idx < len(fr.fn.blocks[fr.blk]):
                i = fr.fn.blocks[fr.blk][fr.idx]
                locs.append((i.get('fl', fr.fn.file), i.get('ln', fr.fn.line), fr.fn.dem))
        return locs

    def where(self, st):
        ls = self.loc(st)
        for f, l, d in ls:
            if f and f.startswith(LIBDIR):
                return '%s:%s (%s)' % (f, l, short(d))
        if st.last is not None:
            i, fn = st.last
            return '%s:%s (%s)' % (i.get('fl', fn.file), i.get('ln', fn.line), short(fn.dem))
        if ls:
            return '%s:%s (%s)' % (ls[0][0], ls[0][1], short(ls[0][2]))
        return '?'

    def report(self, st, rule, msg, key=None):
        w = self.where(st)
        k = key or (rule, w, msg)
        if k in self._rkeys:
            return
        self._rkeys.add(k)
        tr = []
        t = st.trace
        while t and len(tr) < 60:
            tr.append(t[1])
            t = t[0]
        self.reports.append({'rule': rule, 'where': w, 'msg': msg, 'stack': ['%s:%s %s' % (a, b, short(c)) for a, b, c in self.loc(st)], 'trace': list(reversed(tr))})

    def note(self, st, text):
        st.trace = (st.trace, text)

    def ob(self, st, rule, ok, msg):
        """one obligation of a rule at an abstract state"""
        self.obligations += 1
        w = self.where(st)
        k = (rule, w)
        self.oblig_sites[k] = self.oblig_sites.get(k, 0) + 1
        if not ok:
            self.report(st, rule, msg)
        return ok

    # ---- values
    def ev(self, st, fr, o):
        k = o[0]
        if k == 'l':
            try:
                return fr.env[o[1]]
            except KeyError:
                raise AnalysisError('undefined local %s in %s' % (o, fr.fn.dem))
        if k == 'i':
            return o[1] & 1 if o[2] == 1 else o[1]
        return self.cv(st, o)

    def cv(self, st, o):
        k = o[0]
        if k == 'i':
            return o[1] & 1 if o[2] == 1 else o[1]
        if k == 'I':
            return int(o[1])
        if k == 'null':
            return NULL
        if k == 'g':
            return ptr(('g', o[1]))
        if k == 'undef':
            t = o[1]
            if isinstance(t, list) and t[0] == 's':
                return ('A',) + tuple(UNDEF for _ in t[1:])
            if isinstance(t, list) and t[0] in ('a', 'v'):
                return ('A',) + tuple(UNDEF for _ in range(t[1]))
            return UNDEF
        if k == 'gep':
            b = self.cv(st, o[1])
            if o[3]:
                raise AnalysisError('const gep idx')
            return self.padd(b, o[2])
        if k == 'cast':
            return self.cv(st, o[1])
        if k == 'zero':
            return self.zero(o[1])
        if k == 'agg':
            return ('A',) + tuple(self.cv(st, x) for x in o[2])
        if k == 'f':
            return ('F', o[1])
        if k == 'ce':
            a = [self.cv(st, x) for x in o[2]]
            if o[1] in ('add', 'sub') and all(isnum(x) for x in a):
                return ladd(a[0], a[1], 1 if o[1] == 'add' else -1)
            raise AnalysisError('constexpr %s' % o[1])
        if k == 'asm':
            return ('asm', o[1], o[2])
        if k == 'md':
            return UNDEF
        raise AnalysisError('operand %s' % (o,))

    def zero(self, t):
        if isinstance(t, str):
            if t == 'p':
                return NULL
            if t[0] == 'f':
                return ('F', 0.0)
            return 0
        if t[0] == 's':
            return ('A',) + tuple(self.zero(e[1]) for e in t[1:])
        return ('A',) + tuple(self.zero(t[3]) for _ in range(t[1]))

    def padd(self, p, off):
        if isptr(p):
            return ('P', p[1], ladd(p[2], off))
        if isnum(p):
            return ladd(p, off)
        if p == UNDEF:
            return UNDEF
        raise AnalysisError('pointer arithmetic on %s' % (p,))

    # ---- memory
    def gmem(self, name):
        r = self.ginit.get(name)
        if r is None:
            g = self.m.globals.get(name)
            r = {}
            if g is not None and 'init' in g:
                self._spread(r, 0, g['ty'], self.cv(None, g['init']))
            self.ginit[name] = r
        return r

    def _spread(self, out, off, ty, v):
        if isinstance(ty, str):
            out[off] = (tsize(ty), v)
            return
        if ty[0] == 's':
            for (o, e), x in zip(ty[1:], v[1:]):
                self._spread(out, off + o, e, x)
        elif ty[0] in ('a', 'v'):
            for i, x in enumerate(v[1:]):
                self._spread(out, off + i * ty[2], ty[3], x)

    def objmem(self, st, base):
        m = st.mem.get(base)
        if m is None:
            m = st.mem[base] = {}
        return m

    def load(self, st, p, size, ty, label=None):
        """load of one scalar"""
        if isinstance(ty, list):
            return ('A',) + tuple(self.load_at(st, p, o, t) for o, t in self.elems(ty))
        return self.load_at(st, p, 0, ty, label)

    def elems(self, ty):
        if ty[0] == 's':
            return [(o, t) for o, t in ty[1:]]
        return [(i * ty[2], ty[3]) for i in range(ty[1])]

    def load_at(self, st, p, o, ty, label=None):
        if isinstance(ty, list):
            return ('A',) + tuple(self.load_at(st, p, o + oo, t) for oo, t in self.elems(ty))
        if not isptr(p):
            raise AnalysisError('load through %s at %s' % (p, self.where(st)))
        base, off = p[1], ladd(p[2], o)
        size = tsize(ty)
        if base is None:
            raise AnalysisError('null load at %s' % self.where(st))
        m = self.objmem(st, base)
        if not isinstance(off, int):
            return self.unk(st, ty, ('arr', base))
        e = m.get(off)
        if e is not None:
            if e[0] == size:
                return self.conv(st, e[1], ty)
            r = self.partial(st, m, off, size, ty)
            if r is not None:
                return r
        else:
            if isinstance(base, tuple) and base[0] == 'g':
                gm = self.gmem(base[1])
                if gm:
                    e = gm.get(off)
                    if e is not None and e[0] == size:
                        return self.conv(st, e[1], ty)
                    g = self.m.globals[base[1]]
                    if g['const']:
                        r = self.partial(st, gm, off, size, ty)
                        if r is not None:
                            return r
            r = self.partial(st, m, off, size, ty)
            if r is not None:
                return r
        v = self.unk(st, ty, label or ('init', base, off))
        # keep the unknown so that re-reading gives the same value
        self.store(st, p, size, v, o)
        return v

    def partial(self, st, m, off, size, ty):
        # constant sub-access of a bigger integer, or bigger access over several constants
        for o, (s, v) in m.items():
            if o <= off and off + size <= o + s and isnum(v):
                if isinstance(v, int):
                    r = (v >> (8 * (off - o))) & ((1 << (8 * size)) - 1)
                    if r >= 1 << (8 * size - 1):
                        r -= 1 << (8 * size)
                    return r if ty != 'p' else (NULL if r == 0 else r)
                if off == o and ty[0] == 'i':
                    return v           # modulo semantics
        # compose from smaller ints
        val, o = 0, off
        while o < off + size:
            e = m.get(o)
            if e is None or not isinstance(e[1], int) or o + e[0] > off + size:
                return None
            val |= (e[1] & ((1 << (8 * e[0])) - 1)) << (8 * (o - off))
            o += e[0]
        if val >= 1 << (8 * size - 1):
            val -= 1 << (8 * size)
        return val if ty != 'p' else (NULL if val == 0 else val)

    def conv(self, st, v, ty):
        if ty == 'p' and isinstance(v, int):
            return NULL if v == 0 else ('P', ('abs', v), 0)
        if ty[0] == 'i' and v == NULL:
            return 0
        if v == UNDEF:
            return v
        return v

    def unk(self, st, ty, label):
        if ty == 'p':
            n = st.nsym
            st.nsym += 1
            st.lab[n] = label
            return ('P', ('s', n), 0)
        if ty[0] == 'f':
            return ('F', None)
        w = int(ty[1:])
        return st.fresh_int(w, label)

    def store(self, st, p, size, v, o=0, ty=None):
        if not isptr(p):
            raise AnalysisError('store through %s at %s' % (p, self.where(st)))
        if isinstance(v, tuple) and v and v[0] == 'A':
            if ty is None:
                raise AnalysisError('aggregate store')
            for (oo, t), x in zip(self.elems(ty), v[1:]):
                self.store(st, p, tsize(t), x, o + oo, t)
            return
        base, off = p[1], ladd(p[2], o)
        if base is None:
            raise AnalysisError('null store at %s' % self.where(st))
        m = self.objmem(st, base)
        if not isinstance(off, int):
            m.clear()
            return
        e = m.get(off)
        if e is None or e[0] != size:
            dead = [k for k, (s, _) in m.items() if k < off + size and off < k + s]
            for k in dead:
                s, ov = m.pop(k)
                if isinstance(ov, int) and (k < off or k + s > off + size):
                    for b in range(s):
                        if not (off <= k + b < off + size):
                            m[k + b] = (1, (ov >> (8 * b)) & 255)
        m[off] = (size, v)

    def memcpy(self, st, d, s, n):
        if not isinstance(n, int):
            raise AnalysisError('memcpy with unknown size at %s' % self.where(st))
        if n == 0:
            return
        if not (isptr(d) and isptr(s)) or not isinstance(d[2], int) or not isinstance(s[2], int):
            raise AnalysisError('memcpy pointers')
        sm = self.objmem(st, s[1])
        items = {}
        if isinstance(s[1], tuple) and s[1][0] == 'g':
            for o, e in self.gmem(s[1][1]).items():
                if s[2] <= o and o + e[0] <= s[2] + n:
                    items[o] = e
        for o, e in list(sm.items()):
            if s[2] <= o and o + e[0] <= s[2] + n:
                items[o] = e
        dm = self.objmem(st, d[1])
        for k in [k for k, (sz, _) in dm.items() if k < d[2] + n and d[2] < k + sz]:
            del dm[k]
        for o, (sz, v) in items.items():
            dm[o - s[2] + d[2]] = (sz, v)

    def memset(self, st, d, c, n):
        if not isinstance(n, int):
            raise AnalysisError('memset with unknown size')
        dm = self.objmem(st, d[1])
        for k in [k for k, (sz, _) in dm.items() if k < d[2] + n and d[2] < k + sz]:
            del dm[k]
        if isinstance(c, int):
            o = 0
            while o < n:
                s = 8 if n - o >= 8 and (d[2] + o) % 8 == 0 else 4 if n - o >= 4 and (d[2] + o) % 4 == 0 else 1
                v = 0
                for i in range(s):
                    v |= (c & 255) << (8 * i)
                if v >= 1 << (8 * s - 1):
                    v -= 1 << (8 * s)
                dm[d[2] + o] = (s, v)
                o += s

    # ---- windows: bring L into a window of width w, forking when it straddles
    def window(self, st, v, w, signed):
        """-> list of (state, value in window)"""
        lo_w = -(1 << (w - 1)) if signed else 0
        size = 1 << w
        if isinstance(v, int):
            return [(st, (v - lo_w) % size + lo_w)]
        if not isnum(v):
            return [(st, v)]
        lo, hi = st.rng(v)
        if lo in (-INF, INF) or hi in (INF, -INF):
            return None
        a = (lo - lo_w) // size
        b = (hi - lo_w) // size
        if a == b:
            return [(st, ladd(v, -a * size))]
        if b - a > 3:
            return None
        out = []
        for i in range(a, b + 1):
            s = st.copy() if i < b else st
            if s.assume(v, lo_w + i * size, lo_w + (i + 1) * size - 1):
                out.append((s, None, i))
        # values must be re-read after substitution: stash v in obs
        res = []
        for s, _, i in out:
            res.append((s, i))
        return ('fork', res, size)

    # ---- main loop
    def start(self, fname, args=(), init=None):
        f = self.m.funcs.get(fname)
        if f is None or f.decl:
            raise AnalysisError('driver function %s not found' % fname)
        st = State()
        fr = Frame(f)
        for i, a in enumerate(args):
            fr.env[i] = a
        st.frames.append(fr)
        if init:
            init(self, st)
        self.work = [st]
        self.loop()
        if self.obs:
            self.obs.on_finish(self)

    def loop(self):
        while self.work:
            st = self.work.pop()
            if st is None:
                continue
            self.nstates += 1
            if self.nstates > self.max_states:
                raise AnalysisError('state budget exceeded')
            self.run(st)

    def run(self, st):
        while True:
            self.steps += 1
            if self.steps > self.max_steps:
                raise AnalysisError('step budget exceeded')
            fr = st.frames[-1]
            ins = fr.fn.blocks[fr.blk][fr.idx]
            r = getattr(self, 'x_' + ins['op'], None)
            if r is None:
                raise AnalysisError('instruction %s at %s' % (ins['op'], self.where(st)))
            out = r(st, fr, ins)
            if out is None:
                continue
            # out: list of states to continue with
            if len(out) == 1:
                st = out[0]
                continue
            self.work.extend(out)
            return

    def setv(self, st, ins, v):
        fr = st.frames[-1]
        fr.env[ins['id']] = v
        fr.idx += 1

    def goto(self, st, tgt):
        """transfer control inside the top frame; returns None or [] when merged away"""
        fr = st.frames[-1]
        src = fr.blk
        blk = fr.fn.blocks[tgt]
        vals = []
        n = 0
        for i in blk:
            if i['op'] != 'phi':
                break
            n += 1
            for p, v in i['in']:
                if p == src:
                    vals.append((i['id'], self.ev(st, fr, v)))
                    break
            else:
                raise AnalysisError('phi')
        for k, v in vals:
            fr.env[k] = v
        fr.prev = src
        fr.blk = tgt
        fr.idx = n
        if fr.fn.npred[tgt] > 1:
            if self.obs and tgt in fr.fn.heads:
                if self.obs.on_loophead(self, st) == 'DROP':
                    return []
            return self.join(st)
        return None

    def join(self, st):
        key = self.canon(st)
        locs = key[0]
        if locs in self.wide:
            self.apply_wide(st, locs)
            key = self.canon(st)
        if self.obs and self.obs.on_join(self, st, key) == 'DROP':
            return []
        d = self.seen.setdefault(locs, {})
        if key in d:
            return []
        d[key] = None
        if len(d) > self.max_join:
            c = self.loc_count.get(locs, 0) + 1
            self.loc_count[locs] = c
            raise AnalysisError('no convergence at %s' % self.where(st))
        if self.widening and len(d) > 40 and len(d) % 20 == 0 and self.widen(d, locs):
            self.apply_wide(st, locs)
            key = self.canon(st)
            d[key] = None
            if self.obs:
                self.obs.on_join(self, st, key)
        return None

    def widen(self, d, locs):
        """find integers that keep changing at this join: from now on they are unknown there"""
        n, hist, mh = self.whist.get(locs, (0, {}, {}))
        for key in itertools.islice(d, n, None):        # only the states added since the last time
            for k, v in key[1][-1]:
                if isinstance(v, int):
                    hist.setdefault(k, set()).add(v)
            for b, items in key[2]:
                for o, s, v in items:
                    if isinstance(v, int):
                        mh.setdefault((b, o), set()).add(v)
        self.whist[locs] = (len(d), hist, mh)
        w = {k for k, h in hist.items() if len(h) > 30} | {k for k, h in mh.items() if len(h) > 30}
        if w <= self.wide.get(locs, set()):
            return False
        self.wide[locs] = w
        self.widened += 1
        return True

    def apply_wide(self, st, locs):
        fr = st.frames[-1]
        for k in self.wide[locs]:
            if isinstance(k, tuple):
                b, o = k
                if b in st.mem and o in st.mem[b]:
                    s, v = st.mem[b][o]
                    if isnum(v):
                        st.mem[b][o] = (s, st.fresh_int(8 * s, ('widen', o)))
            elif isnum(fr.env.get(k)):
                st_ty = fr.fn.types().get(k)
                fr.env[k] = st.fresh_int(self.width(st_ty), ('widen', k))

    def canon(self, st):
        """prune dead locals, rename symbols, drop dead constraints; returns hashable key"""
        order = []
        envs = []
        nf = len(st.frames)
        for d, fr in enumerate(st.frames):
            if d == nf - 1:
                live = fr.fn.live_at(fr.blk, fr.idx)
            else:
                live = fr.fn.live_at(fr.blk, fr.idx + 1) if fr.idx + 1 < len(fr.fn.blocks[fr.blk]) else fr.fn.liveout[fr.blk]
            e = {k: v for k, v in fr.env.items() if k in live}
            fr.env = e
            for k in sorted(e):
                v = e[k]
                if not isinstance(v, int):
                    syms_of(v, order)
        mk = sorted(st.mem, key=repr)
        for b in mk:
            syms_of(b, order)
            m = st.mem[b]
            for o in sorted(m):
                v = m[o][1]
                if not isinstance(v, int):
                    syms_of(v, order)
        for k in sorted(st.obs, key=repr):
            v = st.obs[k]
            if not isinstance(v, int):
                syms_of(k, order)
                syms_of(v, order)
        syms_of(st.exc, order)
        mp = {}
        for n in order:
            if n not in mp:
                mp[n] = len(mp)
        ident = all(k == v for k, v in mp.items())
        # constraints over live symbols only
        cons = {}
        for f, c in st.cons.items():
            ss = []
            syms_of(f, ss)
            if all(s in mp for s in ss):
                cons[f] = c
        if not ident:
            for fr in st.frames:
                fr.env = {k: (v if isinstance(v, int) else ren(v, mp)) for k, v in fr.env.items()}
            st.mem = {ren(b, mp): {o: (s, v if isinstance(v, int) else ren(v, mp)) for o, (s, v) in m.items()} for b, m in st.mem.items()}
            st.obs = {ren(k, mp) if isinstance(k, tuple) else k: (v if isinstance(v, int) else ren(v, mp)) for k, v in st.obs.items()}
            st.exc = ren(st.exc, mp)
            nc = {}
            for f, c in cons.items():
                v = mklin(0, {ren(a, mp): k for a, k in f})
                if isinstance(v, int):
                    continue
                nf_, s, _ = form(v)
                if s < 0:
                    c = (-c[1], -c[0], frozenset(-e for e in c[2]))
                nc[nf_] = c
            cons = nc
        st.cons = cons
        st.lab = {mp[n]: st.lab.get(n) for n in mp}
        st.nsym = len(mp)
        locs = tuple((fr.fn.name, fr.blk, fr.idx) for fr in st.frames)
        fk = tuple(tuple(sorted(((k, v) for k, v in fr.env.items()), key=lambda t: t[0])) for fr in st.frames)
        memk = tuple((b, tuple((o, m[o][0], m[o][1]) for o in sorted(m))) for b, m in sorted(st.mem.items(), key=lambda t: repr(t[0])) if m)
        ck = frozenset(st.cons.items())
        ok = frozenset(st.obs.items())
        return (locs, fk, memk, ck, ok, st.exc, tuple(sorted(st.lab.items(), key=lambda t: t[0])))

    # ---- instructions
    def x_phi(self, st, fr, i):
        raise AnalysisError('phi at entry')

    def x_alloca(self, st, fr, i):
        base = ('a', len(st.frames), fr.fn.name, i['id'])
        st.mem[base] = {}
        fr.allocs.append(base)
        self.setv(st, i, ptr(base))

    def x_load(self, st, fr, i):
        p = self.ev(st, fr, i['ops'][0])
        if 'ord' in i:
            return self.atomic(st, i, 'load', p, i['sz'], i['ty'], ORD.get(i['ord'], i['ord']))
        if self.obs:
            r = self.obs.on_access(self, st, 'r', p, i['sz'], i)
            if r is not None:
                return r
        v = self.load(st, p, i['sz'], i['ty'])
        self.setv(st, i, v)

    def x_store(self, st, fr, i):
        v = self.ev(st, fr, i['ops'][0])
        p = self.ev(st, fr, i['ops'][1])
        if 'ord' in i:
            return self.atomic(st, i, 'store', p, i['sz'], i['vty'], ORD.get(i['ord'], i['ord']), v)
        if self.obs:
            r = self.obs.on_access(self, st, 'w', p, i['sz'], i, v)
            if isinstance(r, list):
                return r
        self.store(st, p, i['sz'], v, 0, i['vty'])
        fr.idx += 1

    def x_getelementptr(self, st, fr, i):
        p = self.padd(self.ev(st, fr, i['base']), i['off'])
        for o, s in i['idx']:
            x = self.ev(st, fr, o)
            if not isnum(x):
                raise AnalysisError('gep index')
            p = self.padd(p, lmul(x, s))
        self.setv(st, i, p)

    def width(self, t):
        return int(t[1:]) if isinstance(t, str) and t[0] == 'i' else 64

    def x_add(self, st, fr, i, k=1):
        a = self.ev(st, fr, i['ops'][0])
        b = self.ev(st, fr, i['ops'][1])
        if isnum(a) and isnum(b):
            v = ladd(a, b, k)
        elif isptr(a) and isnum(b):
            v = ('P', a[1], ladd(a[2], b, k))
        elif isptr(a) and isptr(b) and k < 0 and a[1] == b[1]:
            v = ladd(a[2], b[2], -1)
        elif isptr(a) and isptr(b) and k < 0 and (a[1] is None or b[1] is None):
            v = st.fresh_int(64, ('ptrdiff',))
        else:
            return self.arith_unknown(st, fr, i, a, b)
        return self.fin_arith(st, i, v)

    def arith_unknown(self, st, fr, i, a, b):
        if a == UNDEF or b == UNDEF:
            self.setv(st, i, UNDEF)
            return
        self.setv(st, i, self.unk(st, i['ty'], ('op', i['op'])))

    def fin_arith(self, st, i, v):
        w = self.width(i['ty'])
        if isinstance(v, int):
            if i.get('nsw') and not (-(1 << (w - 1)) <= v < (1 << (w - 1))):
                if self.obs:
                    self.obs.on_overflow(self, st, i, v)
            h = 1 << (w - 1)
            v = (v + h) % (1 << w) - h if w > 1 else v & 1
            self.setv(st, i, v)
            return
        if i.get('nsw'):
            lo, hi = st.rng(v)
            a, b = -(1 << (w - 1)), (1 << (w - 1)) - 1
            if lo < a or hi > b:
                if self.obs:
                    self.obs.on_overflow(self, st, i, v)
                self.setv(st, i, v)
                # undefined behaviour otherwise: continue with the non-overflowing part
                v2 = st.frames[-1].env[i['id']]
                if not st.assume(v2, a, b):
                    self.ended += 1
                    return []
                return
        self.setv(st, i, v)

    def x_sub(self, st, fr, i):
        return self.x_add(st, fr, i, -1)

    def x_mul(self, st, fr, i):
        a = self.ev(st, fr, i['ops'][0])
        b = self.ev(st, fr, i['ops'][1])
        if isinstance(a, int) and isnum(b):
            a, b = b, a
        if isnum(a) and isinstance(b, int):
            return self.fin_arith(st, i, lmul(a, b))
        if isnum(a) and isnum(b):
            x, y = sorted((a, b), key=repr)
            self.setv(st, i, latom(('d', 'mul', x, y)))
            return
        return self.arith_unknown(st, fr, i, a, b)

    def x_shl(self, st, fr, i):
        a = self.ev(st, fr, i['ops'][0])
        b = self.ev(st, fr, i['ops'][1])
        if isnum(a) and isinstance(b, int):
            return self.fin_arith(st, dict(i, nsw=False), lmul(a, 1 << b))
        return self.arith_unknown(st, fr, i, a, b)

    def in_window(self, st, fr, i, slot, w, signed):
        """fork until operand slot is inside the window; returns value or ('states', [...])"""
        o = i['ops'][slot]
        v = self.ev(st, fr, o)
        if isinstance(v, int):
            lo_w = -(1 << (w - 1)) if signed else 0
            return (v - lo_w) % (1 << w) + lo_w
        r = self.window(st, v, w, signed)
        if r is None:
            return None
        if isinstance(r, list):
            return r[0][1]
        return ('states', [s for s, _ in r[1]])

    def x_lshr(self, st, fr, i):
        w = self.width(i['ty'])
        b = self.ev(st, fr, i['ops'][1])
        a0 = self.ev(st, fr, i['ops'][0])
        if not isnum(a0) or not isinstance(b, int):
            return self.arith_unknown(st, fr, i, a0, b)
        v = self.in_window(st, fr, i, 0, w, False)
        if isinstance(v, tuple) and v[0] == 'states':
            return v[1]
        if v is None:
            self.setv(st, i, self.unk(st, i['ty'], ('lshr',)))
            return
        if isinstance(v, int):
            self.setv(st, i, v >> b)
            return
        return self.field(st, i, v, b, w - b, 0)

    x_ashr = None

    def x_ashr(self, st, fr, i):
        w = self.width(i['ty'])
        b = self.ev(st, fr, i['ops'][1])
        v = self.in_window(st, fr, i, 0, w, True)
        if isinstance(v, tuple) and v[0] == 'states':
            return v[1]
        if isinstance(v, int) and isinstance(b, int):
            self.setv(st, i, v >> b)
            return
        if isnum(v) and isinstance(b, int):
            lo, hi = st.rng(v)
            if lo >= 0:
                return self.field(st, i, v, b, w - b, 0)
        self.setv(st, i, self.unk(st, i['ty'], ('ashr',)))

    def getfield(self, st, v, lo, n):
        """value of bits [lo, lo+n) of v (v >= 0 as an integer): -> Lin/int or None; may split a symbol in st.
        Returns (value) ; the caller must not hold other values of the state across the call."""
        if isinstance(v, int):
            return (v >> lo) & ((1 << n) - 1)
        for _ in range(8):
            c, ts = parts(v)
            # split v = 2^lo * A + B
            A, B = {}, {}
            ca, cb = c >> lo, c & ((1 << lo) - 1)
            bad = None
            for a, k in ts:
                kh, kl = splitcoef(k, lo)
                if kh:
                    A[a] = kh
                if kl:
                    B[a] = kl
            Bv = mklin(cb, B)
            l, h = st.rng(Bv)
            q = None
            if l != -INF and h != INF and l >> lo == h >> lo:
                q = ladd(mklin(ca, A), int(l) >> lo)
                # now low n bits of q
                ql, qh = st.rng(q)
                if ql >= 0 and qh < (1 << n):
                    return q
                # drop the high part
                r = self.lowbits(st, q, n)
                if r is not None:
                    return r
                # split a symbol of q at bit n
                s = self.splittable(st, q, n)
                if s:
                    v = self.dosplit(st, v, s, lo + n)
                    if v is None:
                        return None
                    continue
                return latom(('d', 'fld', v, lo, n))
            s = self.splittable(st, Bv, lo)
            if s:
                v = self.dosplit(st, v, s, lo)
                if v is None:
                    return None
                continue
            return latom(('d', 'fld', v, lo, n))
        return latom(('d', 'fld', v, lo, n))

    def lowbits(self, st, q, n):
        c, ts = parts(q)
        B = {}
        for a, k in ts:
            kl = splitcoef(k, n)[1]
            if kl:
                B[a] = kl
        Bv = mklin(c & ((1 << n) - 1), B)
        l, h = st.rng(Bv)
        if l >= 0 and h < (1 << n):
            return Bv
        if l != -INF and h != INF and (l >> n) == (h >> n):
            return ladd(Bv, -(int(l) >> n << n))
        return None

    def splittable(self, st, v, cut):
        """a symbol atom of v with coefficient 2^j, j<cut, wider than cut-j bits, unsigned"""
        if isinstance(v, int):
            return None
        for a, k in v[2]:
            if a[0] == 's' and k > 0 and (k & (k - 1)) == 0:
                j = k.bit_length() - 1
                lo, hi = st.arange(a)
                if j < cut and lo >= 0 and hi != INF and hi >= (1 << (cut - j)):
                    return (a, cut - j)
        return None

    def dosplit(self, st, v, s, _):
        a, n = s
        lo, hi = st.arange(a)
        lab = st.lab.get(a[1])
        low = st.fresh(('bits', lab, 0, n), 0, (1 << n) - 1)
        high = st.fresh(('bits', lab, n), int(lo) >> n, int(hi) >> n)
        e = ladd(low, lmul(high, 1 << n))
        nv = subst_val(v, {a: e})
        if not st.subst({a: e}):
            return None
        # re-apply simplifications done during substitution
        return self.resub(st, nv)

    def resub(self, st, v):
        """fold atoms that became constant"""
        if isinstance(v, int):
            return v
        m = {}
        for a, k in v[2]:
            lo, hi = st.arange(a)
            if lo == hi:
                m[a] = int(lo)
        return subst_val(v, m) if m else v

    def field(self, st, i, v, lo, n, shift):
        r = self.getfield(st, v, lo, n)
        if r is None:
            self.ended += 1
            return []
        r = self.resub(st, r)
        self.setv(st, i, lmul(r, 1 << shift))

    def x_and(self, st, fr, i):
        a = self.ev(st, fr, i['ops'][0])
        b = self.ev(st, fr, i['ops'][1])
        w = self.width(i['ty'])
        if isinstance(a, int) and isinstance(b, int):
            self.setv(st, i, a & b)
            return
        if isinstance(a, int) and isnum(b):
            a, b = b, a
            slot = 1
        else:
            slot = 0
        if isnum(a) and isinstance(b, int):
            if b == 0:
                self.setv(st, i, 0)
                return
            v = self.in_window(st, fr, i, slot, w, False)
            if isinstance(v, tuple) and v[0] == 'states':
                return v[1]
            mask = b & ((1 << w) - 1)
            if mask == (1 << w) - 1:
                self.setv(st, i, a)
                return
            runs = bitruns(mask)
            if v is not None and len(runs) <= 3:
                r = 0
                # keep pieces in the state across splits
                key = ('tmp', 'and')
                st.obs[key] = ('T', 0, v)
                for lo, n in runs:
                    v2 = st.obs[key][2]
                    f = self.getfield(st, v2, lo, n)
                    if f is None:
                        self.ended += 1
                        return []
                    f = self.resub(st, f)
                    t = st.obs[key]
                    st.obs[key] = ('T', ladd(t[1], lmul(f, 1 << lo)), t[2])
                r = st.obs.pop(key)[1]
                self.setv(st, i, r)
                return
        if w == 1 and isnum(a) and isnum(b):
            # boolean and of two 0/1 unknowns
            for slot in (0, 1):
                f = self.decide01(st, fr, i['ops'][slot])
                if f is not None:
                    return f
        self.setv(st, i, self.unk_like(st, i))

    def decide01(self, st, fr, o):
        v = self.ev(st, fr, o)
        if isinstance(v, int):
            return None
        out = []
        for c in (0, 1):
            s = st.copy()
            if s.assume(v, c, c):
                if o[0] == 'l' and not isinstance(s.frames[-1].env[o[1]], int):
                    s.frames[-1].env[o[1]] = c
                out.append(s)
        return out

    def unk_like(self, st, i):
        return self.unk(st, i['ty'], ('op', i['op']))

    def bitop(self, st, fr, i, kind):
        a = self.ev(st, fr, i['ops'][0])
        b = self.ev(st, fr, i['ops'][1])
        w = self.width(i['ty'])
        if isinstance(a, int) and isinstance(b, int):
            r = (a | b) if kind == 'or' else (a ^ b)
            self.setv(st, i, r & 1 if w == 1 else r)
            return
        slot = 0
        if isinstance(a, int):
            a, b = b, a
            slot = 1
        if isnum(a) and isinstance(b, int):
            if w == 1:
                if kind == 'xor':
                    self.setv(st, i, lsub(1, a) if b & 1 else a)
                else:
                    self.setv(st, i, 1 if b & 1 else a)
                return
            v = self.in_window(st, fr, i, slot, w, False)
            if isinstance(v, tuple) and v[0] == 'states':
                return v[1]
            mask = b & ((1 << w) - 1)
            if mask == (1 << w) - 1 and kind == 'xor':
                self.setv(st, i, lsub(-1, a))
                return
            runs = bitruns(mask)
            if v is not None and len(runs) <= 2:
                key = ('tmp', 'or')
                st.obs[key] = ('T', v, v)
                for lo, n in runs:
                    f = self.getfield(st, st.obs[key][2], lo, n)
                    if f is None:
                        self.ended += 1
                        return []
                    f = self.resub(st, f)
                    t = st.obs[key]
                    full = (1 << n) - 1
                    d = lsub(full, f) if kind == 'or' else lsub(full, lmul(f, 2))
                    st.obs[key] = ('T', ladd(t[1], lmul(d, 1 << lo)), t[2])
                self.setv(st, i, st.obs.pop(key)[1])
                return
        if w == 1 and isnum(a) and isnum(b):
            for slot in (0, 1):
                f = self.decide01(st, fr, i['ops'][slot])
                if f is not None:
                    return f
        if isnum(a) and isnum(b) and kind == 'or':
            # disjoint bit ranges: addition
            la, ha = st.rng(a)
            lb, hb = st.rng(b)
            for x, (lx, hx), y, (ly, hy) in ((a, (la, ha), b, (lb, hb)), (b, (lb, hb), a, (la, ha))):
                if lx >= 0 and hx != INF and not isinstance(y, int):
                    c, ts = parts(y)
                    n = int(hx).bit_length()
                    if c % (1 << n) == 0 and all(k % (1 << n) == 0 for _, k in ts) and ly >= 0:
                        self.setv(st, i, ladd(a, b))
                        return
        self.setv(st, i, self.unk_like(st, i))

    def x_or(self, st, fr, i):
        return self.bitop(st, fr, i, 'or')

    def x_xor(self, st, fr, i):
        return self.bitop(st, fr, i, 'xor')

    def divrem(self, st, fr, i, signed, rem):
        w = self.width(i['ty'])
        a0 = self.ev(st, fr, i['ops'][0])
        C = self.in_window(st, fr, i, 1, w, signed)
        if isinstance(C, tuple) and C and C[0] == 'states':
            return C[1]
        if not isnum(a0) or not isinstance(C, int) or C == 0:
            self.setv(st, i, self.unk_like(st, i))
            return
        a = self.in_window(st, fr, i, 0, w, signed)
        if isinstance(a, tuple) and a and a[0] == 'states':
            return a[1]
        if a is None:
            self.setv(st, i, self.unk_like(st, i))
            return
        if isinstance(a, int):
            q = tdiv(a, C)
            self.setv(st, i, a - C * q if rem else q)
            return
        if C < 0:
            self.setv(st, i, self.unk_like(st, i))
            return
        lo, hi = st.rng(a)
        if lo < 0 < hi or (lo < 0 and hi == 0):
            out = []
            for l, h in ((-INF, -1), (0, INF)):
                s = st.copy()
                v = self.in_window(s, s.frames[-1], i, 0, w, signed)
                if s.assume(v, l, h):
                    out.append(s)
            return out
        # exact split
        c, ts = parts(a)
        Aq = {x: k // C for x, k in ts if k % C == 0}
        B = {x: k for x, k in ts if k % C}
        cq = tdiv(c, C)
        for cc in (cq, cq - 1, cq + 1):
            Bv = mklin(c - cc * C, B)
            l, h = st.rng(Bv)
            ok = (l >= 0 and h < C) if lo >= 0 else (h <= 0 and l > -C)
            if ok:
                q = mklin(cc, Aq)
                self.setv(st, i, lsub(a, lmul(q, C)) if rem else q)
                return
        if len(ts) == 1 and ts[0][0][0] == 's' and abs(ts[0][1]) == 1:
            # one symbol: replace it by quotient and remainder everywhere
            x, k = ts[0]
            lab = st.lab.get(x[1])
            q = st.fresh(('quot', lab), tdiv(lo, C), tdiv(hi, C))
            r = st.fresh(('rem', lab), 0, C - 1) if lo >= 0 else st.fresh(('rem', lab), -(C - 1), 0)
            if not st.subst({x: lmul(lsub(ladd(lmul(q, C), r), c), k)}):
                self.ended += 1
                return []
            self.setv(st, i, self.resub(st, r if rem else q))
            return
        q = latom(('d', 'div', a, C))
        r = lsub(a, lmul(q, C))
        if lo >= 0:
            st.assume(r, 0, C - 1)
        else:
            st.assume(r, -(C - 1), 0)
        self.setv(st, i, r if rem else q)

    def x_sdiv(self, st, fr, i):
        return self.divrem(st, fr, i, True, False)

    def x_udiv(self, st, fr, i):
        return self.divrem(st, fr, i, False, False)

    def x_srem(self, st, fr, i):
        return self.divrem(st, fr, i, True, True)

    def x_urem(self, st, fr, i):
        return self.divrem(st, fr, i, False, True)

    def x_icmp(self, st, fr, i):
        a = self.ev(st, fr, i['ops'][0])
        b = self.ev(st, fr, i['ops'][1])
        p = i['pred']
        w = self.width(i['cty'])
        if isnum(a) and isnum(b):
            if isinstance(a, int) and isinstance(b, int):
                self.setv(st, i, cmpc(p, a, b, w))
                return
            if p in ('eq', 'ne'):
                return self.cmp_eq(st, fr, i, a, b, w, p == 'eq')
            signed = p[0] == 's'
            va = self.in_window(st, fr, i, 0, w, signed)
            if isinstance(va, tuple) and va and va[0] == 'states':
                return va[1]
            vb = self.in_window(st, fr, i, 1, w, signed)
            if isinstance(vb, tuple) and vb and vb[0] == 'states':
                return vb[1]
            if va is None or vb is None:
                return self.fork_bool(st, i)
            return self.cmp_range(st, i, lsub(va, vb), p[1:])
        if isptr(a) or isptr(b):
            return self.cmp_ptr(st, fr, i, a, b, p)
        if a == UNDEF or b == UNDEF:
            return self.fork_bool(st, i)
        return self.fork_bool(st, i)

    def cmp_range(self, st, i, d, op):
        lo, hi = st.rng(d)
        # true iff d in [tl,th]
        tl, th = {'lt': (-INF, -1), 'le': (-INF, 0), 'gt': (1, INF), 'ge': (0, INF)}[op]
        fl, fh = {'lt': (0, INF), 'le': (1, INF), 'gt': (-INF, 0), 'ge': (-INF, -1)}[op]
        if lo >= tl and hi <= th:
            self.setv(st, i, 1)
            return
        if lo >= fl and hi <= fh:
            self.setv(st, i, 0)
            return
        out = []
        for (l, h), r in (((tl, th), 1), ((fl, fh), 0)):
            s = st.copy()
            if s.assume(d, l, h):
                self.setv(s, i, r)
                out.append(s)
        return out

    def fork_bool(self, st, i):
        s = st.copy()
        self.setv(st, i, 0)
        self.setv(s, i, 1)
        return [st, s]

    def cmp_eq(self, st, fr, i, a, b, w, eq):
        d = lsub(a, b)
        if isinstance(d, int):
            self.setv(st, i, int((d % (1 << w) == 0) == eq))
            return
        lo, hi = st.rng(d)
        if lo in (-INF, INF) or hi in (INF, -INF):
            return self.fork_bool(st, i)
        size = 1 << w
        ks = [k for k in range(int(-((-lo) // size)), int(hi // size) + 1)] if hi - lo < 4 * size else None
        if ks is None:
            return self.fork_bool(st, i)
        ex = set(st.excl(d))
        ks = [k * size for k in ks if k * size not in ex]
        if not ks:
            self.setv(st, i, 0 if eq else 1)
            return
        if lo == hi:
            self.setv(st, i, 1 if eq else 0)
            return
        out = []
        for k in ks:
            s = st.copy()
            if s.assume(d, k, k):
                self.setv(s, i, 1 if eq else 0)
                out.append(s)
        s = st.copy()
        if all(s.assume_ne(d, k) for k in ks[:1]):
            # further exclusions re-derive d after substitution only when it is unchanged
            ok = True
            for k in ks[1:]:
                if not s.assume_ne(d, k):
                    ok = False
                    break
            if ok:
                self.setv(s, i, 0 if eq else 1)
                out.append(s)
        return out

    def cmp_ptr(self, st, fr, i, a, b, p):
        if isinstance(a, int):
            a = NULL if a == 0 else ('P', ('abs', a), 0)
        if isinstance(b, int):
            b = NULL if b == 0 else ('P', ('abs', b), 0)
        if not (isptr(a) and isptr(b)):
            return self.fork_bool(st, i)
        if a[1] == b[1]:
            if isinstance(a[2], int) and isinstance(b[2], int):
                self.setv(st, i, cmpc(p, a[2], b[2], 64))
                return
            if p in ('eq', 'ne'):
                return self.cmp_eq(st, fr, i, a[2], b[2], 64, p == 'eq')
            return self.cmp_range(st, i, lsub(a[2], b[2]), p[1:])
        if p not in ('eq', 'ne'):
            return self.fork_bool(st, i)
        sa = isinstance(a[1], tuple) and a[1][0] == 's'
        sb = isinstance(b[1], tuple) and b[1][0] == 's'
        if not sa and not sb:
            # distinct objects (or object vs null)
            self.setv(st, i, 0 if p == 'eq' else 1)
            return
        r = self.ptr_rel(st, a, b)
        if r is not None:
            self.setv(st, i, int(r == (p == 'eq')))
            return
        out = []
        s = st.copy()
        if sa:
            s2 = self.ptr_unify(s, a, b)
        else:
            s2 = self.ptr_unify(s, b, a)
        if s2:
            self.setv(s, i, 1 if p == 'eq' else 0)
            out.append(s)
        s = st.copy()
        self.ptr_diff(s, a, b)
        self.setv(s, i, 0 if p == 'eq' else 1)
        out.append(s)
        return out

    # unknown pointers: base ('s', n).  Disequalities are kept in cons under ('ne', x, y)
    def ptr_rel(self, st, a, b):
        k = st.obs.get('ptrne')
        if k and frozenset((a, b)) in k:
            return False
        return None

    def ptr_diff(self, st, a, b):
        st.obs['ptrne'] = st.obs.get('ptrne', frozenset()) | {frozenset((a, b))}

    def ptr_unify(self, st, a, b):
        """a has an unknown base: substitute base(a) := base(b) with offset"""
        if a[2] != 0:
            return False if b == NULL else True
        n = a[1]

        def sp(v):
            if isinstance(v, tuple):
                if v and v[0] == 'P' and v[1] == n:
                    return ('P', b[1], ladd(v[2], b[2]))
                if v and v[0] == 'L':
                    return v
                return tuple(sp(x) if isinstance(x, (tuple, frozenset)) else x for x in v)
            if isinstance(v, frozenset):
                return frozenset(sp(x) for x in v)
            return v
        for fr in st.frames:
            for k, v in fr.env.items():
                if not isinstance(v, int):
                    fr.env[k] = sp(v)
        for bb, m in list(st.mem.items()):
            for o, (s, v) in m.items():
                if not isinstance(v, int):
                    m[o] = (s, sp(v))
        if n in st.mem and b[1] is not None:
            m = st.mem.pop(n)
            if b[1] not in st.mem and b[2] == 0:
                st.mem[b[1]] = m
        for k, v in list(st.obs.items()):
            if not isinstance(v, int):
                st.obs[k] = sp(v)
        ne = st.obs.get('ptrne')
        if ne and any(len(x) == 1 for x in ne):
            return False
        return True

    def x_select(self, st, fr, i):
        c = self.ev(st, fr, i['ops'][0])
        if isinstance(c, int):
            self.setv(st, i, self.ev(st, fr, i['ops'][1 if c & 1 else 2]))
            return
        if isnum(c):
            return self.decide01(st, fr, i['ops'][0])
        raise AnalysisError('select on %s' % (c,))

    def x_zext(self, st, fr, i):
        v = self.ev(st, fr, i['ops'][0])
        w = self.width(i['from'])
        if not isnum(v):
            self.setv(st, i, v)
            return
        if w == 1:
            self.setv(st, i, v)
            return
        r = self.in_window(st, fr, i, 0, w, False)
        if isinstance(r, tuple) and r[0] == 'states':
            return r[1]
        if r is None:
            r = st.fresh_int(w, ('zext',), signed=False)
        self.setv(st, i, r)

    def x_sext(self, st, fr, i):
        v = self.ev(st, fr, i['ops'][0])
        w = self.width(i['from'])
        if not isnum(v):
            self.setv(st, i, v)
            return
        if w == 1:
            self.setv(st, i, lmul(v, -1))
            return
        r = self.in_window(st, fr, i, 0, w, True)
        if isinstance(r, tuple) and r[0] == 'states':
            return r[1]
        if r is None:
            r = st.fresh_int(w, ('sext',))
        self.setv(st, i, r)

    def x_trunc(self, st, fr, i):
        v = self.ev(st, fr, i['ops'][0])
        w = self.width(i['ty'])
        if isinstance(v, int):
            if w == 1:
                v &= 1
            else:
                h = 1 << (w - 1)
                v = (v + h) % (1 << w) - h
            self.setv(st, i, v)
            return
        if isnum(v) and w == 1:
            lo, hi = st.rng(v)
            if lo >= 0 and hi <= 1:
                self.setv(st, i, v)
                return
            v = self.in_window(st, fr, i, 0, self.width(i['from']), False)
            if isinstance(v, tuple) and v[0] == 'states':
                return v[1]
            return self.field(st, i, v, 0, 1, 0)
        self.setv(st, i, v)

    def x_bitcast(self, st, fr, i):
        self.setv(st, i, self.ev(st, fr, i['ops'][0]))

    x_freeze = x_addrspacecast = x_bitcast

    def x_ptrtoint(self, st, fr, i):
        v = self.ev(st, fr, i['ops'][0])
        self.setv(st, i, 0 if v == NULL else v)

    def x_inttoptr(self, st, fr, i):
        v = self.ev(st, fr, i['ops'][0])
        if isinstance(v, int):
            v = NULL if v == 0 else ('P', ('abs', v), 0)
        elif isnum(v):
            v = ('P', ('int', v), 0)
        self.setv(st, i, v)

    def fp(self, st, fr, i):
        if i['ty'] == 'i1':
            return self.fork_bool(st, i)
        self.setv(st, i, ('F', None) if i['ty'][0] == 'f' else self.unk_like(st, i))

    x_sitofp = x_uitofp = x_fptosi = x_fptoui = x_fadd = x_fsub = x_fmul = x_fdiv = x_fcmp = x_fpext = x_fptrunc = x_fneg = fp

    def x_extractvalue(self, st, fr, i):
        v = self.ev(st, fr, i['ops'][0])
        for k in i['ix']:
            if v == UNDEF:
                break
            v = v[1 + k]
        self.setv(st, i, v)

    def x_insertvalue(self, st, fr, i):
        v = self.ev(st, fr, i['ops'][0])
        x = self.ev(st, fr, i['ops'][1])

        def put(v, ix):
            if not ix:
                return x
            l = list(v)
            l[1 + ix[0]] = put(l[1 + ix[0]], ix[1:])
            return tuple(l)
        self.setv(st, i, put(v, i['ix']))

    def x_br(self, st, fr, i):
        o = i['ops']
        if len(o) == 1:
            return self.goto(st, o[0])
        c = self.ev(st, fr, o[0])
        if isinstance(c, int):
            return self.goto(st, o[1] if c & 1 else o[2])
        if isnum(c):
            return self.decide01(st, fr, o[0])
        if c == UNDEF:
            s = st.copy()
            out = []
            for x, t in ((st, o[1]), (s, o[2])):
                if self.goto(x, t) is None:
                    out.append(x)
            return out
        raise AnalysisError('branch on %s at %s' % (c, self.where(st)))

    def x_switch(self, st, fr, i):
        v = self.ev(st, fr, i['ops'][0])
        if isinstance(v, int):
            for c, t in i['cases']:
                if c == v:
                    return self.goto(st, t)
            return self.goto(st, i['def'])
        if not isnum(v):
            raise AnalysisError('switch on %s' % (v,))
        lo, hi = st.rng(v)
        out = []
        for c, t in i['cases']:
            if not st.can_be(v, c):
                continue
            s = st.copy()
            if s.assume(v, c, c):
                if self.goto(s, t) is None:
                    out.append(s)
        s = st
        ok = True
        for c, t in i['cases']:
            v2 = self.ev(s, s.frames[-1], i['ops'][0])
            if not s.assume_ne(v2, c):
                ok = False
                break
        if ok and self.goto(s, i['def']) is None:
            out.append(s)
        return out

    def x_unreachable(self, st, fr, i):
        self.ended += 1
        return []

    def x_fence(self, st, fr, i):
        if self.obs:
            self.obs.on_fence(self, st, ORD.get(i['ord'], i['ord']), i)
        fr.idx += 1

    def x_va_arg(self, st, fr, i):
        raise AnalysisError('va_arg')

    # ---- atomics
    def x_cmpxchg(self, st, fr, i):
        p = self.ev(st, fr, i['ops'][0])
        e = self.ev(st, fr, i['ops'][1])
        n = self.ev(st, fr, i['ops'][2])
        return self.atomic(st, i, 'cmpxchg', p, i['sz'], i['vty'], ORD.get(i['ord'], i['ord']), n, e, i['weak'], ORD.get(i['ordf'], i['ordf']))

    def x_atomicrmw(self, st, fr, i):
        p = self.ev(st, fr, i['ops'][0])
        v = self.ev(st, fr, i['ops'][1])
        return self.atomic(st, i, i['rmw'], p, i['sz'], i['ty'], ORD.get(i['ord'], i['ord']), v)

    def rmw_new(self, op, old, v, w):
        if op == 'xchg':
            return v
        if op == 'add':
            return ladd(old, v)
        if op == 'sub':
            return lsub(old, v)
        return None

    def atomic(self, st, i, op, p, sz, ty, order, v=None, exp=None, weak=False, ordf=None, done=None):
        """atomic access; the observer decides what a shared word may contain.  done(st, result) finishes"""
        if done is None:
            def done(s, r):
                self.setv(s, i, r)
        if self.obs:
            self.obs.touch(st)
            out = self.obs.on_atomic(self, st, i, op, p, sz, ty, order, v, exp, weak, ordf, done)
            if out is not None:
                return out
        # private/sequential treatment
        if op == 'load':
            done(st, self.load(st, p, sz, ty))
            return None
        if op == 'store':
            self.store(st, p, sz, v)
            st.frames[-1].idx += 1
            return None
        old = self.load(st, p, sz, ty)
        if op == 'cmpxchg':
            if isnum(old) and isnum(exp):
                out = []
                d = lsub(old, exp)
                s = st.copy()
                if s.assume(d, 0, 0):
                    self.store(s, p, sz, v)
                    done(s, ('A', exp, 1))
                    out.append(s)
                if not (isinstance(d, int) and d == 0):
                    s = st.copy()
                    if s.assume_ne(d, 0):
                        done(s, ('A', old, 0))
                        out.append(s)
                return out
            raise AnalysisError('cmpxchg on pointers')
        n = self.rmw_new(op, old, v, sz * 8)
        if n is None:
            if isinstance(old, int) and isinstance(v, int):
                n = {'or': old | v, 'and': old & v, 'xor': old ^ v}[op]
            else:
                n = self.unk(st, ty, ('rmw', op))
        self.store(st, p, sz, n)
        done(st, old)
        return None

    # ---- calls
    def x_call(self, st, fr, i):
        return self.call(st, fr, i)

    def x_invoke(self, st, fr, i):
        return self.call(st, fr, i)

    def after_call(self, st, v):
        """the top frame sits at its call/invoke; deliver value and continue"""
        fr = st.frames[-1]
        i = fr.fn.blocks[fr.blk][fr.idx]
        if i['ty'] != 'void':
            fr.env[i['id']] = v if v is not None else UNDEF
        if i['op'] == 'invoke':
            return self.goto(st, i['to'])
        fr.idx += 1
        return None

    def call(self, st, fr, i):
        f = self.ev(st, fr, i['fn'])
        args = [self.ev(st, fr, a) if a[0] != 'md' else UNDEF for a in i['args']]
        if isinstance(f, tuple) and f[0] == 'asm':
            return self.inline_asm(st, i, f[1], f[2], args)
        return self.call_value(st, i, f, args)

    def call_value(self, st, i, f, args):
        if isptr(f) and isinstance(f[1], tuple) and f[1][0] == 'g' and f[2] == 0:
            return self.call_fn(st, i, f[1][1], args)
        if self.obs:
            out = self.obs.on_indirect(self, st, i, f, args)
            if out is not None:
                return self.finish(out)
        raise AnalysisError('indirect call through %s at %s' % (f, self.where(st)))

    def finish(self, outs):
        """outs: list of (state, value or Throw); completes the call in each"""
        res = []
        for s, v in outs:
            if isinstance(v, Throw):
                r = self.unwind(s, v.exc)
            elif v == 'END':
                self.ended += 1
                continue
            elif v == 'CALL':
                res.append(s)
                continue
            else:
                r = self.after_call(s, v)
            if r is None:
                res.append(s)
            else:
                res += r
        return res

    def model_for(self, f):
        if f.name in self.mcache:
            return self.mcache[f.name]
        h = self.models.get(f.name)
        if h is None:
            h = self.models.get(f.dem)
        if h is None:
            for rx, hh in self.rx_models:
                if rx.search(f.dem):
                    h = hh
                    break
        self.mcache[f.name] = h
        return h

    def call_fn(self, st, i, name, args):
        f = self.m.funcs.get(name)
        if f is None:
            raise AnalysisError('unknown function %s' % name)
        h = self.model_for(f)
        if h is not None:
            self.calls_seen.add(f.dem)
            out = h(self, st, args, i, f)
            if out is None:
                raise AnalysisError('model for %s gave no answer' % f.dem)
            return self.finish(out)
        if f.decl:
            if name.startswith('llvm.'):
                return self.intrinsic(st, i, name, args)
            if self.obs:
                out = self.obs.on_extern(self, st, i, f, args)
                if out is not None:
                    self.calls_seen.add(f.dem)
                    return self.finish(out)
            raise AnalysisError('no model for external function %s called at %s' % (f.dem, self.where(st)))
        fr = st.frames[-1]
        if f is fr.fn and len(st.frames) > 1 and fr.tag is None and i['op'] == 'call' and self.tail(fr) and not any(
                isptr(a) and a[1] in fr.allocs for a in args) and not any('byval' in d for d in f.args):
            # a self-recursive tail call is a loop
            self.pop(st)
            self.push(st, f, args, i)
            return self.join(st)
        self.push(st, f, args, i)
        if self.obs:
            out = self.obs.on_enter(self, st, f, args)
            if out is not None:
                return out
        return None

    def tail(self, fr):
        """nothing happens between the call at the top of the frame and the return of its result"""
        def loc(o):
            return o[1] if o[0] == 'l' else None
        b, x, p = fr.blk, fr.idx, None
        i = fr.fn.blocks[b][x]
        vals, cells = {i['id']}, set()
        for _ in range(40):
            x += 1
            i = fr.fn.blocks[b][x]
            op = i['op']
            if op == 'ret':
                return not i['ops'] or loc(i['ops'][0]) in vals
            if op == 'br' and len(i['ops']) == 1:
                p, b, x = b, i['ops'][0], -1
            elif op == 'phi':
                if any(q == p and loc(v) in vals for q, v in i['in']):
                    vals.add(i['id'])
            elif op == 'store' and 'ord' not in i and loc(i['ops'][0]) in vals and loc(i['ops'][1]) is not None and fr.env.get(loc(i['ops'][1]), UNDEF)[1:2] and fr.env[loc(i['ops'][1])][1] in fr.allocs:
                cells.add(loc(i['ops'][1]))
            elif op == 'load' and 'ord' not in i and loc(i['ops'][0]) in cells:
                vals.add(i['id'])
            elif op in ('zext', 'trunc', 'bitcast') and loc(i['ops'][0]) in vals:
                vals.add(i['id'])
            else:
                return False
        return False

    def push(self, st, f, args, i):
        if len(st.frames) > 120:
            raise AnalysisError('recursion in %s' % f.dem)
        self.funcs_seen.add(f.name)
        fr = Frame(f)
        st.frames.append(fr)
        for n, (a, d) in enumerate(zip(args, f.args)):
            if 'byval' in d:
                base = ('a', len(st.frames), f.name, 'arg%d' % n)
                st.mem[base] = {}
                fr.allocs.append(base)
                self.memcpy(st, ptr(base), a, d['byval'])
                a = ptr(base)
            fr.env[n] = a

    def pop(self, st):
        fr = st.frames.pop()
        if fr.fn.file and fr.fn.file.startswith(LIBDIR) and fr.idx < len(fr.fn.blocks[fr.blk]):
            st.last = (fr.fn.blocks[fr.blk][fr.idx], fr.fn)
        for b in fr.allocs:
            st.mem.pop(b, None)
        return fr

    def x_ret(self, st, fr, i):
        v = self.ev(st, fr, i['ops'][0]) if i['ops'] else None
        if self.obs:
            self.obs.on_leave(self, st, fr, v)
        self.pop(st)
        if not st.frames:
            self.ended += 1
            if self.obs:
                self.obs.touch(st)
                self.obs.on_end(self, st, 'return', v)
            return []
        return self.after_call(st, v)

    # ---- exceptions
    def unwind(self, st, exc):
        """exc = ('E', type, payload...) propagates from the current call of the top frame"""
        while st.frames:
            fr = st.frames[-1]
            i = fr.fn.blocks[fr.blk][fr.idx]
            if i['op'] == 'invoke':
                st.exc = st.exc + (exc,)
                return self.goto(st, i['unw'])
            if self.obs:
                self.obs.on_leave(self, st, fr, Throw(exc))
            self.pop(st)
        self.ended += 1
        if self.obs:
            self.obs.touch(st)
            self.obs.on_end(self, st, 'throw', exc)
        return []

    def typeid(self, name):
        return self.typeids.setdefault(name, len(self.typeids) + 1)

    def x_landingpad(self, st, fr, i):
        exc = st.exc[-1]
        sel = None
        for kind, c in i['clauses']:
            if kind == 'catch':
                if c[0] == 'null':
                    sel = self.typeid(None)
                    break
                tn = c[1]
                r = exc_match(self, exc, tn)
                if r:
                    sel = self.typeid(tn)
                    break
            else:
                sel = -1
        if sel is None:
            if i['cleanup']:
                sel = 0
            else:
                st.exc = st.exc[:-1]
                # no handler here: keep unwinding above this frame
                if self.obs:
                    self.obs.on_leave(self, st, fr, Throw(exc))
                self.pop(st)
                if not st.frames:
                    self.ended += 1
                    if self.obs:
                        self.obs.touch(st)
                        self.obs.on_end(self, st, 'throw', exc)
                    return []
                return self.unwind(st, exc)
        self.setv(st, i, ('A', ('P', ('exc', len(st.exc) - 1), 0), sel))

    def x_resume(self, st, fr, i):
        exc = st.exc[-1]
        st.exc = st.exc[:-1]
        if self.obs:
            self.obs.on_leave(self, st, fr, Throw(exc))
        self.pop(st)
        if not st.frames:
            self.ended += 1
            if self.obs:
                self.obs.touch(st)
                self.obs.on_end(self, st, 'throw', exc)
            return []
        return self.unwind(st, exc)

    # ---- intrinsics and asm
    def intrinsic(self, st, i, name, args):
        n = name[5:]
        if n.startswith('memcpy') or n.startswith('memmove'):
            if self.obs:
                r = self.obs.on_memcpy(self, st, args[0], args[1], args[2], i)
                if r is not None:
                    return r
            if self.obs and isinstance(args[2], int):
                self.obs.on_access(self, st, 'r', args[1], args[2], i)
                self.obs.on_access(self, st, 'w', args[0], args[2], i)
            self.memcpy(st, args[0], args[1], args[2])
            return self.after_call(st, None)
        if n.startswith('memset'):
            if self.obs and isinstance(args[2], int):
                self.obs.on_access(self, st, 'w', args[0], args[2], i)
            self.memset(st, args[0], args[1], args[2])
            return self.after_call(st, None)
        if n.startswith('lifetime') or n.startswith('assume') or n.startswith('dbg') or n.startswith('stackrestore') or n.startswith('experimental.noalias') or n.startswith('donothing'):
            return self.after_call(st, None)
        if n.startswith('stacksave'):
            return self.after_call(st, NULL)
        if n.startswith('expect'):
            return self.after_call(st, args[0])
        if n.startswith('launder') or n.startswith('strip') or n.startswith('threadlocal.address'):
            return self.after_call(st, args[0])
        if n.startswith('eh.typeid.for'):
            a = args[0]
            return self.after_call(st, self.typeid(a[1][1] if isptr(a) and isinstance(a[1], tuple) else None))
        if n.startswith('trap'):
            if self.obs:
                self.obs.touch(st)
                self.obs.on_abort(self, st, 'trap', '')
            self.ended += 1
            return []
        if n.startswith('umul.with.overflow'):
            if isnum(args[0]) and isnum(args[1]) and (isinstance(args[0], int) or isinstance(args[1], int)):
                v = lmul(args[1], args[0]) if isinstance(args[0], int) else lmul(args[0], args[1])
                return self.after_call(st, ('A', v, 0))
        if n.startswith('is.constant'):
            return self.after_call(st, 0)
        m = re.match(r'(umin|umax|smin|smax)\.i(\d+)', n)
        if m and all(isnum(a) for a in args[:2]):
            w = int(m.group(2))
            signed = m.group(1)[0] == 's'
            outs = []
            d = lsub(args[0], args[1])
            if isinstance(d, int):
                pick = (args[0] if d <= 0 else args[1]) if m.group(1).endswith('min') else (args[1] if d <= 0 else args[0])
                return self.after_call(st, pick)
        raise AnalysisError('intrinsic %s at %s' % (name, self.where(st)))

    def inline_asm(self, st, i, text, cons, args):
        t = text.replace('\n', ';').replace('\t', ' ').strip(' ;')
        if re.fullmatch(r'(rep; ?nop|pause|rep nop|)', t):
            if self.obs and t:
                self.obs.on_pause(self, st)
            st.frames[-1].idx += 1
            return None
        m = re.match(r'lock; ?(add|sub|and|or|xor)([bwlq]) ', t)
        if m and isptr(args[0]):
            sz = {'b': 1, 'w': 2, 'l': 4, 'q': 8}[m.group(2)]

            def done(s, r):
                s.frames[-1].idx += 1
            return self.atomic(st, i, m.group(1), args[0], sz, 'i%d' % (sz * 8), 'seq_cst', args[1], done=done)
        raise AnalysisError('inline asm %r at %s' % (text, self.where(st)))


def splitcoef(k, n):
    """k == kh * 2^n + kl with small kl"""
    if -(1 << n) < k < (1 << n):
        return 0, k
    kl = k & ((1 << n) - 1)
    if kl > 1 << (n - 1) if n else 0:
        kl -= 1 << n
    return (k - kl) >> n, kl


def bitruns(mask):
    out = []
    b = 0
    while mask >> b:
        if (mask >> b) & 1:
            n = 0
            while (mask >> (b + n)) & 1:
                n += 1
            out.append((b, n))
            b += n
        else:
            b += 1
    return out


def cmpc(p, a, b, w):
    if w > 1:
        h = 1 << (w - 1)
        if p[0] == 'u':
            a %= 1 << w
            b %= 1 << w
        else:
            a = (a + h) % (1 << w) - h
            b = (b + h) % (1 << w) - h
    else:
        a &= 1
        b &= 1
        if p[0] == 's':
            a, b = -a, -b
    return int({'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[p if p in ('eq', 'ne') else p[1:]])


def short(d):
    d = re.sub(r'boost::sync::', '', d)
    d = re.sub(r'\[abi:[^\]]*\]', '', d)
    return d if len(d) < 160 else d[:157] + '...'


# ---------------------------------------------------------------- exceptions: type matching
EXC_BASES = {}


def exc_match(I, exc, tn):
    """does exception exc (('E', typename,...)) match typeinfo symbol tn"""
    t = exc[1]
    g = I.m.globals.get(tn)
    want = re.sub(r'^typeinfo for ', '', g['dem']) if g else tn
    return want in exc_bases(t)


def exc_bases(t):
    b = {t}
    m = re.match(r'boost::wrapexcept<(.*)>$', t)
    if m:
        t = m.group(1)
        b.add(t)
    if re.match(r'boost::sync::.*(lock_error|wait_error|resource_error|overflow_error|runtime_exception)$', t):
        b |= {'boost::sync::runtime_exception', re.sub('::[a-z_]+$', '::runtime_exception', t), 'boost::system::system_error', 'std::system_error', 'std::runtime_error', 'std::exception'}
    if t.startswith('std::'):
        b.add('std::exception')
    return b


# ---------------------------------------------------------------- base models
def m_throw_exception(I, st, args, i, f):
    """boost::throw_exception<E>(e) and BOOST_THROW_EXCEPTION variants: throws E"""
    t = exc_type_of(f.dem)
    code = None
    if args and isptr(args[0]):
        m = st.mem.get(args[0][1], {})
        e = m.get(ladd(args[0][2], ECOFF))
        if e:
            code = e[1]
    exc = ('E', t, code)
    if I.obs:
        I.obs.on_throw(I, st, exc)
    return [(st, Throw(exc))]


def exc_type_of(dem):
    m = re.search(r'throw_exception<(.*?)>\(', dem) or re.search(r'throw_exception_from_error|throw_exception\((?:.*)\)', dem)
    if m and m.groups():
        return m.group(1)
    return '?'


def m_cxa_allocate(I, st, args, i, f):
    base = ('h', 'exc', I.where_key(st) if hasattr(I, 'where_key') else 0)
    st.mem[base] = {}
    return [(st, ptr(base))]


def m_cxa_throw(I, st, args, i, f):
    ti = args[1]
    name = '?'
    if isptr(ti) and isinstance(ti[1], tuple) and ti[1][0] == 'g':
        g = I.m.globals.get(ti[1][1])
        name = re.sub(r'^typeinfo for ', '', g['dem'])
    code = None
    if isptr(args[0]):
        m = st.mem.get(args[0][1], {})
        e = m.get(ladd(args[0][2], ECOFF))
        if e:
            code = e[1]
    exc = ('E', name, code)
    if I.obs:
        I.obs.on_throw(I, st, exc)
    return [(st, Throw(exc))]


def m_begin_catch(I, st, args, i, f):
    return [(st, ptr(('excobj', len(st.exc))))]


def m_end_catch(I, st, args, i, f):
    st.exc = st.exc[:-1]
    return [(st, None)]


def m_rethrow(I, st, args, i, f):
    # the caught exception stays on the stack for the matching __cxa_end_catch
    return [(st, Throw(st.exc[-1]))]


def m_abort(kind):
    def h(I, st, args, i, f):
        if I.obs:
            I.obs.on_abort(I, st, kind, '')
        return [(st, 'END')]
    return h


def m_nop(I, st, args, i, f):
    return [(st, None)]


def m_new(I, st, args, i, f):
    """allocation succeeds or throws std::bad_alloc when the observer asks for it"""
    n = 0
    site = tuple((fr.fn.name, fr.blk, fr.idx) for fr in st.frames[-3:])
    sid = I.heap_sites.setdefault(site, len(I.heap_sites))
    while ('h', sid, n) in st.mem:
        n += 1
    outs = []
    if I.obs and I.obs.alloc_may_fail(I, st):
        s = st.copy()
        I.note(s, 'allocation fails')
        exc = ('E', 'std::bad_alloc', None)
        I.obs.on_throw(I, s, exc)
        outs.append((s, Throw(exc)))
    st.mem[('h', sid, n)] = {}
    if I.obs:
        I.obs.on_alloc(I, st, ('h', sid, n))
    outs.append((st, ptr(('h', sid, n))))
    return outs


def m_delete(I, st, args, i, f):
    p = args[0]
    if isptr(p) and p[1] is not None:
        if I.obs:
            I.obs.on_free(I, st, p)
        if isinstance(p[1], tuple) and p[1][0] == 'h':
            st.mem.pop(p[1], None)
    return [(st, None)]


def m_memcpyfn(I, st, args, i, f):
    I.memcpy(st, args[0], args[1], args[2])
    return [(st, args[0])]


def m_memsetfn(I, st, args, i, f):
    I.memset(st, args[0], args[1], args[2])
    return [(st, args[0])]


def m_syserr_ctor(I, st, args, i, f):
    """boost::system::system_error / std::system_error constructors: record the error code"""
    this, ec = args[0], args[1]
    m = st.mem.setdefault(this[1], {})
    k = ladd(this[2], ECOFF)
    a = f.dem[f.dem.index('(') + 1:]
    if re.match(r'(boost::system::|std::)?(_V2::|__cxx11::)?system_error (const)?&', a):
        e = st.mem.get(ec[1], {}).get(ladd(ec[2], ECOFF))
        if e:
            m[k] = e
        if isptr(ec):
            for o, n, t in ((16, 4, 'i32'), (24, 8, 'p'), (32, 8, 'i64')):
                if ladd(ec[2], o) in st.mem.get(ec[1], {}):
                    I.store(st, this, n, I.load_at(st, ec, o, t), o, t)
        return [(st, None)]
    if re.match(r'(boost::system::|std::)?(_V2::)?error_code', a):
        # passed by reference (boost) or in registers (std: the value in the low half, and the category)
        v, cat = (I.load_at(st, ec, 0, 'i32'), I.load_at(st, ec, 8, 'p')) if isptr(ec) else (ec, args[2])
    else:
        v, cat = ec, args[2]
    m[k] = (1, ('EC', v))
    if isptr(cat):       # the error code object, which code() refers to
        I.store(st, this, 4, v, 16, 'i32')
        I.store(st, this, 8, cat, 24, 'p')
        if f.dem.startswith('boost'):
            I.store(st, this, 8, 3, 32, 'i64')
    return [(st, None)]


def m_error_code_ctor(I, st, args, i, f):
    I.store(st, args[0], 4, args[1], 0, 'i32')
    I.store(st, args[0], 8, args[2], 8, 'p')
    I.store(st, args[0], 8, 3, 16, 'i64')
    return [(st, None)]


def m_guard_acquire(I, st, args, i, f):
    v = I.load_at(st, args[0], 0, 'i8')
    return [(st, 0 if v == 1 else 1)]


def m_guard_release(I, st, args, i, f):
    I.store(st, args[0], 1, 1)
    return [(st, None)]


def m_string(I, st, args, i, f):
    """character strings (messages) have no influence on anything"""
    return [(st, None if i['ty'] == 'void' else args[0] if i['ty'] in ('p', 'ptr') else st.fresh_int(64, ('string',)))]


def m_uncaught(I, st, args, i, f):
    """an exception may or may not be in flight in the caller"""
    return [(st, 0), (st.copy(), 1)]


BASE_MODELS = {
    '__cxa_allocate_exception': m_cxa_allocate,
    '__cxa_free_exception': m_nop,
    '__cxa_throw': m_cxa_throw,
    '__cxa_begin_catch': m_begin_catch,
    '__cxa_end_catch': m_end_catch,
    '__cxa_rethrow': m_rethrow,
    '__clang_call_terminate': m_abort('terminate'),
    '_ZSt9terminatev': m_abort('terminate'), '__cxa_call_unexpected': m_abort('terminate'),
    'abort': m_abort('abort'),
    '__assert_fail': m_abort('assert'),
    '__cxa_pure_virtual': m_abort('pure'),
    '__cxa_atexit': lambda I, st, a, i, f: [(st, 0)],
    '__cxa_guard_acquire': m_guard_acquire, '__cxa_guard_release': m_guard_release, '__cxa_guard_abort': m_nop,
    '_Znwm': m_new, '_Znam': m_new,
    '_ZdlPv': m_delete, '_ZdaPv': m_delete, '_ZdlPvm': m_delete, '_ZdaPvm': m_delete,
    'memcpy': m_memcpyfn, 'memmove': m_memcpyfn, 'memset': m_memsetfn,
    'sched_yield': lambda I, st, a, i, f: [(st, 0)],
}
BASE_RX = [
    (re.compile(r'^std::__cxx11::basic_string<|^std::__cxx11::to_string\(|^std::__cxx11::basic_string<.*> std::operator\+<'), m_string),
    (re.compile(r'^std::uncaught_exceptions?\(\)$'), m_uncaught),
    (re.compile(r'^boost::system::error_code::error_code\(int, boost::system::error_category const&\)$'), m_error_code_ctor),
    (re.compile(r'^(std::_V2|boost::system)::(system|generic)_category(\[[^\]]*\])?\(\)$'), lambda I, st, a, i, f: [(st, ptr(('cat', 'system' if 'system_category' in f.dem else 'generic')))]),
    (re.compile(r'(^|[ :])boost::throw_exception<.*>\(|boost::throw_exception\('), m_throw_exception),
    (re.compile(r'^boost::assertion_failed(_msg)?\('), m_abort('assert')),
    (re.compile(r'^(boost::system|std)(::__cxx11|::_V2)?::system_error::system_error\('), m_syserr_ctor),
    (re.compile(r'^(boost::system|std)(::__cxx11|::_V2)?::system_error::~system_error\(|^std::runtime_error::~runtime_error|^std::exception::~exception'), m_nop),
]


class Observer:
    """hooks; subclasses implement the rules"""

    def on_access(self, I, st, rw, p, sz, ins, v=None):
        return None

    def on_memcpy(self, I, st, d, s, n, ins):
        return None

    def on_loophead(self, I, st):
        return None

    def on_overflow(self, I, st, ins, v):
        pass

    def on_join(self, I, st, key):
        return None

    def on_fence(self, I, st, order, ins):
        pass

    def on_pause(self, I, st):
        pass

    def touch(self, st):
        pass

    def on_finish(self, I):
        pass

    def on_atomic(self, I, st, ins, op, p, sz, ty, order, v, exp, weak, ordf, done):
        return None

    def on_indirect(self, I, st, ins, f, args):
        return None

    def on_extern(self, I, st, ins, f, args):
        return None

    def on_enter(self, I, st, f, args):
        return None

    def on_leave(self, I, st, fr, v):
        pass

    def on_end(self, I, st, how, v):
        pass

    def on_throw(self, I, st, exc):
        pass

    def on_abort(self, I, st, kind, msg):
        pass

    def on_alloc(self, I, st, base):
        pass

    def on_free(self, I, st, p):
        pass

    def alloc_may_fail(self, I, st):
        return False
