"""Thread-specific storage and thread-exit machinery (C19, C20, C21, C22)."""
from absint import (Interp, Observer, State, Frame, Throw, AnalysisError, isptr, isnum, NULL, UNDEF, ptr, ladd, lsub, INF, short)
from vf import Job, run_jobs, REPO
from word import Bad, where_of
from cont import Containers, closure, tracked, BIG, BADALLOC, I_size
import os

KEYVAL = 77
OWN, X, OB, OA = ('h', 9000, 0), ('h', 9001, 0), ('h', 9002, 0), ('h', 9003, 0)


def T(name):
    return ptr(('T', name))


def base(p):
    return p[1] if isptr(p) else None


class Tss(Containers):
    """models of the system interface; subclasses state what each entry point must do"""
    exiting = False

    def __init__(self, lay=None):
        self.lay = lay
        self.mem_rule = '19mem'
        self.locks = {}

    def models(self):
        d = self.cont_models()
        d.update({
            'pthread_once': self.once, 'pthread_key_create': self.key_create, 'pthread_getspecific': self.getspec, 'pthread_setspecific': self.setspec,
            'pthread_mutex_lock': self.m_lock, 'pthread_mutex_unlock': self.m_unlock, 'pthread_mutex_init': self.zero, 'pthread_mutex_destroy': self.zero,
            'pthread_cond_broadcast': self.c_broadcast, 'pthread_cond_signal': self.c_signal, 'pthread_cond_init': self.zero, 'pthread_cond_destroy': self.zero,
            'vf_list_first': self.l_first, 'vf_list_last': self.l_first, 'vf_list_next': self.l_next, 'vf_list_prev': self.l_next, 'vf_list_ctor': self.l_ctor,
            'vf_list_dtor': self.l_ctor, 'vf_list_add': self.l_add, 'vf_list_remove': self.l_remove, 'vf_list_linked': self.l_linked,
        })
        return d

    def zero(self, I, st, a, i, f):
        return [(st, 0)]

    def bad_mem(self, I, st, msg):
        I.ob(st, self.mem_rule, False, msg)

    # ---- initialisation
    def once(self, I, st, a, i, f):
        flag, fn = a[0], a[1]
        if not (isptr(flag) and isptr(fn) and isinstance(fn[1], tuple) and fn[1][0] == 'g'):
            raise AnalysisError('pthread_once arguments')
        I.ob(st, '20once', isinstance(flag[1], tuple) and flag[1][0] == 'g', 'the once flag is not a global object: initialization may run more than once')
        fl = self.onceflag
        if fl is None:
            self.onceflag = (flag, fn)
        else:
            I.ob(st, '20once', (flag, fn) == fl, 'different once flags or routines initialize the machinery')
        if st.obs.get('once'):
            return [(st, 0)]
        st.obs['once'] = 1
        st.obs['inonce'] = 1
        fun = I.m.funcs.get(fn[1][1])
        I.push(st, fun, [], i)
        st.frames[-1].tag = 'once'
        return [(st, 'CALL')]

    def on_leave(self, I, st, fr, v):
        if fr.tag == 'once':
            st.obs.pop('inonce', None)

    def key_create(self, I, st, a, i, f):
        I.store(st, a[0], 4, KEYVAL, 0, 'i32')
        if base(a[1]) is None:
            st.obs['dtor'] = None
        else:
            st.obs['dtor'] = a[1][1][1]
        return [(st, 0)]

    def chk_key(self, I, st, k):
        if k != KEYVAL:
            I.ob(st, '20once', False, 'the thread context key is used before it is created')

    def getspec(self, I, st, a, i, f):
        self.chk_key(I, st, a[0])
        self.src.add('spec')
        return [(st, st.obs.get('spec', NULL))]

    def setspec(self, I, st, a, i, f):
        self.chk_key(I, st, a[0])
        st.obs['spec'] = a[1]
        return [(st, 0)]

    def tlsval(self, I, st):
        """what the library sees as this thread's context: one value per source it reads"""
        out = []
        for s in sorted(self.reads):
            if s == 'spec':
                out.append(st.obs.get('spec', NULL))
            else:
                m = st.mem.get(('g', s), {}).get(0)
                out.append(m[1] if m else NULL)
        return [NULL if v == 0 else v for v in out]

    # ---- locks
    def m_lock(self, I, st, a, i, f):
        p = a[0]
        if self.user_mutex(st, p):
            return self.user_lock(I, st, p)
        self.chk_obj(I, st, p)
        h = st.obs.get('held', ())
        I.ob(st, '21held', p not in h, 'an internal lock is acquired while the same thread already holds it')
        if p in h:
            return [(st, 'END')]
        st.obs['held'] = h + (p,)
        I.note(st, 'internal lock acquired')
        return [(s, 0) for s in self.acquired(I, st)]

    def m_unlock(self, I, st, a, i, f):
        p = a[0]
        if self.user_mutex(st, p):
            return self.user_unlock(I, st, p)
        self.chk_obj(I, st, p)
        h = st.obs.get('held', ())
        I.ob(st, '21held', p in h, 'an internal lock is released that is not held')
        self.releasing(I, st)
        st.obs['held'] = tuple(x for x in h if x != p)
        I.note(st, 'internal lock released')
        return [(st, 0)]

    def chk_obj(self, I, st, p):
        if not isptr(p) or p[1] is None or p[1] in self.freed(st):
            self.bad_mem(I, st, 'a lock is used through an invalid pointer')

    def user_mutex(self, st, p):
        return isptr(p) and isinstance(p[1], tuple) and p[1][0] in ('T', 's')

    def user_lock(self, I, st, p):
        I.ob(st, '21user', not st.obs.get('held'), 'a user mutex is locked while an internal lock is held')
        return [(st, 0)]

    def user_unlock(self, I, st, p):
        return [(st, 0)]

    def acquired(self, I, st):
        return [st]

    def releasing(self, I, st):
        pass

    def c_broadcast(self, I, st, a, i, f):
        return [(st, 0)]

    def c_signal(self, I, st, a, i, f):
        return [(st, 0)]

    # ---- shared tables
    def role(self, st, key):
        """role of a container by where it lives"""
        if not self.lay:
            return None
        b, off = key[1], key[2]
        if b == self.lay['mgr']:
            return {self.lay['table']: 'table', self.lay['freed']: 'freed'}.get(off, 'registry')
        r = {self.lay['storage']: 'storage', self.lay['at_exit']: 'at_exit', self.lay['notify']: 'notify'}.get(off, 'context')
        if b == OWN or b == st.obs.get('newctx'):
            return 'own.' + r
        if b in (X, OB, OA):
            return 'foreign.' + r
        return None

    def lock_ob(self, I, st, what, text):
        if st.obs.get('inonce'):
            return
        h = st.obs.get('held', ())
        I.ob(st, '20lock', bool(h), text + ' without the registry lock')
        if h:
            L = self.locks
            L[what] = (set(h) & L[what]) if what in L else set(h)
            I.ob(st, '20lock', bool(L[what]), text + ' under a lock different from the one that protects it elsewhere')

    def linked(self, st, b):
        return b in (X, OB, OA) or st.obs.get(('linked', b)) == 1

    def on_vec(self, I, st, what, key):
        r = self.role(st, key)
        if r is None:
            return
        if r in ('table', 'freed', 'registry'):
            I.ob(st, '20once', st.obs.get('once') == 1, 'the registry is used before it is initialized')
            self.lock_ob(I, st, 'reg', 'the registry of keys is %s' % ('read' if what == 'size' else 'changed'))
        elif r == 'own.storage':
            if what == 'change' and self.linked(st, key[1]):
                self.lock_ob(I, st, 'reg', "the thread's value table is restructured while other threads may look at it,")
            if what == 'destroy':
                I.ob(st, '20lock', not self.linked(st, key[1]), "the thread's value table is destroyed while other threads can still reach it")
        elif r == 'foreign.storage':
            self.lock_ob(I, st, 'reg', "another thread's value table is %s" % ('read' if what == 'size' else 'changed'))
        elif r.startswith('foreign.'):
            I.ob(st, '20lock', False, "another thread's private list is accessed")

    def on_elem(self, I, st, rw, key, idx, fld):
        r = self.role(st, key)
        if r is None:
            return
        if r in ('table', 'freed', 'registry'):
            self.lock_ob(I, st, 'reg', 'the registry of keys is %s' % ('read' if rw == 'r' else 'changed'))
        elif r == 'own.storage':
            if not self.linked(st, key[1]):
                return
            k = st.obs.get('key')
            if self.exiting or k is None or self.order(st, idx, k[1]) != 0:
                self.lock_ob(I, st, 'reg', "a value slot that another thread's key deletion may clear is %s" % ('read' if rw == 'r' else 'written'))
        elif r == 'foreign.storage':
            self.lock_ob(I, st, 'reg', "another thread's value is %s" % ('read' if rw == 'r' else 'written'))
        elif r.startswith('foreign.'):
            I.ob(st, '20lock', False, "another thread's private list is accessed")

    def on_access(self, I, st, rw, p, sz, ins, v=None):
        if isptr(p) and isinstance(p[1], tuple) and p[1][0] == 'g':
            g = I.m.globals.get(p[1][1], {})
            if g.get('tls'):
                if rw == 'r':
                    self.src.add(p[1][1])
            elif rw == 'w' and not g.get('const'):
                I.ob(st, '20once', st.obs.get('inonce') == 1, 'the shared state of the machinery is written outside its once-only initialization')
        return Containers.on_access(self, I, st, rw, p, sz, ins, v)

    # ---- list of thread contexts
    def l_ob(self, I, st, l, what):
        if self.lay and isptr(l) and l[1] == self.lay['mgr']:
            I.ob(st, '20once', st.obs.get('once') == 1, 'the registry is used before it is initialized')
            self.lock_ob(I, st, 'reg', 'the list of threads is %s' % what)

    def l_ctor(self, I, st, a, i, f):
        return [(st, None)]

    def node(self, b):
        return ptr(b, self.lay['hook'])

    def fresh_other(self, I, st, b):
        pass

    def l_first(self, I, st, a, i, f):
        self.l_ob(I, st, a[0], 'read')
        outs = []
        if st.obs.get('lst'):
            s = st.copy()
            outs.append((s, self.node(X)))
            s = st.copy()
            self.fresh_other(I, s, OB)
            outs.append((s, self.node(OB)))
        else:
            if self.lay and st.obs.get('lst') is None:       # there may be other threads
                s = st.copy()
                self.fresh_other(I, s, OA)
                outs.append((s, self.node(OA)))
            outs.append((st, NULL))
        return outs

    def l_next(self, I, st, a, i, f):
        self.l_ob(I, st, a[0], 'read')
        b = base(a[1])
        outs = []
        if b == OB:
            s = st.copy()
            self.fresh_other(I, s, OB)
            outs.append((s, self.node(OB)))
            outs.append((st, self.node(X)))
        elif b in (X, OA):
            s = st.copy()
            self.fresh_other(I, s, OA)
            outs.append((s, self.node(OA)))
            outs.append((st, NULL))
        elif b is None:
            self.bad_mem(I, st, 'a list iterator is advanced past the end')
            return [(st, 'END')]
        else:
            s = st.copy()
            self.fresh_other(I, s, OA)
            outs.append((s, self.node(OA)))
            outs.append((st, NULL))
        return outs

    def l_add(self, I, st, a, i, f):
        self.l_ob(I, st, a[0], 'changed')
        b = base(a[1])
        I.ob(st, self.mem_rule, st.obs.get(('linked', b)) != 1, 'a thread context is registered twice')
        st.obs[('linked', b)] = 1
        st.obs['hookoff'] = a[1][2]
        st.obs['list'] = ('A', a[0])
        st.obs['newctx'] = b
        return [(st, None)]

    def l_remove(self, I, st, a, i, f):
        self.l_ob(I, st, a[0], 'changed')
        b = base(a[1])
        I.ob(st, self.mem_rule, b is not None and b not in self.freed(st) and self.linked(st, b), 'a thread context is unregistered that is not registered')
        st.obs[('linked', b)] = 0
        return [(st, None)]

    def l_linked(self, I, st, a, i, f):
        return [(st, 1 if self.linked(st, base(a[0])) else 0)]

    # ---- allocation
    def alloc_may_fail(self, I, st):
        return not st.obs.get('inonce')

    def on_free(self, I, st, p):
        b = p[1]
        I.ob(st, self.mem_rule, b not in self.freed(st), 'an object is destroyed twice')
        I.ob(st, self.mem_rule, not self.linked(st, b), 'a thread context is destroyed while it is still registered: other threads reach freed memory')
        if b in (OWN, X, OB, OA) or st.obs.get('newctx') == b:
            st.obs['freed'] = self.freed(st) + (b,)

    # ---- user code
    def on_indirect(self, I, st, i, f, args):
        if not isptr(f):
            return None
        if f[1] is None:
            self.bad_mem(I, st, 'a null function pointer is called')
            return [(st, 'END')]
        if isinstance(f[1], tuple) and f[1][0] == 's':
            # null is possible unless excluded
            ne = st.obs.get('ptrne') or ()
            if frozenset((f, NULL)) not in ne:
                self.null_call(I, st, f)
        I.ob(st, '21user', not st.obs.get('held'), 'a user-supplied function is called while an internal lock is held')
        return self.user_call(I, st, f, args)

    def null_call(self, I, st, f):
        lab = st.lab.get(f[1][1])
        if lab and lab[0] == 'el' and lab[1] in ('table',):
            I.ob(st, self.mem_rule, False, 'a cleanup function that may be null is called')

    def user_call(self, I, st, f, args):
        return [(st, None)]

    def on_abort(self, I, st, kind, msg):
        if kind == 'assert':
            I.ob(st, self.mem_rule, False, 'an assertion of the library fails')

    def on_end(self, I, st, how, v):
        I.ob(st, '21held', not st.obs.get('held'), 'an internal lock is still held when the operation %s' % ('returns' if how == 'return' else 'throws'))
        self.post(I, st, how, v)

    def post(self, I, st, how, v):
        pass

    def known_fields(self, origin):
        if not self.lay:
            return ()
        return self.lay['fields'].get(origin, ())


# ---------------------------------------------------------------- layout discovery
class Found(Exception):
    pass


class Disc(Tss):
    def __init__(self, st0=None):
        Tss.__init__(self, None)
        self.onceflag = None
        self.src = set()
        self.ends = []

    def alloc_may_fail(self, I, st):
        return False

    def can_fail(self, I, st):
        return False

    def post(self, I, st, how, v):
        if how == 'return':
            self.ends.append((st, v))


def interp(m, o, **kw):
    I = Interp(m, o.models(), o, **kw)
    I.max_join = 30000
    return I


def facts(st, k):
    """position -> {field: value} of the witnesses of container k"""
    rid = st.obs[k][0]
    out = {}
    for wi, w in enumerate(st.obs.get(('ew', rid), ())):
        out[w] = {kk[3]: v for kk, v in st.obs.items() if isinstance(kk, tuple) and kk[0] == 'ef' and kk[1] == rid and kk[2] == wi}
    return out


class Lost(Exception):
    """something the library was given is kept nowhere"""


def kept(st, val):
    for b, x in st.mem.items():
        if isinstance(b, tuple) and any(isinstance(c, tuple) and val in c for c in x.values()):
            return True
    return any(isinstance(k, tuple) and k[0] == 'ef' and isinstance(x, tuple) and val in x for k, x in st.obs.items())


def discover(m):
    def run(entry, args, st0=None):
        o = Disc()
        I = interp(m, o)

        def init(I, st):
            if st0 is not None:
                st.mem = {b: dict(x) for b, x in st0.mem.items()}
                st.obs = dict(st0.obs)
        I.start(entry, args, init)
        if I.reports:
            raise Found(I)
        if len(o.ends) != 1:
            raise AnalysisError('layout discovery: %s ends %d times' % (entry, len(o.ends)))
        return o, o.ends[0][0], o.ends[0][1]
    o, s0, k0 = run('tss_new', [T('f'), 1])
    once, dt = o.onceflag, s0.obs.get('dtor')
    if dt is None:
        raise AnalysisError('no thread termination routine')
    vs = {k: v for k, v in s0.obs.items() if isinstance(k, tuple) and k[0] == 'vec'}
    tab = [k for k in vs if any(x == (8, T('f')) for f in facts(s0, k).values() for x in f.values())]
    if not tab and not kept(s0, T('f')):
        raise Lost('19key', where_of(m, 'tss_new'), 'the cleanup function given for a new key is not kept')
    if len(tab) != 1:
        raise AnalysisError('cannot find the table of cleanup functions')
    tab = tab[0]
    mgr = tab[1]
    fs = list(facts(s0, tab).values())[0]
    fcl = [o_ for o_, x in fs.items() if x == (8, T('f'))][0]
    ffl = [o_ for o_, x in fs.items() if isinstance(x, tuple) and x[1] == 1]
    if not ffl and str(facts(s0, tab)) == str(facts(run('tss_new', [T('f'), 0])[1], tab)):
        raise Lost('19key', where_of(m, 'tss_new'), 'whether values are cleaned up when the key is deleted is not kept for a new key')
    if len(ffl) != 1:
        raise AnalysisError('cannot find the cleanup flag of a key')
    others = [k for k in vs if k[1] == mgr and k != tab]
    if len(others) != 1 or len(vs) != 2:
        raise AnalysisError('the registry has an unknown table')
    L = dict(mgr=mgr, table=tab[2], freed=others[0][2], tabf=(fcl, ffl[0]), tabe=vs[tab][2], freee=vs[others[0]][2], once=once, dtor=dt)
    s0.obs = {k: v for k, v in s0.obs.items() if k in ('once',) or (isinstance(k, tuple) and k[0] in ('vec', 'ew', 'ef'))}

    def ctx(st, o):
        h = [b for b in st.mem if isinstance(b, tuple) and b[0] == 'h' and b != mgr]
        cand = [k[1] for k in st.obs if isinstance(k, tuple) and k[0] == 'linked']
        if len(cand) != 1:
            raise AnalysisError('cannot find the thread context')
        return cand[0]
    o, s1, _ = run('tss_callback', [T('cb'), T('cx')], s0)
    c1 = ctx(s1, o)
    cv = {k: v for k, v in s1.obs.items() if isinstance(k, tuple) and k[0] == 'vec' and k[1] == c1}
    L['hook'] = s1.obs['hookoff']
    L['list'] = s1.obs['list'][1]
    L['reads'] = sorted(o.src)
    L['ctxmem'] = dict(s1.mem.get(c1, {}))
    L['ctxoff'] = {k[2]: v[2] for k, v in cv.items()}

    def holder(st, c, val):
        r = [(k, w, o_) for k in st.obs if isinstance(k, tuple) and k[0] == 'vec' and k[1] == c for w, f in facts(st, k).items() for o_, x in f.items() if x == (8, val)]
        if not r and not kept(st, val):
            e, rule, what = {T('cb'): ('tss_callback', '22reg', 'the function to be called at thread exit'), T('cx'): ('tss_callback', '22reg', 'the argument of a function to be called at thread exit'),
                             T('um'): ('tss_notify', '22reg', 'the mutex to be unlocked at thread exit'), T('uc'): ('tss_notify', '22reg', 'the condition variable to be notified at thread exit'),
                             T('v'): ('tss_set', '19set', 'the value set for a key')}[val]
            raise Lost(rule, where_of(m, e), what + ' is not kept')
        if len(r) != 1:
            raise AnalysisError('cannot find where a registration is kept')
        return r[0]
    k, w, o1 = holder(s1, c1, T('cb'))
    _, _, o2 = holder(s1, c1, T('cx'))
    L['at_exit'] = k[2]
    L['aef'] = (o1, o2)
    o, s2, _ = run('tss_notify', [T('um'), T('uc')], s0)
    c2 = ctx(s2, o)
    k, w, o1 = holder(s2, c2, T('um'))
    _, _, o2 = holder(s2, c2, T('uc'))
    L['notify'] = k[2]
    L['nef'] = (o1, o2)
    if k[2] == L['at_exit']:
        raise AnalysisError('callbacks and notifications share a list')
    o, s3, _ = run('tss_set', [0, T('v')], s0)
    c3 = ctx(s3, o)
    k, w, o1 = holder(s3, c3, T('v'))
    L['storage'] = k[2]
    L['sto'] = o1
    L['globals'] = {b: dict(x) for b, x in s0.mem.items() if isinstance(b, tuple) and b[0] == 'g'}
    L['mgrmem'] = dict(s0.mem[mgr])
    tl = {}
    for b, x in s3.mem.items():
        if isinstance(b, tuple) and b[0] == 'g' and m.globals.get(b[1], {}).get('tls'):
            tl[b] = dict(x)
    L['tls'] = sorted(tl)
    L['fields'] = {'at_exit': ((L['aef'][0], 'p'), (L['aef'][1], 'p')), 'notify': ((L['nef'][0], 'p'), (L['nef'][1], 'p')),
                   'table': ((L['tabf'][0], 'p'), (L['tabf'][1], 'i8')), 'storage': ((L['sto'], 'p'),), 'freed': ((0, 'i32'),)}
    # what get() looks at
    o = Disc()
    I = interp(m, o)

    def init(I, st):
        st.mem = {b: dict(x) for b, x in s3.mem.items()}
        st.obs = {k: v for k, v in s3.obs.items()}
        st.obs['key'] = ('K', 0)
    I.start('tss_get', [0], init)
    L['reads'] = sorted(set(L['reads']) | o.src)
    if not L['reads']:
        raise AnalysisError('cannot find where the thread context is kept')
    return L


_lay = {}


def layout(m):
    if id(m) not in _lay:
        _lay[id(m)] = discover(m)
    return _lay[id(m)]


# ---------------------------------------------------------------- entry points
class Entry(Tss):
    vague_roles = ()
    def __init__(self, lay):
        Tss.__init__(self, lay)
        self.onceflag = lay['once']
        self.src = set()
        self.reads = lay['reads']

    # ---- initial states
    def size(self, st, lo=0):
        return st.fresh(('size',), lo, BIG)

    def setup(self, I, st, once=1):
        L = self.lay
        if once:
            st.mem = {b: dict(x) for b, x in L['globals'].items()}
            st.mem[L['mgr']] = dict(L['mgrmem'])
            st.obs['once'] = 1
            st.obs['dtor'] = L['dtor']
            self.registry(I, st)
        st.obs['spec'] = NULL

    def registry(self, I, st):
        """unknown registry contents (also after other threads had the lock)"""
        L = self.lay
        for off, role, esz in ((L['table'], 'table', L['tabe']), (L['freed'], 'freed', L['freee'])):
            k = ('vec', L['mgr'], off)
            old = st.obs.pop(k, None)
            if old:
                self.drop(st, old[0])
        if 'table' in self.vague_roles:
            for off, role, esz in ((L['table'], 'table', L['tabe']), (L['freed'], 'freed', L['freee'])):
                st.obs[('vec', L['mgr'], off)] = (self.newrid(st, role), '?', esz)
            return
        n = self.size(st)
        st.obs[('vec', L['mgr'], L['table'])] = (self.newrid(st, 'table'), n, L['tabe'])
        k = st.obs.get('key')
        if k is not None:
            st.assume(lsub(n, k[1]), 1, INF)
            self.keyfacts(I, st)
        for kk, v in list(st.obs.items()):
            if isinstance(kk, tuple) and kk[0] == 'vec' and kk[2] == L['storage'] and kk[1] in (OWN, X, OB, OA) and v[1] != '?':
                st.assume(lsub(n, v[1]), 0, INF)
        rid = self.newrid(st, 'freed')
        if 'freed' in self.vague_roles:
            st.obs[('vec', L['mgr'], L['freed'])] = (rid, '?', L['freee'])
            if not closure(st):
                raise AnalysisError('inconsistent initial state')
            return
        fr = self.size(st)
        st.obs[('vec', L['mgr'], L['freed'])] = (rid, fr, L['freee'])
        # the key on top of the recycled keys
        top = st.fresh(('T', 'recycled'), 0, BIG)
        st.assume(lsub(n, top), 1, INF)
        self.setwit(st, rid, 0, ladd(fr, -1))
        st.obs[('ef', rid, 0, 0)] = (L['freee'], top)
        if not closure(st):
            raise AnalysisError('inconsistent initial state')

    def keyfacts(self, I, st):
        pass

    def context(self, I, st, b, role):
        """a thread context with unknown contents"""
        L = self.lay
        st.mem[b] = dict(L['ctxmem'])
        for off, esz in L['ctxoff'].items():
            r = {L['storage']: 'storage', L['at_exit']: 'at_exit', L['notify']: 'notify'}.get(off)
            if r is None:
                raise AnalysisError('a thread context has an unknown table')
            if role != 'own' and r != 'storage':
                continue
            k = ('vec', b, off)
            old = st.obs.pop(k, None)
            if old:
                self.drop(st, old[0])
            st.obs[k] = (self.newrid(st, r), '?' if r in self.vague_roles else self.size(st), esz)
        st.obs[('linked', b)] = 1

    def materialise(self, I, st, p):
        """private lists of another thread: unknown contents"""
        if p[1] in (X, OB, OA) and p[2] in self.lay['ctxoff']:
            r = {self.lay['at_exit']: 'at_exit', self.lay['notify']: 'notify', self.lay['storage']: 'storage'}[p[2]]
            st.obs[('vec', p[1], p[2])] = (self.newrid(st, r), self.size(st), self.lay['ctxoff'][p[2]])

    def group(self, rid):
        return 'keys' if rid[1] in ('table', 'storage') else rid

    def forget(self, I, st):
        """contexts of other threads that are no longer looked at"""
        held = set()

        def see(v):
            if isinstance(v, tuple):
                if v and v[0] == 'P':
                    held.add(v[1])
                else:
                    for x in v:
                        if isinstance(x, tuple):
                            see(x)
        for fr in st.frames:
            for v in fr.env.values():
                see(v)
        for b, m in st.mem.items():
            if b not in (OB, OA):
                for z, v in m.values():
                    see(v)
        for b in (OB, OA):
            if b not in held:
                st.mem.pop(b, None)
                st.obs.pop(('linked', b), None)
                for k in [k for k in st.obs if isinstance(k, tuple) and k[0] == 'vec' and k[1] == b]:
                    if ptr(st.obs[k][0])[1] not in held:
                        self.drop(st, st.obs[k][0])
                        del st.obs[k]

    def desc(self, st, b, name):
        return st.obs.get(('vec', b, self.lay[name]))

    def own(self, I, st):
        self.context(I, st, OWN, 'own')
        st.obs['spec'] = ptr(OWN)
        for g in self.lay['tls']:
            st.mem[g] = {0: (8, ptr(OWN))}

    def slot(self, I, st, b, idx, wi, v):
        """value of slot idx in b's table: 'absent', or a value"""
        d = self.desc(st, b, 'storage')
        if v == 'absent':
            ok = st.assume(lsub(d[1], idx), -INF, 0)
        else:
            ok = st.assume(lsub(d[1], idx), 1, INF)
        d = self.desc(st, b, 'storage')
        self.setwit(st, d[0], wi, idx)
        if v != 'absent':
            st.obs[('ef', d[0], wi, self.lay['sto'])] = (8, v)
        if not ok or not closure(st):
            raise AnalysisError('inconsistent initial state')

    def slotnow(self, st, b, wi):
        """current contents of a witness slot: 'absent', 'garbage' or a value"""
        d = self.desc(st, b, 'storage')
        if d is None:
            return 'gone'
        w = self.wit(st, d[0])
        if wi >= len(w) or w[wi] is None:
            return 'absent'
        if self.le(st, d[1], w[wi]):
            return 'absent'
        if st.obs.get(('ef', d[0], wi, 'garbage')):
            return 'garbage'
        e = st.obs.get(('ef', d[0], wi, self.lay['sto']))
        v = e[1] if e else 'unknown'
        return NULL if v == 0 else v

    def ctxnow(self, I, st):
        t = self.tlsval(I, st)
        return t[0] if t else NULL

    def chk_ctx(self, I, st, rule):
        """after an operation that must make this thread known"""
        t = self.tlsval(I, st)
        b = t[0]
        I.ob(st, rule, all(x == b for x in t), 'the two records of the thread context differ')
        I.ob(st, rule, st.obs.get('spec') == b, "the thread's termination will not be noticed: the context is not installed in the thread's key")
        if base(b) is not None:
            I.ob(st, rule, self.linked(st, base(b)), 'the thread context in use is not registered: key deletion does not reach its values')
        return base(b)

    def go(self, m, entry, args, init):
        I = getattr(self, 'I', None)
        if I is None:
            I = self.I = interp(m, self)
        I.start(entry, args, init)
        return I


class Get(Entry):
    def run(self, m):
        L = self.lay
        for case in ('none', 'absent', 'null', 'val'):
            def init(I, st):
                K = st.fresh(('T', 'key'), 0, BIG - 1)
                st.obs['key'] = ('K', K)
                if case != 'none':
                    self.own(I, st)
                    self.slot(I, st, OWN, K, 0, {'absent': 'absent', 'null': NULL, 'val': T('v')}[case])
                self.setup2(I, st)
                st.frames[0].env[0] = K
                st.obs['want'] = ('W', T('v') if case == 'val' else NULL)
                I.note(st, {'none': 'the thread has no context', 'absent': 'the value table does not reach the key', 'null': 'the slot is null', 'val': 'the slot holds a value'}[case])
            self.go(m, 'tss_get', [None], init)
        return self.I

    def setup2(self, I, st):
        keep = {b: x for b, x in st.mem.items()}
        o = dict(st.obs)
        self.setup(I, st)
        for b, x in keep.items():
            st.mem.setdefault(b, x)
            if b in (OWN,) or m_tls(self, b):
                st.mem[b] = x
        if 'spec' in o:
            st.obs['spec'] = o['spec']

    def post(self, I, st, how, v):
        if v == 0:
            v = NULL
        I.ob(st, '19get', how == 'return', 'reading a thread-specific value throws')
        if how == 'return':
            I.ob(st, '19get', v == st.obs['want'][1], 'the value returned is not the one stored for this key by this thread')


def m_tls(self, b):
    return b in self.lay['tls']


class Set(Get):
    def run(self, m):
        for case in ('none', 'absent', 'val'):
            for c2 in (('absent',) if case == 'none' else ('absent', 'val')):
                for order in (-1, 1):
                    def init(I, st):
                        K = st.fresh(('T', 'key'), 0, BIG - 1)
                        K2 = st.fresh(('K2',), 0, BIG - 1)
                        st.assume(lsub(K, K2), *((1, INF) if order > 0 else (-INF, -1)))
                        st.obs['key'] = ('K', K)
                        st.obs['key2'] = ('K', K2)
                        if case != 'none':
                            self.own(I, st)
                            self.slot(I, st, OWN, K, 0, 'absent' if case == 'absent' else T('old'))
                            self.slot(I, st, OWN, K2, 1, 'absent' if c2 == 'absent' else T('other'))
                        self.setup2(I, st)
                        fr = st.frames[0]
                        fr.env[0], fr.env[1] = K, T('v')
                        st.obs['pre'] = (case, c2)
                        I.note(st, 'thread context %s, slot of the key %s, another key\'s slot %s' % ('missing' if case == 'none' else 'present', case, c2))
                    try:
                        self.go(m, 'tss_set', [None, None], init)
                    except Infeasible:
                        pass
        return self.I

    def slot(self, I, st, b, idx, wi, v):
        try:
            Entry.slot(self, I, st, b, idx, wi, v)
        except AnalysisError:
            raise Infeasible()

    def on_resized(self, I, st, k, old, new):
        # make the slot of the other key a witness of a table created here
        pass

    def post(self, I, st, how, v):
        case, c2 = st.obs['pre']
        if how == 'throw':
            if case != 'none':
                now = self.slotnow(st, OWN, 0)
                I.ob(st, '19set', now == ('absent' if case == 'absent' else T('old')) or (case == 'absent' and now == NULL), 'installing a value fails with an exception but changes the stored value')
                self.other(I, st, OWN, c2)
            self.chk_ctx(I, st, '19set')
            return
        b = self.chk_ctx(I, st, '19set')
        if b is None:
            I.ob(st, '19set', False, 'a value was installed but the thread has no context')
            return
        d = self.desc(st, b, 'storage')
        K = st.obs['key'][1]
        ok = False
        for w, f in facts(st, ('vec', b, self.lay['storage'])).items():
            if w is not None and self.order(st, w, K) == 0 and f.get(self.lay['sto']) == (8, T('v')) and self.le(st, d[1], w) is False:
                ok = True
        I.ob(st, '19set', ok, 'the value installed is not the one found later for this key by this thread')
        self.other(I, st, b, c2)

    def other(self, I, st, b, c2):
        d = self.desc(st, b, 'storage')
        K2 = st.obs['key2'][1]
        now = 'unknown'
        for wi, w in enumerate(self.wit(st, d[0])):
            if w is not None and self.order(st, w, K2) == 0:
                now = self.slotnow(st, b, wi)
        if b != OWN:
            return       # a fresh table: see 'fill'
        if c2 == 'val':
            I.ob(st, '19set', now == T('other'), 'installing a value for one key changes the value of another key')
        else:
            I.ob(st, '19set', now in ('absent', NULL), 'a slot that was never set holds something other than null after the value table grew')


class Infeasible(Exception):
    pass


class New(Entry):
    def run(self, m):
        for once in (1, 0):
            for d in (0, 1):
                def init(I, st):
                    self.setup(I, st, once)
                    fr = st.frames[0]
                    fr.env[0], fr.env[1] = T('f'), d
                    st.obs['d'] = d
                    I.note(st, 'machinery %sinitialized' % ('' if once else 'not yet '))
                self.go(m, 'tss_new', [None, None], init)
        return self.I

    def registry(self, I, st):
        Entry.registry(self, I, st)
        # the entries of the next unused key and of the key on top of the recycled ones
        rid, n, _ = st.obs[('vec', self.lay['mgr'], self.lay['table'])]
        fr = st.obs[('vec', self.lay['mgr'], self.lay['freed'])][0]
        self.setwit(st, rid, 0, n)
        self.setwit(st, rid, 1, st.obs[('ef', fr, 0, 0)][1])

    def acquired(self, I, st):
        if st.obs.get('acq'):
            self.registry(I, st)
        st.obs['acq'] = 1
        return [st]

    def on_resized(self, I, st, k, old, new):
        r = self.role(st, k)
        if r == 'freed':
            if self.order(st, ladd(old, -1), new) == 0:
                rid = st.obs[k][0]
                top = None
                for wi, w in enumerate(self.wit(st, rid)):
                    if w is not None and self.order(st, w, new) == 0:
                        e = st.obs.get(('ef', rid, wi, 0))
                        top = e[1] if e else None
                I.ob(st, '19key', 'popped' not in st.obs, 'two recycled keys are taken for one new key')
                st.obs['popped'] = ('K', top)
            else:
                I.ob(st, '19key', False, 'creating a key changes the set of recycled keys in another way than taking one')
        elif r == 'table':
            I.ob(st, '19key', self.order(st, new, ladd(old, 1)) == 0 and 'grown' not in st.obs, 'creating a key resizes the table of keys by something other than one entry')
            st.obs['grown'] = ('K', old)

    def post(self, I, st, how, v):
        o = st.obs
        if how == 'throw':
            I.ob(st, '19key', 'popped' not in o, 'a recycled key is lost when creating a key fails')
            I.ob(st, '19key', 'grown' not in o, 'the table of keys grows although creating the key fails')
            return
        p, g = o.get('popped'), o.get('grown')
        I.ob(st, '19key', (p is None) != (g is None), 'a new key is neither the next unused one nor taken from the recycled ones (or both)')
        src = (p or g or (0, None))[1]
        I.ob(st, '19key', isnum(v) and src is not None and self.order(st, v, src) == 0, 'the key returned is not the one that was reserved: two objects may share it')
        k = ('vec', self.lay['mgr'], self.lay['table'])
        ok = okd = False
        if isnum(v):
            for w, f in facts(st, k).items():
                if w is not None and self.order(st, w, v) == 0:
                    ok = f.get(self.lay['tabf'][0]) == (8, T('f'))
                    x = f.get(self.lay['tabf'][1])
                    okd = isinstance(x, tuple) and x[1] == o['d']
        I.ob(st, '19key', ok, "the cleanup function recorded for the new key is not its owner's")
        I.ob(st, '19key', okd, 'the cleanup-at-deletion flag recorded for the new key is not the one requested')


class Delete(Entry):
    """deletes key K; X is an arbitrary thread context"""

    def run(self, m):
        for flag in (1, 0):
            for cl in ('f', 'null'):
                for case in ('nolist', 'absent', 'null', 'val'):
                    def init(I, st):
                        K = st.fresh(('T', 'key'), 0, BIG - 1)
                        st.obs['key'] = ('K', K)
                        st.obs['cl'] = ('C', T('cl') if cl == 'f' else NULL)
                        st.obs['flag'] = flag
                        st.obs['case'] = case
                        st.obs['lst'] = 0 if case == 'nolist' else 1
                        if case != 'nolist':
                            self.context(I, st, X, 'X')
                            self.slot(I, st, X, K, 0, {'absent': 'absent', 'null': NULL, 'val': T('v')}[case])
                        keep = st.mem
                        self.setup(I, st)
                        st.mem.update({b: x for b, x in keep.items() if b == X})
                        st.frames[0].env[0] = K
                        I.note(st, 'key %s, %s, %s' % ('with cleanup at deletion' if flag else 'without cleanup at deletion', 'with a cleanup function' if cl == 'f' else 'without cleanup function', {'nolist': 'no threads', 'absent': 'a thread without the value', 'null': 'a thread whose value is null', 'val': 'a thread with a value'}[case]))
                    self.go(m, 'tss_delete', [None], init)
        return self.I

    def can_fail(self, I, st):
        return True

    def keyfacts(self, I, st):
        L = self.lay
        rid = st.obs[('vec', L['mgr'], L['table'])][0]
        self.setwit(st, rid, 0, st.obs['key'][1])
        st.obs[('ef', rid, 0, L['tabf'][0])] = (8, st.obs['cl'][1])
        st.obs[('ef', rid, 0, L['tabf'][1])] = (1, st.obs['flag'])

    def fresh_other(self, I, st, b):
        self.context(I, st, b, 'other')
        T_ = st.obs[('vec', self.lay['mgr'], self.lay['table'])]
        st.assume(lsub(T_[1], self.desc(st, b, 'storage')[1]), 0, INF)
        closure(st)

    def acquired(self, I, st):
        o = st.obs
        outs = [st]
        if o.get('acq'):
            if o.get('recycled'):
                # another thread may have created a key with the same number
                o['reused'] = 1
            # another thread terminates and cleans its value itself
            if o['case'] == 'val' and self.slotnow(st, X, 0) == T('v'):
                s = st.copy()
                s.obs['taken'] = 1
                d = self.desc(s, X, 'storage')
                s.obs[('ef', d[0], 0, self.lay['sto'])] = (8, NULL)
                outs.append(s)
        o['acq'] = 1
        return outs

    def releasing(self, I, st):
        o = st.obs
        if o.get('recycled') and not o.get('checked'):
            o['checked'] = 1
            self.cleared(I, st)
        if o['case'] == 'val' and self.slotnow(st, X, 0) == T('v') and o['flag']:
            o['exposed'] = 1       # its thread may clean it from now on

    def cleared(self, I, st):
        if st.obs['case'] != 'nolist':
            now = self.slotnow(st, X, 0)
            I.ob(st, '19del', now in ('absent', NULL), "a key is recycled while a thread still has a value for it: the key's next owner sees it")

    def on_resized(self, I, st, k, old, new):
        r = self.role(st, k)
        if r == 'freed':
            I.ob(st, '19del', self.order(st, new, ladd(old, 1)) == 0 and not st.obs.get('recycled'), 'deleting a key changes the set of recycled keys in another way than adding it once')
            st.obs['recycled'] = 1
            st.obs['slotat'] = ('K', old)
        elif r == 'table':
            I.ob(st, '19del', False, 'deleting a key resizes the table of keys')

    def user_call(self, I, st, f, args):
        o = st.obs
        a = args[0] if args else None
        I.ob(st, '19del', o['flag'] == 1, 'a cleanup function is called on key deletion although that was not requested')
        I.ob(st, '19del', f == o['cl'][1] or self.unknown_cl(st, f), 'the function called for a value on key deletion is not the cleanup function of that key')
        if a == T('v'):
            I.ob(st, '19del', f == o['cl'][1], "a value is passed to another key's cleanup function")
            I.ob(st, '19del', not o.get('called'), 'a value is passed to its cleanup function twice')
            I.ob(st, '19del', not o.get('taken') and not o.get('exposed') and self.slotnow(st, X, 0) != T('v'), 'a value is cleaned up on key deletion while its thread can still clean it up itself: it may be cleaned twice')
            o['called'] = 1
        else:
            I.ob(st, '19del', a != NULL, 'the cleanup function is called for a null value')
        I.note(st, 'cleanup function called')
        return [(st, None)]

    def unknown_cl(self, st, f):
        return False

    def post(self, I, st, how, v):
        o = st.obs
        I.ob(st, '19del', how == 'return', 'deleting a key throws')
        if o['flag']:
            I.ob(st, '19del', o.get('recycled') == 1, 'the number of a deleted key is never reused')
            k = ('vec', self.lay['mgr'], self.lay['freed'])
            d = o[k]
            ok = False
            for w, f in facts(st, k).items():
                if w is not None and 'slotat' in o and self.order(st, w, o['slotat'][1]) == 0:
                    e = f.get(0)
                    ok = isinstance(e, tuple) and isnum(e[1]) and self.order(st, e[1], o['key'][1]) == 0
            I.ob(st, '19del', ok, 'the key put up for reuse is not the one deleted')
            self.cleared(I, st)
            if o['case'] == 'val' and o['cl'][1] != NULL:
                I.ob(st, '19del', o.get('called') == 1 or o.get('taken') == 1, "a thread's value is not cleaned up when its key is deleted")
        else:
            if o.get('recycled'):
                self.cleared(I, st)
            I.ob(st, '19del', not o.get('called'), 'a cleanup function is called on key deletion although that was not requested')
            if o['case'] == 'val':
                I.ob(st, '19del', o.get('called') == 1 or self.slotnow(st, X, 0) == T('v') or o['cl'][1] == NULL, "a thread's value is dropped without cleanup when its key is deleted")


class Reg(Entry):
    """registration of an at-exit function or of a notification"""

    def __init__(self, lay, what):
        Entry.__init__(self, lay)
        self.what = what
        self.mem_rule = '22mem'
        self.name = 'at_exit' if what == 'callback' else 'notify'
        self.f = lay['aef'] if what == 'callback' else lay['nef']

    def run(self, m):
        for case in ('once', 'none', 'some'):
            def init(I, st):
                if case == 'some':
                    self.own(I, st)
                    d = self.desc(st, OWN, self.name)
                    w = st.fresh(('w',), 0, BIG)
                    st.assume(lsub(d[1], w), 1, INF)
                    self.setwit(st, d[0], 0, w)
                    st.obs[('ef', d[0], 0, self.f[0])] = (8, T('o1'))
                    st.obs[('ef', d[0], 0, self.f[1])] = (8, T('o2'))
                    st.obs['n0'] = ('N', d[1])
                    st.obs['w0'] = ('N', w)
                keep, sp = dict(st.mem), st.obs.get('spec', NULL)
                self.setup(I, st, 0 if case == 'once' else 1)
                for b, x in keep.items():
                    if b == OWN or m_tls(self, b):
                        st.mem[b] = x
                st.obs['spec'] = sp
                st.obs['case'] = case
                fr = st.frames[0]
                fr.env[0], fr.env[1] = T('a'), T('b')
                I.note(st, {'once': 'machinery not yet initialized', 'none': 'first registration of the thread', 'some': 'thread with a context'}[case])
            self.go(m, 'tss_' + self.what, [None, None], init)
        return self.I

    def user_unlock(self, I, st, p):
        I.ob(st, '22reg', False, 'the mutex handed over is released when the notification is registered')
        return [(st, 0)]

    def user_call(self, I, st, f, args):
        I.ob(st, '22reg', False, 'a function is called when it is registered')
        return [(st, None)]

    def post(self, I, st, how, v):
        o = st.obs
        b = self.chk_ctx(I, st, '22reg')
        if o['case'] == 'some':
            b = OWN
            I.ob(st, '22reg', o.get('spec') == ptr(OWN), "registration replaces the thread's context")
        n0 = o['n0'][1] if 'n0' in o else 0
        new, old, cnt = False, o['case'] != 'some', 0
        if b is not None:
            k = ('vec', b, self.lay[self.name])
            n = o[k][1]
            for w, f in facts(st, k).items():
                if w is None or self.le(st, n, w):
                    continue
                if f.get(self.f[0]) == (8, T('o1')) and f.get(self.f[1]) == (8, T('o2')) and 'w0' in o and self.order(st, w, o['w0'][1]) == 0:
                    old = True
                if f.get(self.f[0]) == (8, T('a')) or f.get(self.f[1]) == (8, T('b')):
                    cnt += 1
                    if f.get(self.f[0]) == (8, T('a')) and f.get(self.f[1]) == (8, T('b')) and self.order(st, w, n0) == 0:
                        new = True
            grown = self.order(st, n, ladd(n0, 1)) == 0
            same = self.order(st, n, n0) == 0
        else:
            grown, same = False, True
        if how == 'return':
            I.ob(st, '22reg', new and grown and cnt == 1, 'a registration is not recorded exactly once, with its arguments, after the earlier ones')
        else:
            I.ob(st, '22reg', same and cnt == 0, 'a registration that failed with an exception stays recorded')
        I.ob(st, '22reg', old, 'a registration changes an earlier one')


class Exit(Entry):
    """termination of a thread; mode: what is tracked"""
    exiting = True

    def __init__(self, lay, mode):
        Entry.__init__(self, lay)
        self.mode = mode
        self.mem_rule = '19mem' if mode == 'val' else '22mem'
        # what the tracked thing does not depend on: any contents and any size at any time
        self.vague_roles = {'cb': ('table', 'freed', 'storage', 'notify'), 'not': ('table', 'freed', 'storage', 'at_exit'), 'val': ('freed', 'at_exit', 'notify')}[mode]

    def run(self, m):
        L = self.lay
        if self.mode == 'cb':
            cases = ['0', '1', '2', 'later']
        elif self.mode == 'not':
            cases = ['now', 'later']
        else:
            cases = [(a, b) for a in ('now', 'later') for b in ('f', 'null')]
        for case in cases:
            def init(I, st):
                o = st.obs
                self.own(I, st)
                if self.mode == 'val':
                    K = st.fresh(('key',), 0, BIG - 1)
                    o['key'] = ('K', K)
                    o['cl'] = ('C', T('cl') if case[1] == 'f' else NULL)
                    o['V'] = 'slot' if case[0] == 'now' else 'later'
                    if case[0] == 'now':
                        self.slot(I, st, OWN, K, 0, T('v'))
                    else:
                        d = self.desc(st, OWN, 'storage')
                        self.setwit(st, d[0], 0, K)
                elif self.mode == 'cb':
                    if case == 'later':
                        o['cb'] = ('later', 'later')
                    else:
                        d = self.desc(st, OWN, 'at_exit')
                        self.introduce(I, st, int(case), 0, exact=True)
                else:
                    o['um'] = 'later' if case == 'later' else 'in'
                    if case == 'now':
                        self.intro_not(I, st, 0)
                keep = {b: x for b, x in st.mem.items()}
                self.setup(I, st)
                for b, x in keep.items():
                    if b == OWN or m_tls(self, b):
                        st.mem[b] = x
                o['spec'] = NULL           # the system clears the key before calling the routine
                st.frames[0].env[0] = ptr(OWN)
                I.note(st, 'thread termination')
            self.go(m, L['dtor'], [None], init)
        return self.I

    def forget(self, I, st):
        Entry.forget(self, I, st)
        # unknown contents of elements are not remembered
        for k in [k for k in st.obs if isinstance(k, tuple) and k[0] == 'ef']:
            v = st.obs[k]
            if isinstance(v, tuple) and not (isptr(v[1]) and (v[1][1] is None or v[1][1][0] == 'T')) and not isinstance(v[1], int):
                del st.obs[k]

    # ---- the tracked things
    def introduce(self, I, st, n, start, exact=False):
        """n tracked at-exit functions registered from position start on"""
        o = st.obs
        d = self.desc(st, OWN, 'at_exit')
        k = ('vec', OWN, self.lay['at_exit'])
        ok = True
        if n == 0:
            st.obs[k] = (d[0], start, d[2])
            o['cb'] = ('none', 'none')
            return ok
        if n == 1:
            w = (start,)
            st.obs[k] = (d[0], ladd(start, 1), d[2])
            o['cb'] = ('reg', 'none')
        else:
            a, b = st.fresh(('w1',), 0, BIG), st.fresh(('w2',), 0, BIG)
            size = self.size(st, 2)
            st.obs[k] = (d[0], size, d[2])
            ok = st.assume(lsub(a, start), 0, INF) and st.assume(lsub(b, a), 1, INF) and st.assume(lsub(size, b), 1, INF)
            w = (a, b)
            o['cb'] = ('reg', 'reg')
        have = len(self.wit(st, d[0]))
        for j, x in enumerate(w):
            self.setwit(st, d[0], have + j, x)
            st.obs[('ef', d[0], have + j, self.lay['aef'][0])] = (8, T('cb%d' % j))
            st.obs[('ef', d[0], have + j, self.lay['aef'][1])] = (8, T('cx%d' % j))
        return ok and closure(st)

    def intro_not(self, I, st, start):
        d = self.desc(st, OWN, 'notify')
        k = ('vec', OWN, self.lay['notify'])
        w = st.fresh(('w',), 0, BIG)
        size = self.size(st, 1)
        st.obs[k] = (d[0], size, d[2])
        ok = st.assume(lsub(w, start), 0, INF) and st.assume(lsub(size, w), 1, INF)
        self.setwit(st, d[0], 0, w)
        st.obs[('ef', d[0], 0, self.lay['nef'][0])] = (8, T('um'))
        st.obs[('ef', d[0], 0, self.lay['nef'][1])] = (8, T('uc'))
        st.obs['um'] = 'in'
        return ok and closure(st)

    def keyfacts(self, I, st):
        L = self.lay
        rid = st.obs[('vec', L['mgr'], L['table'])][0]
        self.setwit(st, rid, 0, st.obs['key'][1])
        if st.obs.get('V') == 'slot':
            st.obs[('ef', rid, 0, L['tabf'][0])] = (8, st.obs['cl'][1])

    def acquired(self, I, st):
        """other threads had the lock before: keys may have been created and deleted"""
        outs = []
        if self.mode == 'val' and st.obs.get('V') == 'slot':
            s = st.copy()
            s.obs['V'] = 'taken'
            d = self.desc(s, OWN, 'storage')
            s.obs[('ef', d[0], 0, self.lay['sto'])] = (8, NULL)
            I.note(s, 'the key is deleted by another thread, which cleans up the value')
            self.registry(I, s)
            outs.append(s)
        if self.desc(st, OWN, 'storage') is not None:
            self.registry(I, st)
        outs.append(st)
        return outs

    # ---- slot contents follow the program
    def putfact(self, I, st, rid, hit, idx, items):
        Entry.putfact(self, I, st, rid, hit, idx, items)
        if self.mode == 'val' and st.obs.get('V') == 'slot':
            now = self.slotnow(st, OWN, 0)
            if now not in (T('v'),):
                st.obs['V'] = 'out'        # removed from the slot by the routine: it must clean it

    def on_drop(self, I, st, k, wi, idx):
        if self.mode == 'val' and self.role(st, k) == 'own.storage' and wi == 0 and st.obs.get('V') == 'slot':
            st.obs['V'] = 'out'

    def phase_of(self, st, f):
        """what an untracked function is, by where it was loaded from"""
        if isinstance(f[1], tuple) and f[1][0] == 'T':
            return {'cb0': 'at_exit', 'cb1': 'at_exit', 'cl': 'table'}.get(f[1][1])
        if isinstance(f[1], tuple) and f[1][0] == 's':
            lab = st.lab.get(f[1][1])
            if lab and lab[0] == 'el':
                return lab[1]
        return None

    def user_call(self, I, st, f, args):
        o = st.obs
        ph = self.phase_of(st, f)
        a = args[0] if args else None
        t = self.tlsval(I, st)
        I.ob(st, '22ctx', all(x == ptr(OWN) for x in t), "a function called at thread exit cannot reach the thread's own values and registrations")
        I.ob(st, '22ctx', self.linked(st, OWN) and OWN not in self.freed(st), 'a function is called at thread exit after the thread context was unregistered')
        if self.mode == 'val':
            I.ob(st, '19exit', all(x == ptr(OWN) for x in t), "a function called at thread exit does not find the thread's own values")
            I.ob(st, '19exit', self.linked(st, OWN), 'a function is called at thread exit after the thread context was unregistered: values it stores escape the deletion of their keys')
        if self.mode == 'cb':
            self.cb_call(I, st, f, a, ph)
        elif self.mode == 'val':
            self.val_call(I, st, f, a, ph)
        else:
            I.ob(st, '22order', o['um'] in ('in', 'later'), 'a user function runs at thread exit after a scheduled notification was already performed')
        I.note(st, '%s called' % {'at_exit': 'at-exit function', 'table': 'cleanup function'}.get(ph, 'user function'))
        outs = []
        for s in self.havoc(I, st, ph):
            outs.append((s, None))
        return outs

    def cb_call(self, I, st, f, a, ph):
        o = st.obs
        c = list(o['cb'])
        for j in (0, 1):
            if f == T('cb%d' % j) or a == T('cx%d' % j):
                I.ob(st, '22cb', f == T('cb%d' % j) and a == T('cx%d' % j), "an at-exit function is called with another registration's context")
                I.ob(st, '22cb', c[j] == 'reg', 'an at-exit function is called twice')
                if j == 0 and c[1] not in ('none', 'later'):
                    I.ob(st, '22order', c[1] == 'done', 'at-exit functions are not called in reverse order of registration')
                c[j] = 'done'
        o['cb'] = tuple(c)
        if ph == 'table':
            I.ob(st, '22order', not (o.get('cbby') != 'table' and 'reg' in o['cb']), 'a thread-specific value is cleaned up before a registered at-exit function has run')

    def val_call(self, I, st, f, a, ph):
        o = st.obs
        if a == T('v'):
            I.ob(st, '19exit', f == o['cl'][1], 'a value is passed at thread exit to a function that is not the cleanup function of its key')
            I.ob(st, '19exit', o['V'] not in ('done',), 'a value is passed to its cleanup function twice')
            I.ob(st, '19exit', o['V'] not in ('taken', 'user'), 'a value is cleaned up at thread exit although the deletion of its key already cleans it up')
            I.ob(st, '19exit', o['V'] != 'slot', 'a value is passed to its cleanup function while it is still installed: it may be cleaned up again')
            o['V'] = 'done'
        else:
            I.ob(st, '19exit', not (f == T('cl') and a == NULL), 'a cleanup function is called for a null value')

    def havoc(self, I, st, ph):
        """anything the called function may do through the public interface"""
        L = self.lay
        outs = []
        base_ = st
        o = base_.obs
        # value table: may grow, any slot may change
        d = self.desc(base_, OWN, 'storage')
        if d is None:
            return [base_]
        k = ('vec', OWN, L['storage'])
        if d[1] != '?':
            n = self.size(base_)
            base_.assume(lsub(n, d[1]), 0, INF)
            base_.obs[k] = (d[0], n, d[2])
        self.realloc(base_, k)
        d = base_.obs[k]
        sts = [base_]
        if self.mode == 'val':
            w = self.wit(base_, d[0])
            sts = []
            if o['V'] == 'slot':
                s = base_.copy()
                sts.append(s)                          # left alone
                s = base_.copy()
                s.obs['V'] = 'user'                    # replaced or released by the function itself
                s.obs.pop(('ef', d[0], 0, L['sto']), None)
                sts.append(s)
            else:
                if o['V'] == 'later':
                    s = base_.copy()
                    if s.assume(lsub(n, s.obs['key'][1]), 1, INF) and closure(s):
                        d2 = s.obs[k]
                        s.obs[('ef', d2[0], 0, L['sto'])] = (8, T('v'))
                        s.obs['V'] = 'slot'
                        I.note(s, '... and it installs a value')
                        sts.append(s)
                s = base_.copy()
                s.obs.pop(('ef', d[0], 0, L['sto']), None)
                s.obs.pop(('ef', d[0], 0, 'garbage'), None)
                sts.append(s)
        # registrations made by the function
        for s in sts:
            for name in ('at_exit', 'notify'):
                kk = ('vec', OWN, L[name])
                d = s.obs[kk]
                old = d[1]
                if old != '?':
                    n = self.size(s)
                    s.assume(lsub(n, d[1]), 0, INF)
                    s.obs[kk] = (d[0], n, d[2])
                self.realloc(s, kk)
                if name == 'at_exit' and self.mode == 'cb' and o['cb'] == ('later', 'later'):
                    for c in (1, 2):
                        z = s.copy()
                        z.obs['cbby'] = ph
                        if self.introduce(I, z, c, old):
                            I.note(z, '... and it registers at-exit functions')
                            outs.append(z)
                if name == 'notify' and self.mode == 'not' and o['um'] == 'later':
                    z = s.copy()
                    if self.intro_not(I, z, old):
                        I.note(z, '... and it schedules a notification')
                        outs.append(z)
            outs.append(s)
        return [s for s in outs if closure(s)]

    # ---- notifications
    def origin(self, st, p):
        if isptr(p) and isinstance(p[1], tuple):
            if p[1][0] == 'T':
                return 'notify'
            if p[1][0] == 's':
                lab = st.lab.get(p[1][1])
                if lab and lab[0] == 'el':
                    return lab[1]
        return None

    def before_notify(self, I, st):
        o = st.obs
        if self.mode == 'cb':
            I.ob(st, '22order', 'reg' not in o['cb'], 'a scheduled notification is performed before a registered at-exit function has run')
        elif self.mode == 'val':
            I.ob(st, '22order', not (o['V'] in ('slot', 'out') and o['cl'][1] != NULL), 'a scheduled notification is performed before a thread-specific value is cleaned up')

    def user_lock(self, I, st, p):
        I.ob(st, '22not', False, 'a mutex handed over for a notification is locked again at thread exit')
        return [(st, 0)]

    def user_unlock(self, I, st, p):
        self.before_notify(I, st)
        if p[1] == ('T', 'um'):
            I.ob(st, '22not', st.obs['um'] == 'in', 'the mutex handed over for a notification is released more than once or too early')
            st.obs['um'] = 'unlocked'
            I.note(st, 'handed-over mutex released')
        return [(st, 0)]

    def c_broadcast(self, I, st, a, i, f):
        p = a[0]
        self.before_notify(I, st)
        I.ob(st, '21user', not st.obs.get('held'), 'a notification is made while an internal lock is held')
        if p[1] == ('T', 'uc'):
            I.ob(st, '22not', st.obs['um'] != 'in', 'the condition variable is notified before the handed-over mutex is released')
            I.ob(st, '22not', st.obs['um'] != 'done', 'a scheduled notification is performed twice')
            st.obs['um'] = 'done'
            I.note(st, 'condition variable notified')
        return [(st, 0)]

    def c_signal(self, I, st, a, i, f):
        if a[0][1] == ('T', 'uc'):
            I.ob(st, '22not', False, 'only one waiter is notified at thread exit')
        return [(st, 0)]

    def on_access(self, I, st, rw, p, sz, ins, v=None):
        return Entry.on_access(self, I, st, rw, p, sz, ins, v)

    def post(self, I, st, how, v):
        o = st.obs
        I.ob(st, '22end', how == 'return', 'thread termination throws')
        t = self.tlsval(I, st)
        I.ob(st, '22end', OWN not in self.freed(st) or (all(x == NULL for x in t) and o.get('spec', NULL) == NULL), 'the thread still refers to its destroyed context after termination processing')
        if self.mode == 'cb':
            I.ob(st, '22cb', 'reg' not in o['cb'], 'a registered at-exit function is never called')
        elif self.mode == 'val':
            I.ob(st, '19exit', not (o['V'] in ('slot', 'out') and o['cl'][1] != NULL), 'a thread-specific value is never cleaned up when its thread terminates')
        else:
            I.ob(st, '22not', o['um'] in ('done', 'later'), 'a scheduled notification is never performed')


RUN = {'get': lambda L: Get(L), 'set': lambda L: Set(L), 'new': lambda L: New(L), 'delete': lambda L: Delete(L), 'callback': lambda L: Reg(L, 'callback'), 'notify': lambda L: Reg(L, 'notify'),
       'exit.cb': lambda L: Exit(L, 'cb'), 'exit.val': lambda L: Exit(L, 'val'), 'exit.not': lambda L: Exit(L, 'not')}


def run_tss(m, entry):
    try:
        L = layout(m)
    except Found as e:
        return e.args[0]
    except Lost as e:
        return Bad(*e.args)
    return RUN[entry](L).run(m)


STUBS = ('-isystem', os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'drivers', 'stubs'))
FL = ('-I' + STUBS[1], '-I' + os.path.join(REPO, 'src'), '-DBOOST_FORCEINLINE=inline')
CFG = {'default': FL, 'release': FL + ('-DNDEBUG',), 'compiler TLS': FL + ('-DBOOST_SYNC_USE_COMPILER_TLS',), 'C++11': FL + ('-std=gnu++11',)}


def jobs(entries=None, cfgs=None):
    return [Job('tss.cpp', e, run_tss, CFG[c], c) for c in (cfgs or CFG) for e in (entries or RUN)]


ASSUME = ['std::vector, std::stack, std::deque and Boost.Intrusive lists behave as specified (drivers/stubs states their operations, element lifetime and invalidation rules)',
          'the tables stay below 2^31 entries; user-supplied functions do not throw and act on the library only through its public interface',
          'operations on the internal mutex and the POSIX thread-specific key succeed; POSIX calls the key\'s routine at thread termination with the stored context after clearing it',
          'no thread uses a thread_specific_ptr while another destroys it (documented precondition)', 'clang 18 front end and LLVM IR semantics; x86-64 Linux']


def c19(out):
    import tssptr
    want = lambda r: r.startswith('19')
    out.absorb(*run_jobs(jobs()), want=want)
    out.absorb(*run_jobs(tssptr.jobs([e for e in tssptr.ENTRIES if e.startswith('tp')])), want=want)
    out.assumptions = ASSUME
    return ('abstract interpretation of every function of the storage machinery over tables of any length, represented by arbitrary witness slots (the slot of a key, of another key, of an arbitrary other '
            'thread) and the order of positions; loops reach a fixpoint over that order. The layout is discovered from the code. Rules: what get() returns, what set() changes, where a new key comes from '
            'and what is recorded for it, that a deleted key is cleared everywhere before it is recycled, and that each value reaches its own cleanup function exactly once (thread exit, key deletion, '
            'with other threads deleting keys whenever the lock is free and cleanup functions doing anything allowed). thread_specific_ptr is analysed separately on the specified meaning of those functions')


def c20(out):
    out.absorb(*run_jobs(jobs()), want=lambda r: r.startswith('20'))
    out.assumptions = ASSUME
    return ('lockset analysis on every path of every function of the storage machinery: each access to the registry, the recycled keys, the list of threads, another thread\'s value table, or the own value '
            'table where another thread may look at it, must happen with the same lock held; the shared state is written only inside the once-only initialization, which precedes every use')


def c21(out):
    import native
    out.absorb(*run_jobs(jobs()), want=lambda r: r.startswith('21'))
    out.absorb(*run_jobs(native.cv_jobs() + native.sem_jobs() + native.evemu_jobs()), want=lambda r: r == 'ilock')
    out.assumptions = ASSUME
    return ('typestate analysis of the set of internal locks held along every path: at each call of a user-supplied function, predicate, user lock operation and each blocking wait no internal lock may be '
            'held (a wait: only the one it releases), none is acquired twice, and none is held when an operation returns or throws')


def c22(out):
    import tssptr
    want = lambda r: r.startswith('22')
    out.absorb(*run_jobs(jobs()), want=want)
    out.absorb(*run_jobs(tssptr.jobs(['ae_reg', 'na_reg'])), want=want)
    out.assumptions = ASSUME
    return ('abstract interpretation of thread termination with lists of any length and user functions that may register more functions, notifications and values: two arbitrary at-exit functions, an arbitrary '
            'notification and an arbitrary value are followed. Rules: each exactly once with its own arguments, reverse order of registration, cleanups before notifications, mutex released before the '
            'notification, context reachable until the last user function; registration records exactly one entry or (on an exception) none, and the templates neither leak nor destroy twice')
