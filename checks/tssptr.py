"""Client side of thread-specific storage (C19, C21, C22): thread_specific_ptr, at_thread_exit, notify_all_at_thread_exit.
The six functions of detail/tss.hpp are given their specified meaning; checks/tss.py analyses their implementation."""
import re
from absint import Interp, Observer, Throw, AnalysisError, isptr, NULL, ptr
from vf import Job

KEY = 41
OBJ, SRC = ('obj', 'p'), ('obj', 'f')
EXC = ('E', 'vf::registration_error', None)


def T(n):
    return ptr(('T', n))


def nul(v):
    return NULL if v == 0 else v


class Cl(Observer):
    """obs: slot value of the calling thread for KEY"""

    def models(self):
        return {
            re.compile(r'sync::detail::get_thread_specific\('): self.get, re.compile(r'sync::detail::set_thread_specific\('): self.set,
            re.compile(r'sync::detail::new_thread_specific_key\('): self.new, re.compile(r'sync::detail::delete_thread_specific_key\('): self.delete,
            re.compile(r'sync::detail::add_thread_exit_callback\('): self.callback, re.compile(r'sync::detail::add_thread_exit_notify_entry\('): self.notify,
            'vf::val::~val()': self.destroy, 'vf::fun::~fun()': self.fdestroy, 'vf::fun::operator()()': self.fcall,
            'vf::fun::fun(vf::fun const&)': self.fcopy, 'vf_lockstate': self.lockstate,
            'pthread_mutex_lock': self.mlock, 'pthread_mutex_unlock': self.munlock,
        }

    rule = '19ptr'

    def ev(self, I, st, *e):
        st.obs['ev'] = st.obs.get('ev', ()) + (('V',) + e,)
        I.note(st, ' '.join(str(x) if not isptr(x) else 'p' for x in e))

    def kob(self, I, st, k):
        I.ob(st, self.rule, k == KEY, 'a key that is not the object\'s own is used')

    def get(self, I, st, a, i, f):
        self.kob(I, st, a[0])
        I.ob(st, self.rule, not st.obs.get('deleted'), 'the key is used after it was deleted')
        return [(st, st.obs['slot'][1])]

    def set(self, I, st, a, i, f):
        self.kob(I, st, a[0])
        s = st.copy()
        I.note(s, 'installing the value fails with an exception')
        s.obs['failed'] = 1
        st.obs['slot'] = ('V', nul(a[1]))
        I.note(st, 'value installed')
        return [(st, None), (s, Throw(EXC))]

    def new(self, I, st, a, i, f):
        I.ob(st, self.rule, 'new' not in st.obs, 'an object creates two keys')
        s = st.copy()
        s.obs['failed'] = 1
        st.obs['new'] = ('V', nul(a[0]), a[1])
        return [(st, KEY), (s, Throw(EXC))]

    def delete(self, I, st, a, i, f):
        self.kob(I, st, a[0])
        I.ob(st, self.rule, not st.obs.get('deleted'), 'a key is deleted twice')
        st.obs['deleted'] = 1
        return [(st, None)]

    def cleanup(self, I, st, v):
        self.ev(I, st, 'cleanup', v, st.obs['slot'][1])
        st.obs['slot'] = ('V', T('z'))       # the function may install another value
        st.obs['cl'] = 1

    def destroy(self, I, st, a, i, f):
        self.ev(I, st, 'cleanup', a[0], st.obs['slot'][1])
        st.obs['slot'] = ('V', T('z'))
        st.obs['destroyed'] = ('V', a[0])
        return [(st, None)]

    def on_free(self, I, st, p):
        self.ev(I, st, 'free', p, None)

    def on_indirect(self, I, st, i, f, args):
        if f == T('cl'):
            self.ev(I, st, 'cleanup', args[0], st.obs['slot'][1])
            st.obs['slot'] = ('V', T('z'))
            return [(st, None)]
        if f == NULL:
            I.ob(st, self.rule, False, 'a null cleanup function is called')
            return [(st, 'END')]
        return None

    def on_abort(self, I, st, kind, msg):
        I.ob(st, self.rule, False, 'the operation ends in %s' % kind)

    # function objects
    def alloc_may_fail(self, I, st):
        return True

    def fcopy(self, I, st, a, i, f):
        I.ob(st, '22reg', a[1] in (ptr(SRC),) or self.is_live(st, a[1]), 'the function object is copied from something else')
        s = st.copy()
        I.note(s, 'copying the function object throws')
        s.obs['failed'] = 1
        st.obs['live'] = st.obs.get('live', ()) + (a[0],)
        return [(st, None), (s, Throw(EXC))]

    def is_live(self, st, p):
        return p in st.obs.get('live', ())

    def fdestroy(self, I, st, a, i, f):
        I.ob(st, '22reg', self.is_live(st, a[0]), 'a function object is destroyed that is not alive (or twice)')
        st.obs['live'] = tuple(x for x in st.obs.get('live', ()) if x != a[0])
        return [(st, None)]

    def fcall(self, I, st, a, i, f):
        I.ob(st, '22reg', self.is_live(st, a[0]), 'a function object is called that is not alive')
        self.ev(I, st, 'call', a[0], None)
        return [(st, None)]

    def callback(self, I, st, a, i, f):
        I.ob(st, '22reg', 'reg' not in st.obs, 'a function is registered twice')
        I.ob(st, '22reg', self.is_live(st, a[1]) and isinstance(a[1][1], tuple) and a[1][1][0] == 'h', 'the registered function object is not an allocated copy')
        s = st.copy()
        I.note(s, 'registration fails with an exception')
        s.obs['failed'] = 1
        st.obs['reg'] = ('V', a[0], a[1])
        I.note(st, 'registered')
        return [(st, None), (s, Throw(EXC))]

    # notifications
    def mlock(self, I, st, a, i, f):
        self.ev(I, st, 'lock', a[0], None)
        return [(st, 0)]

    def munlock(self, I, st, a, i, f):
        self.ev(I, st, 'unlock', a[0], None)
        return [(st, 0)]

    def notify(self, I, st, a, i, f):
        s = st.copy()
        self.ev(I, s, 'regfail', a[0], a[1])
        self.ev(I, st, 'reg', a[0], a[1])
        return [(st, None), (s, Throw(EXC))]

    def lockstate(self, I, st, a, i, f):
        I.ob(st, '22reg', a[0] == 0 and nul(a[1]) == NULL, 'the lock passed to notify_all_at_thread_exit() is not empty afterwards')
        return [(st, None)]

    def on_end(self, I, st, how, v):
        self.post(I, st, how, nul(v))


def run(m, entry):
    o = Cl()
    I = Interp(m, o.models(), o)
    ends = []
    nrun = [0]          # distinguishes the analyses from each other

    def go(e, args, mem, slot, post, **obs):
        o.post = post
        o.entry = e

        def init(I, st):
            for b, x in mem.items():
                st.mem[b] = dict(x)
            st.obs['slot'] = ('V', slot)
            st.obs['run'] = nrun[0]
            nrun[0] += 1
            st.obs.update(obs)
        I.start(e, args, init)

    # objects: default cleanup, a given cleanup, none
    if entry.startswith('tp'):
        objs = {}
        for kind, e, args in (('default', 'tp_ctor', [ptr(OBJ)]), ('given', 'tp_ctorf', [ptr(OBJ), T('cl')]), ('none', 'tp_ctorf', [ptr(OBJ), NULL])):
            def post(I, st, how, v):
                if how == 'throw':
                    I.ob(st, '19ptr', st.obs.get('failed') == 1, 'the constructor throws although nothing failed')
                    return
                n = st.obs.get('new')
                I.ob(st, '19ptr', n is not None, 'the constructor creates no key')
                if n is None:
                    return
                I.ob(st, '19ptr', n[2] == 1, "the object's key does not clean up the values of all threads when the object is destroyed")
                if kind != 'default':
                    I.ob(st, '19ptr', n[1] == args[1], "the key's cleanup function is not the one given to the object")
                else:
                    I.ob(st, '19ptr', isptr(n[1]) and isinstance(n[1][1], tuple) and n[1][1][0] == 'g', 'an object without a given cleanup function registers none')
                I.ob(st, '19ptr', not st.obs.get('ev'), 'construction calls a cleanup function')
                objs[kind] = (dict(st.mem.get(OBJ, {})), n[1])
            go(e, args, {}, NULL, post)
        if len(objs) != 3:
            return I          # already reported
        if entry == 'tp_life':
            # the default cleanup function destroys and frees its argument
            fn = objs['default'][1]
            if isptr(fn) and isinstance(fn[1], tuple) and fn[1][0] == 'g':
                def post(I, st, how, v):
                    I.ob(st, '19ptr', how == 'return' and evs(st) == [('cleanup', T('v')), ('free', T('v'))], 'the default cleanup function does not delete its argument exactly once')
                go(fn[1][1], [T('v')], {}, NULL, post)
            for kind in objs:
                def post(I, st, how, v):
                    I.ob(st, '19ptr', how == 'return' and st.obs.get('deleted') == 1, 'destroying the object does not delete its key')
                    I.ob(st, '19ptr', not st.obs.get('ev'), 'destroying the object cleans up a value that deleting its key cleans up too')
                go('tp_dtor', [ptr(OBJ)], {OBJ: objs[kind][0]}, T('v'), post)
            return I
        for kind, (mem, fn) in objs.items():
            for slot in (NULL, T('v')):
                if entry in ('tp_get', 'tp_gp', 'tp_arrow', 'tp_star', 'tp_not', 'tp_bool'):
                    if slot == NULL and entry in ('tp_arrow', 'tp_star'):
                        continue

                    def post(I, st, how, v):
                        want = {'tp_not': 1 if slot == NULL else 0, 'tp_bool': 0 if slot == NULL else 1}.get(entry, slot)
                        if entry in ('tp_not', 'tp_bool'):
                            v = 0 if v == NULL else v
                        I.ob(st, '19ptr', how == 'return' and v == want, 'the value reported is not the one installed by this thread')
                        I.ob(st, '19ptr', st.obs['slot'][1] == slot and not st.obs.get('ev'), 'reading the value changes it')
                    go(entry, [ptr(OBJ)], {OBJ: mem}, slot, post)
                elif entry == 'tp_release':
                    def post(I, st, how, v):
                        I.ob(st, '19ptr', not st.obs.get('ev'), 'release() cleans the value up')
                        if how == 'throw':
                            I.ob(st, '19ptr', st.obs.get('failed') == 1 and st.obs['slot'][1] == slot, 'release() throws but the value is gone')
                        else:
                            I.ob(st, '19ptr', v == slot, 'release() does not hand back the value')
                            I.ob(st, '19ptr', not st.obs.get('failed'), 'release() hides a failure to remove the value')
                            I.ob(st, '19ptr', st.obs['slot'][1] == NULL, 'release() hands the value back but keeps it installed: it will be cleaned up later')
                    go(entry, [ptr(OBJ)], {OBJ: mem}, slot, post)
                else:
                    for new in ((NULL, T('w'), T('v')) if entry == 'tp_reset' else (NULL,)):
                        def post(I, st, how, v):
                            ev = st.obs.get('ev', ())
                            cl = [e for e in ev if e[1] == 'cleanup']
                            if how == 'throw':
                                I.ob(st, '19ptr', st.obs.get('failed') == 1 and st.obs['slot'][1] == slot and not ev, 'reset() throws but the previous value is cleaned up or no longer installed')
                                return
                            I.ob(st, '19ptr', not st.obs.get('failed'), 'reset() hides a failure to install the value')
                            need = slot != NULL and slot != new and kind != 'none'
                            I.ob(st, '19ptr', len(cl) == (1 if need else 0) and all(e[2] == slot for e in cl), 'reset() must clean the previous value up exactly once if it differs from the new one, and nothing else')
                            if kind == 'default':
                                I.ob(st, '19ptr', [e[2] for e in ev if e[1] == 'free'] == ([slot] if need else []), 'reset() does not free the previous value exactly once')
                            I.ob(st, '19ptr', all(e[3] == new for e in cl), 'the previous value is cleaned up before the new one is installed')
                            I.ob(st, '19ptr', st.obs['slot'][1] == (T('z') if cl else new), 'the value installed by reset() is not the one found afterwards')
                        go(entry, [ptr(OBJ)] + ([new] if entry == 'tp_reset' else []), {OBJ: mem}, slot, post)
    elif entry == 'ae_reg':
        def post(I, st, how, v):
            live = [x for x in st.obs.get('live', ())]
            fr = [e[2] for e in st.obs.get('ev', ()) if e[1] == 'free']
            al = [b for b in st.mem if isinstance(b, tuple) and b[0] == 'h']
            I.ob(st, '22reg', not any(e[1] == 'call' for e in st.obs.get('ev', ())), 'the function is called when it is registered')
            if how == 'throw':
                I.ob(st, '22reg', 'reg' not in st.obs, 'registration throws although the function is registered')
                I.ob(st, '22reg', not live, 'a function object is leaked when registration fails')
                I.ob(st, '22reg', len(fr) == len(set(fr)) and (len(fr) == 1 or not st.obs.get('alloc')), 'the memory of a function object is not released exactly once when registration fails')
            else:
                r = st.obs.get('reg')
                I.ob(st, '22reg', r is not None and live == [r[2]] and not fr, 'after a successful registration exactly the registered function object must be alive')
                if r is not None:
                    ends.append((st, r))
        o.on_alloc = lambda I, st, b: st.obs.__setitem__('alloc', 1)
        go(entry, [ptr(SRC)], {}, NULL, post)
        if not ends:
            I.ob(None, '22reg', False, 'registration never succeeds') if False else None
            return I
        for st0, r in ends:
            if not (isptr(r[1]) and isinstance(r[1][1], tuple) and r[1][1][0] == 'g'):
                raise AnalysisError('registered function')

            def post(I, st, how, v):
                ev = [(e[1], e[2]) for e in st.obs.get('ev', ())]
                I.ob(st, '22reg', how == 'return' and ev == [('call', r[2]), ('free', r[2])] and not st.obs.get('live'), 'a registered function must be called exactly once and then destroyed and freed exactly once')
            go(r[1][1][1], [r[2]], {b: x for b, x in st0.mem.items() if isinstance(b, tuple) and b[0] == 'h'}, NULL, post, live=(r[2],))
    else:
        def post(I, st, how, v):
            ev = [(e[1], e[2]) + ((e[3],) if e[1].startswith('reg') else ()) for e in st.obs.get('ev', ())]
            M, C = ptr(('obj', 'm')), ptr(('obj', 'c'))
            if how == 'return':
                I.ob(st, '22reg', ev == [('lock', M), ('reg', M, C)], 'notify_all_at_thread_exit() must register the notification exactly once and keep the mutex locked without interruption')
            else:
                I.ob(st, '22reg', ev == [('lock', M), ('regfail', M, C), ('unlock', M)], 'when notify_all_at_thread_exit() throws, nothing may be scheduled and the mutex must be unlocked exactly once')
        go(entry, [ptr(('obj', 'c')), ptr(('obj', 'm'))], {}, NULL, post)
    if not I.obligations:
        raise AnalysisError('nothing was analysed')
    return I


def evs(st):
    return [(e[1], e[2]) for e in st.obs.get('ev', ())]


ENTRIES = ('tp_life', 'tp_get', 'tp_gp', 'tp_arrow', 'tp_star', 'tp_not', 'tp_bool', 'tp_release', 'tp_reset', 'tp_reset0', 'ae_reg', 'na_reg')
FL = ('-DBOOST_FORCEINLINE=inline',)
CFG = {'default': FL, 'release': FL + ('-DNDEBUG',), 'C++11': FL + ('-std=gnu++11',), 'C++98': FL + ('-std=gnu++98',)}


def jobs(entries=ENTRIES):
    return [Job('tssptr.cpp', e, run, fl, c) for c, fl in CFG.items() for e in entries]
