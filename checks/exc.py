"""C18: the exception types carry the native code they were constructed with."""
from absint import Interp, AnalysisError, isnum, ptr, lsub
from vf import Job
from common import World, CXXFLAGS
from word import endob, where_of

KINDS = ('rt', 'rtw', 'rts', 'lk', 'lkw', 'lks', 'wt', 'wtw', 'wts', 'rs', 'rsw', 'rss', 'ov', 'ovw', 'ovs', 'rse', 'rsew', 'lkew')


class ExcObs(World):
    def __init__(self, what):
        self.what = what

    def on_end(self, I, st, how, v):
        if how != 'return':
            endob(I, self, st, 'err', False, 'constructing an exception throws')
        elif self.what == 'cat':
            endob(I, self, st, 'err', v == 1, 'the error code of an exception is not one of the system category')
        else:
            n = st.obs['n'][1]
            endob(I, self, st, 'err', isnum(v) and st.must_be(lsub(v, n), 0), '%s does not return the native code the exception was constructed with' % ('native_error()' if self.what == 'native' else 'code()'))


def run_exc(m, entry):
    o = ExcObs(entry.split('_')[1])
    o.where = where_of(m, entry)
    I = Interp(m, o.base_models(), o)

    def init(I, st):
        n = st.fresh(('n',), -2 ** 31, 2 ** 31 - 1)
        st.obs['n'] = ('N', n)
        e = st.frames[0].env
        e[0], e[1], e[2] = n, ptr(('obj', 'w')), ptr(('obj', 's'))
    I.start(entry, (), init)
    if not I.obligations and not I.reports:
        raise AnalysisError('%s: nothing was analysed' % entry)
    return I


def jobs():
    return [Job('exc.cpp', '%s_%s' % (k, w), run_exc, CXXFLAGS + fl, c) for c, fl in (('', ()), ('std::system_error', ('-DBOOST_SYNC_USE_STD_SYSTEM_ERROR',))) for k in KINDS for w in ('native', 'code', 'cat')]
