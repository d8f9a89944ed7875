// Most general client of the lock wrappers: any sequence of operations on two wrappers and two mutexes.
#include <utility>
#include <new>
#include <boost/sync/locks.hpp>
#if __cplusplus >= 201103L
#include <chrono>
#include <boost/sync/support/std_chrono.hpp>
namespace chr = std::chrono;
#else
#include <boost/chrono/system_clocks.hpp>
#include <boost/sync/support/boost_chrono.hpp>
namespace chr = boost::chrono;
#endif
#include <boost/sync/locks/unlock_guard.hpp>
#include <boost/sync/locks/shared_lock_guard.hpp>
#include <boost/sync/locks/lock_guard.hpp>
#include "vf.hpp"
namespace vf {
typedef chr::milliseconds dur;
typedef chr::system_clock::time_point tp;
template <> struct tok<dur> { static long get(dur const& d) { return d.count(); } };
template <> struct tok<tp> { static long get(tp const& d) { return 1000000 + d.time_since_epoch().count(); } };
}
using namespace boost::sync;
using vf::dur; using vf::tp;
typedef vf::mutex M;
static M m1, m2;

enum { CTOR = 1, DTOR, LOCK, TRY, TIMED_D, TIMED_P, FOR, UNTIL, UNLOCK, RELEASE, SWAP, FSWAP, MOVECTOR, MOVEASSIGN,
       CTOR_LOCK, CTOR_ADOPT, CTOR_DEFER, CTOR_TRY, CTOR_DUR, CTOR_TP,
       CONV, CONV_ASSIGN, CONV_TRY, CONV_DUR, CONV_TP };

template <class T> struct slot
{
    __attribute__((aligned(16))) unsigned char buf[sizeof(T)];
    int alive;
    T& get() { return *reinterpret_cast<T*>(buf); }
};
template <class T> __attribute__((noinline)) void obs(int i, slot<T>& s)
{
    if (s.alive) { T const& c = s.get(); vf_state(i, c.mutex(), c.owns_lock(), c ? 1 : 0, !c ? 1 : 0); }
}
#define TRY_(EXPR) try { EXPR; } catch (...) { ok = false; }
template <class T> __attribute__((noinline)) bool ctor(slot<T>& s, int i, int form, M& m)
{
    bool ok = true;
    dur d(777); tp t(chr::system_clock::duration(888));
    vf_op(CTOR + form * 0 + (form == 0 ? 0 : CTOR_LOCK - CTOR + form - 1), i, 0, &m);
    TRY_(
        switch (form) {
        case 0: new (s.buf) T(); break;
        case 1: new (s.buf) T(m); break;
        case 2: new (s.buf) T(m, adopt_lock); break;
        case 3: new (s.buf) T(m, defer_lock); break;
        case 4: new (s.buf) T(m, try_to_lock); break;
        case 5: new (s.buf) T(m, d); break;
        case 6: new (s.buf) T(m, t); break;
        })
    if (ok) { s.alive = 1; vf_done(0); }
    else { vf_forget(s.buf, sizeof(T)); vf_threw(); }
    return ok;
}
template <class T> __attribute__((noinline)) void dtor(slot<T>& s, int i)
{
    vf_op(DTOR, i, 0, 0);
    bool ok = true;
    TRY_(s.get().~T())
    s.alive = 0;
    vf_forget(s.buf, sizeof(T));
    if (ok) vf_done(0); else vf_threw();
}
template <class T> __attribute__((noinline)) void method(slot<T>& s, int i, int op)
{
    long r = 0; bool ok = true;
    dur d(777); tp t(chr::system_clock::duration(888));
    vf_op(op, i, 0, 0);
    if (op == RELEASE) {
        M* p = 0;
        TRY_(p = s.get().release())
        if (ok) { vf_op(100, i, 0, p); vf_done(0); } else vf_threw();
        return;
    }
    TRY_(
        switch (op) {
        case LOCK: s.get().lock(); break;
        case TRY: r = s.get().try_lock(); break;
        case TIMED_D: r = s.get().timed_lock(d); break;
        case TIMED_P: r = s.get().timed_lock(t); break;
        case FOR: r = s.get().try_lock_for(d); break;
        case UNTIL: r = s.get().try_lock_until(t); break;
        case UNLOCK: s.get().unlock(); break;
        })
    if (ok) vf_done(r); else vf_threw();
}
template <class T> __attribute__((noinline)) void pairop(slot<T>& a, slot<T>& b, int i, int j, int op)
{
    bool ok = true;
    vf_op(op, i, j, 0);
    TRY_(
        switch (op) {
        case SWAP: a.get().swap(b.get()); break;
        case FSWAP: swap(a.get(), b.get()); break;
        case MOVECTOR: new (a.buf) T(boost::move(b.get())); a.alive = 1; break;
        case MOVEASSIGN: a.get() = boost::move(b.get()); break;
        })
    if (ok) vf_done(0); else vf_threw();
}
template <class T> inline void client()
{
    slot<T> a, b; a.alive = 0; b.alive = 0;
    for (;;) {
        int w = vf_nondet(2);
        slot<T>& x = w ? b : a; slot<T>& y = w ? a : b;
        if (!x.alive) {
            int k = vf_nondet(8);
            if (k == 7) { if (y.alive) pairop(x, y, w, 1 - w, MOVECTOR); }
            else ctor(x, w, k, vf_nondet(2) ? m1 : m2);
        } else {
            int k = vf_nondet(12);
            if (k < 8) method(x, w, LOCK + k);
            else if (k == 8) dtor(x, w);
            else if (y.alive) pairop(x, y, w, 1 - w, k == 9 ? SWAP : k == 10 ? FSWAP : MOVEASSIGN);
        }
        obs(0, a); obs(1, b);
    }
}
extern "C" void drv_unique() { client< unique_lock<M> >(); }
extern "C" void drv_shared() { client< shared_lock<M> >(); }
extern "C" void drv_upgrade() { client< upgrade_lock<M> >(); }

// self swap / self move assignment
template <class T> inline void self_client()
{
    slot<T> a; a.alive = 0;
    if (!ctor(a, 0, vf_nondet(4), m1)) return;
    obs(0, a);
    int k = vf_nondet(3);
    pairop(a, a, 0, 0, k == 0 ? SWAP : k == 1 ? FSWAP : MOVEASSIGN);
    obs(0, a);
    dtor(a, 0);
}
extern "C" void drv_self_unique() { self_client< unique_lock<M> >(); }
extern "C" void drv_self_shared() { self_client< shared_lock<M> >(); }
extern "C" void drv_self_upgrade() { self_client< upgrade_lock<M> >(); }

// conversions: a is the target, b the source
template <class A, class B> struct conv { static void go(slot<A>&, slot<B>&, int, int) {} enum { mask = 0 }; };
#define CV_CTOR case CONV: new (a.buf) A(boost::move(b.get())); a.alive = 1; break;
#define CV_ASSIGN case CONV_ASSIGN: a.get() = boost::move(b.get()); break;
#define CV_TRY case CONV_TRY: new (a.buf) A(boost::move(b.get()), try_to_lock); a.alive = 1; break;
#define CV_TIME case CONV_DUR: new (a.buf) A(boost::move(b.get()), d); a.alive = 1; break; \
                case CONV_TP: new (a.buf) A(boost::move(b.get()), t); a.alive = 1; break;
#define CV(TA, TB, CASES, MASK) \
template <> struct conv< TA<M>, TB<M> > { \
    typedef TA<M> A; typedef TB<M> B; enum { mask = MASK }; \
    static __attribute__((noinline)) void go(slot<A>& a, slot<B>& b, int i, int op) { \
        bool ok = true; \
        dur d(777); tp t(chr::system_clock::duration(888)); \
        vf_op(op, i, 1 - i, 0); \
        TRY_(switch (op) { CASES }) \
        if (ok) vf_done(0); else { if (!a.alive) vf_forget(a.buf, sizeof(A)); vf_threw(); } \
    } };
CV(unique_lock, upgrade_lock, CV_CTOR CV_ASSIGN CV_TRY, 7)
CV(unique_lock, shared_lock, CV_TRY CV_TIME, 4 + 24)
CV(shared_lock, unique_lock, CV_CTOR CV_ASSIGN, 3)
CV(shared_lock, upgrade_lock, CV_CTOR CV_ASSIGN, 3)
CV(upgrade_lock, unique_lock, CV_CTOR CV_ASSIGN, 3)
CV(upgrade_lock, shared_lock, CV_TRY CV_TIME, 4 + 24)

template <class X, class Y> __attribute__((noinline)) void step(slot<X>& x, slot<Y>& y, int i, M& m1, M& m2)
{
    if (!x.alive) {
        int k = vf_nondet(5);
        if (k == 4) {
            if (!y.alive) return;
            int c = vf_nondet(5);
            if (c == 1 || !(conv<X, Y>::mask & (1 << c))) return;
            conv<X, Y>::go(x, y, i, CONV + c);
        } else {
            static const int forms[4] = { 0, 1, 2, 3 };
            ctor(x, i, forms[k], vf_nondet(2) ? m1 : m2);
        }
    } else {
        int k = vf_nondet(5);
        if (k == 0) method(x, i, LOCK);
        else if (k == 1) method(x, i, UNLOCK);
        else if (k == 2) method(x, i, RELEASE);
        else if (k == 3) dtor(x, i);
        else if (y.alive && (conv<X, Y>::mask & 2)) conv<X, Y>::go(x, y, i, CONV_ASSIGN);
    }
}
template <class A, class B> inline void conv_client()
{
    slot<A> a; slot<B> b; a.alive = 0; b.alive = 0;
    for (;;) {
        if (vf_nondet(2)) step<A, B>(a, b, 0, m1, m2);
        else step<B, A>(b, a, 1, m1, m2);
        obs(0, a); obs(1, b);
    }
}
extern "C" void drv_conv_us() { conv_client< unique_lock<M>, shared_lock<M> >(); }
extern "C" void drv_conv_ug() { conv_client< unique_lock<M>, upgrade_lock<M> >(); }
extern "C" void drv_conv_sg() { conv_client< shared_lock<M>, upgrade_lock<M> >(); }

// scope guards
extern "C" void vf_body();   // the protected block: returns or throws
extern "C" void vf_guard(int phase, void* m, int how);
#define GUARD(NAME, DECL, HOW) \
extern "C" void NAME() { \
    M& m = m1; \
    vf_guard(0, &m, HOW); \
    bool ok = true; \
    try { DECL; vf_guard(1, &m, HOW); vf_body(); vf_guard(2, &m, HOW); } catch (...) { ok = false; } \
    vf_guard(ok ? 3 : 4, &m, HOW); \
}
GUARD(drv_lock_guard, lock_guard<M> g(m), 1)
GUARD(drv_lock_guard_adopt, lock_guard<M> g(m, adopt_lock), 11)
GUARD(drv_shared_lock_guard, shared_lock_guard<M> g(m), 2)
GUARD(drv_shared_lock_guard_adopt, shared_lock_guard<M> g(m, adopt_lock), 12)
GUARD(drv_unlock_guard, unlock_guard<M> g(m), 21)
extern "C" void drv_unlock_guard_ul()
{
    M& m = m1;
    unique_lock<M> l(m, adopt_lock);
    vf_guard(0, &m, 21);
    bool ok = true;
    try { unlock_guard< unique_lock<M> > g(l); vf_guard(1, &m, 21); vf_body(); vf_guard(2, &m, 21); } catch (...) { ok = false; }
    vf_guard(ok ? 3 : 4, &m, 21);
    l.release();
}
