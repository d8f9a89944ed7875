// Entry points: one per operation of the primitives built on native objects (pthread mutexes and condition variables,
// POSIX semaphores) or emulated with them.  VF_KIND selects the primitive; nothing here is ever linked or run.
#if defined(VF_NO_TIMEDLOCK)
#include <unistd.h>
#undef _POSIX_TIMEOUTS
#endif
#include <pthread.h>
#include <chrono>
#include <mutex>
#include <condition_variable>
#include <string>
#include <system_error>
#include <boost/system/system_error.hpp>
#if defined(VF_NO_STATIC_INIT)
#undef PTHREAD_MUTEX_INITIALIZER
#undef PTHREAD_COND_INITIALIZER
#endif
#include <chrono>
#if defined(VF_OLD_FORMS)
#define BOOST_NO_CXX11_UNIFIED_INITIALIZATION_SYNTAX
#define BOOST_NO_CXX11_VARIADIC_TEMPLATES
#endif
#include <boost/sync/mutexes/mutex.hpp>
#include <boost/sync/mutexes/timed_mutex.hpp>
#include <boost/sync/condition_variables/condition_variable.hpp>
#include <boost/sync/condition_variables/condition_variable_any.hpp>
#include <boost/sync/locks/unique_lock.hpp>
#if defined(VF_EMU)
#include <boost/sync/detail/semaphore/semaphore_emulation.hpp>
#include <boost/sync/detail/events/auto_reset_event_emulation.hpp>
#include <boost/sync/detail/events/manual_reset_event_emulation.hpp>
#else
#include <boost/sync/semaphore.hpp>
#if defined(BOOST_SYNC_USE_PTHREAD)
#include <boost/sync/events/auto_reset_event.hpp>
#include <boost/sync/events/manual_reset_event.hpp>
#endif
#endif
#include <boost/sync/support/std_chrono.hpp>
#include <boost/sync/support/posix_time.hpp>
#include "vf.hpp"
using namespace boost::sync;
typedef std::chrono::nanoseconds ns;
typedef std::chrono::system_clock sysclk;
typedef std::chrono::steady_clock stdclk;
static inline struct ::timespec TS(long s, long n) { struct ::timespec t; t.tv_sec = s; t.tv_nsec = n; return t; }
#define OPS(T, P) \
extern "C" void P##_ctor(void* p) { new (p) T(); } \
extern "C" void P##_dtor(T* p) { p->~T(); }

OPS(mutex, mx)
extern "C" void mx_lock(mutex* p) { p->lock(); }
extern "C" int mx_try(mutex* p) { return p->try_lock(); }
extern "C" void mx_unlock(mutex* p) { p->unlock(); }
OPS(timed_mutex, tm)
extern "C" void tm_lock(timed_mutex* p) { p->lock(); }
extern "C" int tm_try(timed_mutex* p) { return p->try_lock(); }
extern "C" void tm_unlock(timed_mutex* p) { p->unlock(); }
extern "C" int tm_timed_dur(timed_mutex* p, long n) { return p->timed_lock(ns(n)); }
extern "C" int tm_timed_ts(timed_mutex* p, long s, long n) { return p->timed_lock(TS(s, n)); }
extern "C" int tm_timed_sys(timed_mutex* p, long n) { return p->timed_lock(std::chrono::time_point<sysclk, ns>(ns(n))); }
extern "C" int tm_timed_std(timed_mutex* p, long n) { return p->timed_lock(stdclk::time_point(ns(n))); }
extern "C" int tm_for(timed_mutex* p, long n) { return p->try_lock_for(ns(n)); }
extern "C" int tm_until_ts(timed_mutex* p, long s, long n) { return p->try_lock_until(TS(s, n)); }
extern "C" int tm_until_sys(timed_mutex* p, long n) { return p->try_lock_until(std::chrono::time_point<sysclk, ns>(ns(n))); }
extern "C" int tm_until_std(timed_mutex* p, long n) { return p->try_lock_until(stdclk::time_point(ns(n))); }

#define WAITS(T, P) \
extern "C" void P##_wait(T* p) { p->wait(); } \
extern "C" int P##_try(T* p) { return p->try_wait(); } \
extern "C" int P##_timed_dur(T* p, long n) { return p->timed_wait(ns(n)); } \
extern "C" int P##_timed_ts(T* p, long s, long n) { return p->timed_wait(TS(s, n)); } \
extern "C" int P##_timed_sys(T* p, long n) { return p->timed_wait(std::chrono::time_point<sysclk, ns>(ns(n))); } \
extern "C" int P##_timed_std(T* p, long n) { return p->timed_wait(stdclk::time_point(ns(n))); } \
extern "C" int P##_for(T* p, long n) { return p->wait_for(ns(n)); } \
extern "C" int P##_until_ts(T* p, long s, long n) { return p->wait_until(TS(s, n)); } \
extern "C" int P##_until_sys(T* p, long n) { return p->wait_until(std::chrono::time_point<sysclk, ns>(ns(n))); } \
extern "C" int P##_until_std(T* p, long n) { return p->wait_until(stdclk::time_point(ns(n))); }

extern "C" void smp_ctor(void* p) { new (p) semaphore(); }
extern "C" void smp_ctorn(void* p, unsigned n) { new (p) semaphore(n); }
extern "C" void smp_dtor(semaphore* p) { p->~semaphore(); }
WAITS(semaphore, smp)
extern "C" void smp_post(semaphore* p) { p->post(); }
#if defined(VF_EMU) || defined(BOOST_SYNC_USE_PTHREAD)
OPS(auto_reset_event, ar)
WAITS(auto_reset_event, ar)
extern "C" void ar_post(auto_reset_event* p) { p->post(); }
OPS(manual_reset_event, mr)
WAITS(manual_reset_event, mr)
extern "C" void mr_set(manual_reset_event* p) { p->set(); }
extern "C" void mr_reset(manual_reset_event* p) { p->reset(); }
#endif

// ---- condition variables: c is the condition variable, m the caller's mutex, held by the caller
struct pred { bool operator()() const { return vf_pred() != 0; } };
template <class M> struct held
{
    unique_lock<M> lk;
    M* m;
    explicit held(M* p) : lk(*p, adopt_lock), m(p) {}
    ~held() { vf_state(0, lk.mutex(), lk.owns_lock() ? 1 : 0, lk.mutex() == m, 0); lk.release(); }
};
// a user's lockable type for condition_variable_any
struct ulock { void lock() { vf_ulock(1); } void unlock() { vf_ulock(0); } };
struct uheld { ulock lk; explicit uheld(void*) {} };
#define CVOPS(T, P, A, H) \
extern "C" void P##_ctor(void* p) { new (p) T(); } \
extern "C" void P##_dtor(T* p) { p->~T(); } \
extern "C" void P##_notify_one(T* c) { c->notify_one(); } \
extern "C" void P##_notify_all(T* c) { c->notify_all(); } \
extern "C" void P##_wait(T* c, A* m) { H h(m); c->wait(h.lk); } \
extern "C" void P##_wait_p(T* c, A* m) { H h(m); c->wait(h.lk, pred()); } \
extern "C" int P##_timed_dur(T* c, A* m, long n) { H h(m); return c->timed_wait(h.lk, ns(n)); } \
extern "C" int P##_timed_ts(T* c, A* m, long s, long n) { H h(m); return c->timed_wait(h.lk, TS(s, n)); } \
extern "C" int P##_timed_sys(T* c, A* m, long n) { H h(m); return c->timed_wait(h.lk, std::chrono::time_point<sysclk, ns>(ns(n))); } \
extern "C" int P##_timed_std(T* c, A* m, long n) { H h(m); return c->timed_wait(h.lk, stdclk::time_point(ns(n))); } \
extern "C" int P##_for(T* c, A* m, long n) { H h(m); return c->wait_for(h.lk, ns(n)) == cv_status::no_timeout; } \
extern "C" int P##_until_ts(T* c, A* m, long s, long n) { H h(m); return c->wait_until(h.lk, TS(s, n)) == cv_status::no_timeout; } \
extern "C" int P##_until_sys(T* c, A* m, long n) { H h(m); return c->wait_until(h.lk, std::chrono::time_point<sysclk, ns>(ns(n))) == cv_status::no_timeout; } \
extern "C" int P##_until_std(T* c, A* m, long n) { H h(m); return c->wait_until(h.lk, stdclk::time_point(ns(n))) == cv_status::no_timeout; } \
extern "C" int P##_timed_dur_p(T* c, A* m, long n) { H h(m); return c->timed_wait(h.lk, ns(n), pred()); } \
extern "C" int P##_timed_ts_p(T* c, A* m, long s, long n) { H h(m); return c->timed_wait(h.lk, TS(s, n), pred()); } \
extern "C" int P##_timed_sys_p(T* c, A* m, long n) { H h(m); return c->timed_wait(h.lk, std::chrono::time_point<sysclk, ns>(ns(n)), pred()); } \
extern "C" int P##_timed_std_p(T* c, A* m, long n) { H h(m); return c->timed_wait(h.lk, stdclk::time_point(ns(n)), pred()); } \
extern "C" int P##_for_p(T* c, A* m, long n) { H h(m); return c->wait_for(h.lk, ns(n), pred()); } \
extern "C" int P##_until_ts_p(T* c, A* m, long s, long n) { H h(m); return c->wait_until(h.lk, TS(s, n), pred()); } \
extern "C" int P##_until_sys_p(T* c, A* m, long n) { H h(m); return c->wait_until(h.lk, std::chrono::time_point<sysclk, ns>(ns(n)), pred()); } \
extern "C" int P##_until_std_p(T* c, A* m, long n) { H h(m); return c->wait_until(h.lk, stdclk::time_point(ns(n)), pred()); }
CVOPS(condition_variable, cv, mutex, held<mutex>)
#if !defined(VF_NO_TIMEDLOCK)
CVOPS(condition_variable, cvt, timed_mutex, held<timed_mutex>)
#endif
CVOPS(condition_variable_any, cva, void, uheld)
