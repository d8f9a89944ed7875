// Entry points: one per operation of the primitives built on one atomic word.
#include <chrono>
#include <boost/sync/mutexes/spin_mutex.hpp>
#include <boost/sync/mutexes/shared_spin_mutex.hpp>
#include <boost/sync/events/auto_reset_event.hpp>
#include <boost/sync/events/manual_reset_event.hpp>
#include <boost/sync/support/std_chrono.hpp>
#include <boost/sync/support/posix_time.hpp>
#include "vf.hpp"
using namespace boost::sync;
typedef std::chrono::nanoseconds ns;
typedef std::chrono::system_clock sysclk;
typedef std::chrono::steady_clock stdclk;
#define OPS(T, P) \
extern "C" void P##_ctor(void* p) { new (p) T(); } \
extern "C" void P##_dtor(T* p) { p->~T(); }
OPS(spin_mutex, spin)
extern "C" void spin_lock(spin_mutex* p) { p->lock(); }
extern "C" int spin_try(spin_mutex* p) { return p->try_lock(); }
extern "C" void spin_unlock(spin_mutex* p) { p->unlock(); }
OPS(shared_spin_mutex, sspin)
extern "C" void sspin_lock(shared_spin_mutex* p) { p->lock(); }
extern "C" int sspin_try(shared_spin_mutex* p) { return p->try_lock(); }
extern "C" void sspin_unlock(shared_spin_mutex* p) { p->unlock(); }
extern "C" void sspin_lock_shared(shared_spin_mutex* p) { p->lock_shared(); }
extern "C" int sspin_try_shared(shared_spin_mutex* p) { return p->try_lock_shared(); }
extern "C" void sspin_unlock_shared(shared_spin_mutex* p) { p->unlock_shared(); }
#define WAITS(T, P) \
extern "C" void P##_wait(T* p) { p->wait(); } \
extern "C" int P##_try(T* p) { return p->try_wait(); } \
extern "C" int P##_timed_dur(T* p, long n) { return p->timed_wait(ns(n)); } \
extern "C" int P##_timed_ts(T* p, long s, long n) { struct ::timespec t; t.tv_sec = s; t.tv_nsec = n; return p->timed_wait(t); } \
extern "C" int P##_timed_sys(T* p, long n) { return p->timed_wait(std::chrono::time_point<sysclk, ns>(ns(n))); } \
extern "C" int P##_timed_std(T* p, long n) { return p->timed_wait(stdclk::time_point(ns(n))); } \
extern "C" int P##_for(T* p, long n) { return p->wait_for(ns(n)); } \
extern "C" int P##_until_ts(T* p, long s, long n) { struct ::timespec t; t.tv_sec = s; t.tv_nsec = n; return p->wait_until(t); } \
extern "C" int P##_until_sys(T* p, long n) { return p->wait_until(std::chrono::time_point<sysclk, ns>(ns(n))); } \
extern "C" int P##_until_std(T* p, long n) { return p->wait_until(stdclk::time_point(ns(n))); }
OPS(auto_reset_event, ar)
WAITS(auto_reset_event, ar)
extern "C" void ar_post(auto_reset_event* p) { p->post(); }
OPS(manual_reset_event, mr)
WAITS(manual_reset_event, mr)
extern "C" void mr_set(manual_reset_event* p) { p->set(); }
extern "C" void mr_reset(manual_reset_event* p) { p->reset(); }
