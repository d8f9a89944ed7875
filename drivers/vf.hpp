// Interface between the analysis drivers and the abstract interpreter.  The vf_* functions have no
// definition: the analysis gives them their meaning.  Nothing here is ever linked or run.
#ifndef VF_HPP
#define VF_HPP
#include <new>
#include <stddef.h>
extern "C" {
int  vf_nondet(int n);                       // any value in [0, n)
int  vf_mx(void* m, int from, int to, int kind, long token);  // one operation of a model mutex
void vf_op(int code, int a, int b, void* m); // the next library call is operation `code`
void vf_done(long result);                   // it returned
void vf_threw();                             // it threw
void vf_state(int idx, void* m, int owns, int asbool, int negated);
void vf_forget(void* p, unsigned long n);    // storage is uninitialized again
int  vf_pred();                               // a user predicate
void vf_ulock(int on);                       // lock / unlock of a user lockable
}
namespace vf {
struct duration_token { long v; };
struct point_token { long v; };

// modes: 0 none, 1 exclusive, 2 shared, 3 upgrade; kinds: 0 blocking, 1 try, 2 timed, 3 for, 4 until
template <class T> struct tok;

struct mutex
{
    int dummy;
#if __cplusplus >= 201103L
    constexpr mutex() : dummy(0) {}
    mutex(mutex const&) = delete;
#else
    mutex() : dummy(0) {}
#endif
    mutex& operator=(mutex const&) = delete;
#define VF_MODE(N, X) \
    void lock##N() { vf_mx(this, 0, X, 0, 0); } \
    bool try_lock##N() { return vf_mx(this, 0, X, 1, 0) != 0; } \
    template <class T> bool timed_lock##N(T const& t) { return vf_mx(this, 0, X, 2, tok<T>::get(t)) != 0; } \
    template <class T> bool try_lock##N##_for(T const& t) { return vf_mx(this, 0, X, 3, tok<T>::get(t)) != 0; } \
    template <class T> bool try_lock##N##_until(T const& t) { return vf_mx(this, 0, X, 4, tok<T>::get(t)) != 0; } \
    void unlock##N() { vf_mx(this, X, 0, 0, 0); }
    VF_MODE(, 1)
    VF_MODE(_shared, 2)
    VF_MODE(_upgrade, 3)
#define VF_CONV(N, F, X) \
    void N() { vf_mx(this, F, X, 0, 0); } \
    bool try_##N() { return vf_mx(this, F, X, 1, 0) != 0; } \
    template <class T> bool timed_##N(T const& t) { return vf_mx(this, F, X, 2, tok<T>::get(t)) != 0; } \
    template <class T> bool try_##N##_for(T const& t) { return vf_mx(this, F, X, 3, tok<T>::get(t)) != 0; } \
    template <class T> bool try_##N##_until(T const& t) { return vf_mx(this, F, X, 4, tok<T>::get(t)) != 0; }
    VF_CONV(unlock_and_lock_shared, 1, 2)
    VF_CONV(unlock_and_lock_upgrade, 1, 3)
    VF_CONV(unlock_upgrade_and_lock, 3, 1)
    VF_CONV(unlock_upgrade_and_lock_shared, 3, 2)
    VF_CONV(unlock_shared_and_lock, 2, 1)
    VF_CONV(unlock_shared_and_lock_upgrade, 2, 3)
};
}
#endif
