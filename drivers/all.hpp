// Every public header of the library, in the configuration selected by the VF_* and BOOST_SYNC_* macros.
// Used by the compile-time checks (C23, C24); nothing here is ever linked or run.
#ifndef VF_ALL_HPP
#define VF_ALL_HPP
#if defined(VF_NO_TIMEDLOCK)
#include <unistd.h>
#undef _POSIX_TIMEOUTS
#endif
#include <pthread.h>
#include <time.h>
#include <string>
#if __cplusplus >= 201103L
#include <chrono>
#include <mutex>
#include <condition_variable>
#include <system_error>
#endif
#include <boost/system/system_error.hpp>
#include <boost/chrono/system_clocks.hpp>
#include <boost/chrono/duration.hpp>
#include <boost/chrono/time_point.hpp>
#include <boost/move/utility.hpp>
#include <boost/date_time/posix_time/posix_time_types.hpp>
#if defined(VF_NO_STATIC_INIT)
#undef PTHREAD_MUTEX_INITIALIZER
#undef PTHREAD_COND_INITIALIZER
#endif
#include <boost/sync/mutexes.hpp>
#include <boost/sync/locks.hpp>
#include <boost/sync/condition_variables.hpp>
#include <boost/sync/exceptions.hpp>
#include <boost/sync/thread_specific/thread_specific_ptr.hpp>
#include <boost/sync/thread_specific/at_thread_exit.hpp>
#if defined(VF_EMU)
#include <boost/sync/detail/semaphore/semaphore_emulation.hpp>
#include <boost/sync/detail/events/auto_reset_event_emulation.hpp>
#include <boost/sync/detail/events/manual_reset_event_emulation.hpp>
#else
#include <boost/sync/semaphore.hpp>
#include <boost/sync/events.hpp>
#endif
#if __cplusplus >= 201103L
#include <boost/sync/support/std_chrono.hpp>
#endif
#include <boost/sync/support/boost_chrono.hpp>
#include <boost/sync/support/boost_date_time.hpp>
#include <boost/sync/support/posix_time.hpp>

namespace vf {
struct pred { bool operator()() const { return true; } };
struct fun { void operator()() const {} };
// a lockable that offers every operation of every mutex concept
struct full_mutex
{
    full_mutex() {}
#define VF_M(N) \
    void lock##N() {} \
    bool try_lock##N() { return true; } \
    template< class T > bool timed_lock##N(T const&) { return true; } \
    template< class T > bool try_lock##N##_for(T const&) { return true; } \
    template< class T > bool try_lock##N##_until(T const&) { return true; } \
    void unlock##N() {}
    VF_M() VF_M(_shared) VF_M(_upgrade)
#undef VF_M
#define VF_C(N) \
    void N() {} \
    bool try_##N() { return true; } \
    template< class T > bool timed_##N(T const&) { return true; } \
    template< class T > bool try_##N##_for(T const&) { return true; } \
    template< class T > bool try_##N##_until(T const&) { return true; }
    VF_C(unlock_and_lock_shared) VF_C(unlock_and_lock_upgrade) VF_C(unlock_upgrade_and_lock)
    VF_C(unlock_upgrade_and_lock_shared) VF_C(unlock_shared_and_lock) VF_C(unlock_shared_and_lock_upgrade)
#undef VF_C
private:
    full_mutex(full_mutex const&);
    full_mutex& operator=(full_mutex const&);
};
// a minimal user lockable, as condition_variable_any accepts
struct lockable { void lock() {} void unlock() {} };
// has a native handle, but does not declare itself compatible (it could keep other state, like the emulated timed_mutex)
struct native_mutex { typedef pthread_mutex_t* native_handle_type; pthread_mutex_t m; void lock() {} bool try_lock() { return true; } void unlock() {} pthread_mutex_t* native_handle() { return &m; } };
}
#endif
