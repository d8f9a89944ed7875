from seedlib import seed
I = 'include/boost/sync/'
D = I + 'detail/'
H = r'''
#include <cstdio>
#include <cstdlib>
#include <cerrno>
#include <ctime>
#include <atomic>
#include <thread>
#include <chrono>
#include <unistd.h>
#define CHECK(x) do { if (!(x)) { std::printf("FAILED: %s\n", #x); std::fflush(stdout); std::_Exit(1); } } while (0)
inline void nap(int ms) { std::this_thread::sleep_for(std::chrono::milliseconds(ms)); }
'''
# ---- interposed futex system calls: the waiter's n-th wait runs hook(n, timeout) instead
FUT = H + r'''
#include <cstdarg>
#include <sys/syscall.h>
#include <linux/futex.h>
#include <dlfcn.h>
static int (*hook)(int*, int, const timespec*);    // returns errno (0: woken)
static int wakes;
extern "C" long syscall(long n, ...) {
    va_list ap; va_start(ap, n);
    int* a = va_arg(ap, int*); long op = va_arg(ap, int); long v = va_arg(ap, int); const timespec* t = va_arg(ap, const timespec*);
    va_end(ap);
    if (n == SYS_futex) {
        int o = op & FUTEX_CMD_MASK;
        if (o == FUTEX_WAIT && hook) { int e = hook(a, (int)v, t); if (e) { errno = e; return -1; } return 0; }
        if (o == FUTEX_WAKE) { ++wakes; if (hook) return 0; }
        return ((long (*)(long, ...))dlsym(RTLD_NEXT, "syscall"))(n, a, op, v, t, 0, 0);
    }
    return ((long (*)(long, ...))dlsym(RTLD_NEXT, "syscall"))(n, a, op, v, t);
}
'''
DL = '-D_GNU_SOURCE -ldl'

seed('c01-trylock-busy-only', 'C01', [(D + 'mutexes/mutex_posix.hpp', '''        if (BOOST_LIKELY(res == 0))
            return true;
        else if (BOOST_UNLIKELY(res != EBUSY))
            BOOST_SYNC_DETAIL_THROW(lock_error, (res)("mutex trylock failed in pthread_mutex_trylock"));
        return false;
''', '''        // EBUSY is the only way this can fail on an initialized mutex
        return res != EBUSY;
''')], 'pthread_mutex_trylock failing with an error other than EBUSY (here EAGAIN)', 'try_lock() claims an acquisition that did not happen', H + r'''
#include <pthread.h>
extern "C" int pthread_mutex_trylock(pthread_mutex_t*) noexcept { return EAGAIN; }
#include <boost/sync/mutexes/mutex.hpp>
int main() {
    boost::sync::mutex m;
    bool got = false;
    try { got = m.try_lock(); } catch (std::exception&) {}
    CHECK(!got);
}
''')

seed('c01-emulated-lock-if', 'C01', [(D + 'mutexes/timed_mutex_posix.hpp', '''        while (m_is_locked)
        {
            BOOST_VERIFY(sync::detail::posix::pthread_cond_wait(&m_cond, &m_mutex) == 0);
        }
''', '''        if (m_is_locked)
        {
            BOOST_VERIFY(sync::detail::posix::pthread_cond_wait(&m_cond, &m_mutex) == 0);
        }
''')], 'no pthread_mutex_timedlock (the emulation) and a spurious wakeup while the mutex is held', 'two threads own the mutex at once', H + r'''
#include <unistd.h>
#undef _POSIX_TIMEOUTS
#include <pthread.h>
static std::atomic<int> calls(0);
extern "C" int pthread_cond_wait(pthread_cond_t*, pthread_mutex_t* m) { pthread_mutex_unlock(m); nap(20); ++calls; pthread_mutex_lock(m); return 0; }   // wakes up spuriously
#include <boost/sync/mutexes/timed_mutex.hpp>
int main() {
    boost::sync::timed_mutex m;
    m.lock();
    std::atomic<bool> in(false);
    std::thread t([&] { m.lock(); in = true; m.unlock(); });
    nap(300);
    CHECK(!in);
    m.unlock();
    t.join();
    CHECK(in && calls > 0);
}
''')

seed('c08-zero-timeout-woken', 'C08', [(D + 'condition_variables/condition_variable_posix.hpp', '''    sync::cv_status priv_timed_wait(unique_lock< Mutex >& lock, sync::detail::system_duration dur)
    {
''', '''    sync::cv_status priv_timed_wait(unique_lock< Mutex >& lock, sync::detail::system_duration dur)
    {
        if (BOOST_UNLIKELY(dur.get() <= 0))
        {
            // Don't bother blocking, the caller will check its condition again
            return sync::cv_status::no_timeout;
        }
''')], 'a zero or negative timeout', 'a wait whose timeout has expired reports that it was notified', H + r'''
#include <boost/sync/mutexes/mutex.hpp>
#include <boost/sync/locks/unique_lock.hpp>
#include <boost/sync/condition_variables/condition_variable.hpp>
#include <boost/sync/support/std_chrono.hpp>
int main() {
    boost::sync::mutex m; boost::sync::condition_variable c;
    boost::sync::unique_lock<boost::sync::mutex> l(m);
    int n = 0;
    for (int i = 0; i < 5; ++i) n += c.wait_for(l, std::chrono::milliseconds(0)) == boost::sync::cv_status::no_timeout;
    CHECK(n < 5 && l.owns_lock());
}
''')

seed('c09-any-timeout-false', 'C09', [(D + 'condition_variables/condition_variable_any_generic.hpp', '''            if (!this->timed_wait(lock, t))
                return pred();
''', '''            if (!this->timed_wait(lock, t))
                return false;
''')], 'the predicate becoming true while the timed out wait re-acquires the lock', 'the wait reports failure although its predicate holds', H + r'''
#include <boost/sync/mutexes/mutex.hpp>
#include <boost/sync/locks/unique_lock.hpp>
#include <boost/sync/condition_variables/condition_variable_any.hpp>
#include <boost/sync/support/std_chrono.hpp>
int main() {
    boost::sync::mutex m; boost::sync::condition_variable_any c;
    bool ready = false;
    boost::sync::unique_lock<boost::sync::mutex> l(m);
    std::thread t([&] { nap(50); m.lock(); nap(400); ready = true; m.unlock(); });   // holds the lock over the deadline
    bool r = c.timed_wait(l, std::chrono::system_clock::now() + std::chrono::milliseconds(200), [&] { return ready; });
    t.join();
    CHECK(ready && r);
}
''')

seed('c10-unlock-before-internal', 'C10', [(D + 'condition_variables/condition_variable_any_generic.hpp', '''        relocker< Lock > relock_guard;
        sync::unique_lock< sync::mutex > internal_lock(m_mutex);
        relock_guard.unlock(lock);
        return m_cond.wait_for(internal_lock, rel_time);
''', '''        relocker< Lock > relock_guard;
        relock_guard.unlock(lock);
        sync::unique_lock< sync::mutex > internal_lock(m_mutex);
        return m_cond.wait_for(internal_lock, rel_time);
''')], 'a notification between the release of the caller\'s lock and the blocking', 'the notification is lost', H + r'''
#include <boost/sync/condition_variables/condition_variable_any.hpp>
#include <boost/sync/support/std_chrono.hpp>
boost::sync::condition_variable_any c;
std::thread* t;
struct L { void lock() {} void unlock() { t = new std::thread([] { c.notify_all(); }); nap(200); } };   // notifies as soon as the lock is free
int main() {
    L l;
    boost::sync::cv_status r = c.wait_for(l, std::chrono::milliseconds(1500));
    t->join();
    CHECK(r == boost::sync::cv_status::no_timeout);
}
''')

seed('c10-relock-after-throw', 'C10', [(D + 'condition_variables/condition_variable_any_generic.hpp', '''            lock.unlock();
            m_lock = &lock;
''', '''            m_lock = &lock;
            lock.unlock();
''')], 'the caller\'s unlock() throwing', 'a lock that was never released is locked again: self-deadlock', H + r'''
#include <boost/sync/condition_variables/condition_variable_any.hpp>
#include <boost/sync/support/std_chrono.hpp>
struct L { int n; L() : n(1) {} void lock() { ++n; } void unlock() { throw 1; } };
int main() {
    L l; boost::sync::condition_variable_any c;
    bool thrown = false;
    try { c.wait(l); } catch (int) { thrown = true; }
    CHECK(thrown && l.n == 1);
}
''')

seed('c11-emulated-wait-if', 'C11', [(D + 'semaphore/semaphore_emulation.hpp', '''        while (m_count == 0)
            m_cond.wait(lock);

        --m_count;
''', '''        if (m_count == 0)
            m_cond.wait(lock);

        --m_count;
''')], 'the emulated semaphore and a unit taken by another thread (or a spurious wakeup) while a waiter wakes up', 'wait() returns without a unit and the count wraps around', H + r'''
#include <unistd.h>
#undef _POSIX_SEMAPHORES
#include <pthread.h>
static std::atomic<int> calls(0);
extern "C" int pthread_cond_wait(pthread_cond_t*, pthread_mutex_t* m) { pthread_mutex_unlock(m); nap(20); ++calls; pthread_mutex_lock(m); return 0; }
#include <boost/sync/semaphore.hpp>
int main() {
    boost::sync::semaphore s(0);
    std::atomic<bool> done(false);
    std::thread t([&] { s.wait(); done = true; });
    nap(300);
    CHECK(!done && calls > 0);
    s.post();
    t.join();
    CHECK(!s.try_wait());
}
''')

seed('c12-timeout-keeps-signal', 'C12', [(D + 'events/auto_reset_event_futex.hpp', '''                // Remove one post and one waiter from the counters
                if (BOOST_LIKELY(m_state.compare_exchange_weak(old_state, old_state - (post_count_one + 1u), detail::atomic_ns::memory_order_acquire, detail::atomic_ns::memory_order_relaxed)))
                    return true;
''', '''                // The event was posted after all, only remove the waiter
                if (BOOST_LIKELY(m_state.compare_exchange_weak(old_state, old_state - 1u, detail::atomic_ns::memory_order_acquire, detail::atomic_ns::memory_order_relaxed)))
                    return true;
''')], 'a post between the timeout of a blocked waiter and the waiter leaving', 'one signal completes two waits', FUT + r'''
#include <boost/sync/events/auto_reset_event.hpp>
#include <boost/sync/support/std_chrono.hpp>
static boost::sync::auto_reset_event e;
static int h(int*, int, const timespec*) { e.post(); return ETIMEDOUT; }
int main() {
    hook = h;
    bool a = e.wait_for(std::chrono::seconds(1));
    hook = 0;
    bool b = e.try_wait();
    CHECK(a + b == 1);
}
''', DL)

seed('c13-reset-store', 'C13', [(D + 'events/manual_reset_event_futex.hpp', '''        m_state.opaque_and(wait_count_mask, boost::memory_order_relaxed);
''', '''        // Nothing to do unless the event is set
        const unsigned int old_state = m_state.load(boost::memory_order_relaxed);
        if ((old_state & post_bit) != 0u)
            m_state.store(old_state & wait_count_mask, boost::memory_order_relaxed);
''')], 'a thread registering as a waiter (or leaving) between the two steps of reset()', 'the registration is lost: the thread is never woken by set()', H + r'''
#include <boost/sync/events/manual_reset_event.hpp>
#include <boost/sync/support/std_chrono.hpp>
int main() {
    // many short waits that come and go while the event is reset: afterwards no waiter is registered and set()/wait() work
    boost::sync::manual_reset_event e;
    std::atomic<bool> stop(false);
    std::thread w1([&] { while (!stop) e.wait_for(std::chrono::microseconds(1)); }), w2([&] { while (!stop) e.wait_for(std::chrono::microseconds(1)); });
    for (int i = 0; i < 3000000; ++i) { e.set(); e.reset(); }
    stop = true;
    w1.join(); w2.join();
    e.reset();
    unsigned v = *reinterpret_cast<unsigned*>(&e);
    CHECK(v == 0);
}
''', timeout=120)

seed('c14-expired-waiter-leak', 'C14', [(D + 'events/auto_reset_event_futex.hpp', '''                    if (time_left <= 0)
                        return on_wait_timed_out();
''', '''                    if (time_left <= 0)
                        return false;
''')], 'a timed wait whose deadline has already passed when it is about to block', 'the waiter stays registered for ever: later two posts complete two waits', H + r'''
#include <boost/sync/events/auto_reset_event.hpp>
#include <boost/sync/support/std_chrono.hpp>
int main() {
    boost::sync::auto_reset_event e;
    CHECK(!e.wait_for(std::chrono::milliseconds(-5)));
    e.post(); e.post();
    CHECK(e.try_wait());
    CHECK(!e.try_wait());
}
''')

seed('c14-signal-one', 'C14', [(D + 'events/manual_reset_event_futex.hpp', '''        unsigned int old_state = m_state.fetch_or(post_bit, boost::memory_order_release); // set state
        if ((old_state & post_bit) == 0u && (old_state & wait_count_mask) != 0u)
            sync::detail::linux_::futex_broadcast(reinterpret_cast< int* >(&m_state.value())); // wake all threads
''', '''        unsigned int old_state = m_state.fetch_or(post_bit, boost::memory_order_release); // set state
        if ((old_state & post_bit) == 0u)
        {
            // Avoid the thundering herd if there is no one to wake but one thread
            if ((old_state & wait_count_mask) <= wait_count_one * 2u)
                sync::detail::linux_::futex_signal(reinterpret_cast< int* >(&m_state.value()));
            else
                sync::detail::linux_::futex_broadcast(reinterpret_cast< int* >(&m_state.value())); // wake all threads
        }
''')], 'exactly two blocked waiters', 'one of them is never woken', H + r'''
#include <boost/sync/events/manual_reset_event.hpp>
int main() {
    boost::sync::manual_reset_event e;
    std::atomic<int> n(0);
    auto f = [&] { e.wait(); ++n; };
    std::thread a(f), b(f);
    nap(300);
    e.set();
    nap(500);
    CHECK(n == 2);
    a.join(); b.join();
}
''')

seed('c15-manual-restart', 'C15', [(D + 'events/manual_reset_event_futex.hpp', '''        unsigned int old_state = m_state.add(wait_count_one, boost::memory_order_relaxed);
        while ((old_state & post_bit) == 0u)
        {
            sync::detail::system_duration::native_type time_left = (abs_timeout - sync::detail::system_time_point::now()).get();
            if (time_left <= 0)
            {
''', '''        const sync::detail::system_duration::native_type time_left = (abs_timeout - sync::detail::system_time_point::now()).get();
        unsigned int old_state = m_state.add(wait_count_one, boost::memory_order_relaxed);
        while ((old_state & post_bit) == 0u)
        {
            if (time_left <= 0)
            {
''')], 'a signal or another waiter interrupting the blocked thread', 'the whole timeout is waited again after each interruption', FUT + r'''
#include <boost/sync/events/manual_reset_event.hpp>
#include <boost/sync/support/std_chrono.hpp>
static int n;
static long long prev = -1;
static int h(int*, int, const timespec* t) {
    long long left = t->tv_sec * 1000000000LL + t->tv_nsec;
    if (prev >= 0) CHECK(left < prev);
    prev = left;
    nap(30);
    return ++n < 3 ? EINTR : ETIMEDOUT;
}
int main() {
    boost::sync::manual_reset_event e;
    hook = h;
    CHECK(!e.wait_for(std::chrono::seconds(10)));
    CHECK(n == 3);
}
''', DL)

seed('c16-int-seconds', 'C16', [(D + 'time_units.hpp', '''        int64_t seconds = static_cast< int64_t >(left.m_value.tv_sec) - static_cast< int64_t >(right.m_value.tv_sec);
        int64_t nseconds = static_cast< int64_t >(left.m_value.tv_nsec) - static_cast< int64_t >(right.m_value.tv_nsec);
        return system_duration(seconds * system_duration::subsecond_fraction + nseconds);
''', '''        const int seconds = static_cast< int >(left.m_value.tv_sec - right.m_value.tv_sec);
        const int nseconds = static_cast< int >(left.m_value.tv_nsec - right.m_value.tv_nsec);
        return system_duration(static_cast< int64_t >(seconds) * static_cast< int64_t >(system_duration::subsecond_fraction) + nseconds);
''')], 'a deadline more than 68 years away ("wait for ever")', 'the remaining time is wrong, even negative: an event wait times out at once', H + r'''
#include <boost/sync/detail/time_units.hpp>
#include <boost/sync/support/std_chrono.hpp>
#include <boost/sync/events/auto_reset_event.hpp>
int main() {
    using namespace boost::sync::detail;
    system_time_point a(4000000000LL, 5u), b(1000000000LL, 7u);
    CHECK((a - b).get() == 2999999999999999998LL);
    CHECK((b - a).get() == -2999999999999999998LL);
}
''')

seed('c16-date-time-micro', 'C16', [(I + 'support/boost_date_time.hpp', '''        return system_duration(static_cast< uint64_t >(traits_type::ticks_per_second) >= system_duration::subsecond_fraction ?
            dur.ticks() / conversion_ratio : dur.ticks() * conversion_ratio);
''', '''        (void)conversion_ratio;
        return system_duration(static_cast< system_duration::native_type >(dur.total_milliseconds()) * 1000000 +
            static_cast< system_duration::native_type >(dur.fractional_seconds() % (traits_type::ticks_per_second / 1000)) *
            static_cast< system_duration::native_type >(system_duration::subsecond_fraction / 1000u) / (traits_type::ticks_per_second / 1000) / 1000 * 1000);
''')], 'Boost.DateTime configured with nanosecond resolution', 'the nanoseconds of a timeout are dropped', H + r'''
#define BOOST_DATE_TIME_POSIX_TIME_STD_CONFIG
#include <boost/date_time/posix_time/posix_time.hpp>
#include <boost/sync/support/boost_date_time.hpp>
int main() {
    using namespace boost::sync::detail;
    typedef boost::posix_time::time_duration D;
    CHECK((time_traits<D>::to_sync_unit(boost::posix_time::nanoseconds(1234567)).get() == 1234567));
    CHECK((time_traits<D>::to_sync_unit(boost::posix_time::microseconds(1234567)).get() == 1234567000));
}
''')

seed('c17-sem-eintr-timeout', 'C17', [(D + 'semaphore/semaphore_posix.hpp', '''            case ETIMEDOUT:
                return false;

            case EINTR: // interrupted by a signal handler
                continue;
''', '''            case ETIMEDOUT:
            case EINTR: // interrupted by a signal handler
                return false;
''')], 'a signal handled by the thread while it is blocked in a timed wait', 'the wait reports a timeout long before its deadline', H + r'''
#include <boost/sync/semaphore.hpp>
#include <boost/sync/support/std_chrono.hpp>
#include <signal.h>
#include <pthread.h>
static void h(int) {}
int main() {
    struct sigaction sa = {}; sa.sa_handler = h; sigaction(SIGUSR1, &sa, 0);
    boost::sync::semaphore s(0);
    pthread_t me = pthread_self();
    std::thread t([&] { nap(200); pthread_kill(me, SIGUSR1); nap(200); s.post(); });
    bool r = s.wait_for(std::chrono::seconds(5));
    t.join();
    CHECK(r);
}
''')

seed('c17-auto-eintr', 'C17', [(D + 'events/auto_reset_event_futex.hpp', '''                        case ETIMEDOUT:
                            return on_wait_timed_out();

                        case EINTR:       // signal received
                        case EWOULDBLOCK: // another thread changed the state
                            break;
''', '''                        case ETIMEDOUT:
                        case EINTR:       // signal received
                            return on_wait_timed_out();

                        case EWOULDBLOCK: // another thread changed the state
                            break;
''')], 'a signal handled by the thread while it is blocked in a timed wait', 'the wait reports a timeout long before its deadline', H + r'''
#include <boost/sync/events/auto_reset_event.hpp>
#include <boost/sync/support/std_chrono.hpp>
#include <signal.h>
#include <pthread.h>
static void h(int) {}
int main() {
    struct sigaction sa = {}; sa.sa_handler = h; sigaction(SIGUSR1, &sa, 0);
    boost::sync::auto_reset_event s;
    pthread_t me = pthread_self();
    std::thread t([&] { nap(200); pthread_kill(me, SIGUSR1); nap(200); s.post(); });
    bool r = s.wait_for(std::chrono::seconds(5));
    t.join();
    CHECK(r);
}
''')

seed('c18-invalid-is-timeout', 'C18', [(D + 'condition_variables/condition_variable_posix.hpp', '''        if (res == ETIMEDOUT)
            return sync::cv_status::timeout;
        else if (BOOST_UNLIKELY(res != 0))
''', '''        if (res == ETIMEDOUT || res == EINVAL) // EINVAL: the time is out of range
            return sync::cv_status::timeout;
        else if (BOOST_UNLIKELY(res != 0))
''')], 'pthread_cond_timedwait failing with EINVAL', 'an error is passed off as a timeout', H + r'''
#include <pthread.h>
extern "C" int pthread_cond_timedwait(pthread_cond_t*, pthread_mutex_t*, const timespec*) { return EINVAL; }
#include <boost/sync/mutexes/mutex.hpp>
#include <boost/sync/locks/unique_lock.hpp>
#include <boost/sync/condition_variables/condition_variable.hpp>
#include <boost/sync/exceptions/wait_error.hpp>
#include <boost/sync/support/std_chrono.hpp>
int main() {
    boost::sync::mutex m; boost::sync::condition_variable c;
    boost::sync::unique_lock<boost::sync::mutex> l(m);
    bool ok = false;
    try { c.wait_for(l, std::chrono::seconds(5)); } catch (boost::sync::wait_error& e) { ok = e.code().value() == EINVAL; }
    CHECK(ok && l.owns_lock());
}
''')

TS = H + r'''
#include <boost/sync/thread_specific/thread_specific_ptr.hpp>
#include <boost/sync/thread_specific/at_thread_exit.hpp>
'''
seed('c19-cleanup-before-install', 'C19', [(I + 'thread_specific/thread_specific_ptr.hpp', '''            sync::detail::set_thread_specific(m_key, new_value);
            if (old_value && m_cleanup)
                m_cleanup(old_value);
''', '''            if (old_value && m_cleanup)
                m_cleanup(old_value);
            sync::detail::set_thread_specific(m_key, new_value);
''')], 'a cleanup function that itself resets the pointer', 'the old value is cleaned up over and over', TS + r'''
static int n;
static void cl(int*);
static boost::sync::thread_specific_ptr<int> p(&cl);
static void cl(int*) { if (++n < 10) p.reset(); }
int main() {
    static int a, b;
    p.reset(&a);
    p.reset(&b);
    CHECK(n <= 2);       // a once; b at most once (reset from within the cleanup)
    p.release();
}
''', lib=True)

seed('c19-delete-keeps-other-threads', 'C19', [('src/tss_manager.hpp', '''                    if (cleanup)
                        storage.push_back(it->m_storage[key]);
                    it->m_storage[key] = NULL;
''', '''                    if (cleanup)
                    {
                        storage.push_back(it->m_storage[key]);
                        it->m_storage[key] = NULL;
                    }
''')], 'a pointer without a cleanup function is destroyed and its key is reused by a new pointer', 'the new pointer starts with the old pointer\'s value', TS + r'''
int main() {
    static int a;
    { boost::sync::thread_specific_ptr<int> p((void (*)(int*))0); p.reset(&a); }
    boost::sync::thread_specific_ptr<int> q((void (*)(int*))0);
    CHECK(q.get() == 0);
}
''', lib=True)

seed('c20-context-unlocked', 'C20', [('src/tss_manager.hpp', '''        sync::lock_guard< mutex_type > lock(m_mutex);
        m_thread_contexts.push_back(*p);

        return p;
''', '''        {
            sync::lock_guard< mutex_type > lock(m_mutex);
            if (m_thread_contexts.empty())
            {
                m_thread_contexts.push_back(*p);
                return p;
            }
        }

        // The list is never empty again while this thread is in it
        m_thread_contexts.push_back(*p);
        return p;
''')], 'two threads using thread-specific storage for the first time at once', 'the list of thread contexts is corrupted', H + r'''
#include <boost/sync/thread_specific/thread_specific_ptr.hpp>
#include <vector>
int main() {
    static boost::sync::thread_specific_ptr<int> p;
    p.reset(new int);
    for (int r = 0; r < 3000; ++r) {
        std::atomic<int> go(0);
        std::vector<std::thread> t;
        for (int i = 0; i < 8; ++i) t.emplace_back([&] { ++go; while (go < 8) {} p.reset(new int); });
        for (auto& x : t) x.join();
    }
}
''', lib=True, timeout=200)

seed('c21-cleanup-under-lock', 'C21', [('src/tss_manager.hpp', '''            m_freed_keys.push(key);

            lock.unlock();

            // Run cleanup routines while the lock is released
            for (std::vector< void* >::iterator it = storage.begin(), end = storage.end(); it != end; ++it)
            {
                cleanup(*it);
            }
''', '''            // Run cleanup routines before the key can be used again
            for (std::vector< void* >::iterator it = storage.begin(), end = storage.end(); it != end; ++it)
            {
                cleanup(*it);
            }

            m_freed_keys.push(key);
''')], 'a cleanup function that creates (or destroys) a thread specific pointer', 'self-deadlock', TS + r'''
static void cl(int*) { boost::sync::thread_specific_ptr<int> q; }
int main() {
    static int a;
    boost::sync::thread_specific_ptr<int>* p = new boost::sync::thread_specific_ptr<int>(&cl);
    p->reset(&a);
    delete p;
}
''', lib=True, timeout=20)

seed('c22-notify-first', 'C22', [('src/tss_manager.hpp', '''        // Notify about thread termination. This must be performed last, after all TLS variables are destroyed.
        for (std::vector< thread_context::notify_at_exit_entry >::const_iterator it = p->m_notify_at_exit.begin(), end = p->m_notify_at_exit.end(); it != end; ++it)
        {
            it->mtx->unlock();
            it->cond->notify_all();
        }
''', '''        // Notify about thread termination. This must be performed last, after all TLS variables are destroyed.
        while (!p->m_notify_at_exit.empty())
        {
            const thread_context::notify_at_exit_entry entry = p->m_notify_at_exit.back();
            p->m_notify_at_exit.pop_back();
            if (p->m_notify_at_exit.empty())
                entry.mtx->unlock();
            entry.cond->notify_all();
        }
''')], 'a thread that schedules two notifications with different mutexes', 'the first mutex is never released', H + r'''
#include <boost/sync/condition_variables/notify_all_at_thread_exit.hpp>
#include <boost/move/utility_core.hpp>
int main() {
    static boost::sync::mutex m[2]; static boost::sync::condition_variable c;
    std::thread t([] {
        for (int i = 0; i < 2; ++i) { boost::sync::unique_lock<boost::sync::mutex> l(m[i]); boost::sync::notify_all_at_thread_exit(c, boost::move(l)); }
    });
    t.join();
    for (int i = 0; i < 2; ++i) { CHECK(m[i].try_lock()); m[i].unlock(); }
}
''', lib=True)

seed('c23-semaphore-any-time', 'C23', [(D + 'semaphore/semaphore_posix.hpp', '''    template< typename Duration >
    typename enable_if< detail::is_time_tag_of< Duration, detail::time_duration_tag >, bool >::type wait_for(Duration const& duration)
''', '''    template< typename Duration >
    typename enable_if_c< sync::detail::time_traits< Duration >::is_specialized, bool >::type wait_for(Duration const& duration)
''')], 'a time point passed to wait_for()', 'misuse compiles', H + r'''
#include <boost/sync/semaphore.hpp>
#include <boost/sync/support/std_chrono.hpp>
template <class S, class T> auto f(int) -> decltype(std::declval<S&>().wait_for(std::declval<T>()), char());
template <class S, class T> long f(...);
int main() {
    CHECK(sizeof(f<boost::sync::semaphore, std::chrono::seconds>(0)) == 1);
    CHECK((sizeof(f<boost::sync::semaphore, std::chrono::system_clock::time_point>(0)) != 1));
    CHECK((sizeof(f<boost::sync::semaphore, std::chrono::steady_clock::time_point>(0)) != 1));
}
''')

seed('c24-cond-runtime-init', 'C24', [(D + 'condition_variables/condition_variable_posix.hpp', '''#if !defined(BOOST_NO_CXX11_CONSTEXPR) && !defined(__CYGWIN__)
#define BOOST_SYNC_DEFINES_CONDITION_VARIABLE_CONSTEXPR_CONSTRUCTOR
    constexpr
#endif
    condition_variable() BOOST_NOEXCEPT : m_cond(PTHREAD_COND_INITIALIZER)
    {
    }
''', '''    condition_variable() BOOST_NOEXCEPT
    {
        // Sets the condition variable up with the default attributes
        BOOST_VERIFY(::pthread_cond_init(&m_cond, NULL) == 0);
    }
''')], 'a condition variable used by a static initializer that runs before its own', 'it is initialized again while in use: the waiter is forgotten', H + r'''
#include <boost/sync/mutexes/mutex.hpp>
#include <boost/sync/locks/unique_lock.hpp>
#include <boost/sync/condition_variables/condition_variable.hpp>
extern boost::sync::condition_variable c;
static boost::sync::mutex m;
static std::thread* t;
static std::atomic<bool> done(false);
static struct early { early() { t = new std::thread([] { boost::sync::unique_lock<boost::sync::mutex> l(m); c.wait(l); done = true; }); nap(300); } } e;
boost::sync::condition_variable c;
int main() {
    c.notify_all();
    nap(500);
    CHECK(done);
    t->join();
}
''')

seed('c25-post-relaxed', 'C25', [(D + 'events/auto_reset_event_futex.hpp', '''                if (m_state.compare_exchange_weak(old_state, old_state + post_count_one, detail::atomic_ns::memory_order_release, detail::atomic_ns::memory_order_relaxed))
                    break;
''', '''                if (m_state.compare_exchange_weak(old_state, old_state + post_count_one, detail::atomic_ns::memory_order_acquire, detail::atomic_ns::memory_order_relaxed))
                    break;
''')], 'a weakly ordered processor (or compiler reordering)', 'the data written before post() is not visible to the thread that got the signal', None, sh=r'''#!/bin/bash
# run under ThreadSanitizer, which follows the declared memory orders; exit 0: no race
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
cat > "$T/demo.cpp" <<'X'
#include <cstdio>
#include <thread>
#include <boost/sync/events/auto_reset_event.hpp>
int main() {
    boost::sync::auto_reset_event e;
    int data = 0;
    std::thread t([&] { data = 42; e.post(); });
    while (!e.try_wait()) {}
    int x = data;
    t.join();
    return x != 42;
}
X
clang++ -std=gnu++17 -w -O1 -g -fsanitize=thread -DBOOST_SYNC_DETAIL_NO_FUTEX -I/repo/include "$T/demo.cpp" -o "$T/demo" -lpthread || exit 2
for i in 1 2 3 4 5; do
    TSAN_OPTIONS=exitcode=66 timeout 60 setarch x86_64 -R "$T/demo" > "$T/out" 2>&1
    rc=$?
    if grep -q 'WARNING: ThreadSanitizer: data race' "$T/out"; then echo "FAILED: data race"; exit 1; fi
    if [ $rc -ne 0 ]; then TSAN_OPTIONS=exitcode=66 timeout 60 "$T/demo" > "$T/out" 2>&1; rc=$?; if grep -q 'WARNING: ThreadSanitizer: data race' "$T/out"; then echo "FAILED: data race"; exit 1; fi; fi
    if [ $rc -ne 0 ]; then cat "$T/out"; exit 3; fi
done
exit 0
''')

seed('c26-sem-shared', 'C26', [(D + 'semaphore/semaphore_posix.hpp', '''        const int status = sem_init(&m_sem, 0, i);
''', '''        const int status = sem_init(&m_sem, sizeof(m_sem) > sizeof(void*), i);
''')], 'nothing but looking at the kind of semaphore', 'the semaphore is created for sharing between processes', H + r'''
#include <semaphore.h>
static int shared = -1;
extern "C" int sem_init(sem_t*, int s, unsigned) noexcept { shared = s; return 0; }
#include <boost/sync/semaphore.hpp>
int main() { { boost::sync::semaphore s(3); } CHECK(shared == 0); }
''')

seed('c26-emulated-cond-leak', 'C26', [(D + 'mutexes/timed_mutex_posix.hpp', '''        BOOST_VERIFY(sync::detail::posix::pthread_mutex_destroy(&m_mutex) == 0);
#if !defined(BOOST_SYNC_DETAIL_PTHREAD_HAS_TIMEDLOCK)
        BOOST_VERIFY(sync::detail::posix::pthread_cond_destroy(&m_cond) == 0);
#endif
''', '''        BOOST_VERIFY(sync::detail::posix::pthread_mutex_destroy(&m_mutex) == 0);
#if !defined(BOOST_SYNC_DETAIL_PTHREAD_HAS_TIMEDLOCK)
        BOOST_ASSERT(sync::detail::posix::pthread_cond_destroy(&m_cond) == 0);
#endif
''')], 'no pthread_mutex_timedlock (the emulation), built with NDEBUG', 'the condition variable is never destroyed', H + r'''
#include <unistd.h>
#undef _POSIX_TIMEOUTS
#include <pthread.h>
static int n;
extern "C" int pthread_cond_destroy(pthread_cond_t*) noexcept { ++n; return 0; }
#include <boost/sync/mutexes/timed_mutex.hpp>
int main() { { boost::sync::timed_mutex m; } CHECK(n == 1); }
''', '-DNDEBUG')
