from seedlib import seed
I = 'include/boost/sync/'
D = I + 'detail/'
MX = r'''
#include <cstdio>
#include <cstdlib>
#include <stdexcept>
#define CHECK(x) do { if (!(x)) { std::printf("FAILED: %s\n", #x); std::exit(1); } } while (0)
// a mutex that counts its holds and can be told to throw
struct M {
    int ex, sh, up, bad; bool thr, fail;
    M() : ex(0), sh(0), up(0), bad(0), thr(false), fail(false) {}
    void t() { if (thr) throw std::runtime_error("lock"); }
    void lock() { t(); ++ex; } bool try_lock() { t(); if (fail) return false; ++ex; return true; } void unlock() { if (ex-- <= 0) ++bad; }
    void lock_shared() { t(); ++sh; } bool try_lock_shared() { t(); if (fail) return false; ++sh; return true; } void unlock_shared() { if (sh-- <= 0) ++bad; }
    void lock_upgrade() { t(); ++up; } bool try_lock_upgrade() { t(); if (fail) return false; ++up; return true; } void unlock_upgrade() { if (up-- <= 0) ++bad; }
    template <class T> bool timed_lock(T const&) { return try_lock(); }
    template <class T> bool try_lock_for(T const&) { return try_lock(); }
    template <class T> bool try_lock_until(T const&) { return try_lock(); }
    template <class T> bool timed_lock_upgrade(T const&) { return try_lock_upgrade(); }
    template <class T> bool try_lock_upgrade_for(T const&) { return try_lock_upgrade(); }
    template <class T> bool try_lock_upgrade_until(T const&) { return try_lock_upgrade(); }
    void unlock_upgrade_and_lock() { t(); --up; ++ex; }
    bool try_unlock_shared_and_lock() { t(); if (fail) return false; --sh; ++ex; return true; }
    bool try_unlock_upgrade_and_lock() { t(); if (fail) return false; --up; ++ex; return true; }
    void unlock_upgrade_and_lock_shared() { t(); --up; ++sh; }
    void unlock_and_lock_shared() { t(); --ex; ++sh; }
    void unlock_and_lock_upgrade() { t(); --ex; ++up; }
};
'''
seed('c04-lock-flag-first', 'C04', [(I + 'locks/unique_lock.hpp', '''        m_mutex->lock();
        m_is_locked = true;
''', '''        m_is_locked = true;
        m_mutex->lock();
''')], 'the mutex\'s lock() throws', 'the wrapper claims ownership and unlocks a mutex it never locked', MX + r'''
#include <boost/sync/locks/unique_lock.hpp>
int main() {
    M m;
    { boost::sync::unique_lock<M> l(m, boost::sync::defer_lock); m.thr = true; try { l.lock(); } catch (std::runtime_error&) {} CHECK(!l.owns_lock()); }
    CHECK(m.ex == 0 && m.bad == 0);
}
''')
seed('c04-upgrade-swap', 'C04', [(I + 'locks/upgrade_lock.hpp', '''    upgrade_lock& operator= (BOOST_RV_REF(upgrade_lock) that) BOOST_NOEXCEPT
    {
        swap((upgrade_lock&)that);
''', '''    upgrade_lock& operator= (BOOST_RV_REF(upgrade_lock) that) BOOST_NOEXCEPT
    {
        if (that.m_is_locked)
        {
            swap((upgrade_lock&)that);
        }
        else
        {
            // Nothing to hand over but the association
            m_mutex = that.m_mutex;
            m_is_locked = false;
        }
''')], 'move assignment from a non-owning lock to an owning one', 'the hold of the overwritten lock is leaked', MX + r'''
#include <boost/sync/locks/upgrade_lock.hpp>
#include <boost/move/utility_core.hpp>
int main() {
    M a, b;
    { boost::sync::upgrade_lock<M> x(a), y(b, boost::sync::defer_lock); x = boost::move(y); }
    CHECK(a.up == 0 && b.up == 0 && a.bad == 0 && b.bad == 0);
}
''')
seed('c05-release-early', 'C05', [(I + 'locks/unique_lock.hpp', '''        if (m_is_locked)
            m_mutex->unlock_upgrade_and_lock();
        that.release();
''', '''        that.release();
        if (m_is_locked)
            m_mutex->unlock_upgrade_and_lock();
''')], 'the mutex operation of the conversion throws', 'the upgrade hold is lost: neither lock owns it', MX + r'''
#include <boost/sync/locks/unique_lock.hpp>
#include <boost/sync/locks/upgrade_lock.hpp>
#include <boost/move/utility_core.hpp>
int main() {
    M m;
    { boost::sync::upgrade_lock<M> u(m); m.thr = true; try { boost::sync::unique_lock<M> l(boost::move(u)); } catch (std::runtime_error&) {} m.thr = false; CHECK(u.owns_lock()); }
    CHECK(m.up == 0 && m.ex == 0 && m.bad == 0);
}
''')
seed('c05-failed-try-release', 'C05', [(I + 'locks/unique_lock.hpp', '''            if (sl.mutex()->try_unlock_shared_and_lock())
            {
                m_mutex = sl.release();
                m_is_locked = true;
            }
''', '''            m_is_locked = sl.mutex()->try_unlock_shared_and_lock();
            m_mutex = sl.release();
''')], 'a try conversion from shared to exclusive that fails', 'the shared hold is leaked', MX + r'''
#include <boost/sync/locks/unique_lock.hpp>
#include <boost/sync/locks/shared_lock.hpp>
#include <boost/move/utility_core.hpp>
int main() {
    M m;
    { boost::sync::shared_lock<M> s(m); m.fail = true; boost::sync::unique_lock<M> l(boost::move(s), boost::sync::try_to_lock); CHECK(!l.owns_lock()); CHECK(s.owns_lock()); }
    CHECK(m.sh == 0 && m.ex == 0 && m.bad == 0);
}
''')
seed('c06-unlock-code', 'C06', [(I + 'locks/upgrade_lock.hpp', '''        if (!m_mutex)
            BOOST_SYNC_DETAIL_THROW(lock_error, (detail::system_ns::errc::operation_not_permitted)("boost upgrade_lock has no mutex"));

        if (!m_is_locked)
            BOOST_SYNC_DETAIL_THROW(lock_error, (detail::system_ns::errc::operation_not_permitted)("boost upgrade_lock doesn't own the mutex"));
''', '''        // No mutex implies not locked
        if (!m_is_locked)
            BOOST_SYNC_DETAIL_THROW(lock_error, (detail::system_ns::errc::resource_deadlock_would_occur)("boost upgrade_lock doesn't own the mutex"));
''')], 'unlock of a non-owning upgrade_lock', 'wrong error code', MX + r'''
#include <boost/sync/locks/upgrade_lock.hpp>
#include <boost/sync/exceptions/lock_error.hpp>
int main() {
    M m; boost::sync::upgrade_lock<M> u(m, boost::sync::defer_lock); bool ok = false;
    try { u.unlock(); } catch (boost::sync::lock_error& e) { ok = e.code() == boost::system::errc::operation_not_permitted; }
    CHECK(ok); CHECK(m.bad == 0);
}
''')
seed('c07-guard-adopt', 'C07', [(I + 'locks/shared_lock_guard.hpp', '''    shared_lock_guard(mutex_type& m, adopt_lock_t) : m_mutex(m)
    {
    }
''', '''    shared_lock_guard(mutex_type& m, adopt_lock_t) : m_mutex(m)
    {
        // Make sure that the guard owns a share of its own
        if (!m.try_lock_shared())
            m.lock_shared();
    }
''')], 'adopting a shared hold', 'one more hold is taken than released', MX + r'''
#include <boost/sync/locks/shared_lock_guard.hpp>
#include <boost/sync/locks/lock_options.hpp>
int main() {
    M m; m.lock_shared();
    { boost::sync::shared_lock_guard<M> g(m, boost::sync::adopt_lock); }
    CHECK(m.sh == 0 && m.bad == 0);
}
''')
seed('c03-optimistic-reader', 'C03', [(D + 'mutexes/shared_spin_mutex.hpp', '''            /* with the mask, the cas will fail, locked exclusively */
            uint32_t current_state    = state.load(detail::atomic_ns::memory_order_acquire) & reader_mask;
            const uint32_t next_state = current_state + 1;

            if ( state.compare_exchange_weak(current_state, next_state, detail::atomic_ns::memory_order_acquire,
                                             detail::atomic_ns::memory_order_relaxed) )
                break;
            detail::pause();
''', '''            /* add ourselves optimistically and step back if there is a writer */
            if ( (state.fetch_add(1, detail::atomic_ns::memory_order_acquire) & locked_state) == 0 )
                break;
            state.fetch_sub(1, detail::atomic_ns::memory_order_relaxed);
            detail::pause();
'''), (D + 'mutexes/shared_spin_mutex.hpp', '''            while( state.load(detail::atomic_ns::memory_order_relaxed) == locked_state )
                detail::pause();


''', '')], 'a reader that steps back after a writer unlocked in between', 'the reader count wraps around and the mutex is corrupted', r'''
#include <cstdio>
#include <cstdlib>
#include <thread>
#include <atomic>
#include <chrono>
#define NDEBUG
#include <boost/sync/mutexes/shared_spin_mutex.hpp>
int main() {
    boost::sync::shared_spin_mutex m;
    std::atomic<bool> stop(false);
    std::atomic<long> inside(0), bad(0), ok(0);
    std::thread w([&] { for (int i = 0; i < 100000 && !stop; ++i) { m.lock(); if (inside.load()) ++bad; for (volatile int k = 0; k < 50; ++k); m.unlock(); ++ok; } stop = true; });
    std::thread r([&] { while (!stop) { m.lock_shared(); ++inside; --inside; m.unlock_shared(); } });
    std::thread watch([&] { long last = -1; int same = 0; while (!stop) { std::this_thread::sleep_for(std::chrono::milliseconds(100)); long o = ok; same = o == last ? same + 1 : 0; last = o; if (same > 80) { std::puts("FAILED: stuck"); std::_Exit(1); } } });
    w.join(); r.join(); watch.join();
    if (bad || !m.try_lock()) { std::puts("FAILED: corrupted"); std::_Exit(1); }
    m.unlock();
}
''')
seed('c02-test-then-set', 'C02', [(D + 'mutexes/spin_mutex.hpp', '''    bool try_lock() BOOST_NOEXCEPT
    {
        return state.test_and_set( detail::atomic_ns::memory_order_acquire ) == false;
    }
''', '''    bool try_lock() BOOST_NOEXCEPT
    {
        if (state.test_and_set( detail::atomic_ns::memory_order_acquire ) == false)
            return true;
        // Do not give up too early if the owner is just about to leave
        detail::pause();
        if (state.test_and_set( detail::atomic_ns::memory_order_acquire ) == false)
        {
            state.clear( detail::atomic_ns::memory_order_release );
            return true;
        }
        return false;
    }
''')], 'the owner unlocks between the two attempts of another thread', 'two threads own the mutex', r'''
#include <cstdio>
#include <thread>
#include <boost/sync/mutexes/spin_mutex.hpp>
int main() {
    boost::sync::spin_mutex m; long n = 0; const long N = 3000000;
    auto f = [&] { for (long i = 0; i < N; ++i) { m.lock(); long v = n; v = v + 1; *(volatile long*)&n = v; m.unlock(); } };
    std::thread a(f), b(f), c(f); a.join(); b.join(); c.join();
    if (n != 3 * N) { std::printf("FAILED: %ld\n", n); return 1; }
}
''')
