// Legal use: every documented operation of every primitive with every supported time type has to compile.
// Analysed by the compiler front end only (-fsyntax-only).
#include "all.hpp"
#include <boost/static_assert.hpp>
#include <boost/type_traits/is_same.hpp>
using namespace boost::sync;
using boost::move;

template< class T > T& any();           // never defined
template< class T > void same(T const&) {}

// ---- exclusive mutexes and their wrappers
template< class M > void basic_mutex(M& m)
{
    m.lock(); bool b = m.try_lock(); (void)b; m.unlock();
    { lock_guard< M > g(m); }
    { lock_guard< M > g(m, adopt_lock); }
    { unlock_guard< M > g(m); }
    unique_lock< M > a, b1(m), b2(m, defer_lock), b3(m, try_to_lock), b4(m, adopt_lock);
    { unlock_guard< unique_lock< M > > g(b1); }
    { lock_guard< unique_lock< M > > g(b1); }
    unique_lock< M > c(move(b1));
    a = move(c);
    a.swap(b2); swap(a, b2);
    a.lock(); bool r = a.try_lock(); a.unlock(); r = a.owns_lock(); r = !a; if (a) r = true; (void)r;
    M* p = a.mutex(); p = a.release(); (void)p;
    typedef typename unique_lock< M >::mutex_type mt; BOOST_STATIC_ASSERT((boost::is_same< mt, M >::value));
    typedef typename lock_guard< M >::mutex_type mg; BOOST_STATIC_ASSERT((boost::is_same< mg, M >::value));
    condition_variable_any cv; cv.wait(a); cv.wait(a, vf::pred()); cv.wait(m); cv.wait(m, vf::pred());
    struct local { static unique_lock< M > make(M& m) { unique_lock< M > l(m); return unique_lock< M >(move(l)); } };
    unique_lock< M > d(local::make(m));
    d = local::make(m);
    unique_lock< M > const& cd = d; r = cd.owns_lock(); r = !cd; p = cd.mutex(); if (cd) r = false;
}
template< class M > void shared_mutex(M& m)
{
    m.lock_shared(); bool r = m.try_lock_shared(); m.unlock_shared();
    { shared_lock_guard< M > g(m); }
    { shared_lock_guard< M > g(m, adopt_lock); }
    shared_lock< M > a, b1(m), b2(m, defer_lock), b3(m, try_to_lock), b4(m, adopt_lock);
    { unlock_guard< shared_lock< M > > g(b1); }
    shared_lock< M > c(move(b1));
    a = move(c);
    a.swap(b2); swap(a, b2);
    a.lock(); r = a.try_lock(); a.unlock(); r = a.owns_lock(); r = !a; if (a) r = true; (void)r;
    M* p = a.mutex(); p = a.release(); (void)p;
    typedef typename shared_lock< M >::mutex_type mt; BOOST_STATIC_ASSERT((boost::is_same< mt, M >::value));
    condition_variable_any cv; cv.wait(a); cv.wait(a, vf::pred());
    struct local { static shared_lock< M > make(M& m) { shared_lock< M > l(m); return shared_lock< M >(move(l)); } };
    shared_lock< M > d(local::make(m));
    d = local::make(m);
    shared_lock< M > const& cd = d; r = cd.owns_lock(); r = !cd; p = cd.mutex(); if (cd) r = false;
}
template< class M > void upgrade_mutex(M& m)
{
    upgrade_lock< M > a, b1(m), b2(m, defer_lock), b3(m, try_to_lock), b4(m, adopt_lock);
    { unlock_guard< upgrade_lock< M > > g(b1); }
    upgrade_lock< M > c(move(b1));
    a = move(c);
    a.swap(b2); swap(a, b2);
    a.lock(); bool r = a.try_lock(); a.unlock(); r = a.owns_lock(); r = !a; if (a) r = true; (void)r;
    M* p = a.mutex(); p = a.release(); (void)p;
    typedef typename upgrade_lock< M >::mutex_type mt; BOOST_STATIC_ASSERT((boost::is_same< mt, M >::value));
    condition_variable_any cv; cv.wait(a); cv.wait(a, vf::pred());
    upgrade_lock< M > const& cd = a; r = cd.owns_lock(); r = !cd; p = cd.mutex(); if (cd) r = false;
    // conversions
    unique_lock< M > u(m); shared_lock< M > s(m);
    unique_lock< M > u1(move(a)); unique_lock< M > u2(move(a), try_to_lock); unique_lock< M > u3(move(s), try_to_lock);
    shared_lock< M > s1(move(u)); shared_lock< M > s2(move(a));
    upgrade_lock< M > g1(move(u)); upgrade_lock< M > g2(move(s), try_to_lock);
    u = move(a); s = move(u); s = move(a); a = move(u);
}
void mutexes()
{
    basic_mutex(any< boost::sync::mutex >());
    basic_mutex(any< timed_mutex >());
    basic_mutex(any< spin_mutex >());
    basic_mutex(any< shared_spin_mutex >());
    basic_mutex(any< vf::full_mutex >());
    shared_mutex(any< shared_spin_mutex >());
    shared_mutex(any< vf::full_mutex >());
    upgrade_mutex(any< vf::full_mutex >());
    boost::sync::mutex::native_handle_type h = any< boost::sync::mutex >().native_handle(); (void)h;
    condition_variable::native_handle_type n = any< condition_variable >().native_handle(); (void)n;
#if !defined(VF_NO_TIMEDLOCK)
    timed_mutex::native_handle_type t = any< timed_mutex >().native_handle(); (void)t;
#endif
    condition_variable().notify_one(); condition_variable().notify_all();
    condition_variable_any().notify_one(); condition_variable_any().notify_all();
    notify_all_at_thread_exit(any< condition_variable >(), move(any< unique_lock< boost::sync::mutex > >()));
    at_thread_exit(vf::fun());
    vf::lockable lk; condition_variable_any().wait(lk); condition_variable_any().wait(lk, vf::pred());
}

// ---- timed operations
template< class T > void timed_semaphore(T const& t, semaphore& s, auto_reset_event& a, manual_reset_event& m, timed_mutex& x, condition_variable& cv, condition_variable_any& ca)
{
    bool r = s.timed_wait(t); r = a.timed_wait(t); r = m.timed_wait(t); r = x.timed_lock(t);
    unique_lock< timed_mutex > u(x, t), u2; r = u.timed_lock(t); (void)r;
    unique_lock< boost::sync::mutex > l(any< boost::sync::mutex >());
    r = cv.timed_wait(l, t); r = cv.timed_wait(l, t, vf::pred());
#if !defined(VF_NO_TIMEDLOCK)
    r = cv.timed_wait(u, t); r = cv.timed_wait(u, t, vf::pred());
#endif
    r = ca.timed_wait(l, t); r = ca.timed_wait(l, t, vf::pred()); r = ca.timed_wait(u, t); r = ca.timed_wait(x, t, vf::pred());
    unique_lock< spin_mutex > sl(any< spin_mutex >()); r = ca.timed_wait(sl, t); r = ca.timed_wait(sl, t, vf::pred());
    vf::lockable lk; r = ca.timed_wait(lk, t); r = ca.timed_wait(lk, t, vf::pred());
    vf::full_mutex& f = any< vf::full_mutex >();
    unique_lock< vf::full_mutex > fu(f, t); shared_lock< vf::full_mutex > fs(f, t); upgrade_lock< vf::full_mutex > fg(f, t);
    r = fu.timed_lock(t); r = fs.timed_lock(t); r = fg.timed_lock(t);
    unique_lock< vf::full_mutex > u3(move(fs), t); upgrade_lock< vf::full_mutex > g3(move(fs), t);
}
template< class T > void timed_for(T const& t, semaphore& s, auto_reset_event& a, manual_reset_event& m, timed_mutex& x, condition_variable& cv, condition_variable_any& ca)
{
    bool r = s.wait_for(t); r = a.wait_for(t); r = m.wait_for(t); r = x.try_lock_for(t);
    unique_lock< timed_mutex > u(x); r = u.try_lock_for(t);
    unique_lock< boost::sync::mutex > l(any< boost::sync::mutex >());
    boost::sync::cv_status st = cv.wait_for(l, t); r = cv.wait_for(l, t, vf::pred());
#if !defined(VF_NO_TIMEDLOCK)
    st = cv.wait_for(u, t); r = cv.wait_for(u, t, vf::pred());
#endif
    st = ca.wait_for(l, t); r = ca.wait_for(l, t, vf::pred()); st = ca.wait_for(x, t); r = ca.wait_for(u, t, vf::pred());
    unique_lock< spin_mutex > sl(any< spin_mutex >()); st = ca.wait_for(sl, t); r = ca.wait_for(sl, t, vf::pred());
    r = st == boost::sync::cv_status::no_timeout || st == boost::sync::cv_status::timeout;
    vf::full_mutex& f = any< vf::full_mutex >();
    unique_lock< vf::full_mutex > fu(f); shared_lock< vf::full_mutex > fs(f); upgrade_lock< vf::full_mutex > fg(f);
    r = fu.try_lock_for(t); r = fs.try_lock_for(t); r = fg.try_lock_for(t);
}
template< class T > void timed_until(T const& t, semaphore& s, auto_reset_event& a, manual_reset_event& m, timed_mutex& x, condition_variable& cv, condition_variable_any& ca)
{
    bool r = s.wait_until(t); r = a.wait_until(t); r = m.wait_until(t); r = x.try_lock_until(t);
    unique_lock< timed_mutex > u(x); r = u.try_lock_until(t);
    unique_lock< boost::sync::mutex > l(any< boost::sync::mutex >());
    boost::sync::cv_status st = cv.wait_until(l, t); r = cv.wait_until(l, t, vf::pred());
#if !defined(VF_NO_TIMEDLOCK)
    st = cv.wait_until(u, t); r = cv.wait_until(u, t, vf::pred());
#endif
    st = ca.wait_until(l, t); r = ca.wait_until(l, t, vf::pred()); st = ca.wait_until(x, t); r = ca.wait_until(u, t, vf::pred());
    unique_lock< spin_mutex > sl(any< spin_mutex >()); st = ca.wait_until(sl, t); r = ca.wait_until(sl, t, vf::pred());
    (void)st;
    vf::full_mutex& f = any< vf::full_mutex >();
    unique_lock< vf::full_mutex > fu(f); shared_lock< vf::full_mutex > fs(f); upgrade_lock< vf::full_mutex > fg(f);
    r = fu.try_lock_until(t); r = fs.try_lock_until(t); r = fg.try_lock_until(t);
}
#define ARGS any< semaphore >(), any< auto_reset_event >(), any< manual_reset_event >(), any< timed_mutex >(), any< condition_variable >(), any< condition_variable_any >()
template< class T > void duration() { T const& t = any< T >(); timed_semaphore(t, ARGS); timed_for(t, ARGS); }
template< class T > void point() { T const& t = any< T >(); timed_semaphore(t, ARGS); timed_until(t, ARGS); }
struct user_clock
{
    typedef boost::chrono::nanoseconds duration; typedef duration::rep rep; typedef duration::period period;
    typedef boost::chrono::time_point< user_clock > time_point; static const bool is_steady = false; static time_point now();
};
void times()
{
    duration< boost::chrono::nanoseconds >(); duration< boost::chrono::microseconds >(); duration< boost::chrono::milliseconds >();
    duration< boost::chrono::seconds >(); duration< boost::chrono::minutes >(); duration< boost::chrono::hours >();
    duration< boost::chrono::duration< int, boost::milli > >(); duration< boost::chrono::duration< double > >();
    duration< boost::chrono::duration< long, boost::pico > >();
    duration< boost::posix_time::time_duration >(); duration< boost::posix_time::milliseconds >(); duration< boost::posix_time::microseconds >();
    duration< boost::posix_time::seconds >(); duration< boost::posix_time::hours >();
    point< boost::posix_time::ptime >(); point< struct ::timespec >();
    point< boost::chrono::system_clock::time_point >(); point< boost::chrono::steady_clock::time_point >();
    point< boost::chrono::time_point< boost::chrono::system_clock, boost::chrono::seconds > >();
    point< boost::chrono::time_point< boost::chrono::system_clock, boost::chrono::milliseconds > >();
    point< boost::chrono::time_point< boost::chrono::steady_clock, boost::chrono::milliseconds > >();
    point< boost::chrono::time_point< boost::chrono::steady_clock, boost::chrono::hours > >();
    point< boost::chrono::time_point< user_clock > >();
#if __cplusplus >= 201103L
    duration< std::chrono::nanoseconds >(); duration< std::chrono::microseconds >(); duration< std::chrono::milliseconds >();
    duration< std::chrono::seconds >(); duration< std::chrono::minutes >(); duration< std::chrono::hours >();
    duration< std::chrono::duration< int, std::milli > >(); duration< std::chrono::duration< double > >();
    duration< std::chrono::duration< long, std::pico > >();
    point< std::chrono::system_clock::time_point >(); point< std::chrono::steady_clock::time_point >();
    point< std::chrono::time_point< std::chrono::system_clock, std::chrono::nanoseconds > >();
    point< std::chrono::time_point< std::chrono::system_clock, std::chrono::seconds > >();
    point< std::chrono::time_point< std::chrono::steady_clock, std::chrono::milliseconds > >();
    point< std::chrono::time_point< std::chrono::steady_clock, std::chrono::hours > >();
#endif
}
void untimed()
{
    condition_variable cv;
    unique_lock< boost::sync::mutex > l(any< boost::sync::mutex >());
    cv.wait(l); cv.wait(l, vf::pred());
#if !defined(VF_NO_TIMEDLOCK)
    unique_lock< timed_mutex > u(any< timed_mutex >());
    cv.wait(u); cv.wait(u, vf::pred());
#endif
    semaphore s, s1(5); s.post(); s.wait(); bool r = s.try_wait();
    auto_reset_event a; a.post(); a.wait(); r = a.try_wait();
    manual_reset_event m; m.set(); m.reset(); m.wait(); r = m.try_wait(); (void)r;
}
struct incomplete;
void tss()
{
    thread_specific_ptr< int > p, q(static_cast< void (*)(int*) >(0));
    thread_specific_ptr< std::string > s;
    int* v = p.get(); v = p.operator->(); int& ref = *p; (void)ref; v = p.release(); p.reset(); p.reset(v); bool r = !p; if (p) r = true; (void)r;
    s->size(); (*s).size(); v = get_pointer(q);
    thread_specific_ptr< int > const& c = p; v = c.get(); r = !c; if (c) r = false;
    typedef thread_specific_ptr< int >::element_type e; BOOST_STATIC_ASSERT((boost::is_same< e, int >::value));
}
template< class E > void exc()
{
    E a, b(1), c(2, "x"), d(3, std::string("y")), e(a);
    int n = a.native_error(); n = a.code().value(); char const* w = a.what(); (void)n; (void)w;
    runtime_exception& base = a; (void)base; std::exception& se = a; (void)se;
    throw a;
}
void exceptions() { exc< lock_error >(); exc< wait_error >(); exc< resource_error >(); exc< overflow_error >(); exc< runtime_exception >(); }
#if defined(VF_TSS)
#include "tss_pthread.cpp"
#endif
