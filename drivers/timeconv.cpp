// Entry points: conversions of every supported time type to the library's internal units and the arithmetic on them.
#include <time.h>
#include <chrono>
#include <ratio>
#include <boost/chrono/chrono.hpp>
#include <boost/date_time/posix_time/posix_time_types.hpp>
#include <boost/sync/support/std_chrono.hpp>
#include <boost/sync/support/boost_chrono.hpp>
#include <boost/sync/support/boost_date_time.hpp>
#include <boost/sync/support/posix_time.hpp>
#include "vf.hpp"
using namespace boost::sync::detail;
namespace sc = std::chrono;
namespace bc = boost::chrono;
template <class T> static inline long dur(T const& t) { return time_traits<T>::to_sync_unit(t).get(); }
template <class T> static inline void tp(struct ::timespec* o, T const& t) { *o = time_traits<T>::to_sync_unit(t).get(); }
static inline long NSC(sc::nanoseconds d) { return d.count(); }
static inline long NSC(bc::nanoseconds d) { return d.count(); }
template <class T> static inline long ctp(T const& t) { return NSC(time_traits<T>::to_sync_unit(t).get().time_since_epoch()); }
#define D(N, T) \
extern "C" long d_std_##N(long n) { return dur(sc::T(n)); } \
extern "C" long d_bst_##N(long n) { return dur(bc::T(n)); }
D(ns, nanoseconds) D(us, microseconds) D(ms, milliseconds) D(s, seconds) D(min, minutes) D(h, hours)
extern "C" long d_std_i32ms(int n) { return dur(sc::duration<int, std::milli>(n)); }
extern "C" long d_bst_i32ms(int n) { return dur(bc::duration<int, boost::milli>(n)); }
extern "C" long d_std_i16s(short n) { return dur(sc::duration<short>(n)); }
extern "C" long d_std_ps(long n) { return dur(sc::duration<long, std::pico>(n)); }
extern "C" long d_bst_ps(long n) { return dur(bc::duration<long, boost::pico>(n)); }
extern "C" long d_dt_us(long n) { return dur(boost::posix_time::time_duration(boost::posix_time::microseconds(n))); }
extern "C" long d_dt_ms(long n) { return dur(boost::posix_time::time_duration(boost::posix_time::milliseconds(n))); }
extern "C" long d_dt_min(int n) { return dur(boost::posix_time::time_duration(boost::posix_time::minutes(n))); }
extern "C" long d_dt_h(int n) { return dur(boost::posix_time::time_duration(boost::posix_time::hours(n))); }
extern "C" long d_dt_tick(long n) { return dur(boost::posix_time::time_duration(0, 0, 0, n)); }
extern "C" long d_dt_s(long n) { return dur(boost::posix_time::time_duration(boost::posix_time::seconds(n))); }
#define P(N, T) \
extern "C" void t_std_##N(struct ::timespec* o, long n) { tp(o, sc::time_point<sc::system_clock, sc::T>(sc::T(n))); } \
extern "C" void t_bst_##N(struct ::timespec* o, long n) { tp(o, bc::time_point<bc::system_clock, bc::T>(bc::T(n))); }
P(ns, nanoseconds) P(us, microseconds) P(ms, milliseconds) P(s, seconds) P(h, hours)
extern "C" void t_dt_us(struct ::timespec* o, long n) { tp(o, boost::posix_time::ptime(boost::gregorian::date(1970, 1, 1)) + boost::posix_time::microseconds(n)); }
extern "C" void t_ts(struct ::timespec* o, long s, long n) { struct ::timespec t; t.tv_sec = s; t.tv_nsec = n; tp(o, t); }
extern "C" long c_std_ns(long n) { return ctp(sc::time_point<sc::steady_clock, sc::nanoseconds>(sc::nanoseconds(n))); }
extern "C" long c_std_s(long n) { return ctp(sc::time_point<sc::steady_clock, sc::seconds>(sc::seconds(n))); }
extern "C" long c_bst_ns(long n) { return ctp(bc::time_point<bc::steady_clock, bc::nanoseconds>(bc::nanoseconds(n))); }
// arithmetic
extern "C" void a_ctor(struct ::timespec* o, long n) { *o = system_time_point(system_duration(n)).get(); }
extern "C" void a_ctor2(struct ::timespec* o, long s, unsigned n) { *o = system_time_point(s, n).get(); }
extern "C" void a_add(struct ::timespec* o, long s, unsigned n, long d) { *o = (system_time_point(s, n) + system_duration(d)).get(); }
extern "C" void a_sub(struct ::timespec* o, long s, unsigned n, long d) { *o = (system_time_point(s, n) - system_duration(d)).get(); }
extern "C" void a_addeq(struct ::timespec* o, long s, unsigned n, long d) { system_time_point t(s, n); t += system_duration(d); *o = t.get(); }
extern "C" void a_subeq(struct ::timespec* o, long s, unsigned n, long d) { system_time_point t(s, n); t -= system_duration(d); *o = t.get(); }
extern "C" long a_diff(long s, unsigned n, long s2, unsigned n2) { return (system_time_point(s, n) - system_time_point(s2, n2)).get(); }
extern "C" long a_dadd(long a, long b) { return (system_duration(a) + system_duration(b)).get(); }
extern "C" long a_dsub(long a, long b) { return (system_duration(a) - system_duration(b)).get(); }
extern "C" long a_dneg(long a) { return (-system_duration(a)).get(); }
extern "C" long a_daddeq(long a, long b) { system_duration d(a); d += system_duration(b); return d.get(); }
extern "C" long a_dsubeq(long a, long b) { system_duration d(a); d -= system_duration(b); return d.get(); }
extern "C" void a_now(struct ::timespec* o) { *o = system_time_point::now().get(); }
typedef sc::time_point<sc::steady_clock, sc::nanoseconds> stp;
typedef chrono_time_point<stp> ctp_t;
extern "C" long a_cadd(long n, long d) { return (ctp_t(stp(sc::nanoseconds(n))) + sc::nanoseconds(d)).get().time_since_epoch().count(); }
extern "C" long a_csub(long n, long d) { return (ctp_t(stp(sc::nanoseconds(n))) - sc::nanoseconds(d)).get().time_since_epoch().count(); }
extern "C" long a_cdiff(long n, long d) { return (ctp_t(stp(sc::nanoseconds(n))) - ctp_t(stp(sc::nanoseconds(d)))).count(); }
