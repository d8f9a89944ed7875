// The exception types: what they were constructed with is what native_error() and code() return.  Nothing here is ever linked or run.
#include <string>
#include <boost/sync/exceptions.hpp>
using namespace boost::sync;
namespace sn = boost::sync::detail::system_ns;
#define EX(P, T, INIT) \
extern "C" int P##_native(int n, const char* w, std::string const& s) { (void)w; (void)s; T e INIT; return e.native_error(); } \
extern "C" int P##_code(int n, const char* w, std::string const& s) { (void)w; (void)s; T e INIT; return e.code().value(); } \
extern "C" int P##_cat(int n, const char* w, std::string const& s) { (void)w; (void)s; T e INIT; return &e.code().category() == &sn::system_category(); }
EX(rt, runtime_exception, (n)) EX(rtw, runtime_exception, (n, w)) EX(rts, runtime_exception, (n, s))
EX(lk, lock_error, (n)) EX(lkw, lock_error, (n, w)) EX(lks, lock_error, (n, s))
EX(wt, wait_error, (n)) EX(wtw, wait_error, (n, w)) EX(wts, wait_error, (n, s))
EX(rs, resource_error, (n)) EX(rsw, resource_error, (n, w)) EX(rss, resource_error, (n, s))
EX(ov, overflow_error, (n)) EX(ovw, overflow_error, (n, w)) EX(ovs, overflow_error, (n, s))
EX(rse, resource_error, (static_cast< boost::sync::detail::errc_t >(n)))
EX(rsew, resource_error, (static_cast< boost::sync::detail::errc_t >(n), w))
EX(lkew, lock_error, (static_cast< boost::sync::detail::errc_t >(n), w))
