// Client side of thread-specific storage: thread_specific_ptr, at_thread_exit, notify_all_at_thread_exit.
// Analysed, never linked or run.
#include <new>
#include <boost/move/core.hpp>
#include <boost/move/utility_core.hpp>
#include <boost/sync/thread_specific/thread_specific_ptr.hpp>
#include <boost/sync/thread_specific/at_thread_exit.hpp>
#include <boost/sync/condition_variables/notify_all_at_thread_exit.hpp>
using namespace boost::sync;
namespace vf {
struct val { ~val(); int x; };
struct fun { fun(fun const&); ~fun(); void operator()(); int x; };
}
typedef thread_specific_ptr<vf::val> tsp;
extern "C" {
void vf_lockstate(int owns, void* mtx);
void tp_ctor(void* p) { new (p) tsp(); }
void tp_ctorf(void* p, void (*f)(vf::val*)) { new (p) tsp(f); }
void tp_dtor(tsp* p) { p->~tsp(); }
void* tp_get(tsp* p) { return p->get(); }
void* tp_gp(tsp* p) { return get_pointer(*p); }
void* tp_arrow(tsp* p) { return p->operator->(); }
void* tp_star(tsp* p) { return &**p; }
int tp_not(tsp* p) { return !*p; }
int tp_bool(tsp* p) { return *p ? 1 : 0; }
void* tp_release(tsp* p) { return p->release(); }
void tp_reset(tsp* p, vf::val* v) { p->reset(v); }
void tp_reset0(tsp* p) { p->reset(); }
void ae_reg(vf::fun const* f) { at_thread_exit(*f); }
void na_reg(condition_variable* c, mutex* m)
{
    unique_lock<mutex> l(*m);
    notify_all_at_thread_exit(*c, boost::move(l));
    vf_lockstate(l.owns_lock(), l.mutex());
}
}
