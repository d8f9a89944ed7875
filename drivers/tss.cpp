// The library's thread-specific storage sources, with abstract containers.  Analysed, never linked or run.
#include "tss_pthread.cpp"
using namespace boost::sync;
extern "C" {
void* tss_get(unsigned k) { return boost::sync::detail::get_thread_specific(k); }
void tss_set(unsigned k, void* v) { boost::sync::detail::set_thread_specific(k, v); }
unsigned tss_new(boost::sync::detail::at_thread_exit_callback f, bool d) { return boost::sync::detail::new_thread_specific_key(f, d); }
void tss_delete(unsigned k) { boost::sync::detail::delete_thread_specific_key(k); }
void tss_callback(boost::sync::detail::at_thread_exit_callback f, void* c) { boost::sync::detail::add_thread_exit_callback(f, c); }
void tss_notify(boost::sync::mutex* m, boost::sync::condition_variable* c) { boost::sync::detail::add_thread_exit_notify_entry(*m, *c); }
}
