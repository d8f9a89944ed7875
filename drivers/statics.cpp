// Objects with static storage duration; each has to be constant-initialized.  Compiled, never linked or run.
#include "native.cpp"
#if defined(__cpp_constinit)
#define VF_CI constinit
#else
#define VF_CI __attribute__((require_constant_initialization))
#endif
VF_CI boost::sync::mutex g_mx;
VF_CI boost::sync::timed_mutex g_tm;
VF_CI boost::sync::condition_variable g_cv;
VF_CI boost::sync::condition_variable_any g_cva;
// as a member, in an array, in a template, local to a function and per thread
struct vf_holder { boost::sync::mutex m; boost::sync::timed_mutex t; boost::sync::condition_variable c; boost::sync::condition_variable_any a; constexpr vf_holder() {} };
VF_CI vf_holder g_holder;
VF_CI boost::sync::mutex g_array[3];
struct vf_cls { static boost::sync::mutex m; };
VF_CI boost::sync::mutex vf_cls::m;
extern "C" void* vf_local() { VF_CI static boost::sync::mutex m; VF_CI static boost::sync::condition_variable_any c; return sizeof(c) ? &m : 0; }
// what the platform's static initializers look like
pthread_mutex_t ref_mutex = PTHREAD_MUTEX_INITIALIZER;
pthread_cond_t ref_cond = PTHREAD_COND_INITIALIZER;
extern "C" void* vf_keep(int i) { return i ? (void*)&ref_mutex : (void*)&ref_cond; }
