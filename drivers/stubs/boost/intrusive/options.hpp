#ifndef VF_STUB_INTRUSIVE_OPTIONS
#define VF_STUB_INTRUSIVE_OPTIONS
#include <cstddef>
namespace boost { namespace intrusive {
enum link_mode_type { normal_link, safe_link, auto_unlink };
template< class T > struct tag {};
template< link_mode_type M > struct link_mode {};
template< bool B > struct constant_time_size {};
template< class H > struct base_hook { typedef H hook; };
template< class S > struct size_type {};
struct none {};
} }
#endif
