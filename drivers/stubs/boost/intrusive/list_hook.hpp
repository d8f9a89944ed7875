#ifndef VF_STUB_INTRUSIVE_LIST_HOOK
#define VF_STUB_INTRUSIVE_LIST_HOOK
#include <boost/intrusive/options.hpp>
#include <vfc.hpp>
namespace boost { namespace intrusive {
template< class A = none, class B = none, class C = none >
class list_base_hook
{
    void* m_node[2];
public:
    list_base_hook() {}
    list_base_hook(list_base_hook const&) {}
    list_base_hook& operator=(list_base_hook const&) { return *this; }
    bool is_linked() const { return vf_list_linked(this) != 0; }
};
} }
#endif
