#ifndef VF_STUB_INTRUSIVE_LIST
#define VF_STUB_INTRUSIVE_LIST
#include <iterator>
#include <boost/intrusive/options.hpp>
#include <boost/intrusive/list_hook.hpp>
namespace boost { namespace intrusive {
template< class T, class H >
class vf_list_iterator
{
    void const* m_list; void* m_node;
public:
    typedef std::bidirectional_iterator_tag iterator_category; typedef T value_type; typedef std::ptrdiff_t difference_type; typedef T* pointer; typedef T& reference;
    vf_list_iterator() : m_list(0), m_node(0) {}
    vf_list_iterator(void const* l, void* n) : m_list(l), m_node(n) {}
    template< class U > vf_list_iterator(vf_list_iterator< U, H > const& o) : m_list(o.list()), m_node(o.node()) {}
    void const* list() const { return m_list; }
    void* node() const { return m_node; }
    T& operator*() const { return *static_cast< T* >(static_cast< H* >(m_node)); }
    T* operator->() const { return static_cast< T* >(static_cast< H* >(m_node)); }
    vf_list_iterator& operator++() { m_node = vf_list_next(m_list, m_node); return *this; }
    vf_list_iterator operator++(int) { vf_list_iterator r(*this); ++*this; return r; }
    vf_list_iterator& operator--() { m_node = vf_list_prev(m_list, m_node); return *this; }
    vf_list_iterator operator--(int) { vf_list_iterator r(*this); --*this; return r; }
    template< class U > bool operator==(vf_list_iterator< U, H > const& o) const { return m_node == o.node(); }
    template< class U > bool operator!=(vf_list_iterator< U, H > const& o) const { return m_node != o.node(); }
};
template< class T, class O1, class O2 = none, class O3 = none >
class list
{
    void* m_root[2];
    typedef typename O1::hook H;
    static void* node(T& x) { return static_cast< H* >(&x); }
    static T& value(void* n) { return *static_cast< T* >(static_cast< H* >(n)); }
public:
    typedef T value_type; typedef T& reference; typedef T const& const_reference; typedef T* pointer; typedef std::size_t size_type;
    typedef vf_list_iterator< T, H > iterator; typedef vf_list_iterator< T const, H > const_iterator;
    typedef std::reverse_iterator< iterator > reverse_iterator; typedef std::reverse_iterator< const_iterator > const_reverse_iterator;
    list() { vf_list_ctor(this); }
    ~list() { vf_list_dtor(this); }
    bool empty() const { return vf_list_first(this) == 0; }
    iterator begin() { return iterator(this, vf_list_first(this)); }
    iterator end() { return iterator(this, 0); }
    const_iterator begin() const { return const_iterator(this, vf_list_first(this)); }
    const_iterator end() const { return const_iterator(this, 0); }
    const_iterator cbegin() const { return begin(); }
    const_iterator cend() const { return end(); }
    reverse_iterator rbegin() { return reverse_iterator(end()); }
    reverse_iterator rend() { return reverse_iterator(begin()); }
    T& front() { return value(vf_list_first(this)); }
    T& back() { return value(vf_list_last(this)); }
    void push_back(T& x) { vf_list_add(this, node(x), 0); }
    void push_front(T& x) { vf_list_add(this, node(x), 1); }
    iterator insert(const_iterator, T& x) { vf_list_add(this, node(x), 0); return iterator_to(x); }
    iterator iterator_to(T& x) { return iterator(this, node(x)); }
    const_iterator iterator_to(T const& x) const { return const_iterator(this, node(const_cast< T& >(x))); }
    static iterator s_iterator_to(T& x) { return iterator(0, node(x)); }
    iterator erase(const_iterator p) { void* n = vf_list_next(this, p.node()); vf_list_remove(this, p.node()); return iterator(this, n); }
    iterator erase(const_iterator f, const_iterator l) { void* n = f.node(); while (n != l.node()) { void* x = vf_list_next(this, n); vf_list_remove(this, n); n = x; } return iterator(this, n); }
    void remove_node(T& x) { vf_list_remove(this, node(x)); }
    size_type size() const { size_type r = 0; for (void* n = vf_list_first(this); n; n = vf_list_next(this, n)) ++r; return r; }
    void clear() { while (void* n = vf_list_first(this)) vf_list_remove(this, n); }
    template< class D > void clear_and_dispose(D d) { while (void* n = vf_list_first(this)) { vf_list_remove(this, n); d(&value(n)); } }
    template< class D > iterator erase_and_dispose(const_iterator p, D d) { void* n = vf_list_next(this, p.node()); vf_list_remove(this, p.node()); d(&value(p.node())); return iterator(this, n); }
    template< class D > void pop_front_and_dispose(D d) { void* n = vf_list_first(this); vf_list_remove(this, n); d(&value(n)); }
    template< class D > void pop_back_and_dispose(D d) { void* n = vf_list_last(this); vf_list_remove(this, n); d(&value(n)); }
    void pop_front() { vf_list_remove(this, vf_list_first(this)); }
    void pop_back() { vf_list_remove(this, vf_list_last(this)); }
};
} }
#endif
