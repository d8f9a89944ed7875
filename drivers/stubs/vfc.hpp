// Abstract containers: the analysis gives the vf_vec_* and vf_list_* functions their meaning (a vector is a size and a table of
// elements, a list is a set of linked nodes in an unknown order).  They stand in for the standard and Boost containers, whose
// specified behaviour is taken for granted, when the library's own sources are analysed.  Nothing here is ever linked or run.
#ifndef VF_CONTAINERS_HPP
#define VF_CONTAINERS_HPP
#include <new>
#include <stddef.h>
extern "C" {
void vf_vec_ctor(void* v, unsigned long esz) throw();
void vf_vec_dtor(void* v, unsigned long esz) throw();
unsigned long vf_vec_size(void const* v) throw();
void* vf_vec_data(void const* v) throw();
void vf_vec_resize(void* v, unsigned long n);                                  // may throw std::bad_alloc when growing; new elements are unspecified
void vf_vec_fill(void* v, unsigned long from, unsigned long to, void const* x, unsigned long esz) throw();
void vf_vec_reserve(void* v, unsigned long n);                                 // may throw
void vf_vec_swap(void* a, void* b) throw();
void vf_vec_copy(void* d, void const* s);                                      // may throw
void vf_vec_erase(void* v, unsigned long i, unsigned long j) throw();
void vf_vec_insert(void* v, unsigned long i, unsigned long n);                 // may throw
void* vf_list_first(void const* l) throw();                                    // NULL: none
void* vf_list_last(void const* l) throw();
void* vf_list_next(void const* l, void const* n) throw();
void* vf_list_prev(void const* l, void const* n) throw();
void vf_list_ctor(void* l) throw();
void vf_list_dtor(void* l) throw();
void vf_list_add(void* l, void* n, int front) throw();
void vf_list_remove(void* l, void* n) throw();
int vf_list_linked(void const* n) throw();
}
#endif
