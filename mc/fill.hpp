// Memory from operator new is filled with a chosen byte, and overwritten with another one when it is given back.
#pragma once
#include <cstdlib>
#include <cstring>
#include <new>
#include <malloc.h>
namespace fill_ { inline int on_new = -1, on_delete = -1; }
inline void *fill_alloc(size_t n, size_t al = 0)
{
  void *p = al > 16 ? aligned_alloc(al, (n + al - 1) / al * al) : malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  if (fill_::on_new >= 0) memset(p, fill_::on_new, n);
  return p;
}
inline void fill_free(void *p) { if (p && fill_::on_delete >= 0) memset(p, fill_::on_delete, malloc_usable_size(p)); free(p); }
__attribute__((weak)) void *operator new(size_t n) { return fill_alloc(n); }
__attribute__((weak)) void *operator new[](size_t n) { return fill_alloc(n); }
__attribute__((weak)) void *operator new(size_t n, std::align_val_t a) { return fill_alloc(n, (size_t)a); }
__attribute__((weak)) void *operator new[](size_t n, std::align_val_t a) { return fill_alloc(n, (size_t)a); }
__attribute__((weak)) void operator delete(void *p) noexcept { fill_free(p); }
__attribute__((weak)) void operator delete[](void *p) noexcept { fill_free(p); }
__attribute__((weak)) void operator delete(void *p, size_t) noexcept { fill_free(p); }
__attribute__((weak)) void operator delete[](void *p, size_t) noexcept { fill_free(p); }
__attribute__((weak)) void operator delete(void *p, std::align_val_t) noexcept { fill_free(p); }
__attribute__((weak)) void operator delete[](void *p, std::align_val_t) noexcept { fill_free(p); }
__attribute__((weak)) void operator delete(void *p, size_t, std::align_val_t) noexcept { fill_free(p); }
__attribute__((weak)) void operator delete[](void *p, size_t, std::align_val_t) noexcept { fill_free(p); }
