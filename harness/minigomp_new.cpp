// operator new and delete of the programs that run on minigomp.cpp (which itself uses malloc).
#include <cstddef>
#include <new>

extern "C" void* __wrap_malloc(size_t);
extern "C" void __wrap_free(void*);
void* operator new(size_t n) { void* p = __wrap_malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { __wrap_free(p); }
void operator delete[](void* p) noexcept { __wrap_free(p); }
void operator delete(void* p, size_t) noexcept { __wrap_free(p); }
void operator delete[](void* p, size_t) noexcept { __wrap_free(p); }
