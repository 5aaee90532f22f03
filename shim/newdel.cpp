// The generated parser allocates heavily; its memory comes from libc directly,
// so that the sanitizer's allocator serves (and checks) the C code only.
#include <cstdlib>
#include <new>
extern "C" void* __libc_malloc(size_t);
extern "C" void __libc_free(void*);
void* operator new(size_t n) { void* p = __libc_malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { __libc_free(p); }
void operator delete[](void* p) noexcept { __libc_free(p); }
void operator delete(void* p, size_t) noexcept { __libc_free(p); }
void operator delete[](void* p, size_t) noexcept { __libc_free(p); }
