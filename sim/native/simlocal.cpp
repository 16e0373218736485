// Linked into the simulated extension itself: its heap goes to simrt.
#include <cstddef>
#include <cstdlib>
#include <cstring>
#include <cerrno>
#include <cstdint>
#include <new>
extern "C" {
void *sim_alloc(size_t, int, int);
int sim_free(void *, int);
size_t sim_size(void *);
void sim_register_eh(void *(*)());
void *__real_malloc(size_t);
void __real_free(void *);
void *__real_realloc(void *, size_t);
void *__real_calloc(size_t, size_t);
}
namespace __cxxabiv1 { extern "C" struct __cxa_eh_globals *__cxa_get_globals() noexcept; }
__attribute__((constructor)) static void reg() { sim_register_eh((void *(*)()) &__cxxabiv1::__cxa_get_globals); }

void *operator new(size_t n) { void *p = sim_alloc(n, 0, 0); if (!p) throw std::bad_alloc(); return p; }
void *operator new[](size_t n) { void *p = sim_alloc(n, 1, 0); if (!p) throw std::bad_alloc(); return p; }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return sim_alloc(n, 0, 0); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return sim_alloc(n, 1, 0); }
static void fr(void *p, int k) { if (p && !sim_free(p, k)) __real_free(p); }
void operator delete(void *p) noexcept { fr(p, 0); }
void operator delete[](void *p) noexcept { fr(p, 1); }
void operator delete(void *p, size_t) noexcept { fr(p, 0); }
void operator delete[](void *p, size_t) noexcept { fr(p, 1); }
void operator delete(void *p, const std::nothrow_t &) noexcept { fr(p, 0); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { fr(p, 1); }
// over-aligned forms: plain real memory, not fenced
void *operator new(size_t n, std::align_val_t a) { void *p = aligned_alloc((size_t) a, (n + (size_t) a - 1) & ~((size_t) a - 1)); if (!p) throw std::bad_alloc(); return p; }
void *operator new[](size_t n, std::align_val_t a) { return operator new(n, a); }
void operator delete(void *p, std::align_val_t) noexcept { __real_free(p); }
void operator delete[](void *p, std::align_val_t) noexcept { __real_free(p); }
void operator delete(void *p, size_t, std::align_val_t) noexcept { __real_free(p); }
void operator delete[](void *p, size_t, std::align_val_t) noexcept { __real_free(p); }

// objects the interpreter allocates for arrays handed over
extern "C" {
int sim_alloc_refused(int);
void *PyErr_NoMemory(void);
void *__real_PyCapsule_New(void *, const char *, void (*)(void *));
void *__wrap_PyCapsule_New(void *p, const char *n, void (*d)(void *)) { return sim_alloc_refused(1) ? PyErr_NoMemory() : __real_PyCapsule_New(p, n, d); }
}

extern "C" {
void *__wrap_malloc(size_t n) { void *p = sim_alloc(n, 2, 0); if (!p) errno = ENOMEM; return p; }
void *__wrap_calloc(size_t a, size_t b) {
    if (a && b > (size_t) -1 / a) { errno = ENOMEM; return nullptr; }
    void *p = sim_alloc(a * b, 2, 1); if (!p) errno = ENOMEM; return p;
}
void __wrap_free(void *p) { if (p && !sim_free(p, 2)) __real_free(p); }
void *__wrap_realloc(void *p, size_t n) {
    if (!p) return __wrap_malloc(n);
    size_t o = sim_size(p);
    if (o == (size_t) -1) return __real_realloc(p, n);
    void *q = __wrap_malloc(n);
    if (!q) return nullptr;
    memcpy(q, p, o < n ? o : n);
    sim_free(p, 2);
    return q;
}

void sim_guard_range(const void *, size_t, int);
void sim_touch(const void *, int);
void *__real_memcpy(void *, const void *, size_t);
void *__real_memmove(void *, const void *, size_t);
void *__real_memset(void *, int, size_t);
void *__wrap_memcpy(void *d, const void *s, size_t n) { if (n) { sim_guard_range(d, n, 1); sim_guard_range(s, n, 0); sim_touch(s, 0); sim_touch(d, 1); } return __real_memcpy(d, s, n); }
void *__wrap_memmove(void *d, const void *s, size_t n) { if (n) { sim_guard_range(d, n, 1); sim_guard_range(s, n, 0); sim_touch(s, 0); sim_touch(d, 1); } return __real_memmove(d, s, n); }
void *__wrap_memset(void *d, int c, size_t n) { if (n) { sim_guard_range(d, n, 1); sim_touch(d, 1); } return __real_memset(d, c, n); }
}
