// Counting allocator: the n-th request made by library code inside a library call can be refused.
#include "sim.h"
#include <cerrno>
#include <new>
extern "C" {
void *__real_malloc(size_t);
void *__real_calloc(size_t, size_t);
void *__real_realloc(void *, size_t);
void *__real__Znwm(size_t);
void *__real__Znam(size_t);
void *__real__ZnwmRKSt9nothrow_t(size_t, const std::nothrow_t &);
void *__real__ZnamRKSt9nothrow_t(size_t, const std::nothrow_t &);
void *__real__ZnwmSt11align_val_t(size_t, std::align_val_t);
void *__real__ZnamSt11align_val_t(size_t, std::align_val_t);
static inline bool refuse() {
  if (!ENV.al_on) return false;
  if (ENV.al_n++ != ENV.al_at) return false;
  ++ENV.al_fired;
  return true;
}
void *__wrap_malloc(size_t n) { if (refuse()) { errno = ENOMEM; return nullptr; } return __real_malloc(n); }
void *__wrap_calloc(size_t a, size_t b) { if (refuse()) { errno = ENOMEM; return nullptr; } return __real_calloc(a, b); }
void *__wrap_realloc(void *p, size_t n) { if (refuse()) { errno = ENOMEM; return nullptr; } return __real_realloc(p, n); }
void *__wrap__Znwm(size_t n) { if (refuse()) throw std::bad_alloc(); return __real__Znwm(n); }
void *__wrap__Znam(size_t n) { if (refuse()) throw std::bad_alloc(); return __real__Znam(n); }
void *__wrap__ZnwmRKSt9nothrow_t(size_t n, const std::nothrow_t &t) { if (refuse()) return nullptr; return __real__ZnwmRKSt9nothrow_t(n, t); }
void *__wrap__ZnamRKSt9nothrow_t(size_t n, const std::nothrow_t &t) { if (refuse()) return nullptr; return __real__ZnamRKSt9nothrow_t(n, t); }
void *__wrap__ZnwmSt11align_val_t(size_t n, std::align_val_t a) { if (refuse()) throw std::bad_alloc(); return __real__ZnwmSt11align_val_t(n, a); }
void *__wrap__ZnamSt11align_val_t(size_t n, std::align_val_t a) { if (refuse()) throw std::bad_alloc(); return __real__ZnamSt11align_val_t(n, a); }
}
