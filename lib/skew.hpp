// Memory which is aligned no better than it has to be (16 bytes), so that
// anything which relies on more has to ask for it.
#ifndef SKEW_HPP
#define SKEW_HPP
#include <cstdlib>
#include <cstdint>
#include <new>
#if defined(__SANITIZE_ADDRESS__)
extern "C" { void __asan_poison_memory_region(void const volatile *, size_t); void __asan_unpoison_memory_region(void const volatile *, size_t); }
#define SKEW_P(a, n) __asan_poison_memory_region(a, n)
#define SKEW_U(a, n) __asan_unpoison_memory_region(a, n)
#else
#define SKEW_P(a, n)
#define SKEW_U(a, n)
#endif
__attribute__((noinline)) static void *skewed(size_t n) {
  if (n > SIZE_MAX - 64) return nullptr;
  size_t total = ((n + 7) & ~size_t(7)) + 40; char *b = (char *)malloc(total); if (!b) return nullptr;
  char *p = b + 16; if ((uintptr_t)p % 32 != 16) p = b + 32;
  ((char **)p)[-1] = b; ((size_t *)p)[-2] = total;
  SKEW_P(b, p - b); if (p + ((n + 7) & ~size_t(7)) < b + total) SKEW_P(p + ((n + 7) & ~size_t(7)), b + total - p - ((n + 7) & ~size_t(7)));
  return p;
}
__attribute__((noinline)) static void unskew(void *q) {
  if (!q) return; char *p = (char *)q; SKEW_U(p - 16, 16); char *b = ((char **)p)[-1]; size_t total = ((size_t *)p)[-2]; SKEW_U(b, total); free(b);
}
void *operator new(size_t n) { void *p = skewed(n); if (!p) throw std::bad_alloc(); return p; }
void *operator new[](size_t n) { return operator new(n); }
void *operator new(size_t n, std::nothrow_t const &) noexcept { return skewed(n); }
void *operator new[](size_t n, std::nothrow_t const &) noexcept { return skewed(n); }
void operator delete(void *p) noexcept { unskew(p); }
void operator delete[](void *p) noexcept { unskew(p); }
void operator delete(void *p, size_t) noexcept { unskew(p); }
void operator delete[](void *p, size_t) noexcept { unskew(p); }
void operator delete(void *p, std::nothrow_t const &) noexcept { unskew(p); }
void operator delete[](void *p, std::nothrow_t const &) noexcept { unskew(p); }
#endif
