// Simulated allocator front: operator new/delete and (by --wrap) the malloc
// family of the code under test.  Allocations made inside a MemOn scope are
// counted, tracked, filled with a chosen byte and can be made to fail.
#include "sim.hpp"
#include "sim_int.hpp"
#include <new>
#include <atomic>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <errno.h>
#include <malloc.h>
#include <dlfcn.h>

extern "C" {
void* __real_malloc(size_t) __attribute__((weak));
void* __real_calloc(size_t, size_t) __attribute__((weak));
void* __real_realloc(void*, size_t) __attribute__((weak));
void  __real_free(void*) __attribute__((weak));
int   __real_posix_memalign(void**, size_t, size_t) __attribute__((weak));
}
namespace sim {
thread_local int t_mem = 0;
static thread_local long t_fail_in = 0;
static long n_alloc = 0, n_fail = 0, n_live = 0; static size_t n_bytes = 0;
static long fail_at = -1; static bool fail_sticky = false; static double fail_rate = 0;
static int fill = -1;
struct Blk { void* p; size_t n; long seq; };
static const size_t MAXB = 1u << 17;
static Blk B[MAXB];
static size_t slot(const void* p) { return ((uint64_t)p >> 4) * 0x9E3779B97F4A7C15ull >> (64 - 17); }
static bool used = false;
static void put(void* p, size_t n) {
  used = true;
  size_t i = slot(p);
  for (size_t k = 0; k < MAXB; k++, i = (i + 1) % MAXB) if (!B[i].p || B[i].p == (void*)1) { B[i].p = p; B[i].n = n; B[i].seq = n_alloc; n_live++; n_bytes += n; return; }
}
static void drop(void* p) {
  if (!n_live) return;
  size_t i = slot(p);
  for (size_t k = 0; k < MAXB && B[i].p; k++, i = (i + 1) % MAXB) if (B[i].p == p) { B[i].p = (void*)1; n_live--; n_bytes -= B[i].n; return; }
}
static bool track(size_t n) {   // true: refuse
  (void)n;
  n_alloc++;
  bool f = false;
  if (fail_at >= 0 && (n_alloc == fail_at || (fail_sticky && n_alloc > fail_at))) f = true;
  if (t_fail_in > 0 && --t_fail_in == 0) f = true;
  if (!f && fail_rate > 0 && chance(fail_rate, "alloc-fails")) f = true;
  if (f) { n_fail++; count("fault.alloc_failed"); event("allocation %ld of %zu bytes fails", n_alloc, n); }
  return f;
}
void mem_begin() { n_alloc = n_fail = 0; fail_at = -1; fail_rate = 0; if (used) memset(B, 0, sizeof B); used = false; n_live = 0; n_bytes = 0; }
void mem_fail_at(long k, bool sticky) { fail_at = k < 0 ? -1 : n_alloc + k; fail_sticky = sticky; if (k < 0) fail_rate = 0; }
void mem_fail_here(long k) { t_fail_in = k; }
void mem_fail_rate(double p) { fail_rate = p; }
void mem_fill(int byte) { fill = byte; }
long mem_allocs() { return n_alloc; }
long mem_failures() { return n_fail; }
long mem_live() { return n_live; }
size_t mem_live_bytes() { return n_bytes; }
void mem_reset_counter() { n_alloc = 0; n_fail = 0; }
MemOn::MemOn() { old = t_mem; t_mem = 1; }
MemOn::~MemOn() { t_mem = old; }
MemOff::MemOff() { old = t_mem; t_mem = 0; }
MemOff::~MemOff() { t_mem = old; }

static inline void* raw(size_t n, size_t al) {
  void* p;
  if (al > 16) { if (__real_posix_memalign) { if (__real_posix_memalign(&p, al, n)) p = nullptr; } else if (posix_memalign(&p, al, n)) p = nullptr; }
  else p = __real_malloc ? __real_malloc(n) : malloc(n);
  return p;
}
// The simulated machine's memory is finite: a run that wants more is reported,
// not left to exhaust the real one.
static const size_t MAX_ONE = size_t(512) << 20, MAX_ALL = size_t(1536) << 20;
static std::atomic<long long> held{0};
static void* alloc(size_t n, size_t al) {
  bool t = t_mem > 0;
  if (n > MAX_ONE || held.load(std::memory_order_relaxed) > (long long)MAX_ALL) {
    if (n > (size_t(1) << 46)) return nullptr;      // a nonsense size: refused as the real allocator does
    static thread_local bool in = false; if (in) return nullptr; in = true;
    violate("memory-exhausted", "an allocation of %zu bytes with %lld bytes held", n, held.load());
  }
  if (t && track(n)) return nullptr;
  void* p = raw(n ? n : 1, al);
  if (!p) return p;
  held.fetch_add((long long)malloc_usable_size(p), std::memory_order_relaxed);
  if (t) put(p, n);
  if (race_clear_range) race_clear_range(p, malloc_usable_size(p));   // (before the fill: a library may have freed this block out of our sight)
  if (fill >= 0) memset(p, fill, n);
  return p;
}
static void release(void* p) {
  if (!p) return;
  drop(p);
  held.fetch_sub((long long)malloc_usable_size(p), std::memory_order_relaxed);
  if (race_free_range) race_free_range(p, malloc_usable_size(p));
  if (__real_free) __real_free(p); else free(p);
}
}
using namespace sim;
extern "C" {
void* __wrap_malloc(size_t n) { void* p = alloc(n, 0); if (!p) errno = ENOMEM; return p; }
void* __wrap_calloc(size_t a, size_t b) { if (b && a > SIZE_MAX / b) return nullptr; void* p = alloc(a * b, 0); if (p) memset(p, 0, a * b); else errno = ENOMEM; return p; }
void* __wrap_realloc(void* o, size_t n) {
  if (!o) return __wrap_malloc(n);
  if (!n) { release(o); return nullptr; }
  void* p = alloc(n, 0); if (!p) { errno = ENOMEM; return nullptr; }
  size_t m = malloc_usable_size(o); memcpy(p, o, m < n ? m : n); release(o); return p;
}
void __wrap_free(void* p) { release(p); }
int __wrap_posix_memalign(void** out, size_t al, size_t n) { void* p = alloc(n, al); if (!p) return ENOMEM; *out = p; return 0; }
void* __wrap_aligned_alloc(size_t al, size_t n) { return alloc(n, al); }
}
static void* nnew(size_t n, size_t al) { void* p = alloc(n, al); if (!p) throw std::bad_alloc(); return p; }
void* operator new(size_t n) { return nnew(n, 0); }
void* operator new[](size_t n) { return nnew(n, 0); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return alloc(n, 0); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return alloc(n, 0); }
void* operator new(size_t n, std::align_val_t a) { return nnew(n, (size_t)a); }
void* operator new[](size_t n, std::align_val_t a) { return nnew(n, (size_t)a); }
void operator delete(void* p) noexcept { release(p); }
void operator delete[](void* p) noexcept { release(p); }
void operator delete(void* p, size_t) noexcept { release(p); }
void operator delete[](void* p, size_t) noexcept { release(p); }
void operator delete(void* p, std::align_val_t) noexcept { release(p); }
void operator delete[](void* p, std::align_val_t) noexcept { release(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { release(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { release(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { release(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { release(p); }
