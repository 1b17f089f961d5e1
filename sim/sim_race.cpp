// Own run-time for gcc's -fsanitize=thread call-outs: a vector-clock race
// detector that works under the simulated scheduler, and a preemption point at
// every instrumented memory access.  libtsan is not linked.
#include "sim.hpp"
#include "sim_int.hpp"
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include <sys/mman.h>
#include <dlfcn.h>
#include <pthread.h>

namespace sim {
static const int NS = 8;             // detector slots, threads map to slots
static const int MAXT = 256;
static bool on = false; static long naccess = 0;
static int slot_of[MAXT]; static int slot_owner[NS]; static bool slot_done[NS];
static uint32_t VC[NS][NS];
struct Sync { const void* a; uint32_t v[NS]; };
static const int MAXS = 8192; static Sync Sy[MAXS];
struct Gran { uint32_t w[NS], r[NS]; uint8_t wm[NS], rm[NS]; uint8_t wp, rp, pad[6]; void* wpc; };
struct Page { uint64_t key; Gran* g; };
static const uint32_t MAXP = 1u << 16; static Page P[MAXP];
static char* arena = nullptr; static size_t arena_off = 0, arena_cap = 0;
static Page* lastp = nullptr;
static Gran* gran(uint64_t a, bool create) {
  uint64_t key = (a >> 12) + 1;
  if (lastp && lastp->key == key) return &lastp->g[(a >> 3) & 511];
  uint32_t h = (uint32_t)(key * 0x9E3779B97F4A7C15ull >> 48);
  for (uint32_t i = 0; i < MAXP; i++) {
    Page& p = P[(h + i) & (MAXP - 1)];
    if (p.key == key) { lastp = &p; return &p.g[(a >> 3) & 511]; }
    if (!p.key) {
      if (!create) return nullptr;
      size_t need = sizeof(Gran) * 512;
      if (arena_off + need > arena_cap) {
        arena_cap = 64u << 20; arena_off = 0;
        arena = (char*)mmap(nullptr, arena_cap, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
      }
      p.key = key; p.g = (Gran*)(arena + arena_off); arena_off += need; lastp = &p;
      return &p.g[(a >> 3) & 511];
    }
  }
  return nullptr;
}
static Sync* sy(const void* a) {
  uint64_t h = ((uint64_t)a >> 3) * 0x9E3779B97F4A7C15ull >> 51;
  for (int i = 0; i < MAXS; i++) { Sync& s = Sy[(h + i) % MAXS]; if (s.a == a) return &s; if (!s.a) { s.a = a; return &s; } }
  violate("harness-sync-table", "sync table full");
}
void race_begin() {
  memset(slot_of, -1, sizeof slot_of); memset(slot_done, 0, sizeof slot_done); memset(slot_owner, -1, sizeof slot_owner);
  memset(VC, 0, sizeof VC); slot_of[0] = 0; slot_owner[0] = 0; VC[0][0] = 1; on = true; naccess = 0;
}
void race_end() { on = false; }
long race_accesses() { return naccess; }
void race_thread_create(int p, int c) {
  if (!on) return;
  int s = -1;
  for (int i = 0; i < NS; i++) if (slot_owner[i] < 0) { s = i; break; }
  if (s < 0) for (int i = 0; i < NS; i++) if (slot_done[i]) { s = i; break; }
  if (s < 0) { on = false; count("harness.race_slots_exhausted"); return; }
  int ps = slot_of[p];
  uint32_t own = VC[s][s];
  slot_owner[s] = c; slot_done[s] = false; slot_of[c] = s;
  for (int i = 0; i < NS; i++) VC[s][i] = VC[ps][i];
  VC[s][s] = own + 1;
  VC[ps][ps]++;
}
void race_thread_finish(int t) { if (!on) return; int s = slot_of[t]; if (s >= 0) { VC[s][s]++; } }
void race_thread_join(int t, int j) {
  if (!on) return; int a = slot_of[t], b = slot_of[j]; if (a < 0 || b < 0) return;
  for (int i = 0; i < NS; i++) if (VC[b][i] > VC[a][i]) VC[a][i] = VC[b][i];
  slot_done[b] = true;
}
void race_acquire(int t, const void* a) { if (!on || t < 0) return; Sync* s = sy(a); int k = slot_of[t]; for (int i = 0; i < NS; i++) if (s->v[i] > VC[k][i]) VC[k][i] = s->v[i]; }
void race_release(int t, const void* a) { if (!on || t < 0) return; Sync* s = sy(a); int k = slot_of[t]; for (int i = 0; i < NS; i++) if (VC[k][i] > s->v[i]) s->v[i] = VC[k][i]; VC[k][k]++; }
void race_clear_range(const void* p, size_t n) {
  if (!on) return;
  uint64_t a = (uint64_t)p & ~7ull, e = (uint64_t)p + n;
  for (; a < e; a += 8) { Gran* g = gran(a, false); if (g) { g->wp = g->rp = 0; } else a |= 0xff8; }
}
static void describe(char* out, size_t n, void* pc) {
  Dl_info di; memset(&di, 0, sizeof di);
  if (dladdr(pc, &di) && di.dli_sname) snprintf(out, n, "%.80s", di.dli_sname);
  else snprintf(out, n, "static code at +0x%lx", (unsigned long)((char*)pc - (char*)di.dli_fbase));
}
static inline void access_g(uint64_t ga, unsigned mask, bool wr, void* pc, bool at) {
  Gran* g = gran(ga, true); if (!g) return;
  int k = slot_of[t_self];
  uint8_t bit = 1u << k;
  uint8_t others = g->wp & ~bit;
  if (others) for (int u = 0; u < NS; u++) if ((others >> u & 1) && (g->wm[u] & mask) && g->w[u] > VC[k][u]) {
    char s[100]; describe(s, sizeof s, pc); on = false;
    violate("data-race", "T%d %s memory last written by T%d without ordering (in %s)", t_self, wr ? "writes" : "reads", slot_owner[u], s);
  }
  if (wr) {
    others = g->rp & ~bit;
    if (others) for (int u = 0; u < NS; u++) if ((others >> u & 1) && (g->rm[u] & mask) && g->r[u] > VC[k][u]) {
      char s[100]; describe(s, sizeof s, pc); on = false;
      violate("data-race", "T%d writes memory last read by T%d without ordering (in %s)", t_self, slot_owner[u], s);
    }
    if (!at) {
      if (!(g->wp & bit) || g->w[k] != VC[k][k]) { g->wm[k] = 0; g->w[k] = VC[k][k]; g->wp |= bit; }
      g->wm[k] |= mask;
    }
  } else if (!at) {
    if (!(g->rp & bit) || g->r[k] != VC[k][k]) { g->rm[k] = 0; g->r[k] = VC[k][k]; g->rp |= bit; }
    g->rm[k] |= mask;
  }
}
static inline void acc(void* p, size_t n, bool wr, void* pc, bool at = false) {
  if (!g_active) return;
  if (++g_ticks > g_tick_limit) tick_overflow();
  if (!g_threads_on || t_self < 0) return;
  if (g_preempt_in && !t_nosched && --g_preempt_in == 0) preempt_point();
  if (!on || t_nosched) return;
  naccess++;
  uint64_t a = (uint64_t)p, e = a + n;
  while (a < e) {
    uint64_t ga = a & ~7ull; unsigned lo = a - ga, hi = (e - ga) > 8 ? 8 : (unsigned)(e - ga);
    access_g(ga, ((1u << hi) - 1) & ~((1u << lo) - 1), wr, pc, at);
    a = ga + 8;
  }
}
void race_free_range(const void* p, size_t n) {
  if (!on || !g_threads_on || t_self < 0 || t_nosched) return;
  // releasing memory counts as a write to it
  uint64_t a = (uint64_t)p & ~7ull, e = (uint64_t)p + n;
  for (; a < e; a += 8) { Gran* g = gran(a, false); if (g && (g->wp | g->rp)) { access_g(a, 0xff, true, __builtin_return_address(0), true); g->wp = g->rp = 0; } }
}
}
using namespace sim;
#define PC __builtin_return_address(0)
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(N) \
  void __tsan_read##N(void* p) { acc(p, N, false, PC); } \
  void __tsan_write##N(void* p) { acc(p, N, true, PC); } \
  void __tsan_unaligned_read##N(void* p) { acc(p, N, false, PC); } \
  void __tsan_unaligned_write##N(void* p) { acc(p, N, true, PC); } \
  void __tsan_volatile_read##N(void* p) { acc(p, N, false, PC); } \
  void __tsan_volatile_write##N(void* p) { acc(p, N, true, PC); } \
  void __tsan_unaligned_volatile_read##N(void* p) { acc(p, N, false, PC); } \
  void __tsan_unaligned_volatile_write##N(void* p) { acc(p, N, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_vptr_update(void** p, void* v) { if (*p != v) acc(p, 8, true, PC); }
void __tsan_vptr_read(void** p) { acc(p, 8, false, PC); }
void __tsan_read_range(void* p, unsigned long n) { acc(p, n, false, PC); }
void __tsan_write_range(void* p, unsigned long n) { acc(p, n, true, PC); }
static inline void a_acq(const volatile void* p, int mo) { if (on && g_threads_on && t_self >= 0 && mo != __ATOMIC_RELAXED && mo != __ATOMIC_RELEASE) race_acquire(t_self, (const void*)p); }
static inline void a_rel(const volatile void* p, int mo) { if (on && g_threads_on && t_self >= 0 && (mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST)) race_release(t_self, (const void*)p); }
#define AT(N, T) \
  T __tsan_atomic##N##_load(const volatile T* a, int mo) { acc((void*)a, sizeof(T), false, PC, true); T v = __atomic_load_n(a, __ATOMIC_SEQ_CST); a_acq(a, mo); return v; } \
  void __tsan_atomic##N##_store(volatile T* a, T v, int mo) { acc((void*)a, sizeof(T), true, PC, true); a_rel(a, mo); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##N##_exchange(volatile T* a, T v, int mo) { acc((void*)a, sizeof(T), true, PC, true); a_acq(a, mo); a_rel(a, mo); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##N##_fetch_add(volatile T* a, T v, int mo) { acc((void*)a, sizeof(T), true, PC, true); a_acq(a, mo); a_rel(a, mo); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##N##_fetch_sub(volatile T* a, T v, int mo) { acc((void*)a, sizeof(T), true, PC, true); a_acq(a, mo); a_rel(a, mo); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##N##_fetch_and(volatile T* a, T v, int mo) { acc((void*)a, sizeof(T), true, PC, true); a_acq(a, mo); a_rel(a, mo); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##N##_fetch_or(volatile T* a, T v, int mo) { acc((void*)a, sizeof(T), true, PC, true); a_acq(a, mo); a_rel(a, mo); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##N##_fetch_xor(volatile T* a, T v, int mo) { acc((void*)a, sizeof(T), true, PC, true); a_acq(a, mo); a_rel(a, mo); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##N##_compare_exchange_strong(volatile T* a, T* c, T v, int mo, int fmo) { (void)fmo; acc((void*)a, sizeof(T), true, PC, true); a_acq(a, mo); a_rel(a, mo); return __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##N##_compare_exchange_weak(volatile T* a, T* c, T v, int mo, int fmo) { (void)fmo; acc((void*)a, sizeof(T), true, PC, true); a_acq(a, mo); a_rel(a, mo); return __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##N##_compare_exchange_val(volatile T* a, T c, T v, int mo, int fmo) { (void)fmo; acc((void*)a, sizeof(T), true, PC, true); a_acq(a, mo); a_rel(a, mo); __atomic_compare_exchange_n(a, &c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
void* __real_memcpy(void*, const void*, size_t);
void* __real_memmove(void*, const void*, size_t);
void* __real_memset(void*, int, size_t);
void* __wrap_memcpy(void* d, const void* s, size_t n) { if (n) { acc((void*)s, n, false, PC); acc(d, n, true, PC); } return __real_memcpy(d, s, n); }
void* __wrap_memmove(void* d, const void* s, size_t n) { if (n) { acc((void*)s, n, false, PC); acc(d, n, true, PC); } return __real_memmove(d, s, n); }
void* __wrap_memset(void* d, int c, size_t n) { if (n) acc(d, n, true, PC); return __real_memset(d, c, n); }
// exception objects come from the C++ library's own allocator
void* __real___cxa_allocate_exception(size_t);
void* __wrap___cxa_allocate_exception(size_t n) { void* p = __real___cxa_allocate_exception(n); race_clear_range(p, n); return p; }
}
