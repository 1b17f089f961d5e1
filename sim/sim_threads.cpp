// Simulated threads: every pthread operation of the program under test comes
// here.  Real threads carry the stacks, but exactly one holds the baton; who
// gets it next is a choice.
#include "sim.hpp"
#include "sim_int.hpp"
#include <pthread.h>
#include <semaphore.h>
#include <dlfcn.h>
#include <errno.h>
#include <string.h>
#include <stdio.h>
#include <stdlib.h>
#include <time.h>
#include <unistd.h>

int g_max_live_threads = 1 << 30;   // background threads the program may have at this moment
namespace sim {

thread_local int t_self = -1;
thread_local int t_nosched = 0;
bool g_threads_on = false;
uint32_t g_preempt_in = 0;
static uint32_t g_preempt_left = 0;
static SchedCfg g_cfg;

enum St { FREE, RUN, MUTEX, COND, JOINING, GUARD, DONE };
struct Thr {
  St st; const void* on; const void* mtx; int join; bool signalled, timed, timedout;
  bool detached, joined, client; pthread_t real; sem_t sem;
  void* (*fn)(void*); void* arg; void* ret;
  uint64_t wakeups; uint64_t born;
};
static const int MAXT = 256;
static Thr T[MAXT];
static int nT = 0;
static int cur = -1;
static int g_created = 0, g_switches = 0;
static uint64_t g_ilv = 0;          // interleaving hash

struct Mx { const void* a; int owner; int count; };
static const int MAXM = 4096;
static Mx M[MAXM];
static Mx* mx(const void* a) {
  uint64_t h = ((uint64_t)a >> 3) * 0x9E3779B97F4A7C15ull >> 52;
  for (int i = 0; i < MAXM; i++) {
    Mx& m = M[(h + i) % MAXM];
    if (m.a == a) return &m;
    if (!m.a) { m.a = a; m.owner = -1; m.count = 0; return &m; }
  }
  violate("harness-mutex-table", "mutex table full");
}

template <class F> static F real(const char* n) {
  void* p = nullptr;
  if (!strncmp(n, "pthread_cond_", 13)) p = dlvsym(RTLD_NEXT, n, "GLIBC_2.3.2");
  if (!p) p = dlsym(RTLD_NEXT, n);
  if (!p) { fprintf(stderr, "no %s\n", n); _exit(9); }
  return (F)p;
}
#define REAL(ret, name, ...) static ret (*r)(__VA_ARGS__) = nullptr; if (!r) r = real<ret (*)(__VA_ARGS__)>(#name)

static inline bool simd() { return g_threads_on && t_self >= 0; }

static bool runnable(int i) {
  Thr& t = T[i];
  switch (t.st) {
    case RUN: return true;
    case MUTEX: { Mx* m = mx(t.mtx); return m->owner < 0; }
    case JOINING: return T[t.join].st == DONE;
    case GUARD: return true;  // polls
    default: return false;
  }
}
static const char* stn(St s) { static const char* n[] = {"free", "running", "waiting for a lock", "waiting on a condition", "joining", "waiting for an initialiser", "done"}; return n[s]; }

static void transfer(int to) {
  if (to == cur) return;
  int me = cur;
  cur = to;
  g_switches++;
  g_ilv = g_ilv * 1099511628211ull + (uint64_t)(to + 1) + (g_ticks << 8);
  sem_post(&T[to].sem);
  if (me >= 0 && T[me].st != DONE) {
    while (sem_wait(&T[me].sem) != 0) {}
  }
}

static void spurious() {
  if (g_cfg.p_spurious <= 0) return;
  int w[MAXT], n = 0;
  for (int i = 0; i < nT; i++) if (T[i].st == COND && !T[i].signalled) w[n++] = i;
  if (!n) return;
  if (!chance(g_cfg.p_spurious, "spurious-wakeup")) return;
  int k = w[pick(n, "spurious-who")];
  T[k].signalled = true; T[k].st = MUTEX;
  count("fault.spurious_wakeup");
  event("spurious wake-up of T%d", k);
}

// pick somebody to run; the caller's own state is already set
static void dispatch(bool voluntary, const char* why) {
  spurious();
  int w[MAXT], n = 0;
  bool me_ok = cur >= 0 && T[cur].st != DONE && runnable(cur);
  for (int i = 0; i < nT; i++) if (i != cur && runnable(i)) w[n++] = i;
  if (me_ok) {
    if (!n) return;
    if (voluntary) { if (!chance(g_cfg.p_switch_sync, "switch")) return; }
    transfer(w[pick(n, "switch-to")]);
    return;
  }
  if (n) { transfer(w[pick(n, "next")]); return; }
  // timed waits expire when nothing else can happen
  for (int i = 0; i < nT; i++) if (T[i].st == COND && T[i].timed) {
    T[i].timedout = true; T[i].signalled = true; T[i].st = MUTEX;
    clock_advance_us(1000);
    dispatch(false, why);
    return;
  }
  char buf[1500]; int o = 0;
  for (int i = 0; i < nT && o < 1400; i++) if (T[i].st != DONE)
    o += snprintf(buf + o, sizeof buf - o, " T%d:%s", i, stn(T[i].st));
  violate("deadlock", "no thread can run:%s", buf);
}

static void point(const char* why) {
  if (t_nosched) return;
  tick();
  dispatch(true, why);
}
void yield_point(const char* why) { if (simd()) point(why); }

static void draw_preempt() {
  if (g_cfg.preempt_max && g_preempt_left) { g_preempt_left--; g_preempt_in = 1 + pick_log(g_cfg.preempt_max - 1, "preempt-after"); }
  else g_preempt_in = 0;
}
void preempt_point() {   // countdown reached zero
  if (!simd() || t_nosched) { g_preempt_in = 1; return; }
  int w[MAXT], n = 0;
  for (int i = 0; i < nT; i++) if (i != cur && runnable(i)) w[n++] = i;
  if (!n) { g_preempt_in = 64; return; }      // nobody else: try later, costs no choice
  count("fault.preemption");
  int to = w[pick(n, "preempt-to")];
  draw_preempt();
  event("preempted, T%d runs", to);
  transfer(to);
}

void threads_begin(const SchedCfg& cfg) {
  if (nT) memset(M, 0, sizeof M);
  nT = 1; cur = 0; g_created = 0; g_switches = 0; g_ilv = 0;
  memset(&T[0], 0, sizeof T[0]);
  T[0].st = RUN; T[0].real = pthread_self(); sem_init(&T[0].sem, 0, 0); T[0].client = true;
  t_self = 0; g_cfg = cfg; g_preempt_left = cfg.preempt_count;
  draw_preempt();
  g_threads_on = true;
}
void threads_set(const SchedCfg& cfg) { g_cfg = cfg; g_preempt_left = cfg.preempt_count; draw_preempt(); }
SchedCfg& sched() { return g_cfg; }
int self() { return t_self < 0 ? 0 : t_self; }
int created_threads() { return g_created; }
int switches() { return g_switches; }
int live_threads() { int n = 0; for (int i = 0; i < nT; i++) if (!T[i].client && T[i].st != DONE) n++; return n; }
uint64_t interleaving() { return g_ilv; }

void threads_end() {
  state(g_ilv);
  g_threads_on = false;
  g_preempt_in = 0;
  t_self = -1;
}

NoSched::NoSched() { old = true; t_nosched++; }
NoSched::~NoSched() { t_nosched--; }

static pthread_key_t g_key;
static bool g_key_ok = false;
static void key_dtor(void* v) {
  long k = (long)v;
  if (k < 4) { pthread_setspecific(g_key, (void*)(k + 1)); return; }
  // last round: the simulated thread is over
  int me = t_self;
  if (me < 0) return;
  if (race_thread_finish) race_thread_finish(me);
  T[me].st = DONE;
  event("thread T%d ended", me);
  t_self = -1;
  // hand the baton on without waiting for it back
  cur = me;
  dispatch(false, "exit");
}
static void* trampoline(void* a) {
  Thr* t = (Thr*)a;
  while (sem_wait(&t->sem) != 0) {}
  t_self = (int)(t - T);
  pthread_setspecific(g_key, (void*)1);
  // the stack may be one that a finished thread has used
  if (race_clear_range) { char* top = (char*)__builtin_frame_address(0); race_clear_range(top - (7u << 20), 7u << 20); }
  t->ret = t->fn(t->arg);
  return t->ret;
}
static int create_thread(pthread_t* out, const pthread_attr_t* attr, void* (*fn)(void*), void* arg, bool client) {
  REAL(int, pthread_create, pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
  if (!g_key_ok) { pthread_key_create(&g_key, key_dtor); g_key_ok = true; }
  if (!client && live_threads() + 1 > g_max_live_threads) violate("too-many-threads", "a background thread is started while %d are still running, at most %d expected", live_threads(), g_max_live_threads);
  if (nT >= MAXT) violate("thread-explosion", "more than %d threads created", MAXT);
  int id = nT;
  Thr& t = T[id];
  memset(&t, 0, sizeof t);
  sem_init(&t.sem, 0, 0);
  t.fn = fn; t.arg = arg; t.st = RUN; t.client = client; t.born = g_ticks;
  int ds = PTHREAD_CREATE_JOINABLE;
  if (attr) pthread_attr_getdetachstate(attr, &ds);
  t.detached = ds == PTHREAD_CREATE_DETACHED;
  int rc = r(&t.real, nullptr, trampoline, &t);
  if (rc) violate("harness-thread", "real pthread_create failed: %d", rc);
  nT++;
  if (!client) g_created++;
  if (race_thread_create) race_thread_create(t_self, id);
  if (out) *out = t.real;
  event("T%d starts %s T%d", t_self, client ? "client" : "thread", id);
  point("create");
  return 0;
}
static void* run_fn_thread(void* p) { auto* f = (std::function<void()>*)p; (*f)(); { MemOff mo; delete f; } return nullptr; }
int spawn(std::function<void()> f) {
  std::function<void()>* h; { NoSched ns; MemOff mo; h = new std::function<void()>(std::move(f)); }
  int id = nT;
  create_thread(nullptr, nullptr, run_fn_thread, h, true);
  return id;
}
static int join_thread(int id, void** ret) {
  REAL(int, pthread_join, pthread_t, void**);
  Thr& me = T[t_self];
  if (id == t_self) return EDEADLK;
  if (T[id].detached || T[id].joined) violate("join-invalid", "T%d joined although it is detached or was joined before", id);
  if (!t_nosched) tick();
  me.st = JOINING; me.join = id;
  dispatch(true, "join");
  if (T[id].st != DONE) violate("harness-join", "woke up before join");
  me.st = RUN;
  T[id].joined = true;
  if (race_thread_join) race_thread_join(t_self, id);
  int rc = r(T[id].real, nullptr);
  if (ret) *ret = T[id].ret;
  return rc;
}
void join(int id) { join_thread(id, nullptr); }
static int find_thread(pthread_t h) { for (int i = nT - 1; i >= 0; i--) if (!T[i].joined && !(T[i].detached && T[i].st == DONE) && pthread_equal(T[i].real, h)) return i; return -1; }

// ---- mutexes -----------------------------------------------------------------
static int kind(pthread_mutex_t* m) { return m->__data.__kind & 3; }
static int lock_mutex(pthread_mutex_t* m, bool sched) {
  Mx* x = mx(m);
  if (x->owner == t_self) {
    if (kind(m) == PTHREAD_MUTEX_RECURSIVE) { x->count++; return 0; }
    if (kind(m) == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK;
    violate("deadlock", "T%d locks a mutex it already holds", t_self);
  }
  if (sched) point("lock");
  if (x->owner >= 0) {
    Thr& me = T[t_self];
    me.st = MUTEX; me.mtx = m;
    while (x->owner >= 0) dispatch(false, "lock");
    me.st = RUN;
  }
  x->owner = t_self; x->count = 1;
  if (race_acquire) race_acquire(t_self, m);
  return 0;
}
static int unlock_mutex(pthread_mutex_t* m, bool sched) {
  Mx* x = mx(m);
  if (x->owner != t_self) violate("unlock-not-owner", "T%d unlocks a mutex held by %s%d", t_self, x->owner < 0 ? "nobody " : "T", x->owner);
  if (sched && x->count == 1) point("before-unlock");
  if (--x->count > 0) return 0;
  if (race_release) race_release(t_self, m);
  x->owner = -1;
  if (sched) point("unlock");
  return 0;
}
static int wait_cond(const void* c, pthread_mutex_t* m, bool timed) {
  Mx* x = mx(m);
  Thr& me = T[t_self];
  if (x->owner != t_self) violate("wait-not-owner", "T%d waits on a condition without holding the mutex", t_self);
  point("before-wait");          // the gap between testing the condition and waiting
  int cnt = x->count;
  if (race_release) race_release(t_self, m);
  x->owner = -1; x->count = 0;
  me.st = COND; me.on = c; me.mtx = m; me.signalled = false; me.timed = timed; me.timedout = false;
  tick();
  if (timed && chance(0.2, "timeout")) { me.timedout = true; me.signalled = true; me.st = MUTEX; }
  dispatch(false, "wait");
  while (x->owner >= 0) { me.st = MUTEX; dispatch(false, "wait-lock"); }
  me.st = RUN;
  x->owner = t_self; x->count = cnt;
  if (race_acquire) race_acquire(t_self, m);
  return me.timedout ? ETIMEDOUT : 0;
}
static int signal_cond(const void* c, bool all) {
  int w[MAXT], n = 0;
  for (int i = 0; i < nT; i++) if (T[i].st == COND && T[i].on == c) w[n++] = i;
  if (n) {
    if (all) { for (int i = 0; i < n; i++) { T[w[i]].signalled = true; T[w[i]].st = MUTEX; } }
    else { int k = w[pick(n, "signal-who")]; T[k].signalled = true; T[k].st = MUTEX; }
  } else count("probe.signal_without_waiter");
  point("signal");
  return 0;
}
static void destroy_check(const void* a, bool cond) {
  if (cond) { for (int i = 0; i < nT; i++) if (T[i].st == COND && T[i].on == a) violate("destroy-in-use", "condition destroyed while T%d waits on it", i); }
  else { Mx* m = mx(a); if (m->owner >= 0) violate("destroy-in-use", "mutex destroyed while T%d holds it", m->owner);
    for (int i = 0; i < nT; i++) if (T[i].st == MUTEX && T[i].mtx == a) violate("destroy-in-use", "mutex destroyed while T%d wants it", i); }
}
struct Gd { uint64_t* g; int owner; };
static Gd G[64];
static int nG = 0;
}

using namespace sim;
extern "C" {
int pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*f)(void*), void* arg) {
  if (!simd()) { REAL(int, pthread_create, pthread_t*, const pthread_attr_t*, void* (*)(void*), void*); return r(t, a, f, arg); }
  if (chance(sched().p_create_fail, "create-fails")) { count("fault.thread_create_refused"); event("thread creation refused"); return EAGAIN; }
  return create_thread(t, a, f, arg, false);
}
int pthread_join(pthread_t t, void** ret) {
  if (!simd()) { REAL(int, pthread_join, pthread_t, void**); return r(t, ret); }
  int id = find_thread(t); if (id < 0) violate("join-invalid", "join of an unknown thread");
  return join_thread(id, ret);
}
int pthread_detach(pthread_t t) {
  REAL(int, pthread_detach, pthread_t);
  if (simd()) { int id = find_thread(t); if (id >= 0) T[id].detached = true; point("detach"); }
  return r(t);
}
int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) {
  REAL(int, pthread_mutex_init, pthread_mutex_t*, const pthread_mutexattr_t*);
  if (simd()) { Mx* x = mx(m); x->owner = -1; x->count = 0; }
  return r(m, a);
}
int pthread_mutex_destroy(pthread_mutex_t* m) {
  REAL(int, pthread_mutex_destroy, pthread_mutex_t*);
  if (simd()) destroy_check(m, false);
  return r(m);
}
int pthread_mutex_lock(pthread_mutex_t* m) {
  if (!simd()) { REAL(int, pthread_mutex_lock, pthread_mutex_t*); return r(m); }
  return lock_mutex(m, true);
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
  if (!simd()) { REAL(int, pthread_mutex_trylock, pthread_mutex_t*); return r(m); }
  point("trylock");
  Mx* x = mx(m);
  if (x->owner == t_self && kind(m) == PTHREAD_MUTEX_RECURSIVE) { x->count++; return 0; }
  if (x->owner >= 0) return EBUSY;
  x->owner = t_self; x->count = 1;
  if (race_acquire) race_acquire(t_self, m);
  return 0;
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
  if (!simd()) { REAL(int, pthread_mutex_unlock, pthread_mutex_t*); return r(m); }
  return unlock_mutex(m, true);
}
int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t* a) { REAL(int, pthread_cond_init, pthread_cond_t*, const pthread_condattr_t*); return r(c, a); }
int pthread_cond_destroy(pthread_cond_t* c) {
  REAL(int, pthread_cond_destroy, pthread_cond_t*);
  if (simd()) destroy_check(c, true);
  return r(c);
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
  if (!simd()) { REAL(int, pthread_cond_wait, pthread_cond_t*, pthread_mutex_t*); return r(c, m); }
  return wait_cond(c, m, false);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) {
  if (!simd()) { REAL(int, pthread_cond_timedwait, pthread_cond_t*, pthread_mutex_t*, const struct timespec*); return r(c, m, ts); }
  return wait_cond(c, m, true);
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* ts) {
  if (!simd()) { REAL(int, pthread_cond_clockwait, pthread_cond_t*, pthread_mutex_t*, clockid_t, const struct timespec*); return r(c, m, k, ts); }
  return wait_cond(c, m, true);
}
int pthread_cond_signal(pthread_cond_t* c) {
  if (!simd()) { REAL(int, pthread_cond_signal, pthread_cond_t*); return r(c); }
  return signal_cond(c, false);
}
int pthread_cond_broadcast(pthread_cond_t* c) {
  if (!simd()) { REAL(int, pthread_cond_broadcast, pthread_cond_t*); return r(c); }
  return signal_cond(c, true);
}
int sched_yield(void) { if (simd()) { point("yield"); return 0; } REAL(int, sched_yield); return r(); }
int usleep(useconds_t us) { if (simd()) { clock_advance_us(us); point("usleep"); return 0; } REAL(int, usleep, useconds_t); return r(us); }
int nanosleep(const struct timespec* a, struct timespec* b) {
  if (simd()) { clock_advance_us(a->tv_sec * 1000000LL + a->tv_nsec / 1000); point("nanosleep"); if (b) b->tv_sec = b->tv_nsec = 0; return 0; }
  REAL(int, nanosleep, const struct timespec*, struct timespec*); return r(a, b);
}
int clock_nanosleep(clockid_t k, int fl, const struct timespec* a, struct timespec* b) {
  if (simd()) { clock_advance_us(1000); point("clock_nanosleep"); return 0; }
  REAL(int, clock_nanosleep, clockid_t, int, const struct timespec*, struct timespec*); return r(k, fl, a, b);
}
// function-local statics and pthread_once: a preempted initialiser must not block a real thread
int __cxa_guard_acquire(uint64_t* g) {
  for (;;) {
    if (__atomic_load_n((unsigned char*)g, __ATOMIC_ACQUIRE)) { if (simd() && race_acquire) race_acquire(t_self, g); return 0; }
    int k = -1; for (int i = 0; i < nG; i++) if (G[i].g == g) k = i;
    if (k < 0 || !simd()) { if (nG < 64) { G[nG].g = g; G[nG].owner = t_self; nG++; } return 1; }
    T[t_self].st = GUARD; t_nosched = 0;
    tick(); dispatch(false, "guard");
    if (true) { int w = -1; for (int i = 0; i < nT; i++) if (i != cur && runnable(i)) { w = i; break; } if (w >= 0) transfer(w); }
    T[t_self].st = RUN;
  }
}
static void guard_drop(uint64_t* g) { for (int i = 0; i < nG; i++) if (G[i].g == g) { G[i] = G[--nG]; return; } }
void __cxa_guard_release(uint64_t* g) { if (simd() && race_release) race_release(t_self, g); __atomic_store_n((unsigned char*)g, 1, __ATOMIC_RELEASE); guard_drop(g); }
void __cxa_guard_abort(uint64_t* g) { guard_drop(g); }
int pthread_once(pthread_once_t* o, void (*f)(void)) {
  if (!simd()) { REAL(int, pthread_once, pthread_once_t*, void (*)(void)); return r(o, f); }
  if (*o == 2) { if (race_acquire) race_acquire(t_self, o); return 0; }
  t_nosched++; REAL(int, pthread_once, pthread_once_t*, void (*)(void)); int rc = r(o, f); t_nosched--;
  if (race_release) race_release(t_self, o);
  return rc;
}
}
