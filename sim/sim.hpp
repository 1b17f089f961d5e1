// Deterministic simulator core.  One list of integers ("choices") decides a run:
// in search mode the list is drawn from a seeded PRNG and recorded, in replay
// mode it is read back.  0 is always the simplest choice (no fault, no switch).
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdarg>
#include <string>
#include <vector>
#include <functional>

namespace sim {

// ---- choices -------------------------------------------------------------
uint32_t pick(uint32_t n, const char* tag);              // uniform in [0,n)
uint32_t pick_log(uint32_t max, const char* tag);        // 0..max, log-uniform
bool     chance(double p, const char* tag);              // fault coin, 0 = no
bool     chance2(double p, const char* tag);             // no event is logged, cheap
inline int range(int lo, int hi, const char* tag) { return lo + (int)pick((uint32_t)(hi - lo + 1), tag); }
// small signed grid value: 0, 1,-1, 2,-2, ... scaled
double   grid(int n, double scale, const char* tag);
double   real(double lo, double hi, const char* tag);    // 4096 steps; choice 0 = lo

// ---- log / verdict ---------------------------------------------------------
void event(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void hash_bits(const void* p, size_t n);
[[noreturn]] void violate(const char* cls, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
void count(const char* key, long n = 1);                 // faults fired, probes hit
void state(uint64_t h);                                  // a reached state / interleaving
uint64_t trace_hash();
bool tracing();
const std::string& prop();
void sample(const char* fmt, ...) __attribute__((format(printf, 1, 2)));  // describe this run for the evidence
void nontrivial();                                       // this run did something worth counting

// ---- progress budget -------------------------------------------------------
extern bool     g_active;       // inside a simulated run
extern uint64_t g_ticks, g_tick_limit;
void tick_overflow();
inline void tick() { if (g_active && ++g_ticks > g_tick_limit) tick_overflow(); }
void set_budget(uint64_t more); // restart the budget for one operation

// ---- threads ---------------------------------------------------------------
struct SchedCfg {
  double p_switch_sync = 0.5;   // chance of considering a switch at a sync point
  double p_spurious = 0.0;      // chance of a spurious wake-up per sync point
  double p_create_fail = 0.0;   // chance pthread_create is refused
  uint32_t preempt_max = 0;     // >0: preempt after 1..max instrumented points
  uint32_t preempt_count = 0;   // at most this many preemptions
};
void threads_begin(const SchedCfg& cfg);
void threads_set(const SchedCfg& cfg);
SchedCfg& sched();
int  spawn(std::function<void()> f);   // simulated client thread (never refused)
void join(int id);
void yield_point(const char* why);     // scheduling point
int  self();
int  live_threads();                   // simulated threads not finished, without the caller's own family
int  created_threads();
int  switches();
void threads_end();                    // run over: everything must have ended
void preempt_point();                  // from instrumentation
extern bool g_threads_on;
extern uint32_t g_preempt_in;
struct NoSched { bool old; NoSched(); ~NoSched(); };   // no scheduling inside this scope

// ---- memory ----------------------------------------------------------------
struct MemCfg { bool armed=false; long fail_at=-1; double p_fail=0; bool sticky=false; };
void mem_begin();                      // start tracking (per thread scope below)
void mem_fail_at(long k, bool sticky); // k-th tracked allocation from now fails (-1: never)
void mem_fail_here(long k);             // the k-th tracked allocation of this thread from now fails (0: none)
void mem_fail_rate(double p);
void mem_fill(int byte);                // -1: leave as is; new memory is filled with this byte
long mem_allocs();                     // tracked allocations since mem_begin
long mem_failures();
long mem_live();                       // tracked blocks still allocated
size_t mem_live_bytes();
void mem_reset_counter();
struct MemOn  { bool old; MemOn(); ~MemOn(); };    // allocations of this thread are tracked / may fail
struct MemOff { bool old; MemOff(); ~MemOff(); };  // not tracked (callbacks, oracles)

// ---- clock -----------------------------------------------------------------
void clock_begin(bool jumps);          // simulated clock on
uint64_t clock_now_us();
void clock_advance_us(int64_t us);
long clock_reads();

// ---- races (only when built with the access call-outs) ----------------------
void race_begin();
void race_end();
long race_accesses();

typedef void (*run_fn)();
int main(int argc, char** argv, run_fn f);
}
