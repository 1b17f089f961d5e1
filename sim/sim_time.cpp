// Simulated wall clock and monotonic clock.
#include "sim.hpp"
#include "sim_int.hpp"
#include <time.h>
#include <sys/time.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <dlfcn.h>
namespace sim {
static bool on = false, jumps = false;
static int64_t mono = 0, wall = 1546300800000000ll;   // microseconds
static long reads = 0; static uint64_t covered = 0;
void clock_begin(bool j) { on = true; jumps = j; mono = 0; wall = 1546300800000000ll; reads = 0; covered = 0; }
uint64_t clock_now_us() { return covered; }
void clock_advance_us(int64_t us) { mono += us > 0 ? us : 0; wall += us; if (us > 0) covered += us; }
long clock_reads() { return reads; }
static void step() {
  reads++;
  uint32_t k = pick_log(1000000, "clock-step-us");
  mono += k; wall += k; covered += k;
  if (jumps && chance(0.1, "clock-jump")) {
    int64_t j = (int64_t)pick_log(0x7fffffff, "clock-jump-us") * (pick(2, "clock-jump-sign") ? 1 : -1);
    wall += j;
    if (wall < 0) wall = 0;
    count(j < 0 ? "fault.clock_jump_back" : "fault.clock_jump_forward");
  }
}
}
using namespace sim;
extern "C" {
static inline bool simc() { return sim::on && g_active && t_self >= 0; }
int gettimeofday(struct timeval* tv, void* tz) {
  if (!simc()) return (int)syscall(SYS_gettimeofday, tv, tz);
  step(); tv->tv_sec = wall / 1000000; tv->tv_usec = wall % 1000000; return 0;
}
int clock_gettime(clockid_t k, struct timespec* ts) {
  if (!simc()) return (int)syscall(SYS_clock_gettime, k, ts);
  step(); int64_t v = (k == CLOCK_REALTIME) ? wall : mono;
  ts->tv_sec = v / 1000000; ts->tv_nsec = (v % 1000000) * 1000; return 0;
}
time_t time(time_t* out) {
  time_t v;
  if (!simc()) { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts); v = ts.tv_sec; }
  else { step(); v = wall / 1000000; }
  if (out) *out = v; return v;
}
}
