// Basic-block call-out (-fsanitize-coverage=trace-pc): progress budget and
// preemption for flavours without memory-access instrumentation.
#include "sim.hpp"
#include "sim_int.hpp"
extern "C" void __sanitizer_cov_trace_pc(void) {
  if (!sim::g_active) return;
  if (++sim::g_ticks > sim::g_tick_limit) sim::tick_overflow();
  if (sim::g_preempt_in && sim::g_threads_on && !sim::t_nosched && --sim::g_preempt_in == 0) sim::preempt_point();
}
extern "C" const char* __asan_default_options() { return "detect_leaks=0:handle_abort=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:max_malloc_fill_size=1048576:detect_stack_use_after_return=1:log_path=stderr:symbolize=1:fast_unwind_on_malloc=1:malloc_context_size=12:quarantine_size_mb=8"; }
extern "C" const char* __ubsan_default_options() { return "halt_on_error=1:print_stacktrace=1:exitcode=77"; }
namespace sim { void race_begin() {} void race_end() {} long race_accesses() { return 0; } }
extern "C" void vf_eigen_assert(const char* what, const char* file, int line) {
  const char* b = file; for (const char* c = file; *c; c++) if (*c == '/') b = c + 1;
  if (sim::g_active) sim::violate("size-or-index", "Eigen size/index check failed: %s at %s:%d", what, b, line);
}
