// Internal glue between the layers of the simulator.
#pragma once
#include <cstdint>
#include <cstddef>
namespace sim {
// race detector hooks (weak: absent when the flavour has no detector)
void race_thread_create(int parent, int child) __attribute__((weak));
void race_thread_finish(int t) __attribute__((weak));
void race_thread_join(int t, int joined) __attribute__((weak));
void race_acquire(int t, const void* a) __attribute__((weak));
void race_release(int t, const void* a) __attribute__((weak));
void race_clear_range(const void* p, size_t n) __attribute__((weak));
void race_free_range(const void* p, size_t n) __attribute__((weak));
extern thread_local int t_self;       // simulated thread id, -1 outside
extern thread_local int t_nosched;    // >0: no scheduling
extern thread_local int t_mem;        // >0: allocations are tracked
bool fs_active() __attribute__((weak));
}
