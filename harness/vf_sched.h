// Schedule perturbation: with the library built with -finstrument-functions,
// threads are delayed at function boundaries, with a per-run random choice of
// functions at which delays are long and frequent.
#pragma once
#include <sched.h>
#include <time.h>
#include <stdint.h>
static volatile int      vf_sched_on;
static uint64_t          vf_sched_seed;
static __thread uint64_t vf_sched_rng __attribute__((tls_model("initial-exec")));
#define NOI __attribute__((no_instrument_function))
static inline NOI uint64_t
vf_sched_next(void)
{
   uint64_t x = vf_sched_rng;
   if (x == 0) {
      x = vf_sched_seed * 0x9E3779B97F4A7C15ull + (uint64_t)(uintptr_t)&vf_sched_rng;
   }
   x ^= x << 13;
   x ^= x >> 7;
   x ^= x << 17;
   vf_sched_rng = x;
   return x;
}
static inline NOI void
vf_sched_point(void *fn)
{
   if (!vf_sched_on) {
      return;
   }
   uint64_t r = vf_sched_next();
   uint64_t h = ((uint64_t)(uintptr_t)fn ^ vf_sched_seed * 0x9E3779B97F4A7C15ull)
                * 0xBF58476D1CE4E5B9ull;
   h >>= 40;
   if ((h & 127) == 0) { // a chosen function: stop here often, and for long
      if ((r & 63) == 0) {
         struct timespec ts = {0, 20000 + (r >> 40) % 300000};
         nanosleep(&ts, NULL);
         return;
      }
   }
   if ((r & 0x3fff) == 1) {
      struct timespec ts = {0, 1000 + (r >> 40) % 60000};
      nanosleep(&ts, NULL);
   } else if ((r & 0x7ff) == 2) {
      sched_yield();
   }
}
NOI void
__cyg_profile_func_enter(void *fn, void *site)
{
   vf_sched_point(fn);
}
NOI void
__cyg_profile_func_exit(void *fn, void *site)
{
   vf_sched_point((char *)fn + 1);
}
