// Batched reader-writer locks under many threads: random legal use of the
// modes, recorded.  args: seed threads ops indexes mean out
//   or: script FILE out     (deterministic sequences from the specification)
#include "vf_evlog.h"
#include "platform.h"
#ifdef VF_CTL
#include "vf_ctl.h"
#endif
#undef pthread_create
static platform_batch_rwlock lock;
static int                   nops, nidx, nthr;
static int                   tids[64], idxs[32];
static uint64                seed0;

typedef struct {
   uint64 seed;
   int    t;
} thr;
static uint64
rnd(thr *t)
{
   t->seed ^= t->seed << 13;
   t->seed ^= t->seed >> 7;
   t->seed ^= t->seed << 17;
   return t->seed >> 9;
}
static void
hold(thr *t)
{
#ifdef VF_CTL
   int n = rnd(t) % 4 ? rnd(t) % 3 : rnd(t) % 60;
   for (int i = 0; i < n; i++) {
      vf_ctl_point();
   }
   if (rnd(t) % 8 == 0) {
      vf_ctl_wait();
   }
#else
   int          n = rnd(t) % 4 ? rnd(t) % 20 : rnd(t) % 2000;
   volatile int x = 0;
   for (int i = 0; i < n; i++) {
      x++;
   }
#endif
}
static void
one(thr *t, int from, int depth)
{
   int i  = from + rnd(t) % (nidx - from);
   int ix = idxs[i];
   platform_batch_rwlock_get(&lock, ix);
   EV("[\"get\",%d,%d]", t->t, i);
   hold(t);
   int what = rnd(t) % 10;
   if (what >= 4) {
      int got;
      if (what == 4 || what == 5) {
         EV("[\"loop\",%d,%d]", t->t, i);
         platform_batch_rwlock_claim_loop(&lock, ix);
         got = 1;
      } else {
         EV("[\"try\",%d,%d]", t->t, i);
         got = platform_batch_rwlock_try_claim(&lock, ix);
      }
      if (got) {
         EV("[\"claim\",%d,%d]", t->t, i);
         hold(t);
         int full = 0;
         for (int k = rnd(t) % 3; k > 0; k--) {
            platform_batch_rwlock_lock(&lock, ix);
            EV("[\"lock\",%d,%d]", t->t, i);
            hold(t);
            if (depth == 0 && i + 1 < nidx && rnd(t) % 4 == 0) {
               one(t, i + 1, 1);
            }
            if (rnd(t) % 3 == 0) {
               EV("[\"full\",%d,%d]", t->t, i);
               platform_batch_rwlock_full_unlock(&lock, ix);
               EV("[\"freed\",%d,%d]", t->t, i);
               full = 1;
               break;
            }
            EV("[\"unlock\",%d,%d]", t->t, i);
            platform_batch_rwlock_unlock(&lock, ix);
            hold(t);
         }
         if (full) {
            return;
         }
         EV("[\"unclaim\",%d,%d]", t->t, i);
         platform_batch_rwlock_unclaim(&lock, ix);
         EV("[\"unclaimed\",%d,%d]", t->t, i);
         hold(t);
      } else {
         EV("[\"fail\",%d,%d]", t->t, i);
         hold(t);
      }
   }
   if (depth == 0 && i + 1 < nidx && rnd(t) % 4 == 0) {
      one(t, i + 1, 1);
   }
   EV("[\"unget\",%d,%d]", t->t, i);
   platform_batch_rwlock_unget(&lock, ix);
}
static void *
work(void *a)
{
   thr *t = a;
   platform_set_tid(tids[t->t]);
   for (int n = 0; n < nops; n++) {
      one(t, 0, 0);
   }
   return NULL;
}
int
main(int argc, char **argv)
{
   platform_set_log_streams(fopen("/dev/null", "w"), stderr);
   seed0  = strtoull(argv[1], 0, 10) * 0x9E3779B97F4A7C15ull + 12345;
   nthr   = atoi(argv[2]);
   nops   = atoi(argv[3]);
   nidx   = atoi(argv[4]);
   ve_open(argv[6]);
   thr s = {.seed = seed0};
   for (int i = 0; i < 8; i++) {
      rnd(&s);
   }
   int used[MAX_THREADS] = {0}, ui[PLATFORM_CACHELINE_SIZE / 2] = {0};
   for (int i = 0; i < nthr; i++) {
      int k = i == 0 && rnd(&s) % 2 ? MAX_THREADS - 1 : i == 1 && rnd(&s) % 2 ? 0 : rnd(&s) % MAX_THREADS;
      while (used[k]) {
         k = (k + 1) % MAX_THREADS;
      }
      used[k] = 1;
      tids[i] = k;
   }
   for (int i = 0; i < nidx; i++) {
      int k = rnd(&s) % (PLATFORM_CACHELINE_SIZE / 2);
      while (ui[k]) {
         k = (k + 1) % (PLATFORM_CACHELINE_SIZE / 2);
      }
      ui[k]   = 1;
      idxs[i] = k;
   }
   platform_batch_rwlock_init(&lock);
#ifdef VF_CTL
   vf_ctl_start(seed0, atoi(argv[5]));
#endif
   static thr      ts[64];
   platform_thread p[64];
   for (int i = 0; i < nthr; i++) {
      ts[i].t    = i;
      ts[i].seed = seed0 + 77 * i + 1;
      if (platform_thread_create(&p[i], FALSE, (platform_thread_worker)work, &ts[i], NULL).r) {
         return 3;
      }
   }
   for (int i = 0; i < nthr; i++) {
      platform_thread_join(p[i]);
   }
   ve_write("[\"done\"]");
   return 0;
}
