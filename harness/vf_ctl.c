#include "vf_ctl.h"
#define _GNU_SOURCE
#include <pthread.h>
#include <semaphore.h>
#include <errno.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <unistd.h>
#include <sys/syscall.h>
#include <linux/futex.h>
#include <libaio.h>
#undef pread
#undef pwrite

#define MAXT 256
enum { FREE = 0, RUN, DONE };
typedef struct {
   int       state;
   int       go; // futex
   uint64_t  paused; // not before this switch
   pthread_t pt;
   void *(*fn)(void *);
   void *arg;
   int   wake; // condition variables
   void *cond;
   uint64_t order;
} T;
static T               ts[MAXT];
static int             nt;
int                    vf_ctl_on;
int                    vf_ctl_freeze = 24; // one preemption in so many is a long one
uint64_t               vf_ctl_switches;
static uint64_t        rng = 88172645463325252ull, cond_order;
static int             mean = 100, budget = 100;
static __thread int    me __attribute__((tls_model("initial-exec"))) = -1;

static uint64_t
rnd(void)
{
   rng ^= rng << 13;
   rng ^= rng >> 7;
   rng ^= rng << 17;
   return rng >> 11;
}
static void
fwait(int *a)
{
   while (__atomic_load_n(a, __ATOMIC_ACQUIRE) == 0) {
      syscall(SYS_futex, a, FUTEX_WAIT_PRIVATE, 0, NULL, NULL, 0);
   }
   __atomic_store_n(a, 0, __ATOMIC_RELEASE);
}
static void
fwake(int *a)
{
   __atomic_store_n(a, 1, __ATOMIC_RELEASE);
   syscall(SYS_futex, a, FUTEX_WAKE_PRIVATE, 1, NULL, NULL, 0);
}
static void
refill(void)
{
   budget = 1 + rnd() % (2 * mean);
   if (rnd() % 64 == 0) {
      budget += rnd() % (40 * mean);
   }
}
// Hand over to another thread; `lazy`: the caller waits for something.
static void
handover(int lazy, int ending)
{
   vf_ctl_switches++;
   refill();
   if (lazy) {
      ts[me].paused = vf_ctl_switches + 1 + rnd() % 6;
   } else if (rnd() % vf_ctl_freeze == 0) {
      ts[me].paused = vf_ctl_switches + (rnd() % 2 ? rnd() % 40 : rnd() % 2000);
   }
   int cand[MAXT], n = 0, best = -1;
   for (int i = 0; i < nt; i++) {
      if (ts[i].state == RUN && !(ending && i == me)) {
         if (ts[i].paused <= vf_ctl_switches) {
            cand[n++] = i;
         }
         if (best < 0 || ts[i].paused < ts[best].paused) {
            best = i;
         }
      }
   }
   int to = n ? cand[rnd() % n] : best;
   if (to < 0) { // nobody left
      return;
   }
   if (n == 0) {
      vf_ctl_switches = ts[to].paused;
   }
   if (to == me) {
      return;
   }
   fwake(&ts[to].go);
   if (!ending) {
      fwait(&ts[me].go);
   }
}
static inline void
point(int w)
{
   if (vf_ctl_on && me >= 0 && (budget -= w) <= 0) {
      handover(0, 0);
   }
}
void
vf_ctl_point(void)
{
   point(1);
}
void
vf_ctl_wait(void)
{
   if (vf_ctl_on && me >= 0) {
      handover(1, 0);
   } else {
      usleep(100);
   }
}
void
vf_ctl_pause(void)
{
   static unsigned n;
   if (vf_ctl_on && me >= 0 && (++n & 63) == 0) {
      handover(1, 0);
   }
}
void
vf_ctl_start(uint64_t seed, int m)
{
   rng = seed * 0x9E3779B97F4A7C15ull + 0xD1B54A32D192ED03ull;
   for (int i = 0; i < 8; i++) {
      rnd();
   }
   mean = m;
   refill();
   memset(ts, 0, sizeof(ts));
   me          = 0;
   nt          = 1;
   ts[0].state = RUN;
   ts[0].pt    = pthread_self();
   vf_ctl_on   = 1;
}
void
vf_ctl_stop(void)
{
   vf_ctl_on = 0;
}
int __real_pthread_create(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
int __real_pthread_join(pthread_t, void **);
int __real_pthread_mutex_lock(pthread_mutex_t *);
int __real_pthread_cond_wait(pthread_cond_t *, pthread_mutex_t *);
int __real_pthread_cond_signal(pthread_cond_t *);
int __real_pthread_cond_broadcast(pthread_cond_t *);
int __real_pthread_spin_lock(pthread_spinlock_t *);
int __real_clock_nanosleep(clockid_t, int, const struct timespec *, struct timespec *);
int __real_nanosleep(const struct timespec *, struct timespec *);
int __real_usleep(useconds_t);
int __real_sched_yield(void);
int __real_sem_wait(sem_t *);

static void *
run(void *a)
{
   me = (int)(intptr_t)a;
   fwait(&ts[me].go);
   void *r      = ts[me].fn(ts[me].arg);
   ts[me].state = DONE;
   handover(0, 1);
   me = -1;
   return r;
}
int
__wrap_pthread_create(pthread_t *t, const pthread_attr_t *at, void *(*fn)(void *), void *arg)
{
   if (!vf_ctl_on || me < 0) {
      return __real_pthread_create(t, at, fn, arg);
   }
   int i = 0;
   while (i < nt && ts[i].state != FREE) {
      i++;
   }
   if (i == MAXT) {
      abort();
   }
   if (i == nt) {
      nt++;
   }
   memset(&ts[i], 0, sizeof(ts[i]));
   ts[i].fn    = fn;
   ts[i].arg   = arg;
   int rc = __real_pthread_create(&ts[i].pt, at, run, (void *)(intptr_t)i);
   if (rc == 0) {
      *t          = ts[i].pt;
      ts[i].state = RUN;
   }
   point(50);
   return rc;
}
int
__wrap_pthread_join(pthread_t t, void **r)
{
   if (vf_ctl_on && me >= 0) {
      for (int i = 0; i < nt; i++) {
         if (ts[i].state != FREE && pthread_equal(ts[i].pt, t)) {
            while (ts[i].state != DONE) {
               handover(1, 0);
            }
            ts[i].state = FREE;
            break;
         }
      }
   }
   return __real_pthread_join(t, r);
}
int
__wrap_pthread_mutex_lock(pthread_mutex_t *m)
{
   if (!vf_ctl_on || me < 0) {
      return __real_pthread_mutex_lock(m);
   }
   point(10);
   int rc;
   while ((rc = pthread_mutex_trylock(m)) == EBUSY) {
      handover(1, 0);
   }
   return rc;
}
int
__wrap_pthread_spin_lock(pthread_spinlock_t *m)
{
   if (!vf_ctl_on || me < 0) {
      return __real_pthread_spin_lock(m);
   }
   point(10);
   int rc;
   while ((rc = pthread_spin_trylock(m)) == EBUSY) {
      handover(1, 0);
   }
   return rc;
}
int
__wrap_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m)
{
   if (!vf_ctl_on || me < 0) {
      return __real_pthread_cond_wait(c, m);
   }
   ts[me].cond  = c;
   ts[me].wake  = 0;
   ts[me].order = ++cond_order;
   pthread_mutex_unlock(m);
   while (!ts[me].wake) {
      handover(1, 0);
   }
   ts[me].cond = NULL;
   return __wrap_pthread_mutex_lock(m);
}
int
__wrap_pthread_cond_signal(pthread_cond_t *c)
{
   if (!vf_ctl_on || me < 0) {
      return __real_pthread_cond_signal(c);
   }
   int b = -1;
   for (int i = 0; i < nt; i++) {
      if (ts[i].state == RUN && ts[i].cond == c && !ts[i].wake
          && (b < 0 || ts[i].order < ts[b].order))
      {
         b = i;
      }
   }
   if (b >= 0) {
      ts[b].wake = 1;
   }
   return 0;
}
int
__wrap_pthread_cond_broadcast(pthread_cond_t *c)
{
   if (!vf_ctl_on || me < 0) {
      return __real_pthread_cond_broadcast(c);
   }
   for (int i = 0; i < nt; i++) {
      if (ts[i].state == RUN && ts[i].cond == c) {
         ts[i].wake = 1;
      }
   }
   return 0;
}
int
__wrap_clock_nanosleep(clockid_t k, int f, const struct timespec *q, struct timespec *r)
{
   if (!vf_ctl_on || me < 0) {
      return __real_clock_nanosleep(k, f, q, r);
   }
   handover(1, 0);
   return 0;
}
int
__wrap_nanosleep(const struct timespec *q, struct timespec *r)
{
   if (!vf_ctl_on || me < 0) {
      return __real_nanosleep(q, r);
   }
   handover(1, 0);
   return 0;
}
int
__wrap_usleep(useconds_t u)
{
   if (!vf_ctl_on || me < 0) {
      return __real_usleep(u);
   }
   handover(1, 0);
   return 0;
}
int
__wrap_sched_yield(void)
{
   if (!vf_ctl_on || me < 0) {
      return __real_sched_yield();
   }
   handover(1, 0);
   return 0;
}
int
__wrap_sem_wait(sem_t *s)
{
   if (!vf_ctl_on || me < 0) {
      return __real_sem_wait(s);
   }
   while (sem_trywait(s) != 0) {
      handover(1, 0);
   }
   return 0;
}

// ---- what -fsanitize=thread calls ---------------------------------------
void __tsan_init(void) {}
void __tsan_func_entry(void *p) {}
void __tsan_func_exit(void) {}
#define RW(n)                                                                  \
   void __tsan_read##n(void *a) { point(1); }                                  \
   void __tsan_write##n(void *a) { point(1); }                                 \
   void __tsan_unaligned_read##n(void *a) { point(1); }                        \
   void __tsan_unaligned_write##n(void *a) { point(1); }                       \
   void __tsan_volatile_read##n(void *a) { point(4); }                         \
   void __tsan_volatile_write##n(void *a) { point(4); }                        \
   void __tsan_unaligned_volatile_read##n(void *a) { point(4); }               \
   void __tsan_unaligned_volatile_write##n(void *a) { point(4); }              \
   void __tsan_read_write##n(void *a) { point(1); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *a, unsigned long n) { point(2); }
void __tsan_write_range(void *a, unsigned long n) { point(2); }
void __tsan_vptr_update(void **a, void *b) {}
void __tsan_vptr_read(void **a) {}
#define W 8
#define AT(bits, ty)                                                           \
   ty __tsan_atomic##bits##_load(const volatile ty *a, int mo)                 \
   {                                                                           \
      point(W);                                                                \
      return __atomic_load_n(a, __ATOMIC_SEQ_CST);                             \
   }                                                                           \
   void __tsan_atomic##bits##_store(volatile ty *a, ty v, int mo)              \
   {                                                                           \
      point(W);                                                                \
      __atomic_store_n(a, v, __ATOMIC_SEQ_CST);                                \
      point(W);                                                                \
   }                                                                           \
   ty __tsan_atomic##bits##_exchange(volatile ty *a, ty v, int mo)             \
   {                                                                           \
      point(W);                                                                \
      ty r = __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST);                      \
      point(W);                                                                \
      return r;                                                                \
   }                                                                           \
   OP(bits, ty, fetch_add) OP(bits, ty, fetch_sub) OP(bits, ty, fetch_and)     \
   OP(bits, ty, fetch_or) OP(bits, ty, fetch_xor) OP(bits, ty, fetch_nand)     \
   int __tsan_atomic##bits##_compare_exchange_strong(                          \
      volatile ty *a, ty *c, ty v, int mo, int fmo)                            \
   {                                                                           \
      point(W);                                                                \
      int r = __atomic_compare_exchange_n(                                     \
         a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                      \
      point(W);                                                                \
      return r;                                                                \
   }                                                                           \
   int __tsan_atomic##bits##_compare_exchange_weak(                            \
      volatile ty *a, ty *c, ty v, int mo, int fmo)                            \
   {                                                                           \
      return __tsan_atomic##bits##_compare_exchange_strong(a, c, v, mo, fmo);  \
   }                                                                           \
   ty __tsan_atomic##bits##_compare_exchange_val(                              \
      volatile ty *a, ty c, ty v, int mo, int fmo)                             \
   {                                                                           \
      __tsan_atomic##bits##_compare_exchange_strong(a, &c, v, mo, fmo);        \
      return c;                                                                \
   }
#define OP(bits, ty, op)                                                       \
   ty __tsan_atomic##bits##_##op(volatile ty *a, ty v, int mo)                 \
   {                                                                           \
      point(W);                                                                \
      ty r = __atomic_##op(a, v, __ATOMIC_SEQ_CST);                            \
      point(W);                                                                \
      return r;                                                                \
   }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) { __atomic_thread_fence(__ATOMIC_SEQ_CST); point(W); }
void __tsan_atomic_signal_fence(int mo) {}

// The device takes its time.
int
__real_io_getevents(io_context_t c, long min, long nr, struct io_event *ev, struct timespec *t);
int
__wrap_io_getevents(io_context_t c, long min, long nr, struct io_event *ev, struct timespec *t)
{
   if (vf_ctl_on && me >= 0 && rnd() % 4 == 0) {
      handover(1, 0);
      return 0;
   }
   int n = __real_io_getevents(c, min, nr, ev, t);
   // taken, but not yet handled
   if (n > 0 && vf_ctl_on && me >= 0 && rnd() % 4 == 0) {
      handover(rnd() % 2, 0);
   }
   return n;
}
ssize_t
__real_pread(int fd, void *b, size_t n, off_t o);
ssize_t
__wrap_pread(int fd, void *b, size_t n, off_t o)
{
   if (vf_ctl_on && me >= 0 && rnd() % 3 == 0) {
      handover(1, 0);
   }
   return __real_pread(fd, b, n, o);
}
ssize_t
__real_pwrite(int fd, const void *b, size_t n, off_t o);
ssize_t
__wrap_pwrite(int fd, const void *b, size_t n, off_t o)
{
   if (vf_ctl_on && me >= 0 && rnd() % 3 == 0) {
      handover(1, 0);
   }
   return __real_pwrite(fd, b, n, o);
}
