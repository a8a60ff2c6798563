// Memory from the shared segment, taken, enlarged and freed by many threads.
#include "platform.h"
#include "shmem.h"
#include "vf_evlog.h"
#include <sys/shm.h>
#ifdef VF_CTL
#include "vf_ctl.h"
#else
static inline void
vf_ctl_point(void)
{
}
#endif
void *__real_shmat(int id, const void *a, int f);
void *
__wrap_shmat(int id, const void *a, int f)
{
   void *p = __real_shmat(id, a, f);
   shmctl(id, IPC_RMID, NULL); // gone with the process
   return p;
}
static platform_heap_id hid = NULL;
static uint64           seed, maxlive;
static int              nops, big;
static volatile uint64  stamp_ids = 1;
typedef struct {
   char  *p;
   uint64 n, id;
} piece;
static uint64
mix(uint64 x)
{
   x += 0x9e3779b97f4a7c15ull;
   x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
   x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
   return x ^ (x >> 31);
}
static void
paint(piece *a, uint64 from)
{
   for (uint64 i = from / 8; i < a->n / 8; i++) {
      ((uint64 *)a->p)[i] = a->id * 0x9e3779b97f4a7c15ull + i;
   }
}
static int
intact(piece *a, uint64 n)
{
   for (uint64 i = 0; i < n / 8; i++) {
      if (((uint64 *)a->p)[i] != a->id * 0x9e3779b97f4a7c15ull + i) {
         return 0;
      }
   }
   return 1;
}
static uint64
size_of(uint64 r)
{
   uint64 k = r % 100;
   r        = mix(r);
   if (k < (uint64)big) {
      return 64 * (1 + (30000 + r % 400000) / 64);
   }
   return k < 90 ? 64 * (1 + r % 60) : 64 * (1 + r % 700);
}
static long
units(char *p)
{
   long d = p - (char *)hid;
   return d % 64 ? -1 : d / 64;
}
static int
get(int me, piece *a, uint64 n)
{
   a->n  = n;
   a->id = __sync_fetch_and_add(&stamp_ids, 1);
   EV("[\"ac\",%d,%lu]", me, n / 64);
   a->p = platform_shm_alloc(hid, n, "x", "f", "f", 1);
   if (a->p == NULL) {
      EV("[\"no\",%d]", me);
      return 0;
   }
   EV("[\"a\",%d,%lu,%ld]", me, a->id, units(a->p));
   paint(a, 0);
   return 1;
}
static void
put(int me, piece *a)
{
   EV("[\"f\",%d,%lu,%d]", me, a->id, intact(a, a->n));
   platform_shm_free(hid, a->p, "x", "f", "f", 1);
   EV("[\"fr\",%d,%lu]", me, a->id);
}
static void
worker(void *arg)
{
   int    me = (long)arg, n = 0;
   uint64 r  = mix(seed * 55 + me);
   piece *L  = calloc(maxlive, sizeof(*L));
   platform_set_tid(me);
   for (int i = 0; i < nops; i++) {
      r = mix(r);
      vf_ctl_point();
      int op = r % 100;
      if (n == 0 || (n < (int)maxlive && op < 45)) {
         if (get(me, &L[n], size_of(mix(r + 1)))) {
            n++;
         }
      } else if (op < 85) {
         int k = r % 3 ? n - 1 : (int)(mix(r) % n);
         put(me, &L[k]);
         L[k] = L[--n];
      } else {
         // a new size: contents stay, as far as they fit
         piece *a = &L[mix(r) % n], b = *a;
         uint64 m = mix(r + 2) % 2 ? a->n + 64 * (1 + mix(r + 3) % 300) : size_of(mix(r + 4));
         EV("[\"f\",%d,%lu,%d]", me, a->id, intact(a, a->n));
         EV("[\"ac\",%d,%lu]", me, m / 64);
         char *p = platform_shm_realloc(hid, a->p, a->n, m, "f", "f", 1);
         if (p == NULL) {
            EV("[\"no\",%d]", me);
            EV("[\"un\",%d,%lu]", me, a->id);
            continue;
         }
         b.p  = p;
         b.n  = m;
         int ok = intact(&b, m < a->n ? m : a->n);
         b.id = __sync_fetch_and_add(&stamp_ids, 1);
         EV("[\"a\",%d,%lu,%ld]", me, b.id, units(p));
         EV("[\"fr\",%d,%lu]", me, a->id);
         EV("[\"ck\",%d]", ok);
         paint(&b, 0);
         *a = b;
      }
   }
   for (int k = 0; k < n; k++) {
      EV("[\"ck\",%d]", intact(&L[k], L[k].n));
      if (k % 2) {
         put(me, &L[k]);
      }
   }
   free(L);
}
int
main(int argc, char **argv)
{
   seed     = strtoull(argv[1], 0, 10);
   int thr  = atoi(argv[2]);
   nops     = atoi(argv[3]);
   int mean = atoi(argv[4]);
   maxlive  = atoi(argv[5]);
   big      = atoi(argv[6]);
   uint64 mb = atoi(argv[7]);
   ve_open(argv[8]);
   platform_set_log_streams(fopen("/dev/null", "w"), fopen("/dev/null", "w"));
   if (!SUCCESS(platform_heap_create(platform_get_module_id(), mb << 20, TRUE, &hid))) {
      exit(3);
   }
   platform_set_tid(0);
   EV("[\"up\",%lu,%d]", (mb << 20) / 64, thr);
#ifdef VF_CTL
   vf_ctl_start(seed, mean);
#else
   (void)mean;
#endif
   platform_thread th[64];
   for (long t = 1; t <= thr; t++) {
      platform_thread_create(&th[t], FALSE, worker, (void *)t, NULL);
   }
   for (int t = 1; t <= thr; t++) {
      platform_thread_join(th[t]);
   }
#ifdef VF_CTL
   vf_ctl_stop();
#endif
   ve_write(NULL);
   return 0;
}
