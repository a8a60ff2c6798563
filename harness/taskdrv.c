// The task system: tasks enqueued, run and waited for by many threads; thread
// identities taken and given back.
#include "vf_stack.h"
#include "vf_evlog.h"
#include "task.h"
#include "platform.h"
static vf_stack S;
static uint64   seed;
static int      nops, budget, kidpct;
static volatile uint64 nextid, nexth = 1, nbg = 100;
static __thread int    me = -1;
static uint64
mix(uint64 x)
{
   x += 0x9e3779b97f4a7c15ull;
   x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
   x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
   return x ^ (x >> 31);
}
static int
who(void)
{
   if (me < 0) {
      me = __sync_fetch_and_add(&nbg, 1);
   }
   return me;
}
typedef struct {
   uint64 id;
   int    kids;
} targ;
static void
enq(uint64 r, int kids);
static void
body(void *a, void *scratch)
{
   targ  *g  = a;
   uint64 id = g->id, r = mix(seed * 31 + id);
   int    kids = g->kids;
   // the scratch space is the running thread's
   int ok = scratch == task_system_get_thread_scratch(S.ts, platform_get_tid());
   EV("[\"s\",%d,%lu,%d]", who(), id, ok);
   free(g);
   for (int i = r % 4; i; i--) {
      vf_ctl_point();
   }
   if (r % 23 == 0) {
      vf_ctl_wait();
   }
   while (kids-- > 0) {
      enq(r = mix(r), 0);
   }
   EV("[\"e\",%d,%lu]", who(), id);
}
static void
enq(uint64 r, int kids)
{
   targ *g = malloc(sizeof(*g));
   g->id   = __sync_fetch_and_add(&nextid, 1);
   g->kids = kids;
   int type = 1 + r % 2, head = (r >> 8) % 3 == 0;
   EV("[\"ec\",%d,%lu,%d,%d]", who(), g->id, type, head);
   platform_status rc = task_enqueue(S.ts, type, body, g, head);
   EV("[\"er\",%d,%d]", who(), !SUCCESS(rc));
}
static void
worker(void *arg)
{
   me       = (long)arg;
   uint64 r = mix(seed * 77 + me);
   for (int i = 0; i < nops; i++) {
      r      = mix(r);
      int op = r % 100;
      vf_ctl_point();
      if (op < 45) {
         enq(r >> 10, (r >> 40) % 100 < (uint64)kidpct ? 1 + (r >> 50) % 2 : 0);
      } else if (op < 85) {
         int scale = (r >> 10) % 3 == 0 ? 50 + (r >> 20) % 200 : 0;
         EV("[\"pc\",%d,%d]", me, scale);
         platform_status rc = task_perform_one_if_needed(S.ts, scale);
         EV("[\"pr\",%d,%d]", me, SUCCESS(rc) ? 0 : STATUS_IS_EQ(rc, STATUS_TIMEDOUT) ? 1 : 2);
      } else if (op < 97) {
         EV("[\"qc\",%d]", me);
         bool32 q = task_system_is_quiescent(S.ts);
         EV("[\"qr\",%d,%d]", me, !!q);
      } else {
         EV("[\"uc\",%d]", me);
         platform_status rc = task_perform_until_quiescent(S.ts);
         EV("[\"ur\",%d,%d]", me, !SUCCESS(rc));
      }
   }
}
// identities
static int
zeroed(char *p, uint64 n)
{
   for (uint64 i = 0; p && i < n; i++) {
      if (p[i]) {
         return 0;
      }
   }
   return 1;
}
static void
use(int h, uint64 r, uint64 sz)
{
   threadid t = platform_get_tid();
   char    *p = t < MAX_THREADS ? task_system_get_thread_scratch(S.ts, t) : NULL;
   EV("[\"rr\",%d,1,%lu,%d]", h, t < MAX_THREADS ? t : 9999, (sz == 0 ? p == NULL : p != NULL) && zeroed(p, sz));
   if (sz) {
      memset(p, h & 0xff, sz);
   }
   for (int i = 0; i < (int)(r % 5); i++) {
      vf_ctl_point();
      if (i % 2) {
         sched_yield();
      }
   }
   int ok = platform_get_tid() == t;
   for (uint64 i = 0; i < sz; i++) {
      ok &= (unsigned char)p[i] == (h & 0xff);
   }
   EV("[\"ck\",%d,%d]", h, ok);
   if (r % 7 == 0 || h < 70) {
      EV("[\"mc\",%d]", h);
      EV("[\"mx\",%d,%lu]", h, (uint64)task_get_max_tid(S.ts));
   }
}
typedef struct {
   int    h;
   uint64 r, sz;
} carg;
static void
created(void *a)
{
   carg *c = a;
   use(c->h, c->r, c->sz);
   EV("[\"dc\",%d]", c->h);
}
static void
idworker(void *arg)
{
   me       = (long)arg;
   uint64 r = mix(seed * 99 + me);
   for (int i = 0; i < nops; i++) {
      r        = mix(r);
      uint64 sz = (r >> 20) % 3 == 0 ? 0 : 1 + (r >> 30) % 20000;
      int    h  = __sync_fetch_and_add(&nexth, 1);
      vf_ctl_point();
      if (r % 8 || __sync_fetch_and_add(&budget, -1) <= 0) {
         EV("[\"rc\",%d]", h);
         platform_status rc = task_register_thread(S.ts, sz, "f", 1, "f");
         if (!SUCCESS(rc)) {
            EV("[\"rr\",%d,0,0,1]", h);
            continue;
         }
         use(h, r >> 40, sz);
         EV("[\"dc\",%d]", h);
         task_deregister_thread(S.ts, "f", 1, "f");
         EV("[\"dr\",%d]", h);
      } else {
         carg            c = {h, r >> 40, sz};
         platform_thread th;
         EV("[\"rc\",%d]", h);
         platform_status rc = task_thread_create("x", created, &c, sz, S.ts, S.hid, &th);
         if (!SUCCESS(rc)) {
            EV("[\"rr\",%d,0,0,1]", h);
            continue;
         }
         platform_thread_join(th);
         EV("[\"dr\",%d]", h);
      }
   }
}
int
main(int argc, char **argv)
{
   const char *dev = argv[1], *mode = argv[2];
   seed     = strtoull(argv[3], 0, 10);
   int thr  = atoi(argv[4]);
   nops     = atoi(argv[5]);
   int mean = atoi(argv[6]);
   int bg1 = atoi(argv[7]), bg2 = atoi(argv[8]);
   kidpct = atoi(argv[9]);
   ve_open(argv[10]);
   platform_set_log_streams(fopen("/dev/null", "w"), stderr);
   signal(SIGPIPE, SIG_IGN);
#ifdef VF_CTL
   vf_ctl_start(seed, mean);
#else
   (void)mean;
#endif
   me = 0;
   EV("[\"up\",%d,%d]", bg1, bg2);
   st_up(&S, dev, 32ull << 20, 4 << 20, 4096, bg1, bg2);
   platform_thread th[64];
   if (mode[0] == 'i') {
      freopen("/dev/null", "w", stderr);
      // the first identities are this thread's; kidpct more are reserved
      int mine[64], n = 0;
      EV("[\"rc\",0]");
      EV("[\"rr\",0,1,%lu,1]", (uint64)platform_get_tid());
      for (int i = 0; i < kidpct; i++) {
         int h = __sync_fetch_and_add(&nexth, 1);
         platform_set_tid(INVALID_TID);
         EV("[\"rc\",%d]", h);
         platform_status rc = task_register_thread(S.ts, 64, "f", 1, "f");
         EV("[\"rr\",%d,%d,%lu,1]", h, SUCCESS(rc) ? 1 : 0, SUCCESS(rc) ? (uint64)platform_get_tid() : 0);
         if (SUCCESS(rc)) {
            mine[n++] = platform_get_tid() | h << 8;
         }
      }
      platform_set_tid(0);
      budget = 60;
      for (long t = 0; t < thr; t++) {
         platform_thread_create(&th[t], FALSE, idworker, (void *)(t + 1), S.hid);
      }
      for (int t = 0; t < thr; t++) {
         platform_thread_join(th[t]);
      }
      while (n > 0) {
         n--;
         platform_set_tid(mine[n] & 0xff);
         EV("[\"dc\",%d]", mine[n] >> 8);
         task_deregister_thread(S.ts, "f", 1, "f");
         EV("[\"dr\",%d]", mine[n] >> 8);
      }
      platform_set_tid(0);
      st_down(&S);
   } else {
      for (long t = 0; t < thr; t++) {
         task_thread_create("w", worker, (void *)(t + 1), 4096, S.ts, S.hid, &th[t]);
      }
      for (int t = 0; t < thr; t++) {
         platform_thread_join(th[t]);
      }
      EV("[\"uc\",0]");
      platform_status rc = task_perform_until_quiescent(S.ts);
      EV("[\"ur\",0,%d]", !SUCCESS(rc));
      EV("[\"qc\",0]");
      bool32 q = task_system_is_quiescent(S.ts);
      EV("[\"qr\",0,%d]", !!q);
      st_down(&S);
   }
   EV("[\"down\"]");
#ifdef VF_CTL
   vf_ctl_stop();
#endif
   ve_write(NULL);
   return 0;
}
