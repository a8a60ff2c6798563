// The page cache under random use.
// args: file seed threads ops rounds slots cache_pages hot mean out
#include "vf_evlog.h"
#include "vf_stack.h"
#define PPE 32
#define WORDS 12
#define MAXSLOT 60
static vf_stack S;
static cache   *cc;
static int      nthr, nops, nslots, hot;
static uint64   seed0;
static struct {
   uint64       addr; // 0: no extent
   _Atomic int  users; // -1: being set up or torn down
   page_type    type;
   int          up; // pages given out so far
} slot[MAXSLOT];
static atomic_long version = 1;
typedef struct {
   uint64 seed;
   int    t;
   int    priv; // slot used by this thread alone, or -1
} thr;
static uint64
rnd(thr *t)
{
   t->seed ^= t->seed << 13;
   t->seed ^= t->seed >> 7;
   t->seed ^= t->seed << 17;
   return t->seed >> 9;
}
static const int at[WORDS] = {0, 1, 7, 8, 63, 64, 100, 255, 256, 300, 510, 511};
static uint64
word(int p, long v, int i)
{
   return ((uint64)p << 48) ^ ((uint64)v << 8) ^ at[i];
}
static void
put(char *data, int p, long v)
{
   for (int i = 0; i < WORDS; i++) {
      ((volatile uint64 *)data)[at[i]] = word(p, v, i);
      vf_ctl_point();
   }
}
// the version all words agree on, or -1
static long
look(const char *data, int p)
{
   uint64 w = ((volatile uint64 *)data)[0] ^ ((uint64)p << 48);
   long   v = (long)(w >> 8);
   for (int i = 0; i < WORDS; i++) {
      vf_ctl_point();
      if (((volatile uint64 *)data)[at[i]] != word(p, v, i)) {
         return -1;
      }
   }
   return v > 0 && v < (1L << 24) ? v : -1;
}
static void
pausing(thr *t)
{
   int n = rnd(t) % 3 ? rnd(t) % 4 : rnd(t) % 60;
   for (int i = 0; i < n; i++) {
      vf_ctl_point();
   }
   if (rnd(t) % 12 == 0) {
#ifdef VF_CTL
      vf_ctl_wait();
#endif
   }
}
static int
enter(int s, int excl)
{
   int u = slot[s].users;
   while (excl ? u == 0 : u >= 0) {
      if (atomic_compare_exchange_weak(&slot[s].users, &u, excl ? -1 : u + 1)) {
         return 1;
      }
   }
   return 0;
}
static void
leave(int s, int excl)
{
   if (excl) {
      slot[s].users = 0;
   } else {
      slot[s].users--;
   }
}
static uint64
addr_of(int s, int i)
{
   return slot[s].addr + (uint64)i * 4096;
}
static void
async_cb(cache_async_ctxt *c)
{
   *(volatile int *)c->cbdata = 1;
}
static page_handle *
acquire(thr *t, int s, int i)
{
   uint64       a = addr_of(s, i);
   page_handle *pg;
   int          how = rnd(t) % 10;
   if (how < 6) {
      return cache_get(cc, a, TRUE, slot[s].type);
   }
   if (how < 8) {
      while ((pg = cache_get(cc, a, FALSE, slot[s].type)) == NULL) {
         vf_ctl_wait();
      }
      return pg;
   }
   cache_async_ctxt ctxt;
   volatile int     done;
   for (;;) {
      done = 0;
      cache_ctxt_init(cc, async_cb, (void *)&done, &ctxt);
      cache_async_result r = cache_get_async(cc, a, slot[s].type, &ctxt);
      if (r == async_success) {
         return ctxt.page;
      }
      if (r == async_io_started) {
         while (!done) {
            cache_cleanup(cc);
            vf_ctl_point();
         }
         cache_async_done(cc, slot[s].type, &ctxt);
         return ctxt.page;
      }
      cache_cleanup(cc);
      vf_ctl_wait();
   }
}
static long
disk(uint64 a, int p)
{
   static __thread char buf[4096];
   if (pread(S.fd, buf, 4096, a) != 4096) {
      return -1;
   }
   return look(buf, p);
}
static void
use(thr *t, int s, int i)
{
   int          p  = s * PPE + i;
   page_handle *pg = acquire(t, s, i);
   EV("[\"get\",%d,%d]", t->t, p);
   if (pg->disk_addr != addr_of(s, i)) {
      EV("[\"rd\",%d,%d,-2]", t->t, p);
   }
   long v = look(pg->data, p);
   EV("[\"rd\",%d,%d,%ld]", t->t, p, v);
   pausing(t);
   if (rnd(t) % 3 == 0) {
      EV("[\"rd\",%d,%d,%ld]", t->t, p, look(pg->data, p));
   }
   if (rnd(t) % 10 < 4) {
      int got = 1;
      while (!cache_try_claim(cc, pg)) {
         if (rnd(t) % 3 == 0) {
            got = 0;
            break;
         }
         EV("[\"unget\",%d,%d]", t->t, p);
         cache_unget(cc, pg);
         vf_ctl_wait();
         pg = acquire(t, s, i);
         EV("[\"get\",%d,%d]", t->t, p);
      }
      if (got) {
         EV("[\"claim\",%d,%d]", t->t, p);
         EV("[\"rd\",%d,%d,%ld]", t->t, p, look(pg->data, p));
         pausing(t);
         if (rnd(t) % 5) {
            cache_lock(cc, pg);
            EV("[\"lock\",%d,%d]", t->t, p);
            if (rnd(t) % 6) {
               long nv    = version++;
               int  early = rnd(t) % 2;
               if (early) {
                  cache_mark_dirty(cc, pg);
               }
               EV("[\"wr\",%d,%d,%ld]", t->t, p, nv);
               put(pg->data, p, nv);
               if (!early) {
                  cache_mark_dirty(cc, pg);
               }
            }
            EV("[\"rd\",%d,%d,%ld]", t->t, p, look(pg->data, p));
            EV("[\"unlock\",%d,%d]", t->t, p);
            cache_unlock(cc, pg);
            if (rnd(t) % 3 == 0) {
               EV("[\"rd\",%d,%d,%ld]", t->t, p, look(pg->data, p));
               pausing(t);
            }
         }
         EV("[\"unclaim\",%d,%d]", t->t, p);
         cache_unclaim(cc, pg);
         if (s == t->priv && rnd(t) % 3 == 0) {
            int blocking = rnd(t) % 2;
            cache_page_sync(cc, pg, blocking, slot[s].type);
            if (blocking) {
               EV("[\"dev\",%d,%d,%ld]", t->t, p, disk(addr_of(s, i), p));
            }
         }
      }
      pausing(t);
   }
   EV("[\"unget\",%d,%d]", t->t, p);
   cache_unget(cc, pg);
}
// give out page i of the slot; exclusive or by the thread that sets it up
static void
fresh(thr *t, int s, int i)
{
   int          p  = s * PPE + i;
   long         v  = version++;
   page_handle *pg = cache_alloc(cc, addr_of(s, i), slot[s].type);
   EV("[\"new\",%d,%d,%ld]", t->t, p, v);
   put(pg->data, p, v);
   if (rnd(t) % 2) {
      cache_mark_dirty(cc, pg);
   }
   if (slot[s].type == PAGE_TYPE_MEMTABLE) {
      cache_pin(cc, pg);
   }
   pausing(t);
   EV("[\"unlock\",%d,%d]", t->t, p);
   cache_unlock(cc, pg);
   EV("[\"unclaim\",%d,%d]", t->t, p);
   cache_unclaim(cc, pg);
   EV("[\"unget\",%d,%d]", t->t, p);
   cache_unget(cc, pg);
}
static void
setup(thr *t, int s)
{
   slot[s].type = rnd(t) % 4 ? PAGE_TYPE_TRUNK : PAGE_TYPE_BRANCH;
   if (rnd(t) % 10 == 0 && nslots > 4) {
      slot[s].type = PAGE_TYPE_MEMTABLE;
   }
   if (!SUCCESS(allocator_alloc((allocator *)&S.al, &slot[s].addr, slot[s].type))) {
      exit(3);
   }
   int n = slot[s].type == PAGE_TYPE_MEMTABLE ? 2 : rnd(t) % 4 ? PPE : 1 + rnd(t) % PPE;
   if (hot) {
      n = hot;
   }
   for (int i = 0; i < n; i++) {
      fresh(t, s, i);
   }
   slot[s].up = n;
}
static void
teardown(thr *t, int s)
{
   EV("[\"free\",%d,%d]", t->t, s);
   if (slot[s].up == PPE && rnd(t) % 3 == 0) { // left behind by a scan
      cache_prefetch(cc, slot[s].addr, slot[s].type);
   }
   if (allocator_dec_ref((allocator *)&S.al, slot[s].addr, slot[s].type) != AL_NO_REFS) {
      exit(3);
   }
   cache_extent_discard(cc, slot[s].addr, slot[s].type);
   if (allocator_dec_ref((allocator *)&S.al, slot[s].addr, slot[s].type) != AL_FREE) {
      exit(3);
   }
   slot[s].addr = 0;
   slot[s].up   = 0;
}
static void
one(thr *t)
{
#if !SPLINTER_DEBUG
   // pressure on everything at once
   if (hot && rnd(t) % (t->t == 0 ? 3 : 40) == 0) {
      int what = rnd(t) % 4;
      if (what != 1) {
         cache_flush(cc);
      }
      if (what) {
         cache_evict(cc, TRUE);
      }
   }
#endif
   int s = t->priv >= 0 && rnd(t) % 6 == 0 ? t->priv : rnd(t) % nslots;
   if (s >= nslots - nthr && s != t->priv) {
      s = rnd(t) % (nslots - nthr);
   }
   if (rnd(t) % (hot ? 60 : 100) == 0 && enter(s, 1)) {
      if (slot[s].addr) {
         teardown(t, s);
      }
      if (rnd(t) % 8 || nslots < 4) {
         setup(t, s);
      }
      leave(s, 1);
      return;
   }
   if (!enter(s, 0)) {
      return;
   }
   if (slot[s].addr == 0) {
      leave(s, 0);
      return;
   }
   if (rnd(t) % 25 == 0 && slot[s].up == PPE) {
      cache_prefetch(cc, slot[s].addr, slot[s].type);
   }
   int i = rnd(t) % slot[s].up;
   use(t, s, i);
   if (rnd(t) % 3 == 0) { // neighbours, as a scan does
      for (int k = 1 + rnd(t) % 4; k > 0 && ++i < slot[s].up; k--) {
         use(t, s, i);
      }
   }
   leave(s, 0);
   if (rnd(t) % 40 == 0) {
      cache_cleanup(cc);
   }
}
static void *
work(void *a)
{
   thr *t = a;
   for (int n = 0; n < nops; n++) {
      one(t);
   }
   cache_cleanup(cc);
   return NULL;
}
static void
work_task(void *a)
{
   work(a);
}
int
main(int argc, char **argv)
{
   platform_set_log_streams(fopen("/dev/null", "w"), stderr);
   seed0      = strtoull(argv[2], 0, 10) * 0x9E3779B97F4A7C15ull + 12345;
   nthr       = atoi(argv[3]);
   nops       = atoi(argv[4]);
   int rounds = atoi(argv[5]);
   nslots     = atoi(argv[6]);
   hot        = atoi(argv[8]);
   ve_open(argv[10]);
#ifdef VF_CTL
   vf_ctl_freeze = 3 + seed0 % 20;
   vf_ctl_start(seed0, atoi(argv[9]));
#endif
   st_up(&S, argv[1], 64 << 20, (uint64)atoi(argv[7]) * 4096, 0, 0, 0);
   cc         = (cache *)&S.cc;
   thr main_t = {.seed = seed0 ^ 0xABCDEF, .t = nthr, .priv = -1};
   for (int i = 0; i < 8; i++) {
      rnd(&main_t);
   }
   nslots += nthr;
   for (int s = 0; s < nslots; s++) {
      if (s >= nslots - nthr || rnd(&main_t) % 5) {
         setup(&main_t, s);
      }
   }
   static thr      ts[64];
   platform_thread p[64];
   for (int i = 0; i < nthr; i++) {
      ts[i].t    = i;
      ts[i].seed = rnd(&main_t) * 7919 + i + 1;
      ts[i].priv = nslots - nthr + i;
   }
   for (int r = 0; r < rounds; r++) {
      for (int i = 0; i < nthr; i++) {
         if (!SUCCESS(task_thread_create("w", work_task, &ts[i], 0, S.ts, S.hid, &p[i]))) {
            return 3;
         }
      }
      for (int i = 0; i < nthr; i++) {
         platform_thread_join(p[i]);
      }
      int what = rnd(&main_t) % 4;
      if (what == 0) { // just go on
         continue;
      }
      cache_flush(cc);
      for (int s = 0; s < nslots; s++) {
         for (int i = 0; i < slot[s].up; i++) {
            EV("[\"dev\",%d,%d,%ld]", nthr, s * PPE + i, disk(addr_of(s, i), s * PPE + i));
         }
      }
      if (what == 2) {
         cache_evict(cc, TRUE);
      }
      if (what == 3) {
         clockcache_deinit(&S.cc);
         st_cache_up(&S);
      }
      for (int s = 0; s < nslots; s++) {
         for (int i = 0; i < slot[s].up; i++) {
            if (rnd(&main_t) % 4 == 0) {
               page_handle *pg = cache_get(cc, addr_of(s, i), TRUE, slot[s].type);
               EV("[\"get\",%d,%d]", nthr, s * PPE + i);
               EV("[\"rd\",%d,%d,%ld]", nthr, s * PPE + i, look(pg->data, s * PPE + i));
               EV("[\"unget\",%d,%d]", nthr, s * PPE + i);
               cache_unget(cc, pg);
            }
         }
      }
   }
   for (int s = 0; s < nslots; s++) {
      if (slot[s].addr) {
         teardown(&main_t, s);
      }
   }
   cache_assert_free(cc);
   st_down(&S);
   ve_write("[\"done\"]");
   return 0;
}
