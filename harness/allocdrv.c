// Threads take, share and drop references on extents of a small device; every
// call is recorded with the moments of call and return.
#include "vf_stack.h"
#include "vf_evlog.h"
static vf_stack S;
static int      nthr, nops, next_;
static uint64   esz;
#define MAXOWN 400
static volatile uint64 mailbox[8];
static uint64          seed;
static int             greedy;

static uint64
rnd(uint64 *s)
{
   *s ^= *s << 13;
   *s ^= *s >> 7;
   *s ^= *s << 17;
   return *s;
}
static uint64 keep[VE_MAXT][MAXOWN];
static int    nkeep[VE_MAXT];

static void
call(int t, long c, const char *op, uint64 e, long res)
{
   long r = ve_now();
   ve_at(c, "[\"c\",%d,\"%s\",%lu,%ld]", t, op, e, res);
   ve_at(r, "[\"r\",%d]", t);
}
static void
drop(int t, uint64 e)
{
   long  c = ve_now();
   uint8 r = allocator_dec_ref((allocator *)&S.al, e * esz, PAGE_TYPE_BRANCH);
   call(t, c, "dec", e, r);
   if (r == 1) {
      c = ve_now();
      r = allocator_dec_ref((allocator *)&S.al, e * esz, PAGE_TYPE_BRANCH);
      call(t, c, "dec", e, r);
   }
}
static void
worker(void *arg)
{
   int     t = (int)(long)arg;
   uint64  s = seed * 7919 + t * 104729 + 1;
   uint64 *o = keep[t];
   for (int i = 0; i < 5; i++) {
      rnd(&s);
   }
   for (int i = 0; i < nops; i++) {
      int  k = rnd(&s) % 100;
      long c;
      vf_ctl_point();
      if (nkeep[t] < MAXOWN - 2 && (nkeep[t] == 0 || k < (greedy == 1 ? 55 : greedy == 2 ? 6 : 30))) {
         uint64 a  = 12345;
         c         = ve_now();
         platform_status rc = allocator_alloc((allocator *)&S.al, &a, PAGE_TYPE_BRANCH);
         call(t, c, "alloc", SUCCESS(rc) ? a / esz : 0, SUCCESS(rc) ? (a % esz ? -2 : 1) : 0);
         if (SUCCESS(rc)) {
            o[nkeep[t]++] = a / esz;
         } else if (nkeep[t]) {
            drop(t, o[--nkeep[t]]);
         }
      } else if (k < (greedy == 2 ? 52 : 60) && nkeep[t] < MAXOWN - 2 && nkeep[t]) {
         uint64 e = o[rnd(&s) % nkeep[t]];
         c        = ve_now();
         uint8 r  = allocator_inc_ref((allocator *)&S.al, e * esz);
         call(t, c, "inc", e, r);
         if (r > 200) {
            drop(t, e);
         } else {
            // hand the reference to whoever empties the box
            uint64 old = __sync_lock_test_and_set(&mailbox[rnd(&s) % 8], e + 1);
            if (old) {
               o[nkeep[t]++] = old - 1;
            }
         }
      } else if (k < 68 && nkeep[t]) {
         uint64 e = o[rnd(&s) % nkeep[t]];
         c        = ve_now();
         uint8 r  = allocator_get_refcount((allocator *)&S.al, e * esz);
         call(t, c, "get", e, r);
      } else if (nkeep[t]) {
         int    j = rnd(&s) % nkeep[t];
         uint64 e = o[j];
         o[j]     = o[--nkeep[t]];
         drop(t, e);
      }
   }
}
static void
list(const char *what)
{
   EV("[\"%s\",%lu,%lu]", what, allocator_in_use((allocator *)&S.al), allocator_get_capacity((allocator *)&S.al) / esz);
   for (int e = 0; e < next_; e++) {
      uint8 r = allocator_get_refcount((allocator *)&S.al, e * esz);
      if (r) {
         EV("[\"ref\",%d,%d]", e, r);
      }
   }
   EV("[\"refs\"]");
}
int
main(int argc, char **argv)
{
   seed       = strtoull(argv[2], 0, 10);
   nthr       = atoi(argv[3]);
   nops       = atoi(argv[4]);
   int rounds = atoi(argv[5]);
   next_      = atoi(argv[6]);
   int mean   = atoi(argv[7]);
   ve_open(argv[8]);
   esz = 128 << 10;
   st_up(&S, argv[1], next_ * esz, 8 << 20, 0, 0, 0);
   uint64 s = seed + 99;
   list("new");
   uint64 ids[30];
   int    nids = 0;
   for (int r = 0; r < rounds; r++) {
      greedy = rnd(&s) % 4; // 2: few extents, all shared
#ifdef VF_CTL
      vf_ctl_start(seed + r, mean);
#else
      (void)mean;
#endif
      platform_thread th[64];
      for (long t = 0; t < nthr; t++) {
         task_thread_create("w", worker, (void *)t, 0, S.ts, S.hid, &th[t]);
      }
      for (int t = 0; t < nthr; t++) {
         platform_thread_join(th[t]);
      }
#ifdef VF_CTL
      vf_ctl_stop();
#endif
      list("all");
      // names of databases on the device
      for (int i = 0; i < 6; i++) {
         int k = rnd(&s) % 10;
         if (k < 5 && nids < 30) {
            uint64 id = rnd(&s) % 1000000 + 1, a = 0;
            int    dup = 0;
            for (int j = 0; j < nids; j++) {
               dup |= ids[j] == id;
            }
            if (dup) {
               continue;
            }
            platform_status rc = allocator_alloc_super_addr((allocator *)&S.al, id, &a);
            EV("[\"sa\",%lu,%d,%lu,%lu]", id, SUCCESS(rc) ? 1 : 0, a / esz, a % esz / 4096);
            if (SUCCESS(rc)) {
               ids[nids++] = id;
            }
         } else if (k < 8) {
            uint64 id = nids && k < 7 ? ids[rnd(&s) % nids] : rnd(&s) % 1000000 + 1, a = 0;
            platform_status rc = allocator_get_super_addr((allocator *)&S.al, id, &a);
            EV("[\"sg\",%lu,%d,%lu,%lu]", id, SUCCESS(rc) ? 1 : 0, a / esz, a % esz / 4096);
         } else if (nids) {
            int j = rnd(&s) % nids;
            allocator_remove_super_addr((allocator *)&S.al, ids[j]);
            EV("[\"sr\",%lu]", ids[j]);
            ids[j] = ids[--nids];
         }
      }
      if (rnd(&s) % 3 == 0) {
         clockcache_deinit(&S.cc);
         rc_allocator_unmount(&S.al);
         memset(&S.al, 0xa5, sizeof(S.al));
         if (!SUCCESS(rc_allocator_mount(&S.al, &S.al_cfg, (io_handle *)&S.io, S.hid, platform_get_module_id()))) {
            exit(3);
         }
         st_cache_up(&S);
         list("all");
      }
   }
   for (int t = 0; t < nthr; t++) {
      while (nkeep[t]) {
         drop(0, keep[t][--nkeep[t]]);
      }
   }
   for (int i = 0; i < 8; i++) {
      if (mailbox[i]) {
         drop(0, mailbox[i] - 1);
      }
   }
   list("empty");
   ve_write(NULL);
   st_down(&S);
   return 0;
}
