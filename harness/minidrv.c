// Extent lists (mini allocators), keyed and unkeyed: random histories with
// every request to the extent allocator recorded between the operations.
#include "vf_stack.h"
#include "mini_allocator.h"
#include "splinterdb/default_data_config.h"
#include "vf_evlog.h"
#include "vf_alloc.h"
static vf_stack    S;
static data_config dcfg;
static uint64      seed, esz = 128 << 10;
static int         NK; // keys 1..NK; 0 and NK+1 are the infinities
static int         klen;
#define MAXS 12
#define MAXH 40
typedef struct {
   int            filled, nextents;
   int            alive, keyed, nb, released, single, ext, blocked, reserved_done;
   page_type      type;
   uint64         head;
   mini_allocator m;
   int            lastkey[MINI_MAX_BATCHES];
   int            hold[MAXH][2], nh;
} str;
static str st[MAXS];
static int nfull;
static uint64
rnd(void)
{
   static uint64 x;
   if (!x) {
      x = seed * 2654435761u + 12345;
   }
   x ^= x << 13;
   x ^= x >> 7;
   x ^= x << 17;
   return x >> 11;
}
static char kb[8][2000];
static key
mk(int slot, int k)
{
   if (k <= 0) {
      return NEGATIVE_INFINITY_KEY;
   }
   if (k > NK) {
      return POSITIVE_INFINITY_KEY;
   }
   memset(kb[slot], 'k', klen);
   kb[slot][0] = k >> 8;
   kb[slot][1] = k & 255;
   // keys of very different lengths
   return key_create(k % 3 == 0 ? 4 : klen, kb[slot]);
}
static void
emit1(const char *s)
{
   EV("%s", s);
}
static void
touch(str *s, uint64 a)
{
   page_handle *p = cache_alloc((cache *)&S.cc, a, s->type);
   memset(p->data, 0x5a, 4096);
   cache_unlock((cache *)&S.cc, p);
   cache_unclaim((cache *)&S.cc, p);
   cache_unget((cache *)&S.cc, p);
}
static void
one_alloc(str *s, int i, int b, int k, const char *ev)
{
   uint64 nx = 0;
   uint64 a  = mini_alloc(&s->m, b, s->keyed ? mk(0, k) : NULL_KEY, &nx);
   touch(s, a);
   if (a % esz == 0) {
      __sync_fetch_and_add(&s->nextents, 1);
   }
   EV("[\"%s\",%d,%d,%d,%lu,%lu,%lu,%lu]", ev, i, b, k, a / esz, a % esz / 4096, a % 4096, nx / esz);
}
static int par_n, par_b;
static str *par_s;
static int  par_i;
static volatile int par_next, par_true;
static void
par_alloc(void *arg)
{
   (void)arg;
   for (int j = 0; j < par_n; j++) {
      vf_ctl_point();
      one_alloc(par_s, par_i, j % 3 && par_s->filled != 2 ? par_b : (int)((long)arg % par_s->nb), 0, "mac");
   }
}
static int
dec_hold(str *s, int h, int slot)
{
   return mini_keyed_dec_ref((cache *)&S.cc, &dcfg, s->type, s->head, mk(slot, s->hold[h][0]), mk(slot + 1, s->hold[h][1]));
}
static void
par_dec(void *arg)
{
   int  h = (int)(long)arg;
   // keys of its own
   char b[2][2000];
   key  k[2];
   for (int j = 0; j < 2; j++) {
      int v = par_s->hold[h][j];
      memset(b[j], 'k', klen);
      b[j][0] = v >> 8;
      b[j][1] = v & 255;
      k[j]    = v <= 0 ? NEGATIVE_INFINITY_KEY : v > NK ? POSITIVE_INFINITY_KEY : key_create(v % 3 == 0 ? 4 : klen, b[j]);
   }
   if (mini_keyed_dec_ref((cache *)&S.cc, &dcfg, par_s->type, par_s->head, k[0], k[1])) {
      __sync_fetch_and_add(&par_true, 1);
   }
}
static void
run(int n, void (*f)(void *), int mean, int join)
{
   static platform_thread th[64];
   static int             running;
   if (n) {
#ifdef VF_CTL
      vf_ctl_start(seed + rnd(), mean);
#else
      (void)mean;
#endif
      running = n;
      for (long t = 0; t < n; t++) {
         task_thread_create("w", f, (void *)t, 0, S.ts, S.hid, &th[t]);
      }
   }
   if (join) {
      for (int t = 0; t < running; t++) {
         platform_thread_join(th[t]);
      }
#ifdef VF_CTL
      vf_ctl_stop();
#endif
   }
}
int
main(int argc, char **argv)
{
   seed     = strtoull(argv[2], 0, 10);
   int nops = atoi(argv[3]);
   NK       = atoi(argv[4]);
   klen     = atoi(argv[5]);
   int mean = atoi(argv[6]);
   ve_open(argv[7]);
   vf_alloc_emit = emit1;
   default_data_config_init(2000, &dcfg);
   st_up(&S, argv[1], 2000ul * esz, 64 << 20, 0, 0, 0);
   cache *cc = (cache *)&S.cc;
   for (int n = 0; n < nops; n++) {
      int  i = rnd() % MAXS, k = rnd() % 100;
      str *s = &st[i];
      if (n == nops - 1 || n == nops / 2) { // everything dies
         for (i = 0; i < MAXS; i++) {
            s = &st[i];
            if (!s->alive) {
               continue;
            }
            EV("[\"b\",\"kill\",%d]", i);
            if (!s->released) {
               mini_release(&s->m, s->keyed ? mk(0, NK) : NULL_KEY);
               s->hold[0][0] = 0;
               s->hold[0][1] = NK + 1;
               s->nh         = 1;
            }
            if (s->keyed) {
               while (s->nh) {
                  dec_hold(s, --s->nh, 0);
               }
            } else {
               while (s->ext--) {
                  mini_unkeyed_dec_ref(cc, s->head, s->type, s->type == PAGE_TYPE_MEMTABLE);
               }
            }
            s->alive = 0;
            EV("[\"e\"]");
         }
         nfull = 0;
         vf_alloc_check(1);
         continue;
      }
      if (!s->alive) {
         memset(s, 0, sizeof(*s));
         s->alive = 1;
         s->keyed = rnd() % 5 < 3;
         s->nb    = s->keyed ? 2 + rnd() % 3 : 1 + rnd() % MINI_MAX_BATCHES;
         static const page_type ut[] = {PAGE_TYPE_FILTER, PAGE_TYPE_TRUNK, PAGE_TYPE_LOG, PAGE_TYPE_MEMTABLE};
         s->type = s->keyed ? PAGE_TYPE_BRANCH : ut[rnd() % 4];
         s->ext  = 1;
         EV("[\"b\",\"init\",%d,%d,%d]", i, s->keyed, s->nb);
         if (!SUCCESS(allocator_alloc((allocator *)&S.al, &s->head, s->type))) {
            exit(3);
         }
         mini_init(&s->m, cc, &dcfg, s->head, 0, s->nb, s->type, s->keyed);
         EV("[\"e\",%lu]", s->head / esz);
         // the last list of a keyed one is a single extent that covers all keys
         if (s->keyed) {
            if (rnd() % 8 == 0) {
               EV("[\"b\",\"unused\",%d]", i);
               mini_destroy_unused(&s->m);
               s->alive = 0;
               EV("[\"e\"]");
               continue;
            }
            EV("[\"b\",\"op\",%d]", i);
            one_alloc(s, i, s->nb - 1, 1, "ma");
            EV("[\"e\"]");
         }
      } else if (!s->released && k < 75) {
         EV("[\"b\",\"op\",%d]", i);
         if (!s->keyed && k < 16) {
            if (k < 9 && !s->filled && nfull < 2) {
               // until the list's page of extents is nearly full
               int n0     = 507 - s->nextents + rnd() % 3;
               s->filled = 1;
               nfull++;
               EV("[\"gaps\",%d]", i);
               for (int j = 0; j < n0 * 32; j++) {
                  uint64 nx, a = mini_alloc(&s->m, j / 32 % s->nb, NULL_KEY, &nx);
                  if (a % esz == 0) {
                     touch(s, a);
                     EV("[\"mac\",%d,%d,%d,%lu,%lu,%lu,%lu]", i, j / 32 % s->nb, 0, a / esz, a % esz / 4096, a % 4096, nx / esz);
                  }
               }
            }
            par_s = s;
            par_i = i;
            par_n = 10 + rnd() % 40 + (s->filled == 1 ? 60 : 0);
            s->filled += s->filled;
            par_b = rnd() % s->nb;
            run(2 + rnd() % 3, par_alloc, mean, 1);
         } else {
            int m = rnd() % 40 == 0 && klen > 100 ? 1600 : 1 + rnd() % 60, b = rnd() % (s->keyed ? s->nb - 1 : s->nb);
            for (int j = 0; j < m; j++) {
               if (s->keyed && s->lastkey[b] < NK && rnd() % 3 == 0) {
                  s->lastkey[b] += rnd() % 3;
               }
               int kk = s->lastkey[b] < 1 ? 1 : s->lastkey[b] > NK ? NK : s->lastkey[b];
               one_alloc(s, i, b, s->keyed ? kk : 0, "ma");
            }
         }
         EV("[\"e\"]");
      } else if (!s->released) {
         EV("[\"b\",\"release\",%d]", i);
         mini_release(&s->m, s->keyed ? mk(0, NK) : NULL_KEY);
         s->released = 1;
         EV("[\"e\",%d]", NK + 1);
         s->hold[0][0] = 0;
         s->hold[0][1] = NK + 1;
         s->nh         = 1;
      } else if (!s->keyed) {
         if (k < 35 && s->type != PAGE_TYPE_MEMTABLE) {
            uint64 tail = mini_meta_tail(&s->m);
            EV("[\"b\",\"reload\",%d]", i);
            mini_init(&s->m, cc, &dcfg, s->head, tail, s->nb, s->type, FALSE);
            s->released = 0;
            EV("[\"e\"]");
         } else if (k < 65 && s->ext < 30) {
            EV("[\"b\",\"uinc\",%d]", i);
            int r = mini_unkeyed_inc_ref(cc, s->head);
            s->ext++;
            EV("[\"e\",%d]", r);
         } else {
            EV("[\"b\",\"udec\",%d]", i);
            int r = mini_unkeyed_dec_ref(cc, s->head, s->type, s->type == PAGE_TYPE_MEMTABLE);
            if (--s->ext == 0) {
               s->alive = 0;
            }
            EV("[\"e\",%d]", r);
         }
      } else {
         int h = rnd() % s->nh, lo = s->hold[h][0], hi = s->hold[h][1];
         if (k < 25 && s->nh < MAXH - 1) { // another reference on a part
            int a = lo + rnd() % (hi - lo + 1), b = a + rnd() % (hi - a + 1);
            EV("[\"b\",\"kinc\",%d,%d,%d]", i, a, b);
            mini_keyed_inc_ref(cc, &dcfg, s->type, s->head, mk(0, a), mk(1, b));
            s->hold[s->nh][0] = a;
            s->hold[s->nh][1] = b;
            s->nh++;
            EV("[\"e\"]");
         } else if (k < 45 && s->nh < MAXH - 1) { // a range split in two
            int a = lo + rnd() % (hi - lo + 1);
            EV("[\"b\",\"split\",%d,%d,%d,%d]", i, lo, hi, a);
            mini_keyed_inc_ref(cc, &dcfg, s->type, s->head, mk(0, a), mk(1, a));
            s->hold[h][1]     = a;
            s->hold[s->nh][0] = a;
            s->hold[s->nh][1] = hi;
            s->nh++;
            EV("[\"e\"]");
         } else if (k < 55) {
            EV("[\"b\",\"count\",%d,%d,%d]", i, lo, hi);
            uint64 c = mini_keyed_extent_count(cc, &dcfg, s->type, s->head, mk(0, lo), mk(1, hi));
            EV("[\"e\",%lu]", c);
         } else if (k < 70 || s->nh < 2) {
            int blk = rnd() % 3 == 0;
            EV("[\"b\",\"kdec\",%d,%d,%d]", i, lo, hi);
            if (blk) {
               mini_block_dec_ref(cc, s->head);
               EV("[\"block\",%d]", i);
               int t0        = s->nh;
               par_s         = s;
               par_true      = 0;
               // the dropped range is moved to the front for the thread
               int x0        = s->hold[0][0], x1 = s->hold[0][1];
               s->hold[0][0] = lo;
               s->hold[0][1] = hi;
               if (h) {
                  s->hold[h][0] = x0;
                  s->hold[h][1] = x1;
               }
               h = 0;
               (void)t0;
               run(1, par_dec, mean, 0);
               for (int w = 0; w < 30; w++) {
                  vf_ctl_wait();
               }
               EV("[\"unblock\",%d]", i);
               mini_unblock_dec_ref(cc, s->head);
               run(0, NULL, 0, 1);
            } else {
               par_true = dec_hold(s, h, 0) ? 1 : 0;
            }
            s->nh--;
            s->hold[h][0] = s->hold[s->nh][0];
            s->hold[h][1] = s->hold[s->nh][1];
            if (s->nh == 0) {
               s->alive = 0;
            }
            EV("[\"e\",%d]", par_true);
         } else {
            // several dropped at once
            int m = s->nh > 4 ? 4 : s->nh;
            if (m == s->nh && rnd() % 2) {
               m--;
            }
            EV("[\"b\",\"kdecs\",%d,%d]", i, m);
            for (int j = 0; j < m; j++) {
               EV("[\"h\",%d,%d]", s->hold[j][0], s->hold[j][1]);
            }
            par_s    = s;
            par_true = 0;
            run(m, par_dec, mean, 1);
            for (int j = m; j < s->nh; j++) {
               s->hold[j - m][0] = s->hold[j][0];
               s->hold[j - m][1] = s->hold[j][1];
            }
            s->nh -= m;
            if (s->nh == 0) {
               s->alive = 0;
            }
            EV("[\"e\",%d]", par_true);
         }
      }
      if (rnd() % 25 == 0) {
         cache_flush(cc);
      }
   }
   ve_write(NULL);
   st_down(&S);
   return 0;
}
