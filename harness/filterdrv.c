// Filters built one upon another from runs of keys, and asked for every key,
// while pages come and go.
#include "vf_stack.h"
#include "routing_filter.h"
#define MAXF 48
static FILE *ve_f;
#define EV(...) (fprintf(ve_f, __VA_ARGS__), fprintf(ve_f, "\n"), fflush(ve_f))
static vf_stack       S;
static routing_config cfg;
static data_config    dcfg;
static uint64         seed;
static int            hashkind, keylens;
static uint64
mix(uint64 x)
{
   x += 0x9e3779b97f4a7c15ull;
   x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
   x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
   return x ^ (x >> 31);
}
static uint64
rnd(uint64 n)
{
   seed += 0x632be59bd9b4e019ull;
   return mix(seed) % n;
}
static uint32
vhash(const void *p, size_t n, uint32 s)
{
   uint32 h = platform_hash32(p, n, s);
   switch (hashkind) {
      case 1: // all the same
         return 0x9abcdef1u;
      case 2: // a few
         return (h % 7) * 0x24924924u;
      case 3: // the same fingerprints again and again
         return (h & 0x3ff) * 0x00400801u;
      case 4: // only the upper bits
         return h & 0xfff00000u;
      case 5: // all zeros, all ones, and others
         return h % 3 == 0 ? 0 : h % 3 == 1 ? 0xffffffffu : h;
      case 7: // too close by
         return h & 0xffff;
      case 6: // close by
         return (h & 0x7f) + ((h >> 7) & 3) * 0x40000000u;
      default:
         return h;
   }
}
static key
mkkey(uint32 k, char *b)
{
   uint64 n = keylens == 0 ? 8 : 4 + k % 13;
   memset(b, 0, 32);
   memcpy(b, &k, 4);
   return key_create(n, b);
}
typedef struct {
   routing_filter f;
   uint64         mask; // values it covers
   int            live;
} filt;
static filt F[MAXF];
typedef struct {
   routing_async_ctxt ctxt;
   cache_async_ctxt   cc;
   int                i;
   volatile int       ready, done;
   uint64             found;
   char               b[32];
   key                k;
} alook;
static void
acb(routing_async_ctxt *c)
{
   ((alook *)c)->ready = 1;
}
#define MAXL 4000
static uint32 lk[MAXL];
static uint64 lf[MAXL];
static alook  al[MAXL];
static uint64 waits, locked, rounds;
static void
ask(int f, int n, int async)
{
   if (!async) {
      for (int i = 0; i < n; i++) {
         char b[32];
         if (!SUCCESS(routing_filter_lookup((cache *)&S.cc, &cfg, &F[f].f, mkkey(lk[i], b), &lf[i]))) {
            exit(3);
         }
      }
   } else {
      int width = 1 + rnd(20), next = 0, open = 0, fin = 0;
      uint64 idle = 0;
      while (fin < n) {
         while (next < n && open < width) {
            alook *a = &al[next];
            memset(a, 0, sizeof(*a));
            a->i = next;
            a->k = mkkey(lk[next], a->b);
            routing_filter_ctxt_init(&a->ctxt, &a->cc, acb);
            a->ready = 1;
            next++;
            open++;
         }
         int moved = 0;
         for (int i = 0; i < next; i++) {
            alook *a = &al[i];
            if (a->done || !a->ready) {
               continue;
            }
            a->ready = 0;
            moved    = 1;
            // the callback may be called before this returns
            cache_async_result r =
               routing_filter_lookup_async((cache *)&S.cc, &cfg, &F[f].f, a->k, &a->found, &a->ctxt);
            if (r == async_success) {
               a->done = 1;
               lf[i]   = a->found;
               fin++;
               open--;
            } else if (r == async_io_started) {
               waits++;
            } else {
               locked++;
               a->ready = 1;
            }
         }
#if !SPLINTER_DEBUG // asserts that no page is in use
         if (rnd(6) == 0) {
            cache_evict((cache *)&S.cc, TRUE);
         }
#endif
         cache_cleanup((cache *)&S.cc);
         if (!moved && ++idle > 2000000) {
            printf("lookups not completed\n");
            abort();
         }
      }
   }
   // equal results together
   static char done[MAXL];
   memset(done, 0, n);
   rounds++;
   fprintf(ve_f, "[\"look\",%d,%d,[", f, async);
   int first = 1;
   for (int i = 0; i < n; i++) {
      if (done[i]) {
         continue;
      }
      fprintf(ve_f, "%s[[", first ? "" : ",");
      first = 0;
      for (int v = 0, c = 0; v < 64; v++) {
         if (lf[i] >> v & 1) {
            fprintf(ve_f, "%s%d", c++ ? "," : "", v);
         }
      }
      fprintf(ve_f, "],[");
      for (int j = i, c = 0; j < n; j++) {
         if (!done[j] && lf[j] == lf[i]) {
            done[j] = 1;
            fprintf(ve_f, "%s%u", c++ ? "," : "", lk[j]);
         }
      }
      fprintf(ve_f, "]]");
   }
   fprintf(ve_f, "]]\n");
   fflush(ve_f);
}
int
main(int argc, char **argv)
{
   // file seed hash fpsize logindex steps scale cachepages keylens trace
   seed     = strtoull(argv[2], 0, 0);
   hashkind = atoi(argv[3]);
   keylens  = atoi(argv[9]);
   ve_f     = fopen(argv[10], "w");
   int    steps = atoi(argv[6]), scale = atoi(argv[7]);
   st_up(&S, argv[1], 512ull << 20, (uint64)atoi(argv[8]) * 4096, 0, 0, 0);
   dcfg.max_key_size    = 32;
   cfg.cache_cfg        = (cache_config *)&S.cc_cfg;
   cfg.data_cfg         = &dcfg;
   cfg.fingerprint_size = atoi(argv[4]);
   cfg.log_index_size   = atoi(argv[5]);
   cfg.index_size       = 1u << cfg.log_index_size;
   cfg.hash             = vhash;
   cfg.seed             = rnd(1 << 20);
   uint32  universe     = scale * 2 + 3;
   uint32 *fps          = malloc(4 * (universe + 8) * 2);
   int     nf           = 0;
   for (int s = 0; s < steps; s++) {
      int live[MAXF], nl = 0;
      for (int i = 0; i < nf; i++) {
         if (F[i].live) {
            live[nl++] = i;
         }
      }
      int what = rnd(10);
      if ((nl == 0 || what < 4) && nf < MAXF) {
         int p = nl == 0 || rnd(10) == 0 ? -1 : rnd(3) ? live[nl - 1] : live[rnd(nl)];
         int top = p < 0 ? -1 : 63 - (F[p].mask ? __builtin_clzll(F[p].mask) : 63);
         int v   = top + 1 + (rnd(6) == 0 ? rnd(4) : 0);
         if (v > 0 && p >= 0 && rnd(12) == 0) {
            v = top; // more of the same run
         }
         if (v >= MAX_FILTERS) {
            continue;
         }
         uint64 n = rnd(5) == 0 ? rnd(4) : rnd(4) ? rnd(scale + 1) : rnd(20);
         if (n == 0 && p < 0) {
            n = 1;
         }
         if (p >= 0 && F[p].f.num_fingerprints + n > 4ull * scale + 50) {
            n = rnd(3);
         }
               fprintf(ve_f, "[\"add\",%d,%d,%d,[", nf, p, v);
         uint32 base = rnd(universe), dup = rnd(3);
         for (uint64 i = 0; i < n; i++) {
            uint32 k = dup == 0 ? rnd(universe) : dup == 1 ? (base + i) % universe : base;
            if (dup == 2 && i % 2) {
               k = rnd(universe);
            }
            char b[32];
            key  q = mkkey(k, b);
            fps[i] = vhash(key_data(q), key_length(q), cfg.seed);
            fprintf(ve_f, "%s%u", i ? "," : "", k);
         }
         fprintf(ve_f, "]]\n");
   fflush(ve_f);
         routing_filter none = {0};
         if (!SUCCESS(routing_filter_add((cache *)&S.cc, &cfg, p < 0 ? &none : &F[p].f, &F[nf].f, fps, n, v))) {
            exit(3);
         }
         F[nf].mask = (p < 0 ? 0 : F[p].mask) | 1ull << v;
         F[nf].live = 1;
         nf++;
         EV("[\"added\",%d]", nf - 1);
      } else if (what < 8 && nl) {
         int f = rnd(3) ? live[nl - 1] : live[rnd(nl)];
         int n = 0;
         if (universe < 1500) {
            for (uint32 k = 0; k < universe; k++) {
               lk[n++] = k;
            }
         } else {
            for (; n < 1000; n++) {
               lk[n] = rnd(universe);
            }
         }
         if (rnd(2)) {
            cache_flush((cache *)&S.cc);
            cache_evict((cache *)&S.cc, TRUE);
         }
         ask(f, n, rnd(2));
      } else if (what == 8) {
         cache_flush((cache *)&S.cc);
         cache_evict((cache *)&S.cc, TRUE);
      } else if (nl > 1 && rnd(2)) {
         int f = live[rnd(nl)];
         EV("[\"zap\",%d]", f);
         F[f].live = 0;
         routing_filter_zap((cache *)&S.cc, &F[f].f);
      }
   }
   EV("[\"done\"]");
   fprintf(stderr, "waits %lu locked %lu rounds %lu filters %d\n", waits, locked, rounds, nf);
   st_down(&S);
   return 0;
}
