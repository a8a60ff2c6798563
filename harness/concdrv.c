// Concurrent driver: threads issue point operations and scans, recording the
// call and return of each with stamps of one global counter.
#include "vf_common.h"
#ifdef VF_CTL
#include "vf_ctl.h"
static int vf_sched_on, vf_sched_seed;
#else
#include "vf_sched.h"
#endif
#include "splinterdb/public_platform.h"
#include <pthread.h>
#include <stdatomic.h>
#ifdef VF_TUNE
#include "splinterdb_tests_private.h"
#endif

static splinterdb       *kvs;
static splinterdb_config cfg;
static vf_dcfg           dcfg = {.max_key = 64, .merge = 1};
static data_config       dc;
static FILE             *out;
static atomic_long       stamp = 1;
static atomic_int        next_id = 1;
static uint64            tune_kv, tune_leaf, tune_branches, tune_mt;
static int               nhot, hot[64], pattern;
static int               vmin = 10, vmax = 60, fmin = 300, fmax = 1200;

typedef struct {
   char kind;
   int  key, id, rc, found, nids;
   long c, r;
   int *ids;
} oprec;
typedef struct {
   int  key;
   long r;
   int  nids;
   int *ids;
} srec;
typedef struct {
   int      tid, scan, nops, first, next, stride;
   uint64_t seed;
   oprec   *ops;
   int      n;
   char    *sbuf; // printed scans
   size_t   sl;
   FILE    *sf;
} thr;

static uint64_t
rnd(thr *t)
{
   t->seed ^= t->seed << 13;
   t->seed ^= t->seed >> 7;
   t->seed ^= t->seed << 17;
   return t->seed >> 8;
}
static void
dump(FILE *f, thr *ts, int n)
{
   for (int i = 0; i < n; i++) {
      for (int j = 0; j < ts[i].n; j++) {
         oprec *o = &ts[i].ops[j];
         fprintf(f,
                 "[\"%c\",%d,%d,%d,%ld,%ld,%d,%d,[",
                 o->kind,
                 ts[i].tid,
                 o->key,
                 o->id,
                 o->c,
                 o->r,
                 o->rc,
                 o->found);
         for (int k = 0; k < o->nids; k++) {
            fprintf(f, k ? ",%d" : "%d", o->ids[k]);
         }
         fprintf(f, "]]\n");
      }
      if (ts[i].sf) {
         fflush(ts[i].sf);
         fwrite(ts[i].sbuf, 1, ts[i].sl, f);
      }
   }
}
static void
do_lookup(thr *t, int k, splinterdb_lookup_result *res)
{
   oprec *o = &t->ops[t->n];
   memset(o, 0, sizeof(*o));
   o->kind  = 'l';
   o->key   = k;
   o->c     = atomic_fetch_add(&stamp, 1);
   o->rc    = splinterdb_lookup(kvs, vf_key_slice(k), res);
   o->found = o->rc == 0 && splinterdb_lookup_found(res);
   slice v  = NULL_SLICE;
   if (o->found && splinterdb_lookup_result_value(res, &v) != 0) {
      o->rc = 999;
   }
   o->r = atomic_fetch_add(&stamp, 1);
   if (o->found && o->rc == 0) {
      static __thread int ids[4096];
      int                 c = vf_decode(slice_data(v), slice_length(v), ids, 4096);
      if (c < 0) {
         ids[0] = -1;
         c      = 1;
      }
      o->nids = c;
      o->ids  = malloc(sizeof(int) * (c + 1));
      memcpy(o->ids, ids, sizeof(int) * c);
   }
   t->n++;
}
static void
do_scan(thr *t)
{
   int                  back  = rnd(t) % 4 == 0;
   int                  start = rnd(t) % 3 ? 0 : 1 + rnd(t) % vf_nkeys;
   splinterdb_iterator *it    = NULL;
   static __thread int  ids[4096];
   long                 c = atomic_fetch_add(&stamp, 1);
   // backward scans start from the end of a prior positioning
   if (back && start == 0) {
      start = vf_nkeys;
   }
   int rc = splinterdb_iterator_init(kvs, &it, start ? vf_key_slice(start) : NULL_SLICE);
   fprintf(t->sf, "[\"s\",%d,%d,%d,%ld,%d,[", t->tid, back, start, c, rc);
   int first = 1, n = 0, limit = rnd(t) % 3 ? 1 << 30 : 1 + rnd(t) % 40;
   if (back && rc == 0 && !splinterdb_iterator_valid(it)
       && splinterdb_iterator_can_prev(it))
   {
      splinterdb_iterator_prev(it);
   }
   while (rc == 0 && splinterdb_iterator_valid(it) && n++ < limit) {
      slice k, v;
      splinterdb_iterator_get_current(it, &k, &v);
      int r = vf_rank_of(slice_data(k), slice_length(k));
      int m = vf_decode(slice_data(v), slice_length(v), ids, 4096);
      long s = atomic_fetch_add(&stamp, 1);
      fprintf(t->sf, first ? "[%d,%ld,[" : ",[%d,%ld,[", r, s);
      first = 0;
      if (m < 0) {
         fprintf(t->sf, "-1");
      }
      for (int i = 0; i < m; i++) {
         fprintf(t->sf, i ? ",%d" : "%d", ids[i]);
      }
      fprintf(t->sf, "]]");
      if (back) {
         splinterdb_iterator_prev(it);
      } else {
         splinterdb_iterator_next(it);
      }
   }
   int ended = rc == 0 && !splinterdb_iterator_valid(it);
   int st    = rc == 0 ? splinterdb_iterator_status(it) : 0;
   fprintf(t->sf, "],%d,%d,%ld]\n", ended, st, (long)atomic_fetch_add(&stamp, 1));
   if (rc == 0) {
      splinterdb_iterator_deinit(it);
   }
}
static void
point_ops(thr *t, int nops)
{
   splinterdb_lookup_result res;
   splinterdb_lookup_result_init(kvs, &res, 0, NULL);
   unsigned char *val = malloc(VF_MAXVAL);
   for (int i = 0; i < nops; i++) {
      int ishot = rnd(t) % 100 < 45;
      int k     = ishot ? hot[rnd(t) % nhot] : 1 + (int)(rnd(t) % vf_nkeys);
      int filler = 0;
      if (pattern && rnd(t) % 50) { // bulk load in key order: "here", or recent or older ones
         int pos = pattern == 3 ? (t->next * 7919) % vf_nkeys : t->next;
         filler  = rnd(t) % 4 != 0;
         if (filler) {
            t->next += t->stride;
            if (t->next >= vf_nkeys) {
               t->next = t->first;
            }
         } else {
            int d = rnd(t) % 2 ? rnd(t) % 300 : rnd(t) % 4000;
            pos   = d < pos ? pos - d : pos;
         }
         k     = 1 + (pattern == 2 ? vf_nkeys - 1 - pos : pos);
         ishot = 0;
      }
      int isreally = 0;
      for (int h = 0; h < nhot; h++) {
         isreally |= hot[h] == k;
      }
      int x = rnd(t) % 100;
      if (pattern && !filler ? x < 90 : !filler && x < (isreally ? 40 : 15)) {
         do_lookup(t, k, &res);
         continue;
      }
      oprec *o = &t->ops[t->n];
      memset(o, 0, sizeof(*o));
      o->key = k;
      o->id  = atomic_fetch_add(&next_id, 1);
      int len = isreally ? vmin + rnd(t) % (vmax - vmin + 1)
                         : fmin + rnd(t) % (fmax - fmin + 1);
      int y   = rnd(t) % 100;
      // filler keys are not updated (their values are long)
      o->kind = y < (filler ? 3 : 20) ? 'd' : (y < 60 && isreally) ? 'u' : 'i';
      int n   = vf_chunk_encode(val, o->id, len);
      slice s = slice_create(n, val), ks = vf_key_slice(k);
      o->c    = atomic_fetch_add(&stamp, 1);
      o->rc   = o->kind == 'd'   ? splinterdb_delete(kvs, ks)
                : o->kind == 'u' ? splinterdb_update(kvs, ks, s)
                                 : splinterdb_insert(kvs, ks, s);
      o->r    = atomic_fetch_add(&stamp, 1);
      t->n++;
   }
   free(val);
   splinterdb_lookup_result_deinit(&res);
}
static void *
worker(void *a)
{
   thr *t = a;
   splinterdb_register_thread(kvs);
   if (t->scan) {
      for (int i = 0; i < t->nops; i++) {
         do_scan(t);
      }
   } else {
      point_ops(t, t->nops);
   }
   splinterdb_deregister_thread(kvs);
   return NULL;
}
static thr *all;
static int  nall;
static void
on_sig(int s)
{
   _exit(128 + s);
}
static void
tune(void)
{
#ifdef VF_TUNE
   trunk_handle *spl = (trunk_handle *)splinterdb_get_trunk_handle(kvs);
   if (tune_kv)
      spl->cfg.max_kv_bytes_per_node = tune_kv;
   if (tune_leaf)
      spl->cfg.target_leaf_kv_bytes = tune_leaf;
   if (tune_branches)
      spl->cfg.max_branches_per_node = tune_branches;
   if (tune_mt)
      spl->mt_ctxt->cfg.max_extents_per_memtable = tune_mt;
#endif
}
int
main(int argc, char **argv)
{
   // in: config line; K line and keys; then "R seed threads scanners ops scans rounds perturb"
   FILE *in = fopen(argv[1], "r");
   out      = fopen(argv[2], "w");
   signal(SIGABRT, on_sig);
   signal(SIGSEGV, on_sig);
   signal(SIGBUS, on_sig);
   platform_set_log_streams(fopen("/dev/null", "w"), stderr);
   static char line[1 << 16];
   unsigned    seed = 1;
   int         nt = 3, ns = 1, nops = 300, nscan = 5, rounds = 2, perturb = 0, every = 1;
   while (fgets(line, sizeof(line), in)) {
      if (line[0] == 'C') {
         vf_cfg_parse(line + 1, &cfg, &dcfg);
      } else if (line[0] == 'K') {
         vf_read_keys(in, atoi(line + 1));
      } else if (line[0] == 'T') {
         sscanf(line + 1, "%lu %lu %lu %lu", &tune_kv, &tune_leaf, &tune_branches, &tune_mt);
      } else if (line[0] == 'V') {
         sscanf(line + 1, "%d %d %d %d", &vmin, &vmax, &fmin, &fmax);
      } else if (line[0] == 'R') {
         sscanf(line + 1,
                "%u %d %d %d %d %d %d %d %d",
                &seed, &nt, &ns, &nops, &nscan, &rounds, &perturb, &nhot, &pattern);
      }
   }
   for (int i = 0; i < nhot; i++) {
      hot[i] = 1 + (int)(((long)i * vf_nkeys + vf_nkeys / 2) / nhot);
   }
   cfg.filename = vf_filename;
   vf_data_config(&dc, dcfg.max_key, dcfg.cmp, dcfg.hash, dcfg.merge);
   cfg.data_cfg  = &dc;
   vf_sched_seed = seed;
#ifdef VF_CTL
   vf_ctl_start(seed, perturb);
#endif
   if (splinterdb_create(&cfg, &kvs)) {
      return 4;
   }
   tune();
   nall = 0;
   all  = calloc(rounds * (nt + ns + 1) + 1, sizeof(thr));
   for (int r = 0; r < rounds; r++) {
      thr *ts       = &all[nall];
      vf_sched_on   = perturb;
      pthread_t *pt = calloc(nt + ns, sizeof(pthread_t));
      for (int i = 0; i < nt + ns; i++) {
         ts[i].tid  = nall + i;
         ts[i].seed = (seed * 1000003ull + r * 8191 + i + 1) * 0x9E3779B97F4A7C15ull;
         ts[i].scan = i >= nt;
         ts[i].nops = i >= nt ? nscan : nops;
         ts[i].first = ts[i].next = i;
         ts[i].stride             = nt;
         ts[i].ops  = calloc(ts[i].nops + 1, sizeof(oprec));
         ts[i].sf   = open_memstream(&ts[i].sbuf, &ts[i].sl);
      }
      for (int i = 0; i < nt + ns; i++) {
         pthread_create(&pt[i], NULL, worker, &ts[i]);
      }
      for (int i = 0; i < nt + ns; i++) {
         pthread_join(pt[i], NULL);
      }
      nall += nt + ns;
      vf_sched_on = 0;
      // everything again, by one thread; after a reopen in the last round
      if (r == rounds - 1) {
         splinterdb_close(&kvs);
         if (splinterdb_open(&cfg, &kvs)) {
            return 4;
         }
         tune();
      }
      thr *t  = &all[nall++];
      t->tid  = nall - 1;
      t->ops  = calloc(vf_nkeys + 1, sizeof(oprec));
      t->sf   = open_memstream(&t->sbuf, &t->sl);
      t->seed = 1;
      splinterdb_lookup_result res;
      splinterdb_lookup_result_init(kvs, &res, 0, NULL);
      for (int k = 1; k <= vf_nkeys; k++) {
         do_lookup(t, k, &res);
      }
      splinterdb_lookup_result_deinit(&res);
      t->seed = 7;
      do_scan(t);
   }
   splinterdb_close(&kvs);
   dump(out, all, nall);
   fprintf(out, "[\"done\"]\n");
   fclose(out);
   return 0;
}
