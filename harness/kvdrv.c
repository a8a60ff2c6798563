// Sequential driver: executes an operation program against the real library
// and records one event per API return.
#include "vf_common.h"
#ifdef VF_ALLOC
#include "vf_alloc.h"
#endif
#include "splinterdb/public_platform.h"
void splinterdb_cache_flush(const splinterdb *);
#ifdef VF_TUNE
#include "splinterdb_tests_private.h"
void trunk_memtable_flush(trunk_handle *, uint64);
static uint64 tune_kv, tune_leaf, tune_branches;
#endif

static splinterdb               *kvs;
static splinterdb_config         cfg;
static vf_dcfg                   dcfg = {.max_key = 64, .merge = 1};
static data_config               dc;
static FILE                     *out;
static splinterdb_lookup_result  shared_res;
static int                       shared_init;
static long                      opno;

static void
on_sig(int s)
{
   fflush(out);
   fprintf(stderr, "driver: signal %d at op %ld\n", s, opno);
   fflush(stderr);
   _exit(128 + s);
}

#ifdef VF_TUNE
// shrink the nodes, so that little data makes a deep tree
static void
apply_tune(void)
{
   trunk_handle *spl = (trunk_handle *)splinterdb_get_trunk_handle(kvs);
   if (tune_kv) {
      spl->cfg.max_kv_bytes_per_node = tune_kv;
   }
   if (tune_leaf) {
      spl->cfg.target_leaf_kv_bytes = tune_leaf;
   }
   if (tune_branches) {
      spl->cfg.max_branches_per_node = tune_branches;
   }
}
// retire the current memtable now
static void
force_memtable(void)
{
   trunk_handle *spl = (trunk_handle *)splinterdb_get_trunk_handle(kvs);
   task_perform_until_quiescent(spl->ts);
   if (!memtable_is_empty(spl->mt_ctxt)) {
      uint64 gen = memtable_force_finalize(spl->mt_ctxt);
      trunk_memtable_flush(spl, gen);
   }
}
#endif

static void
emit_val(const unsigned char *p, uint64_t n)
{
   int ids[2048];
   int c = vf_decode(p, n, ids, 2048);
   if (c < 0) {
      fprintf(out, "[-1]");
      return;
   }
   fputc('[', out);
   for (int i = 0; i < c; i++) {
      fprintf(out, i ? ",%d" : "%d", ids[i]);
   }
   fputc(']', out);
}

static void
emit_iter(const char *ev, int start, int rc, splinterdb_iterator *it)
{
   fprintf(out, "[\"%s\",%d,%d,", ev, start, rc);
   if (rc != 0) {
      fprintf(out, "0,0,0,0,[]]\n");
      return;
   }
   int v = splinterdb_iterator_valid(it);
   int p = splinterdb_iterator_can_prev(it);
   int n = splinterdb_iterator_can_next(it);
   int s = splinterdb_iterator_status(it);
   if (s) {
      v = 2;
   }
   fprintf(out, "%d,%d,%d,", v, p, n);
   if (v == 1) {
      slice k, val;
      splinterdb_iterator_get_current(it, &k, &val);
      fprintf(out, "%d,", vf_rank_of(slice_data(k), slice_length(k)));
      emit_val(slice_data(val), slice_length(val));
      fprintf(out, "]\n");
   } else {
      fprintf(out, "0,[]]\n");
   }
}

static void
do_lookup(int k, int mode)
{
   char                      ubuf[64];
   splinterdb_lookup_result  fresh;
   splinterdb_lookup_result *r = &shared_res;
   if (mode == 0 && !shared_init) {
      splinterdb_lookup_result_init(kvs, &shared_res, 0, NULL);
      shared_init = 1;
   }
   if (mode == 1) {
      splinterdb_lookup_result_init(kvs, &fresh, 0, NULL);
      r = &fresh;
   } else if (mode == 2) {
      memset(ubuf, 0xA5, sizeof(ubuf));
      splinterdb_lookup_result_init(kvs, &fresh, 32, ubuf);
      r = &fresh;
   }
   int   rc = splinterdb_lookup(kvs, vf_key_slice(k), r);
   int   f  = rc == 0 ? splinterdb_lookup_found(r) : 0;
   slice v  = NULL_SLICE;
   int   r2 = rc == 0 ? splinterdb_lookup_result_value(r, &v) : 0;
   fprintf(out, "[\"l\",%d,%d,%d,%d,", k, rc, f, r2);
   if (f && r2 == 0) {
      emit_val(slice_data(v), slice_length(v));
   } else {
      fprintf(out, "[]");
   }
   fprintf(out, "]\n");
   if (mode == 2) {
      // bytes of the user's buffer beyond the declared length are untouched
      for (int i = 32; i < 64; i++) {
         if ((unsigned char)ubuf[i] != 0xA5) {
            fprintf(out, "[\"bufoverrun\",%d]\n", i);
            break;
         }
      }
   }
   if (mode != 0) {
      splinterdb_lookup_result_deinit(r);
   }
}

int
main(int argc, char **argv)
{
   if (argc < 3) {
      return 3;
   }
   FILE *in = fopen(argv[1], "r");
   out      = fopen(argv[2], "w");
   if (!in || !out) {
      return 3;
   }
   static char obuf[1 << 16];
   setvbuf(out, obuf, _IOFBF, sizeof(obuf));
   if (!getenv("VF_CORE"))
      signal(SIGABRT, on_sig);
   signal(SIGSEGV, on_sig);
   signal(SIGBUS, on_sig);
   signal(SIGFPE, on_sig);
   signal(SIGTERM, on_sig);
   platform_set_log_streams(fopen("/dev/null", "w"), stderr);

   static char          line[1 << 16];
   static unsigned char val[VF_MAXVAL];
   while (fgets(line, sizeof(line), in)) {
      opno++;
      switch (line[0]) {
         case '#':
         case '\n':
            break;
         case 'C':
            vf_cfg_parse(line + 1, &cfg, &dcfg);
            break;
         case 'K':
            vf_read_keys(in, atoi(line + 1));
            break;
#ifdef VF_ALLOC
         case 'D': // the next close destroys the database
            vf_alloc_destroy = 1;
            break;
#endif
         case 'c': // create / close
         case 'o':
            if (!strncmp(line, "close", 5)) {
               if (shared_init) {
                  splinterdb_lookup_result_deinit(&shared_res);
                  shared_init = 0;
               }
               splinterdb_close(&kvs);
#ifdef VF_ALLOC
               vf_alloc_destroy = 0;
#endif
               fprintf(out, "[\"close\",%d]\n", kvs == NULL ? 0 : 1);
            } else {
               cfg.filename = vf_filename;
               vf_data_config(
                  &dc, dcfg.max_key, dcfg.cmp, dcfg.hash, dcfg.merge);
               cfg.data_cfg = &dc;
               int rc       = line[0] == 'c' ? splinterdb_create(&cfg, &kvs)
                                             : splinterdb_open(&cfg, &kvs);
               fprintf(out,
                       "[\"%s\",%d]\n",
                       line[0] == 'c' ? "create" : "open",
                       rc);
               if (rc) {
                  kvs = NULL;
               }
#ifdef VF_TUNE
               else
                  apply_tune();
#endif
            }
            break;
         case 'i':
         case 'u':
         {
            int k, v, l;
            sscanf(line + 1, "%d %d %d", &k, &v, &l);
            int   n = vf_chunk_encode(val, v, l);
            slice s = slice_create(n, val);
            int   rc =
               line[0] == 'i' ? splinterdb_insert(kvs, vf_key_slice(k), s)
                                : splinterdb_update(kvs, vf_key_slice(k), s);
            // an acknowledged write must not keep referring to caller memory
            memset(val, 0xEE, n);
            fprintf(out, "[\"%c\",%d,%d,%d]\n", line[0], k, n ? v : 0, rc);
            break;
         }
         case 'd':
         {
            int k  = atoi(line + 1);
            int rc = splinterdb_delete(kvs, vf_key_slice(k));
            fprintf(out, "[\"d\",%d,%d]\n", k, rc);
            break;
         }
         case 'l':
         {
            int k, m = 0;
            sscanf(line + 1, "%d %d", &k, &m);
            do_lookup(k, m);
            break;
         }
         case 'A': // look up every key in a range: "A lo hi step"
         {
            int lo, hi, st = 1;
            sscanf(line + 1, "%d %d %d", &lo, &hi, &st);
            for (int k = lo; k <= hi; k += st) {
               do_lookup(k, 0);
            }
            break;
         }
         case 'W': // walk: "W start moves"; start 0 = NULL, -k: key k via
                   // copied+clobbered buffer; N next, P prev, digits = repeat
         {
            int  start, n = 0;
            sscanf(line + 1, "%d %n", &start, &n);
            char                *mv = line + 1 + n;
            splinterdb_iterator *it = NULL;
            slice                sk = NULL_SLICE;
            unsigned char       *tmp = NULL;
            if (start > 0) {
               // the iterator must not depend on the caller's key memory
               tmp = malloc(vf_keys[start].len + 1);
               memcpy(tmp, vf_keys[start].b, vf_keys[start].len);
               sk = slice_create(vf_keys[start].len, tmp);
            }
            int rc = splinterdb_iterator_init(kvs, &it, sk);
            if (tmp) {
               memset(tmp, 0xDD, vf_keys[start].len);
               free(tmp);
            }
            emit_iter("I", start, rc, it);
            if (rc) {
               break;
            }
            long rep = 0;
            for (char *p = mv; *p && *p != '\n'; p++) {
               if (*p >= '0' && *p <= '9') {
                  rep = rep * 10 + (*p - '0');
                  continue;
               }
               long r = rep ? rep : 1;
               rep    = 0;
               for (long j = 0; j < r; j++) {
                  if (*p == 'N') {
                     if (!splinterdb_iterator_can_next(it)) {
                        break;
                     }
                     splinterdb_iterator_next(it);
                     emit_iter("N", 0, 0, it);
                  } else if (*p == 'P') {
                     if (!splinterdb_iterator_can_prev(it)) {
                        break;
                     }
                     splinterdb_iterator_prev(it);
                     emit_iter("P", 0, 0, it);
                  }
               }
            }
            splinterdb_iterator_deinit(it);
            fprintf(out, "[\"E\"]\n");
            break;
         }
         case 'F':
            splinterdb_cache_flush(kvs);
            break;
         case 'T': // tune: "T kvbytes leafbytes branches"
#ifdef VF_TUNE
            sscanf(line + 1, "%lu %lu %lu", &tune_kv, &tune_leaf, &tune_branches);
            if (kvs)
               apply_tune();
#endif
            break;
         case 'M': // rotate the memtable now; "M1" also finishes all work
#ifdef VF_TUNE
            force_memtable();
            if (line[1] == '1') {
               trunk_handle *spl =
                  (trunk_handle *)splinterdb_get_trunk_handle(kvs);
               task_perform_until_quiescent(spl->ts);
            }
#endif
            break;
         case 'H': // space elsewhere comes and goes: moves the allocation position
#ifdef VF_TUNE
         {
            trunk_handle *spl =
               (trunk_handle *)splinterdb_get_trunk_handle(kvs);
            for (long n = atol(line + 1); n > 0; n--) {
               uint64 a;
               if (!SUCCESS(allocator_alloc(spl->al, &a, PAGE_TYPE_MISC))) {
                  break;
               }
               allocator_dec_ref(spl->al, a, PAGE_TYPE_MISC);
               allocator_dec_ref(spl->al, a, PAGE_TYPE_MISC);
            }
         }
#endif
            break;
         case 'X': // stop without closing
            fflush(out);
            _exit(0);
         default:
            fprintf(stderr, "bad line %s", line);
            return 3;
      }
   }
   fprintf(out, "[\"done\"]\n");
   fclose(out);
   return 0;
}
