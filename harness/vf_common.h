// Shared pieces of the harness programs: value codec, key table, data_config
// variants, configuration parsing.
#pragma once
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <unistd.h>
#include <signal.h>
#include <fcntl.h>
#include "splinterdb/splinterdb.h"
#include "splinterdb/data.h"
#include "splinterdb/default_data_config.h"

#define VF_MAXVAL 8192
#define VF_HDR    6

/* ---- values: a value is a concatenation of self-describing chunks -------- */
static inline unsigned char
vf_pat(uint32_t id, uint32_t j)
{
   return (unsigned char)(id * 131u + j * 7u + (j >> 8) * 13u + (id >> 8));
}

static inline int
vf_chunk_encode(unsigned char *b, uint32_t id, int len)
{
   if (len < VF_HDR) {
      return 0; // the empty value
   }
   memcpy(b, &id, 4);
   uint16_t l = (uint16_t)len;
   memcpy(b + 4, &l, 2);
   for (int j = VF_HDR; j < len; j++) {
      b[j] = vf_pat(id, j);
   }
   return len;
}

/* decode into ids; returns count, or -1 if the bytes are not a chunk list */
static inline int
vf_decode(const unsigned char *b, uint64_t n, int *ids, int max)
{
   uint64_t off = 0;
   int      c   = 0;
   while (off < n) {
      if (n - off < VF_HDR) {
         return -1;
      }
      uint32_t id;
      uint16_t l;
      memcpy(&id, b + off, 4);
      memcpy(&l, b + off + 4, 2);
      if (l < VF_HDR || l > n - off || id == 0 || id > 0x7fffffff) {
         return -1;
      }
      for (uint32_t j = VF_HDR; j < l; j++) {
         if (b[off + j] != vf_pat(id, j)) {
            return -1;
         }
      }
      if (c >= max) {
         return -1;
      }
      ids[c++] = (int)id;
      off += l;
   }
   return c;
}

/* ---- keys: rank <-> bytes ------------------------------------------------ */
typedef struct {
   unsigned char *b;
   int            len;
} vf_key;
static vf_key *vf_keys;
static int     vf_nkeys;
/* sorted-by-bytes index, to map bytes back to a rank */
static int *vf_idx;

static int
vf_bytes_cmp(const void *a, int la, const void *b, int lb)
{
   int m = la < lb ? la : lb;
   int c = m ? memcmp(a, b, m) : 0;
   return c ? c : la - lb;
}
static int
vf_idx_cmp(const void *x, const void *y)
{
   const vf_key *a = &vf_keys[*(const int *)x], *b = &vf_keys[*(const int *)y];
   return vf_bytes_cmp(a->b, a->len, b->b, b->len);
}
static void
vf_keys_index(void)
{
   vf_idx = malloc(sizeof(int) * (vf_nkeys + 1));
   for (int i = 0; i < vf_nkeys; i++) {
      vf_idx[i] = i + 1;
   }
   qsort(vf_idx, vf_nkeys, sizeof(int), vf_idx_cmp);
}
static int
vf_rank_of(const void *p, uint64_t len)
{
   int lo = 0, hi = vf_nkeys - 1;
   while (lo <= hi) {
      int           mid = (lo + hi) / 2;
      const vf_key *k   = &vf_keys[vf_idx[mid]];
      int           c   = vf_bytes_cmp(p, (int)len, k->b, k->len);
      if (c == 0) {
         return vf_idx[mid];
      }
      if (c < 0) {
         hi = mid - 1;
      } else {
         lo = mid + 1;
      }
   }
   return -1;
}
static slice
vf_key_slice(int rank)
{
   return slice_create(vf_keys[rank].len, vf_keys[rank].b);
}

/* ---- data configs -------------------------------------------------------- */
static int
vf_cmp_lex(const data_config *cfg, slice a, slice b)
{
   return vf_bytes_cmp(slice_data(a), slice_length(a), slice_data(b), slice_length(b));
}
static int
vf_cmp_rev(const data_config *cfg, slice a, slice b)
{
   return -vf_cmp_lex(cfg, a, b);
}
/* compare as (length, then bytes from the last to the first) */
static int
vf_cmp_le(const data_config *cfg, slice a, slice b)
{
   uint64_t la = slice_length(a), lb = slice_length(b);
   if (la != lb) {
      return la < lb ? -1 : 1;
   }
   const unsigned char *x = slice_data(a), *y = slice_data(b);
   for (uint64_t i = la; i-- > 0;) {
      if (x[i] != y[i]) {
         return x[i] < y[i] ? -1 : 1;
      }
   }
   return 0;
}
/* comparator whose magnitudes are large: only the sign may matter */
static int
vf_cmp_big(const data_config *cfg, slice a, slice b)
{
   int c = vf_cmp_lex(cfg, a, b);
   return c < 0 ? INT32_MIN + 1 : c > 0 ? INT32_MAX : 0;
}
static uint32
vf_hash_weak(const void *in, size_t len, uint32 seed)
{
   const unsigned char *p = in;
   uint32               h = 0;
   for (size_t i = 0; i < len; i++) {
      h += p[i];
   }
   return (h & 15) * 0x11111111u;
}
static uint32
vf_hash_fnv(const void *in, size_t len, uint32 seed)
{
   const unsigned char *p = in;
   uint32               h = 2166136261u ^ seed;
   for (size_t i = 0; i < len; i++) {
      h = (h ^ p[i]) * 16777619u;
   }
   return h;
}
static int
vf_merge(const data_config *cfg, slice key, message old, merge_accumulator *nw)
{
   uint64_t nl = merge_accumulator_length(nw), ol = message_length(old);
   if (!merge_accumulator_resize(nw, ol + nl)) {
      return -1;
   }
   char *d = merge_accumulator_data(nw);
   memmove(d + ol, d, nl);
   memcpy(d, message_data(old), ol);
   if (message_class(old) == MESSAGE_TYPE_INSERT) {
      merge_accumulator_set_class(nw, MESSAGE_TYPE_INSERT);
   }
   return 0;
}
static int
vf_merge_final(const data_config *cfg, slice key, merge_accumulator *m)
{
   merge_accumulator_set_class(m, MESSAGE_TYPE_INSERT);
   return 0;
}
static void
vf_data_config(data_config *dc, uint64 max_key, int cmp, int hash, int merge)
{
   default_data_config_init(max_key, dc);
   if (cmp == 0) {
      /* keep default */
   } else if (cmp == 1) {
      dc->key_compare = vf_cmp_rev;
   } else if (cmp == 2) {
      dc->key_compare = vf_cmp_le;
   } else if (cmp == 3) {
      dc->key_compare = vf_cmp_big;
   }
   if (hash == 1) {
      dc->key_hash = vf_hash_weak;
   } else if (hash == 2) {
      dc->key_hash = vf_hash_fnv;
   }
   if (merge) {
      dc->merge_tuples       = vf_merge;
      dc->merge_tuples_final = vf_merge_final;
   }
}

/* ---- configuration "name=value ..." ---------------------------------------- */
typedef struct {
   uint64 max_key;
   int    cmp, hash, merge;
   int    use_default_cfg;
} vf_dcfg;

static char vf_filename[512] = "vf.db";

static void
vf_cfg_parse(char *line, splinterdb_config *c, vf_dcfg *d)
{
   for (char *t = strtok(line, " \t\n"); t; t = strtok(NULL, " \t\n")) {
      char *eq = strchr(t, '=');
      if (!eq) {
         continue;
      }
      *eq              = 0;
      const char *name = t;
      uint64      v    = strtoull(eq + 1, NULL, 0);
#define F(x)                                                                   \
   if (!strcmp(name, #x)) {                                                    \
      c->x = v;                                                                \
      continue;                                                                \
   }
      F(cache_size)
      F(disk_size)
      F(shmem_size)
      F(use_shmem)
      F(page_size)
      F(extent_size)
      F(io_flags)
      F(io_perms)
      F(io_async_queue_depth)
      F(cache_use_stats)
      F(num_memtable_bg_threads)
      F(num_normal_bg_threads)
      F(btree_rough_count_height)
      F(filter_remainder_size)
      F(filter_index_size)
      F(use_log)
      F(memtable_capacity)
      F(fanout)
      F(max_branches_per_node)
      F(use_stats)
      F(reclaim_threshold)
      F(queue_scale_percent)
#undef F
      if (!strcmp(name, "max_key")) {
         d->max_key = v;
      } else if (!strcmp(name, "cmp")) {
         d->cmp = v;
      } else if (!strcmp(name, "hash")) {
         d->hash = v;
      } else if (!strcmp(name, "merge")) {
         d->merge = v;
      } else if (!strcmp(name, "filename")) {
         snprintf(vf_filename, sizeof(vf_filename), "%s", eq + 1);
      } else {
         fprintf(stderr, "unknown config %s\n", name);
         exit(3);
      }
   }
}

static void
vf_read_keys(FILE *in, int n)
{
   static char line[16384];
   vf_nkeys = n;
   vf_keys  = calloc(n + 1, sizeof(vf_key));
   for (int i = 1; i <= n; i++) {
      if (!fgets(line, sizeof(line), in)) {
         exit(3);
      }
      int L = 0;
      while ((line[2 * L] >= '0' && line[2 * L] <= '9')
             || (line[2 * L] >= 'a' && line[2 * L] <= 'f'))
         L++;
      vf_keys[i].len = L;
      vf_keys[i].b   = malloc(L + 1);
      for (int j = 0; j < L; j++) {
         unsigned x;
         sscanf(line + 2 * j, "%2x", &x);
         vf_keys[i].b[j] = x;
      }
   }
   vf_keys_index();
}
