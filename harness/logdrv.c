// Logs: written by many threads while pages are written back and evicted under
// them, read back with and without the cache.
#include "vf_stack.h"
#include "shard_log.h"
#include "iterator.h"
#include "splinterdb/default_data_config.h"
#include "vf_evlog.h"
#include "vf_alloc.h"
static vf_stack         S;
static data_config      dcfg;
static shard_log_config lcfg;
static shard_log       *L;
static uint64           seed, esz = 128 << 10;
static int              nops, maxmsg, wide;
static volatile uint64  gen, nextid;
static void
emit1(const char *s)
{
   EV("%s", s);
}
static uint64
mix(uint64 x)
{
   x += 0x9e3779b97f4a7c15ull;
   x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
   x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
   return x ^ (x >> 31);
}
// everything about an entry follows from its number
static int
klen_of(uint64 id)
{
   return 4 + mix(id) % 96;
}
static int
mlen_of(uint64 id)
{
   return mix(id + 77) % 3 == 2 ? 0 : mix(id + 5) % (maxmsg + 1);
}
static message_type
type_of(uint64 id)
{
   static const message_type t[] = {MESSAGE_TYPE_INSERT, MESSAGE_TYPE_UPDATE, MESSAGE_TYPE_DELETE};
   return t[mix(id + 77) % 3];
}
static void
fill(uint64 id, char *k, char *m)
{
   for (int i = 0; i < klen_of(id); i++) {
      k[i] = mix(id * 131 + i);
   }
   memcpy(k, &(uint32){id}, 4);
   for (int i = 0; i < mlen_of(id); i++) {
      m[i] = mix(id * 137 + i);
   }
}
static void
worker(void *arg)
{
   char   k[128], m[4096];
   uint64 s = mix(seed + (long)arg);
   for (int i = 0; i < nops; i++) {
      s         = mix(s);
      uint64 id = __sync_fetch_and_add(&nextid, 1);
      // generations: dense or very far apart
      uint64 g = __sync_fetch_and_add(&gen, 1);
      g        = wide ? (g % 3 ? g : g << 33) : g / 2;
      fill(id, k, m);
      EV("[\"w\",%lu,%lu,[%lu,%lu]]", (uint64)platform_get_tid(), id, g >> 30, g & 0x3fffffff);
      int rc = log_write((log_handle *)L,
                         key_create(klen_of(id), k),
                         message_create(type_of(id), slice_create(mlen_of(id), m)),
                         g);
      EV("[\"wr\",%lu,%d]", (uint64)platform_get_tid(), rc);
      vf_ctl_point();
#if !SPLINTER_DEBUG // (there, nobody may write meanwhile)
      if (s % 40 == 0) {
         cache_flush((cache *)&S.cc);
      }
#endif
      if (s % 97 == 0) { // other pages push the log's out
         cache_cleanup((cache *)&S.cc);
      }
   }
}
static int
check(uint64 id, key kk, message mm)
{
   char k[128], m[4096];
   fill(id, k, m);
   return key_length(kk) == klen_of(id) && !memcmp(key_data(kk), k, klen_of(id)) && message_class(mm) == type_of(id)
          && message_length(mm) == mlen_of(id) && !memcmp(message_data(mm), m, mlen_of(id));
}
// the record of an entry starts with its generation
static void
read_back(uint64 addr, uint64 magic)
{
   shard_log_iterator it;
   EV("[\"it\"]");
   if (!SUCCESS(shard_log_iterator_init((cache *)&S.cc, &lcfg, S.hid, addr, magic, &it))) {
      EV("[\"iterr\"]");
      return;
   }
   uint64 n = 0;
   while (iterator_can_next((iterator *)&it)) {
      key     k;
      message m;
      iterator_curr((iterator *)&it, &k, &m);
      uint64 id = ~0ul;
      int    ok = 0;
      if (key_length(k) >= 4) {
         uint32 v;
         memcpy(&v, key_data(k), 4);
         id = v;
         ok = check(id, k, m);
      }
      EV("[\"x\",%lu,%d]", id < 100000000 ? id : 0, ok);
      if (!SUCCESS(iterator_next((iterator *)&it)) || ++n > 20000) {
         break;
      }
   }
   EV("[\"ie\"]");
   shard_log_iterator_deinit(S.hid, &it);
}
int
main(int argc, char **argv)
{
   seed       = strtoull(argv[2], 0, 10);
   int thr    = atoi(argv[3]);
   nops       = atoi(argv[4]);
   int rounds = atoi(argv[5]);
   maxmsg     = atoi(argv[6]);
   int mean   = atoi(argv[7]);
   int cachem = atoi(argv[8]);
   uint64 exts = strtoull(argv[9], 0, 10);
   ve_open(argv[10]);
   vf_alloc_emit = emit1;
   default_data_config_init(128, &dcfg);
   st_up(&S, argv[1], exts * esz, (uint64)cachem << 18, 0, 0, 0);
   shard_log_config_init(&lcfg, (cache_config *)&S.cc_cfg, &dcfg);
   uint64 r = mix(seed + 1);
   L        = malloc(sizeof(*L));
   for (int life = 0; life < 8; life++) {
      wide = (r = mix(r)) % 3 == 0;
      EV("[\"log\"]");
      if (!SUCCESS(shard_log_init(L, (cache *)&S.cc, &lcfg))) {
         exit(3);
      }
      EV("[\"logok\",%lu,%lu]", L->meta_head / esz, L->addr / esz);
      int m = 1 + (r = mix(r)) % rounds;
      for (int q = 0; q < m; q++) {
#ifdef VF_CTL
         vf_ctl_start(seed + q + 100 * life, mean);
#else
         (void)mean;
#endif
         platform_thread th[64];
         int             n = (r = mix(r)) % 4 == 0 ? 1 : thr;
         for (long t = 0; t < n; t++) {
            task_thread_create("w", worker, (void *)t, 0, S.ts, S.hid, &th[t]);
         }
         for (int t = 0; t < n; t++) {
            platform_thread_join(th[t]);
         }
#ifdef VF_CTL
         vf_ctl_stop();
#endif
      }
      // (once a log has been read nobody writes on: its extents' unused pages
      // may be in the cache now)
      uint64 addr = log_addr((log_handle *)L), magic = log_magic((log_handle *)L);
      read_back(addr, magic);
      if ((r = mix(r)) % 2 == 0) {
         // the cache is gone, but for the list of the log's extents; what was
         // on its way to the device arrives
         page_handle *meta = cache_get((cache *)&S.cc, L->meta_head, TRUE, PAGE_TYPE_LOG);
         cache_page_sync((cache *)&S.cc, meta, TRUE, PAGE_TYPE_LOG);
         cache_unget((cache *)&S.cc, meta);
         io_wait_all((io_handle *)&S.io);
         clockcache_deinit(&S.cc);
         st_cache_up(&S);
         read_back(addr, magic);
      }
      shard_log_zap(L);
   }
   ve_write(NULL);
   st_down(&S);
   return 0;
}
