// Stands between the library and its extent allocator and page cache (through
// their operation tables) and records what is asked of the allocator, in the
// exact order in which it happens.
#include "platform.h"
#include "allocator.h"
#include "rc_allocator.h"
#include "cache.h"
#include "clockcache.h"
#include "trunk.h"
#include "vf_alloc.h"
#include <stdio.h>
#include <stdarg.h>
#include <unistd.h>
#include <fcntl.h>
#ifdef VF_CTL
#   include "vf_ctl.h"
#else
#   include <sched.h>
static void
vf_ctl_wait(void)
{
   sched_yield();
}
#endif

void (*vf_alloc_emit)(const char *line);
static volatile int  lk;
static char         *buf;
static long          bn, bcap;
static int           ofd = -1;
static const allocator_ops *real_al;
static allocator_ops        my_al;
static const cache_ops     *real_cc;
static cache_ops            my_cc;
static rc_allocator        *cur;
static uint8               *got; // extents whose first access was recorded
static uint64               esz, nex;
static int                  destroyed;

static void
lock(void)
{
   while (__sync_lock_test_and_set(&lk, 1)) {
      vf_ctl_wait();
   }
}
static void
unlock(void)
{
   __sync_lock_release(&lk);
}
static void
flush_(void)
{
   long off = 0;
   while (ofd >= 0 && off < bn) {
      long n = write(ofd, buf + off, bn - off);
      if (n <= 0) {
         break;
      }
      off += n;
   }
   bn = 0;
}
static void
emit(const char *fmt, ...)
{
   char    t[256];
   va_list ap;
   va_start(ap, fmt);
   int n = vsnprintf(t, sizeof(t), fmt, ap);
   va_end(ap);
   if (vf_alloc_emit) {
      vf_alloc_emit(t);
      return;
   }
   if (bn + n + 2 > bcap) {
      bcap = bcap ? 2 * bcap : 1 << 20;
      buf  = realloc(buf, bcap);
   }
   memcpy(buf + bn, t, n);
   bn += n;
   buf[bn++] = '\n';
}
void
vf_alloc_flush(void)
{
   if (ofd < 0 && getenv("VF_ALLOC_OUT")) {
      ofd = open(getenv("VF_ALLOC_OUT"), O_WRONLY | O_CREAT | O_APPEND, 0600);
   }
   flush_();
}
static void __attribute__((destructor)) fini(void)
{
   if (!vf_alloc_emit) {
      vf_alloc_flush();
   }
}
extern void __real__exit(int) __attribute__((noreturn));
void
__wrap__exit(int rc)
{
   fini();
   __real__exit(rc);
}

static platform_status
w_alloc(allocator *al, uint64 *addr, page_type type)
{
   lock();
   platform_status rc = real_al->alloc(al, addr, type);
   uint64          e  = SUCCESS(rc) ? *addr / esz : 0;
   emit("[\"al\",%lu,%d,%d,%d]", e, (int)type, SUCCESS(rc) ? 1 : 0, SUCCESS(rc) && *addr % esz ? 1 : 0);
   if (SUCCESS(rc) && e < nex) {
      got[e] = 0;
   }
   unlock();
   return rc;
}
static uint8
w_inc(allocator *al, uint64 addr)
{
   lock();
   uint8 r = real_al->inc_ref(al, addr);
   emit("[\"inc\",%lu,%d]", addr / esz, r);
   unlock();
   return r;
}
static uint8
w_dec(allocator *al, uint64 addr, page_type type)
{
   lock();
   uint8 r = real_al->dec_ref(al, addr, type);
   emit("[\"dec\",%lu,%d]", addr / esz, r);
   if (r <= 1 && addr / esz < nex) {
      got[addr / esz] = 0;
   }
   unlock();
   return r;
}
static page_handle *
w_page_alloc(cache *cc, uint64 addr, page_type type)
{
   lock();
   emit("[\"pa\",%lu,%lu,%lu]", addr / esz, addr % esz / 4096, (uint64)platform_get_tid());
   unlock();
   return real_cc->page_alloc(cc, addr, type);
}
static void
w_discard(cache *cc, uint64 addr, page_type type)
{
   lock();
   emit("[\"disc\",%lu]", addr / esz);
   unlock();
   real_cc->extent_discard(cc, addr, type);
}
static void
first(uint64 addr)
{
   uint64 e = addr / esz;
   if (e < nex && !got[e]) {
      lock();
      got[e] = 1;
      emit("[\"pg\",%lu]", e);
      unlock();
   }
}
static page_handle *
w_get(cache *cc, uint64 addr, bool32 blocking, page_type type)
{
   first(addr);
   return real_cc->page_get(cc, addr, blocking, type);
}
static cache_async_result
w_get_async(cache *cc, uint64 addr, page_type type, cache_async_ctxt *ctxt)
{
   first(addr);
   return real_cc->page_get_async(cc, addr, type, ctxt);
}

static void
refs(const char *what, int more)
{
   lock();
   emit("[\"%s\",%d,%lu,%lu]", what, more, nex, cur ? allocator_in_use((allocator *)cur) : 0);
   for (uint64 e = 0; e < nex; e++) {
      uint8 r = real_al->get_ref((allocator *)cur, e * esz);
      if (r) {
         emit("[\"ref\",%lu,%d]", e, r);
      }
   }
   emit("[\"refs\",%d]", more);
   unlock();
}
static void
attach(rc_allocator *al, int mounted)
{
   cur = al;
   if (al->super.ops != &my_al) {
      real_al       = al->super.ops;
      my_al         = *real_al;
      my_al.alloc   = w_alloc;
      my_al.inc_ref = w_inc;
      my_al.dec_ref = w_dec;
      al->super.ops = &my_al;
   }
   allocator_config *c = allocator_get_config((allocator *)al);
   esz                 = c->io_cfg->extent_size;
   nex                 = c->capacity / esz;
   free(got);
   got = calloc(nex, 1);
   refs("mnt", mounted);
}
platform_status
__real_rc_allocator_init(rc_allocator *, allocator_config *, io_handle *, platform_heap_id, platform_module_id);
platform_status
__wrap_rc_allocator_init(rc_allocator *al, allocator_config *c, io_handle *io, platform_heap_id h, platform_module_id m)
{
   platform_status rc = __real_rc_allocator_init(al, c, io, h, m);
   if (SUCCESS(rc)) {
      attach(al, 0);
   }
   return rc;
}
platform_status
__real_rc_allocator_mount(rc_allocator *, allocator_config *, io_handle *, platform_heap_id, platform_module_id);
platform_status
__wrap_rc_allocator_mount(rc_allocator *al, allocator_config *c, io_handle *io, platform_heap_id h, platform_module_id m)
{
   platform_status rc = __real_rc_allocator_mount(al, c, io, h, m);
   if (SUCCESS(rc)) {
      attach(al, 1);
   }
   return rc;
}
void
__real_rc_allocator_unmount(rc_allocator *);
void
__wrap_rc_allocator_unmount(rc_allocator *al)
{
   cur = al;
   refs("um", destroyed);
   destroyed = 0;
   __real_rc_allocator_unmount(al);
}
void
vf_alloc_check(int empty)
{
   refs("um", empty);
}
platform_status
__real_clockcache_init(clockcache *, clockcache_config *, io_handle *, allocator *, char *, platform_heap_id,
                       platform_module_id);
platform_status
__wrap_clockcache_init(clockcache *cc, clockcache_config *cfg, io_handle *io, allocator *al, char *name,
                       platform_heap_id h, platform_module_id m)
{
   platform_status rc = __real_clockcache_init(cc, cfg, io, al, name, h, m);
   if (SUCCESS(rc)) {
      if (cc->super.ops != &my_cc) {
         real_cc              = cc->super.ops;
         my_cc                = *real_cc;
         my_cc.page_alloc     = w_page_alloc;
         my_cc.extent_discard = w_discard;
         my_cc.page_get       = w_get;
         my_cc.page_get_async = w_get_async;
         cc->super.ops        = &my_cc;
      }
   }
   return rc;
}
// the program ends with the destruction of the database instead of a close
int vf_alloc_destroy;
void
__real_trunk_unmount(trunk_handle **);
void
__wrap_trunk_unmount(trunk_handle **spl)
{
   if (vf_alloc_destroy) {
      trunk_destroy(*spl);
      *spl      = NULL;
      destroyed = 1;
   } else {
      __real_trunk_unmount(spl);
   }
}
