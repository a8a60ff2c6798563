// The lower layers of the library, set up as splinterdb_create_or_open does:
// device, thread/task system, extent allocator, page cache.
#pragma once
#include "platform.h"
#include "io.h"
#include "allocator.h"
#include "rc_allocator.h"
#include "cache.h"
#include "clockcache.h"
#include "task.h"
#include <fcntl.h>
#undef pthread_create
#ifdef VF_CTL
#   include "vf_ctl.h"
#else
static inline void
vf_ctl_point(void)
{}
static inline void
vf_ctl_wait(void)
{
   platform_sleep_ns(20000);
}
#endif
typedef struct {
   platform_heap_id   hid;
   io_config          io_cfg;
   allocator_config   al_cfg;
   clockcache_config  cc_cfg;
   task_system_config task_cfg;
   platform_io_handle io;
   rc_allocator       al;
   clockcache         cc;
   task_system       *ts;
   int                fd;
} vf_stack;
static void
st_cache_up(vf_stack *s)
{
   platform_status rc = clockcache_init(
      &s->cc, &s->cc_cfg, (io_handle *)&s->io, (allocator *)&s->al, "vf", s->hid, platform_get_module_id());
   if (!SUCCESS(rc)) {
      fprintf(stderr, "clockcache_init\n");
      exit(3);
   }
}
static void
st_up(vf_stack *s, const char *file, uint64 disk, uint64 cache, uint64 scratch, uint64 memtable_bg, uint64 normal_bg)
{
   s->hid = NULL;
   io_config_init(&s->io_cfg, 4096, 128 << 10, O_RDWR | O_CREAT, 0644, 256, file);
   allocator_config_init(&s->al_cfg, &s->io_cfg, disk);
   clockcache_config_init(&s->cc_cfg, &s->io_cfg, cache, "", FALSE);
   uint64 bg[NUM_TASK_TYPES]  = {0};
   bg[TASK_TYPE_MEMTABLE]     = memtable_bg;
   bg[TASK_TYPE_NORMAL]       = normal_bg;
   platform_status rc         = task_system_config_init(&s->task_cfg, FALSE, bg, scratch);
   if (!SUCCESS(rc) || !SUCCESS(io_handle_init(&s->io, &s->io_cfg, s->hid))
       || !SUCCESS(task_system_create(s->hid, &s->io, &s->ts, &s->task_cfg))
       || !SUCCESS(rc_allocator_init(&s->al, &s->al_cfg, (io_handle *)&s->io, s->hid, platform_get_module_id())))
   {
      fprintf(stderr, "stack init\n");
      exit(3);
   }
   st_cache_up(s);
   s->fd = open(file, O_RDWR);
}
static void
st_down(vf_stack *s)
{
   close(s->fd);
   clockcache_deinit(&s->cc);
   rc_allocator_deinit(&s->al);
   task_system_destroy(s->hid, &s->ts);
   io_handle_deinit(&s->io);
}
