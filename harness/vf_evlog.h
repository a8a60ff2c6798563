// Events of several threads in one order: each carries a stamp drawn from one
// counter and is kept in memory of its thread; all are sorted and written at the
// end, or when the process dies.
#pragma once
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <signal.h>
#include <stdatomic.h>
#define VE_MAXT 256
typedef struct {
   long stamp;
   long off;
} ve_rec;
typedef struct {
   ve_rec *r;
   long    n, cap;
   char   *b;
   long    bn, bcap;
} ve_buf;
static ve_buf               ve_bufs[VE_MAXT];
static atomic_int           ve_n;
static __thread int         ve_me = -1;
static atomic_long          ve_stamp;
static const char          *ve_path;
static atomic_int           ve_dead;

static inline long
ve_now(void)
{
   return atomic_fetch_add(&ve_stamp, 1);
}
static inline void
ve_at(long stamp, const char *fmt, ...)
{
   if (ve_me < 0) {
      ve_me = atomic_fetch_add(&ve_n, 1);
      if (ve_me >= VE_MAXT) {
         _exit(3);
      }
   }
   ve_buf *v = &ve_bufs[ve_me];
   if (v->n == v->cap) {
      v->cap = v->cap ? 2 * v->cap : 4096;
      v->r   = realloc(v->r, v->cap * sizeof(ve_rec));
   }
   char    tmp[4096];
   va_list ap;
   va_start(ap, fmt);
   int l = vsnprintf(tmp, sizeof(tmp), fmt, ap) + 1;
   va_end(ap);
   if (l > (int)sizeof(tmp)) {
      l                    = sizeof(tmp);
      tmp[sizeof(tmp) - 1] = 0;
   }
   if (v->bn + l > v->bcap) {
      v->bcap = v->bcap ? 2 * v->bcap : 65536;
      v->b    = realloc(v->b, v->bcap);
   }
   memcpy(v->b + v->bn, tmp, l);
   v->r[v->n].stamp = stamp;
   v->r[v->n].off   = v->bn;
   v->bn += l;
   v->n++;
}
#define EV(...) ve_at(ve_now(), __VA_ARGS__)
static inline void
ve_write(const char *last)
{
   int nb = ve_n, tot = 0;
   if (nb > VE_MAXT) {
      nb = VE_MAXT;
   }
   FILE *f = fopen(ve_path, "w");
   if (!f) {
      _exit(3);
   }
   long pos[VE_MAXT] = {0};
   for (;;) {
      int b = -1;
      for (int i = 0; i < nb; i++) {
         if (pos[i] < ve_bufs[i].n
             && (b < 0 || ve_bufs[i].r[pos[i]].stamp < ve_bufs[b].r[pos[b]].stamp))
         {
            b = i;
         }
      }
      if (b < 0) {
         break;
      }
      fputs(ve_bufs[b].b + ve_bufs[b].r[pos[b]].off, f);
      fputc('\n', f);
      pos[b]++;
      tot++;
   }
   if (last) {
      fprintf(f, "%s\n", last);
   }
   fclose(f);
}
static void
ve_sig(int s)
{
   signal(s, SIG_DFL);
   if (atomic_exchange(&ve_dead, 1) == 0) {
      ve_write(NULL);
   }
   raise(s);
}
static inline void
ve_open(const char *path)
{
   ve_path = path;
   signal(SIGABRT, ve_sig);
   signal(SIGSEGV, ve_sig);
   signal(SIGBUS, ve_sig);
   signal(SIGFPE, ve_sig);
   signal(SIGILL, ve_sig);
   signal(SIGTERM, ve_sig);
}
