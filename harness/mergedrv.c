// Drives the real merge iterator over in-memory sources.
// Input lines: mode start fwd seed nmoves S K <S strings over "-iud", oldest first>
#include "vf_common.h"
#include "platform.h"
#include "merge.h"

typedef struct {
   iterator super;
   int      n, idx; // idx -1: before the first, n: after the last
   int      key[16];
   char     kind[16];
   int      id[16];
   // what curr hands out; scrambled on every step, like a page let go
   unsigned char kb[8], vb[64];
   int           klen, vlen;
} src_it;

static void
fill(src_it *s)
{
   memset(s->kb, 0xEE, sizeof(s->kb));
   memset(s->vb, 0xEE, sizeof(s->vb));
   if (s->idx >= 0 && s->idx < s->n) {
      s->kb[0] = (unsigned char)s->key[s->idx];
      s->klen  = 1;
      s->vlen =
         s->kind[s->idx] == 'd' ? 0 : vf_chunk_encode(s->vb, s->id[s->idx], 10);
   }
}
static void
s_curr(iterator *it, key *k, message *m)
{
   src_it *s = (src_it *)it;
   *k        = key_create(s->klen, s->kb);
   char c    = s->kind[s->idx];
   *m        = message_create(c == 'i'   ? MESSAGE_TYPE_INSERT
                              : c == 'u' ? MESSAGE_TYPE_UPDATE
                                         : MESSAGE_TYPE_DELETE,
                       slice_create(s->vlen, s->vb));
}
static bool32
s_can_prev(iterator *it)
{
   return ((src_it *)it)->idx >= 0;
}
static bool32
s_can_next(iterator *it)
{
   return ((src_it *)it)->idx < ((src_it *)it)->n;
}
static platform_status
s_next(iterator *it)
{
   src_it *s = (src_it *)it;
   platform_assert(s->idx < s->n);
   s->idx++;
   fill(s);
   return STATUS_OK;
}
static platform_status
s_prev(iterator *it)
{
   src_it *s = (src_it *)it;
   platform_assert(s->idx >= 0);
   s->idx--;
   fill(s);
   return STATUS_OK;
}
static const iterator_ops s_ops = {.curr     = s_curr,
                                   .can_prev = s_can_prev,
                                   .can_next = s_can_next,
                                   .next     = s_next,
                                   .prev     = s_prev};

static FILE *out;
static void
on_sig(int s)
{
   fflush(out);
   _exit(128 + s);
}
static void
obs(merge_iterator *m)
{
   int p = iterator_can_prev(&m->super), n = iterator_can_next(&m->super);
   fprintf(out, "[%d,%d,", !!p, !!n);
   if (p && n) {
      key     k;
      message v;
      iterator_curr(&m->super, &k, &v);
      int ids[64];
      int c = vf_decode(message_data(v), message_length(v), ids, 64);
      fprintf(out,
              "%d,\"%s\",[",
              ((unsigned char *)key_data(k))[0],
              message_class(v) == MESSAGE_TYPE_INSERT   ? "i"
              : message_class(v) == MESSAGE_TYPE_UPDATE ? "u"
                                                        : "d");
      if (c < 0)
         fprintf(out, "-1");
      // a deletion carries no value
      if (message_class(v) != MESSAGE_TYPE_DELETE)
         for (int i = 0; i < c; i++)
            fprintf(out, i ? ",%d" : "%d", ids[i]);
      fprintf(out, "]]");
   } else {
      fprintf(out, "0,\"-\",[]]");
   }
}
int
main(int argc, char **argv)
{
   FILE *in = fopen(argv[1], "r");
   out      = fopen(argv[2], "w");
   static char obuf[1 << 16];
   setvbuf(out, obuf, _IOFBF, sizeof(obuf));
   signal(SIGABRT, on_sig);
   signal(SIGSEGV, on_sig);
   platform_set_log_streams(fopen("/dev/null", "w"), stderr);
   data_config dc;
   vf_data_config(&dc, 8, 0, 0, 1);
   char     mode[16];
   int      start, fwd, nm, S, K;
   unsigned seed;
   while (fscanf(in, "%15s %d %d %u %d %d %d", mode, &start, &fwd, &seed, &nm, &S, &K)
          == 7)
   {
      static src_it src[16];
      iterator     *its[16];
      fprintf(out, "[\"new\",\"%s\",[", mode);
      for (int s = 0; s < S; s++) {
         char str[32];
         if (fscanf(in, "%31s", str) != 1)
            return 3;
         src_it *x = &src[s];
         memset(x, 0, sizeof(*x));
         x->super.ops = &s_ops;
         fprintf(out, s ? ",[" : "[");
         for (int k = 1; k <= K; k++) {
            fprintf(out, k > 1 ? ",\"%c\"" : "\"%c\"", str[k - 1]);
            if (str[k - 1] != '-') {
               x->key[x->n]  = k;
               x->kind[x->n] = str[k - 1];
               x->id[x->n]   = 10 * (s + 1) + k;
               x->n++;
            }
         }
         fprintf(out, "]");
         if (fwd) {
            for (x->idx = 0; x->idx < x->n && x->key[x->idx] < start; x->idx++)
               ;
         } else {
            for (x->idx = x->n - 1; x->idx >= 0 && x->key[x->idx] >= start;
                 x->idx--)
               ;
         }
         fill(x);
         its[s] = &x->super;
      }
      fprintf(out, "],%d,%d,", start, fwd);
      merge_behavior  mb = mode[0] == 'f'   ? MERGE_FULL
                           : mode[0] == 'i' ? MERGE_INTERMEDIATE
                                            : MERGE_RAW;
      merge_iterator *m;
      platform_status rc;
#ifdef HAVE_DIRECTED
      rc = merge_iterator_create_directed(
         PROCESS_PRIVATE_HEAP_ID, &dc, S, its, mb, fwd, &m);
#else
      rc = merge_iterator_create(PROCESS_PRIVATE_HEAP_ID, &dc, S, its, mb, &m);
#endif
      if (!SUCCESS(rc))
         return 4;
      obs(m);
      fprintf(out, "]\n");
      for (int i = 0; i < nm; i++) {
         seed      = seed * 1103515245u + 12345u;
         int  back = mode[0] != 'r' && ((seed >> 16) & 1);
         bool cp   = iterator_can_prev(&m->super),
              cn   = iterator_can_next(&m->super);
         if (mode[0] == 'r' && !cn)
            break;
         if (back ? !cp : !cn)
            back = !back;
         if (back ? !cp : !cn)
            break;
         if (!(cp && cn)) {
            // over nothing at all the ends are not specified
            int any = 0;
            for (int s = 0; s < S; s++)
               any |= src[s].n;
            if (!any)
               break;
         }
         rc = back ? iterator_prev(&m->super) : iterator_next(&m->super);
         if (!SUCCESS(rc))
            return 5;
         fprintf(out, "[\"%c\",", back ? 'P' : 'N');
         obs(m);
         fprintf(out, "]\n");
      }
      merge_iterator_destroy(PROCESS_PRIVATE_HEAP_ID, &m);
   }
   fclose(out);
   return 0;
}
