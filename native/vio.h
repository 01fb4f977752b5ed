/* files in memory, their items, and damaged copies of them */
#ifndef VIO_H
#define VIO_H
static char *tx; static size_t txn;
static FILE *wopen (void) { tx = NULL; txn = 0; FILE *f = open_memstream (&tx, &txn); if (! f) _exit (3); return (f); }
static FILE *ropen (const char *s, size_t n) { FILE *f = fmemopen ((void *) s, n, "r"); if (! f) _exit (3); return (f); }
/* integer tokens of a text; -1 if something else than integers */
static long tokens (const char *s, long **tp) {
  long n = 0, cap = 64; long *t = vp_malloc (cap * sizeof (long));
  for (;;) {
    char *e; while (*s == ' ' || *s == '\t' || *s == '\n' || *s == '\r') s ++;
    if (! *s) break;
    long v = strtol (s, &e, 10);
    if (e == s || (*e && *e != ' ' && *e != '\t' && *e != '\n' && *e != '\r')) { *tp = t; return (-1); }
    if (n == cap) { cap *= 2; t = realloc (t, cap * sizeof (long)); }
    t[n ++] = v; s = e;
  }
  *tp = t; return (n);
}
/* damages a text: a token changed, text cut, or tokens dropped */
static int vp_huge = 0;
static char *damage (const char *s, size_t *np, long lo, long hi) {
  long *t, n = tokens (s, &t), i, k = vp_rand (10), at = n > 0 ? vp_rand (n) : 0; char *r; size_t rn; FILE *f;
  if (n <= 0) { free (t); r = strdup (s); *np = strlen (r); return (r); }
  if (vp_rand (4) == 0 && n > 6) at = vp_rand (6);
  f = open_memstream (&r, &rn);
  for (i = 0; i < n; i ++) {
    long v = t[i];
    if (i == at) {
      if (k == 0) break;
      if (k == 1) continue;
      if (k == 2) { fprintf (f, "x "); continue; }
      if (k == 3) { fprintf (f, "%ld %ld ", v, v); continue; }
      if (k == 4) v = vp_rand (3) ? v + 1 : v - 1; else v = vp_range (lo, hi);
      if (hi > -1 && vp_huge && vp_rand (12) == 0) v = 2147483647 - vp_rand (4);
      if (i <= 3 && v > 200) v = hi;              /* keep memory requests small */
    }
    fprintf (f, "%ld%c", v, vp_rand (3) ? ' ' : '\n');
  }
  fclose (f); free (t);
  *np = rn; vp_note (" damaged{%.600s}", r);
  return (r);
}
#define TOK(v, what) do { long v_ = (long) (v); VP_ASSERT (k < nt && t[k] == v_, "saved file: item %ld (%s) is %ld instead of %ld", k, what, k < nt ? t[k] : -999999, v_); k ++; } while (0)
#endif
