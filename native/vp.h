/* Executable-contract harness support. Every harness includes this file first. */
#ifndef VP_H
#define VP_H
#define _GNU_SOURCE
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <time.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/wait.h>
#ifndef VP_PUBLIC
#include "module.h"
#include "common.h"
#include "graph.h"
#else
#include <stdint.h>
#include "scotch.h"
typedef SCOTCH_Num Gnum;
typedef SCOTCH_Num Anum;
#endif

static unsigned long long vp_s = 88172645463325252ULL;
static long vp_seed = 1, vp_only = -1;
static const char *vp_section = "", *vp_onlysec = NULL;
static long vp_caseno = 0, vp_evals = 0, vp_nontriv = 0, vp_checks = 0;
static int vp_thorough = 0;
static double vp_t0, vp_budget = 60.0;
static char vp_desc[1 << 16];
static char vp_sample[1 << 12];
static int vp_errs = 0;

static double vp_now (void) { struct timeval tv; gettimeofday (&tv, NULL); return (tv.tv_sec + tv.tv_usec * 1e-6); }
static unsigned long long vp_r64 (void) { vp_s ^= vp_s << 13; vp_s ^= vp_s >> 7; vp_s ^= vp_s << 17; return (vp_s * 2685821657736338717ULL); }
static inline long vp_rand (long n) { return (n <= 1) ? 0 : (long) ((vp_r64 () >> 20) % (unsigned long long) n); }
static inline long vp_range (long a, long b) { return a + vp_rand (b - a + 1); }
static void vp_reseed (const char *sec, long c) {
  unsigned long long h = 1469598103934665603ULL ^ (unsigned long long) vp_seed * 0x9E3779B97F4A7C15ULL;
  for (; *sec; sec ++) h = (h ^ (unsigned char) *sec) * 1099511628211ULL;
  h ^= (unsigned long long) (c + 1) * 0xD1B54A32D192ED03ULL;
  vp_s = h ? h : 1; vp_r64 (); vp_r64 ();
}
static void vp_clear (void) { vp_desc[0] = '\0'; }
static void vp_note (const char *fmt, ...) {
  va_list ap; size_t l = strlen (vp_desc);
  if (l > sizeof (vp_desc) - 512) return;
  va_start (ap, fmt); vsnprintf (vp_desc + l, sizeof (vp_desc) - l, fmt, ap); va_end (ap);
}
static void vp_arr (const char *n, const Gnum *t, long k) { long i; vp_note (" %s=[", n); for (i = 0; i < k; i ++) vp_note ("%s%ld", i ? "," : "", (long) t[i]); vp_note ("]"); }
static void vp_report (const char *what) {
  printf ("FAIL section=%s case=%ld seed=%ld: %s\n  input:%s\n", vp_section, vp_caseno, vp_seed, what, vp_desc);
  fflush (stdout);
}
__attribute__((format(printf,1,2),noreturn,unused)) static void vp_fail (const char *fmt, ...) {
  char b[4096]; va_list ap; va_start (ap, fmt); vsnprintf (b, sizeof (b), fmt, ap); va_end (ap);
  vp_report (b); _exit (1);
}
#define VP_ASSERT(c, ...) do { vp_checks ++; if (! (c)) vp_fail (__VA_ARGS__); } while (0)
static void vp_sig (int s) { char b[64]; snprintf (b, 64, s == SIGALRM ? "no termination within the case limit" : "crashed with signal %d", s); vp_report (b); _exit (1); }
#if defined(__SANITIZE_ADDRESS__)
void __asan_set_death_callback (void (*) (void));
static void vp_asan (void) { vp_report ("invalid memory access (AddressSanitizer)"); }
const char *__asan_default_options (void) { return ("detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:exitcode=1:handle_segv=1:detect_stack_use_after_return=0"); }
#endif
/* error reporting of the library: recorded, not printed */
void SCOTCH_errorProg (const char * const p) { (void) p; }
static char vp_lasterr[512];
void SCOTCH_errorPrint (const char * const f, ...) { va_list ap; vp_errs ++; va_start (ap, f); { size_t l = strlen (vp_lasterr); if (l > 0 && l < sizeof (vp_lasterr) - 4) { strcpy (vp_lasterr + l, " <- "); l += 4; } if (l < sizeof (vp_lasterr) - 4) vsnprintf (vp_lasterr + l, sizeof (vp_lasterr) - l, f, ap); } va_end (ap); }
void SCOTCH_errorPrintW (const char * const f, ...) { (void) f; }

#define VP_CASELIMIT 100
/* VP_CASES(name, quick, thorough) { body using vp_rand() } */
#define VP_CASES(name, q, t) \
  for (vp_section = name, vp_caseno = 0; vp_enter (name, vp_thorough ? (t) : (q)); vp_caseno ++)
static int vp_enter (const char *name, long n) {
  if (vp_onlysec && strcmp (vp_onlysec, name)) return (0);
  if (vp_only >= 0) { if (vp_caseno > vp_only) return (0); vp_caseno = vp_only; if (vp_evals && vp_section == NULL) return (0); }
  else if (vp_caseno >= n) return (0);
  if (vp_only >= 0 && vp_evals > 0) return (0);
  if ((vp_only < 0) && (vp_now () - vp_t0 > vp_budget)) return (0);
  alarm (VP_CASELIMIT);
  vp_lasterr[0] = '\0'; vp_clear (); vp_reseed (name, vp_caseno); vp_evals ++;
  return (1);
}
#define VP_NONTRIVIAL() (vp_nontriv ++)
static void vp_keep (void) { if (! vp_sample[0]) snprintf (vp_sample, sizeof (vp_sample), "%s#%ld:%.1500s", vp_section, vp_caseno, vp_desc); }

/* listed defects: run in a child, so that the check goes on; prints a KNOWN line when the defect still shows */
static void vp_known (const char *key, int (*f) (void)) {
  int st = 0; pid_t p;
  fflush (stdout);
  if (vp_onlysec) return;
  if ((p = fork ()) == 0) { freopen ("/dev/null", "w", stdout); freopen ("/dev/null", "w", stderr); alarm (20); _exit (f () != 0); }
  if (p < 0) return;
  waitpid (p, &st, 0);
  if (st != 0) { printf ("KNOWN %s\n", key); fflush (stdout); }
}
static void vp_run (void);
int main (int argc, char **argv) {
  int i;
  vp_t0 = vp_now ();
  for (i = 1; i < argc; i ++) {
    if (! strcmp (argv[i], "--seed")) vp_seed = atol (argv[++ i]);
    else if (! strcmp (argv[i], "--case")) vp_only = atol (argv[++ i]);
    else if (! strcmp (argv[i], "--section")) vp_onlysec = argv[++ i];
    else if (! strcmp (argv[i], "--thorough")) vp_thorough = 1;
    else if (! strcmp (argv[i], "--budget")) vp_budget = atof (argv[++ i]);
  }
  signal (SIGALRM, vp_sig); signal (SIGABRT, vp_sig); signal (SIGFPE, vp_sig);
#if defined(__SANITIZE_ADDRESS__)
  __asan_set_death_callback (vp_asan);
#else
  signal (SIGSEGV, vp_sig); signal (SIGBUS, vp_sig);
#endif
  vp_run ();
  { char *p; for (p = vp_sample; *p; p ++) if (*p == '"' || *p == '\\' || *p == '\n') *p = ' '; }
  printf ("DONE evaluations=%ld nontrivial=%ld assertions=%ld seconds=%.2f\nSAMPLE %s\n", vp_evals, vp_nontriv, vp_checks, vp_now () - vp_t0, vp_sample);
  return (0);
}

/* ------------------------------------------------------------------ graphs */
#define VP_NMAX 600
typedef struct {
  Gnum base, n, m;                 /* m: arcs */
  Gnum *vert, *vend, *edge, *velo, *edlo, *vlbl; /* C arrays (index 0), values based; vend may be vert+1 */
  Gnum vertsz, edgesz;
  int compact;
} VG;
static void *vp_malloc (size_t s) { void *p = malloc (s ? s : 1); if (! p) { printf ("harness out of memory\n"); _exit (3); } return (p); }

enum { VG_VELO = 1, VG_EDLO = 2, VG_HOLES = 4, VG_ZEROV = 8, VG_VLBL = 16 };

/* builds from a symmetric weight matrix; w[i*n+j] = 0: no edge */
static void vg_build (VG *g, Gnum base, Gnum n, const Gnum *w, int flags, int shuffle) {
  Gnum i, j, k, m = 0;
  Gnum *ord = vp_malloc (sizeof (Gnum) * (n + 1));
  g->base = base; g->n = n;
  for (i = 0; i < n * n; i ++) m += (w[i] != 0);
  g->m = m;
  g->compact = ! (flags & VG_HOLES);
  g->velo = g->edlo = g->vlbl = NULL;
  for (i = 0; i < n; i ++) ord[i] = i;
  if (! g->compact) for (i = n - 1; i > 0; i --) { Gnum t; j = vp_rand (i + 1); t = ord[i]; ord[i] = ord[j]; ord[j] = t; }
  g->vert = vp_malloc (sizeof (Gnum) * (n + 1));
  g->vend = g->compact ? g->vert + 1 : vp_malloc (sizeof (Gnum) * (n + 1));
  g->edgesz = m + (g->compact ? 0 : 3 * n + 2);
  g->edge = vp_malloc (sizeof (Gnum) * (g->edgesz + 1));
  if (flags & VG_EDLO) g->edlo = vp_malloc (sizeof (Gnum) * (g->edgesz + 1));
  for (i = 0; i < g->edgesz; i ++) { g->edge[i] = base; if (g->edlo) g->edlo[i] = 1; }
  k = g->compact ? 0 : vp_rand (3);
  for (i = 0; i < n; i ++) {
    Gnum v = ord[i], b = k, d;
    g->vert[v] = base + k;
    for (j = 0; j < n; j ++) if (w[v * n + j]) { g->edge[k] = base + j; if (g->edlo) g->edlo[k] = w[v * n + j]; k ++; }
    d = k - b;
    if (shuffle) for (j = d - 1; j > 0; j --) {
      Gnum x = b + vp_rand (j + 1), t;
      t = g->edge[b + j]; g->edge[b + j] = g->edge[x]; g->edge[x] = t;
      if (g->edlo) { t = g->edlo[b + j]; g->edlo[b + j] = g->edlo[x]; g->edlo[x] = t; }
    }
    if (g->compact) g->vert[v + 1] = base + k; else { g->vend[v] = base + k; k += vp_rand (3); }
  }
  if (n == 0) g->vert[0] = base;
  if (flags & VG_VELO) { g->velo = vp_malloc (sizeof (Gnum) * (n + 1)); for (i = 0; i < n; i ++) g->velo[i] = (flags & VG_ZEROV) ? vp_range (0, 4) : vp_range (1, 5); }
  if (flags & VG_VLBL) { /* distinct labels */
    g->vlbl = vp_malloc (sizeof (Gnum) * (n + 1));
    for (i = 0; i < n; i ++) g->vlbl[i] = base + 3 * i + vp_rand (3);
    for (i = n - 1; i > 0; i --) { Gnum t; j = vp_rand (i + 1); t = g->vlbl[i]; g->vlbl[i] = g->vlbl[j]; g->vlbl[j] = t; }
  }
  free (ord);
}
static void vg_free (VG *g) { free (g->vert); if (! g->compact) free (g->vend); free (g->edge); free (g->velo); free (g->edlo); free (g->vlbl); }

/* random symmetric matrix of one of several families */
static void vg_matrix (Gnum n, Gnum *w, int wmax) {
  Gnum i, j; int fam = (int) vp_rand (8); int den = (int) vp_range (1, 9);
  memset (w, 0, sizeof (Gnum) * n * n);
#define VG_E(a,b) do { Gnum a_ = (a), b_ = (b); if (a_ != b_ && ! w[a_ * n + b_]) { Gnum x_ = wmax > 1 ? vp_range (1, wmax) : 1; w[a_ * n + b_] = x_; w[b_ * n + a_] = x_; } } while (0)
  switch (fam) {
    case 0 : for (i = 0; i + 1 < n; i ++) VG_E (i, i + 1); break;
    case 1 : for (i = 0; i < n; i ++) VG_E (i, (i + 1) % n); break;
    case 2 : for (i = 1; i < n; i ++) VG_E (0, i); break;
    case 3 : for (i = 0; i < n; i ++) for (j = 0; j < i; j ++) if (n <= 30 || vp_rand (4) == 0) VG_E (i, j); break;
    case 4 : { Gnum c = 1; while (c * c < n) c ++; for (i = 0; i < n; i ++) { if ((i + 1) % c && i + 1 < n) VG_E (i, i + 1); if (i + c < n) VG_E (i, i + c); } } break;
    case 5 : for (i = 1; i < n; i ++) VG_E (i, vp_rand (i)); break;
    default : for (i = 0; i < n; i ++) for (j = 0; j < i; j ++) if (vp_rand (10 * (n > 40 ? n / 20 : 1)) < den) VG_E (i, j); break;
  }
  if (vp_rand (3) == 0 && n > 1) for (i = vp_rand (4); i > 0; i --) VG_E (vp_rand (n), vp_rand (n));
}
static Gnum vp_base (void) { static const Gnum b[] = { 0, 0, 1, 1, 0, 1, 0, 1, 0, 1 }; return (b[vp_rand (10)]); }
static Gnum vp_size (Gnum max) { Gnum r = vp_rand (10); if (r < 2) return (vp_range (1, 4)); if (r < 7) return (vp_range (2, max > 14 ? 14 : max)); return (vp_range (1, max)); }
static void vg_describe (const VG *g) {
  vp_note (" base=%ld n=%ld", (long) g->base, (long) g->n);
  vp_arr ("verttab", g->vert, g->compact ? g->n + 1 : g->n);
  if (! g->compact) vp_arr ("vendtab", g->vend, g->n);
  vp_arr ("edgetab", g->edge, g->edgesz);
  if (g->velo) vp_arr ("velotab", g->velo, g->n);
  if (g->edlo) vp_arr ("edlotab", g->edlo, g->edgesz);
  if (g->vlbl) vp_arr ("vlbltab", g->vlbl, g->n);
}
/* random graph; *w receives the matrix (caller frees) */
static Gnum *vg_random (VG *g, Gnum nmax, int allow) {
  Gnum n = vp_size (nmax); Gnum *w = vp_malloc (sizeof (Gnum) * (n * n + 1));
  int f = 0;
  if ((allow & VG_VELO) && vp_rand (2)) f |= VG_VELO;
  if ((allow & VG_ZEROV) && vp_rand (3) == 0) f |= VG_ZEROV;
  if ((allow & VG_EDLO) && vp_rand (2)) f |= VG_EDLO;
  if ((allow & VG_HOLES) && vp_rand (3) == 0) f |= VG_HOLES;
  if ((allow & VG_VLBL) && vp_rand (3) == 0) f |= VG_VLBL;
  vg_matrix (n, w, (f & VG_EDLO) ? 6 : 1);
  vg_build (g, vp_base (), n, w, f, (int) vp_rand (2));
  vg_describe (g);
  return (w);
}
#ifndef VP_PUBLIC
/* fills a library graph structure that borrows the arrays */
static void vg_graph (Graph *grafptr, const VG *g) {
  Gnum i, j, vs = 0, es = 0, dm = 0;
  memset (grafptr, 0, sizeof (Graph));
  grafptr->flagval = GRAPHNONE;
  grafptr->baseval = g->base;
  grafptr->vertnbr = g->n; grafptr->vertnnd = g->n + g->base;
  grafptr->verttax = g->vert - g->base; grafptr->vendtax = g->vend - g->base;
  grafptr->velotax = g->velo ? g->velo - g->base : NULL;
  grafptr->vnumtax = NULL;
  grafptr->vlbltax = g->vlbl ? g->vlbl - g->base : NULL;
  grafptr->edgenbr = g->m;
  grafptr->edgetax = g->edge - g->base;
  grafptr->edlotax = g->edlo ? g->edlo - g->base : NULL;
  for (i = 0; i < g->n; i ++) {
    Gnum d = g->vend[i] - g->vert[i];
    vs += g->velo ? g->velo[i] : 1;
    if (d > dm) dm = d;
    for (j = g->vert[i] - g->base; j < g->vend[i] - g->base; j ++) es += g->edlo ? g->edlo[j] : 1;
  }
  grafptr->velosum = vs; grafptr->edlosum = es; grafptr->degrmax = dm;
}
/* independent oracle: is the graph structure well formed? */
static const char *vg_wellformed (const Graph *g) {
  Gnum v, e, f, vs = 0, es = 0, dm = 0, en = 0;
  if (g->vertnnd - g->baseval != g->vertnbr) return ("vertex count");
  if (g->vertnbr < 0) return ("vertex count");
  for (v = g->baseval; v < g->vertnnd; v ++) {
    Gnum d = g->vendtax[v] - g->verttax[v];
    if (g->verttax[v] < g->baseval || d < 0) return ("vertex range");
    if (d > dm) dm = d;
    en += d;
    if (g->velotax && g->velotax[v] < 0) return ("vertex load");
    vs += g->velotax ? g->velotax[v] : 1;
  }
  if (en != g->edgenbr) return ("edge count");
  for (v = g->baseval; v < g->vertnnd; v ++)
    for (e = g->verttax[v]; e < g->vendtax[v]; e ++) {
      Gnum u = g->edgetax[e], c = 0;
      if (u < g->baseval || u >= g->vertnnd) return ("edge end");
      if (u == v) return ("loop");
      if (g->edlotax && g->edlotax[e] < 0) return ("edge load");
      for (f = g->verttax[v]; f < g->vendtax[v]; f ++) if (f != e && g->edgetax[f] == u) return ("duplicate edge");
      for (f = g->verttax[u]; f < g->vendtax[u]; f ++) if (g->edgetax[f] == v) { c ++; if (g->edlotax && g->edlotax[f] != g->edlotax[e]) return ("edge load symmetry"); }
      if (c != 1) return ("symmetry");
      es += g->edlotax ? g->edlotax[e] : 1;
    }
  if (vs != g->velosum) return ("vertex load sum");
  if (es != g->edlosum) return ("edge load sum");
  if (dm > g->degrmax) return ("maximum degree");
  return (NULL);
}
/* weight of arc u->v, 0 if none */
static Gnum vg_arc (const Graph *g, Gnum u, Gnum v) {
  Gnum e;
  for (e = g->verttax[u]; e < g->vendtax[u]; e ++) if (g->edgetax[e] == v) return (g->edlotax ? g->edlotax[e] : 1);
  return (0);
}
#endif
#endif
