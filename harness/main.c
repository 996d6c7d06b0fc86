/* drv gen  OPS COUNT SEED            print a script of generated calls
   drv rec  SCRIPT OUT [threads]      execute a script against libdfp, write one ndjson event per call
   drv explore OPS ITERS SEED MAXSEC  coverage-guided input search (needs the instrumented library)
   OPS is a comma list of name:width. */
#define _GNU_SOURCE 1
#include <errno.h>
#include <fenv.h>
#include <limits.h>
#include <pthread.h>
#include <setjmp.h>
#include <signal.h>
#include <stdatomic.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
#include "val.h"
#include "gen.h"
extern int fe_dec_setround (int), fe_dec_getround (void);
#define ALLX (FE_INVALID | FE_DIVBYZERO | FE_OVERFLOW | FE_UNDERFLOW | FE_INEXACT)

typedef struct { const Op *op; int t, m, f, n, b; V a[4]; } Call;   /* m,f,n,b: -1 leave as is */

/* ---------- crash containment ---------- */
static __thread sigjmp_buf jb; static __thread volatile int injb; static volatile long progress;
static void on_sig (int s) { if (injb) siglongjmp (jb, s); signal (s, SIG_DFL); raise (s); }
static long lastp; static int stuck;
static void (*mt_stuck) (void);  /* concurrent run: write what there is and end */
static void on_alarm (int s) { (void) s; if (progress == lastp) { if (++stuck >= 20 && mt_stuck) mt_stuck (); if (stuck >= 20 && injb) { stuck = 0; siglongjmp (jb, SIGALRM); } } else { lastp = progress; stuck = 0; } }
static void sig_init (void)
{
  static char alt[1 << 16]; stack_t ss = { .ss_sp = alt, .ss_size = sizeof alt }; sigaltstack (&ss, 0);
  struct sigaction sa = { .sa_handler = on_sig, .sa_flags = SA_ONSTACK | SA_NODEFER };
  int l[] = { SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT }; for (int i = 0; i < 5; i++) sigaction (l[i], &sa, 0);
  struct sigaction al = { .sa_handler = on_alarm, .sa_flags = SA_NODEFER | SA_RESTART }; sigaction (SIGALRM, &al, 0);
  struct itimerval it = { { 1, 0 }, { 1, 0 } }; setitimer (ITIMER_REAL, &it, 0);
}

/* ---------- script ---------- */
static void phex (FILE *o, u128 v) { if (v >> 64) fprintf (o, " %lx%016lx", (unsigned long) (v >> 64), (unsigned long) v); else fprintf (o, " %lx", (unsigned long) v); }
static void call_print (FILE *o, const Call *c)
{
  if (c->t) fprintf (o, "@%d ", c->t);
  fprintf (o, "%s %d", c->op->name, c->op->w);
  if (c->m >= 0) fprintf (o, " m=%d", c->m);
  if (c->f >= 0) fprintf (o, " f=%d", c->f);
  if (c->n >= 0) fprintf (o, " n=%d", c->n);
  if (c->b >= 0) fprintf (o, " b=%d", c->b);
  for (int i = 0; i < 4 && c->op->at[i]; i++)
    if (c->a[i].ty == T_STR) { fprintf (o, " s"); for (int j = 0; j < c->a[i].n; j++) fprintf (o, "%02x", (unsigned char) c->a[i].s[j]); }
    else phex (o, val_bits (&c->a[i]));
  fputc ('\n', o);
}
static int hv (int c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : -1; }
static int call_parse (char *l, Call *c)
{
  char *sv, *p = l; c->t = 0; c->m = c->f = c->n = c->b = -1;
  char *tok = strtok_r (p, " \n", &sv); if (!tok || *tok == '#') return 0;
  if (*tok == '@') { c->t = atoi (tok + 1); tok = strtok_r (0, " \n", &sv); }
  char *w = strtok_r (0, " \n", &sv); if (!w) return 0;
  static __thread const Op *last; 
  if (!last || last->w != atoi (w) || strcmp (last->name, tok)) last = op_find (tok, atoi (w));
  c->op = last; if (!c->op) { fprintf (stderr, "unknown op %s %s\n", tok, w); exit (2); }
  int i = 0; memset (c->a, 0, sizeof c->a);
  while ((tok = strtok_r (0, " \n", &sv)))
    {
      if (tok[0] == 'm' && tok[1] == '=') c->m = atoi (tok + 2);
      else if (tok[0] == 'f' && tok[1] == '=') c->f = atoi (tok + 2);
      else if (tok[0] == 'n' && tok[1] == '=') c->n = atoi (tok + 2);
      else if (tok[0] == 'b' && tok[1] == '=') c->b = atoi (tok + 2);
      else if (tok[0] == 's')
        {
          int n = strlen (tok + 1) / 2; char *s = malloc (n + 1);
          for (int j = 0; j < n; j++) s[j] = hv (tok[1 + 2 * j]) * 16 + hv (tok[2 + 2 * j]);
          s[n] = 0; c->a[i].ty = T_STR; c->a[i].s = s; c->a[i].n = n; i++;
        }
      else { u128 v = 0; for (char *q = tok; hv (*q) >= 0; q++) v = v * 16 + hv (*q); val_set (&c->a[i], c->op->at[i], v); i++; }
      if (i > 3) break;
    }
  return 1;
}

/* ---------- events ---------- */
typedef struct { char *b; size_t n, cap; } Buf;
static void need (Buf *o, size_t k) { if (o->n + k > o->cap) { o->cap = (o->cap + k) * 2; o->b = realloc (o->b, o->cap); } }
static void puts_ (Buf *o, const char *s) { size_t l = strlen (s); need (o, l); memcpy (o->b + o->n, s, l); o->n += l; }
static void puti (Buf *o, long v) { char t[24]; int i = 24; unsigned long u = v < 0 ? -(unsigned long) v : (unsigned long) v; do t[--i] = '0' + u % 10; while (u /= 10); if (v < 0) t[--i] = '-'; need (o, 24); memcpy (o->b + o->n, t + i, 24 - i); o->n += 24 - i; }
static void putlimbs (Buf *o, u128 c) { while (c) { puts_ (o, ","); puti (o, (long) (c % 10000)); c /= 10000; } }
/* canonical or not, and whether in the large-coefficient form */
static int plain (const V *v)
{
  int w = tw (v->ty); if (!w) return 1;
  u128 b = val_bits (v); Dec d = dec_decode (w, b);
  return d.canon && !(d.k == 0 && ((b >> (w - 3)) & 3) == 3);
}
static int putval (Buf *o, const V *v)
{
  int canon = 1;
  switch (v->ty)
    {
    case T_D32: case T_D64: case T_D128:
      { Dec d = dec_decode (tw (v->ty), val_bits (v)); canon = d.canon; puts_ (o, "["); puti (o, d.k); puts_ (o, ","); puti (o, d.s); puts_ (o, ","); puti (o, d.e); putlimbs (o, d.c); puts_ (o, "]"); break; }
    case T_I32: case T_I64: case T_I128:
      { s128 x = v->ty == T_I32 ? v->i32 : v->ty == T_I64 ? v->i64 : v->i128; puts_ (o, x < 0 ? "[1" : "[0"); putlimbs (o, x < 0 ? -(u128) x : (u128) x); puts_ (o, "]"); break; }
    case T_U32: case T_U64: case T_U128: { u128 x = v->ty == T_U32 ? v->u32 : v->ty == T_U64 ? v->u64 : v->u128_; puts_ (o, "[0"); putlimbs (o, x); puts_ (o, "]"); break; }
    case T_INT: puti (o, v->in); break;
    case T_F32: case T_F64: case T_F80: case T_F128:
      { Dec d = bin_decode (v->ty, val_bits (v)); puts_ (o, "["); puti (o, d.k); puts_ (o, ","); puti (o, d.s); puts_ (o, ","); puti (o, d.e); putlimbs (o, d.c); puts_ (o, "]"); break; }
    case T_STR: puts_ (o, "["); for (int i = 0; i < v->n; i++) { if (i) puts_ (o, ","); puti (o, (unsigned char) v->s[i]); } puts_ (o, "]"); break;
    default: puts_ (o, "0");
    }
  return canon;
}
static int brm (void) { return fegetround () >> 10; }
static void st (Buf *o, int m, int f, int n, int b) { puts_ (o, "["); puti (o, m); puts_ (o, ","); puti (o, f); puts_ (o, ","); puti (o, n); puts_ (o, ","); puti (o, b); puts_ (o, "]"); }

/* execute one call; returns 0, or the signal that ended it */
static int run_call (Call *c, Buf *o, int first)
{
  int user = first;
  if (c->b >= 0) { fesetround (c->b << 10); user = 1; }
  if (c->m >= 0) { fe_dec_setround (c->m); user = 1; }
  if (c->f >= 0) { feclearexcept (FE_ALL_EXCEPT); if (c->f) { fexcept_t e = c->f & ALLX; fesetexceptflag (&e, c->f & ALLX); } user = 1; }
  if (c->n >= 0) { errno = c->n; user = 1; }
  V r[4]; memset (r, 0, sizeof r); for (int i = 0; i < 4; i++) r[i].ty = c->op->rt[i];
  int pm = fe_dec_getround (), pf = fetestexcept (ALLX), pb = brm (), pn = errno, sig;
  progress++; injb = 1;
  if (!(sig = sigsetjmp (jb, 1))) { errno = pn; c->op->call (r, c->a); pn = pn; }
  int qn = errno; injb = 0;
  int qf = fetestexcept (ALLX), qm = fe_dec_getround (), qb = brm ();
  if (!o) return sig;
  puts_ (o, "{\"t\":"); puti (o, c->t); puts_ (o, ",\"u\":"); puti (o, user); puts_ (o, ",\"f\":\""); puts_ (o, c->op->name); puts_ (o, "\",\"w\":"); puti (o, c->op->w);
  puts_ (o, ",\"p\":"); st (o, pm, pf, pn, pb);
  puts_ (o, ",\"a\":["); int odd = 0;
  for (int i = 0; i < 4 && c->op->at[i]; i++) { if (i) puts_ (o, ","); putval (o, &c->a[i]); odd |= !plain (&c->a[i]); }
  puts_ (o, "],\"i\":"); puti (o, odd); puts_ (o, ",\"c\":"); puti (o, sig);
  puts_ (o, ",\"r\":["); int canon = 1;
  if (!sig) for (int i = 0; i < 4 && c->op->rt[i]; i++) { if (i) puts_ (o, ","); canon &= putval (o, &r[i]); }
  puts_ (o, "],\"k\":"); puti (o, canon);
  puts_ (o, ",\"q\":"); st (o, qm, qf, qn, qb); puts_ (o, "}\n");
  return sig;
}

/* ---------- recording ---------- */
typedef struct { Call *c; int n, t; Buf o; long *seq; size_t *off; } Th;
static atomic_long ticket; static pthread_barrier_t bar;
/* Cooperative scheduling: one thread runs at a time, and hands over at basic blocks of the instrumented
   library chosen by a seeded generator; a waiter steals the turn from a holder that blocks elsewhere. */
static int coop, nth; static _Atomic int turn; static _Atomic int live[64]; static _Atomic long turns; static uint64_t crng;
static pthread_mutex_t cmx = PTHREAD_MUTEX_INITIALIZER; static pthread_cond_t ccv[64];
static __thread int me = -1; static __thread long fuse;
static uint64_t crnd (void) { crng ^= crng << 13; crng ^= crng >> 7; crng ^= crng << 17; return crng; }
static long newfuse (void) { return 1 + (long) (crnd () % (1ull << (1 + crnd () % 13))); }
static void await_turn (void)
{
  while (turn != me)
    {
      struct timespec ts; clock_gettime (CLOCK_REALTIME, &ts); ts.tv_sec += 2; long seen_turns = turns;
      if (pthread_cond_timedwait (&ccv[me], &cmx, &ts) == ETIMEDOUT && turn != me && turns == seen_turns) { turn = me; turns++; }
    }
}
static void pass_turn (int leaving)
{
  int keep = errno;
  pthread_mutex_lock (&cmx);
  if (leaving) live[me] = 0;
  int c[64], n = 0; for (int i = 0; i < nth; i++) if (live[i] && i != me) c[n++] = i;
  fuse = newfuse ();
  if (n) { turn = c[crnd () % n]; turns++; pthread_cond_signal (&ccv[turn]); if (!leaving) await_turn (); }
  pthread_mutex_unlock (&cmx);
  errno = keep;
}
static void *th_run (void *p)
{
  Th *h = p; pthread_barrier_wait (&bar);
  if (coop) { pthread_mutex_lock (&cmx); me = h->t; await_turn (); fuse = newfuse (); pthread_mutex_unlock (&cmx); }
  for (int i = 0; i < h->n; i++)
    { h->off[i] = h->o.n; int s = run_call (&h->c[i], &h->o, i == 0); h->off[i + 1] = h->o.n; h->seq[i] = atomic_fetch_add (&ticket, 1); if (s) { h->n = i + 1; break; } }
  h->off[h->n] = h->o.n;
  if (coop) pass_turn (1);
  return 0;
}
static int do_rec (const char *script, const char *out)
{
  FILE *f = fopen (script, "r"), *o = fopen (out, "w"); if (!f || !o) { perror ("rec"); return 2; }
  char *line = 0; size_t cap = 0; Call c; Buf b = { 0 }; int n = 0, first = 1;
  sig_init ();
  while (getline (&line, &cap, f) > 0)
    if (call_parse (line, &c))
      {
        b.n = 0; int s = run_call (&c, &b, first); first = 0; fwrite (b.b, 1, b.n, o); n++;
        for (int i = 0; i < 4; i++) if (c.a[i].ty == T_STR) free (c.a[i].s);
        if (s) { fflush (o); fe_dec_setround (0); if (s == SIGALRM || s == SIGABRT) break; }
      }
  fclose (o); fprintf (stderr, "events %d\n", n);
  return 0;
}
static Th *mt_h; static FILE *mt_o;
static void mt_write (void)      /* the calls that ended, in the order they ended */
{
  Th *h = mt_h; static int pos[64];
  for (;;)
    {
      int bt = -1;
      for (int t = 0; t < nth; t++) if (pos[t] < h[t].n && h[t].seq[pos[t]] < LONG_MAX && (bt < 0 || h[t].seq[pos[t]] < h[bt].seq[pos[bt]])) bt = t;
      if (bt < 0) return;
      int k = pos[bt]++; fwrite (h[bt].o.b + h[bt].off[k], 1, h[bt].off[k + 1] - h[bt].off[k], mt_o);
    }
}
static void mt_dump (void) { mt_write (); fclose (mt_o); _exit (3); }
static int do_recmt (const char *script, const char *out, int T, uint64_t seed)
{
  sig_init (); if (seed) { coop = 1; crng = seed * 0x9e3779b97f4a7c15ull + 1; } nth = T; for (int t = 0; t < T; t++) { live[t] = 1; pthread_cond_init (&ccv[t], 0); }
  FILE *f = fopen (script, "r"), *o = mt_o = fopen (out, "w"); if (!f || !o) { perror ("rec"); return 2; }
  char *line = 0; size_t cap = 0; Th *h = mt_h = calloc (T, sizeof *h); int tot = 0;
  int *capn = calloc (T, sizeof (int));
  while (getline (&line, &cap, f) > 0)
    { Call c; if (!call_parse (line, &c)) continue; int t = c.t % T; c.t = t; if (h[t].n == capn[t]) { capn[t] = capn[t] * 2 + 1024; h[t].c = realloc (h[t].c, capn[t] * sizeof (Call)); } h[t].c[h[t].n++] = c; }
  pthread_barrier_init (&bar, 0, T); pthread_t id[64];
  for (int t = 0; t < T; t++) { h[t].seq = malloc ((h[t].n + 1) * sizeof (long)); for (int i = 0; i <= h[t].n; i++) h[t].seq[i] = LONG_MAX; h[t].off = calloc (h[t].n + 2, sizeof (size_t)); h[t].t = t; }
  mt_stuck = mt_dump;
  for (int t = 0; t < T; t++) { pthread_create (&id[t], 0, th_run, &h[t]); }
  for (int t = 0; t < T; t++) { pthread_join (id[t], 0); tot += h[t].n; }
  mt_stuck = 0; mt_write ();
  fclose (o); fprintf (stderr, "events %d threads %d\n", tot, T);
  return 0;
}

/* ---------- coverage ---------- */
#define MAPB 20
static uint8_t seen[1 << MAPB]; static uint32_t cur[1 << 16]; static int ncur; static volatile int cov_on;
static uint64_t prevpc, base;
static inline __attribute__ ((always_inline)) void feat (uint64_t h)
{ h *= 0x9e3779b97f4a7c15ull; uint32_t i = h >> (64 - MAPB); if (!seen[i] && ncur < (1 << 16)) { seen[i] = 1; cur[ncur++] = i; } }
__attribute__ ((noinline)) void __sanitizer_cov_trace_pc (void)
{ if (me >= 0 && injb && --fuse <= 0) pass_turn (0); if (!cov_on) return; uint64_t pc = (uint64_t) __builtin_return_address (0) - base; feat (pc * 31 + (prevpc << 7)); prevpc = pc; }
static inline void cmp (uint64_t pc, uint64_t a, uint64_t b, int bits, int cst)
{
  pc -= base;
  int x = __builtin_popcountll (a ^ b), lz = a == b ? 64 : __builtin_clzll (a ^ b);
  feat ((pc << 8 | x) + 0x100000000ull); feat ((pc << 8 | lz) + 0x200000000ull);
  (void) cst;
  if (bits >= 16 && (a > 64 || b > 64))
    {
      static uint32_t k; if ((++k & 63) == 0) { uint64_t v = k & 64 ? a : b; if (ndict < DICT) dict[ndict++] = v; else dict[(v * 0x9e3779b97f4a7c15ull) >> 51] = v; }
    }
}
#define CB(n, T) __attribute__ ((noinline)) void __sanitizer_cov_trace_cmp##n (T a, T b) { if (cov_on) cmp ((uint64_t) __builtin_return_address (0), a, b, sizeof (T) * 8, 0); } \
  __attribute__ ((noinline)) void __sanitizer_cov_trace_const_cmp##n (T a, T b) { if (cov_on) cmp ((uint64_t) __builtin_return_address (0), a, b, sizeof (T) * 8, 1); }
CB (1, uint8_t) CB (2, uint16_t) CB (4, uint32_t) CB (8, uint64_t)
void __sanitizer_cov_trace_cmpf (float a, float b) { (void) a; (void) b; }
void __sanitizer_cov_trace_cmpd (double a, double b) { (void) a; (void) b; }
void __sanitizer_cov_trace_switch (uint64_t v, uint64_t *c) { if (cov_on) { uint64_t pc = (uint64_t) __builtin_return_address (0); for (uint64_t i = 0; i < c[0] && i < 64; i++) cmp (pc + i, v, c[2 + i], 32, 1); } }

static Call *corpus; static int ncorp, ccap;
static void corp_add (const Call *c)
{
  if (ncorp == ccap) { ccap = ccap * 2 + 256; corpus = realloc (corpus, ccap * sizeof (Call)); }
  corpus[ncorp] = *c;
  for (int i = 0; i < 4; i++) if (c->a[i].ty == T_STR) { char *s = malloc (c->a[i].n + 1); memcpy (s, c->a[i].s, c->a[i].n + 1); corpus[ncorp].a[i].s = s; }
  ncorp++;
}
static double now (void) { struct timespec t; clock_gettime (CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static void prep (Call *c)
{
  c->t = 0; c->m = ri (3) ? ri (5) : 0; c->f = 0; c->n = 0; c->b = isbin (c->op->rt[0]) ? (ri (3) ? ri (4) : 0) : -1;
}
static int nc;                  /* prefer odd encodings */
static void do_explore (const Op *op, long iters, double maxsec, FILE *o)
{
  memset (seen, 0, sizeof seen); for (int i = 0; i < ncorp; i++) for (int j = 0; j < 4; j++) if (corpus[i].a[j].ty == T_STR) free (corpus[i].a[j].s);
  ncorp = 0; ndict = 0;
  double end = now () + maxsec; long it, crashes = 0;
  for (it = 0; it < iters; it++)
    {
      if ((it & 255) == 0 && now () > end) break;
      Call c; c.op = op;
      if (ncorp < 8 || ri (3) == 0) { prep (&c); gen_args (op, c.a); }
      else
        {
          int k = ri (2) ? ri (ncorp) : ncorp - 1 - ri (ncorp > 64 ? 64 : ncorp);
          c = corpus[k]; if (ri (4) == 0) c.m = ri (5);
          if (ri (20) == 0) { Call *d = &corpus[ri (ncorp)]; for (int i = 0; i < 4; i++) if (ri (2)) c.a[i] = d->a[i]; }
          mut_args (op, c.a);
        }
      if (nc) gen_recode (op, c.a);
      V r[4]; memset (r, 0, sizeof r); fe_dec_setround (c.m); feclearexcept (FE_ALL_EXCEPT); errno = 0;
      ncur = 0; prevpc = 0; int sig; progress++; injb = 1;
      if (!(sig = sigsetjmp (jb, 1))) { cov_on = 1; op->call (r, c.a); }
      cov_on = 0; injb = 0;
      if (ncur || (sig && crashes++ < 5)) { call_print (o, &c); corp_add (&c); }
      if (crashes > 20) break;
    }
  fprintf (stderr, "explored %s:%d iters %ld corpus %d%s\n", op->name, op->w, it, ncorp, it < iters ? " (time cap)" : "");
}
extern int fe_dec_getround (void);
#include <dlfcn.h>
int main (int argc, char **argv)
{
  val_init (); nc = getenv ("NC") != 0;
  if (argc < 4) return 2;
  if (!strcmp (argv[1], "rec"))
    { int T = argc > 4 ? atoi (argv[4]) : 0; return T > 1 ? do_recmt (argv[2], argv[3], T, argc > 5 ? strtoull (argv[5], 0, 0) : 0) : do_rec (argv[2], argv[3]); }
  long n = atol (argv[3]); uint64_t seed = argc > 4 ? strtoull (argv[4], 0, 0) : 1;
  int ex = !strcmp (argv[1], "explore"); double maxsec = argc > 5 ? atof (argv[5]) : 1e9;
  if (ex) { sig_init (); Dl_info di; if (dladdr ((void *) (uintptr_t) fe_dec_getround, &di)) base = (uint64_t) di.dli_fbase; }
  char *sv; int idx = 0;
  for (char *t = strtok_r (argv[2], ",", &sv); t; t = strtok_r (0, ",", &sv), idx++)
    {
      char *c = strchr (t, ':'); if (!c) return 2; *c = 0;
      const Op *op = op_find (t, atoi (c + 1)); if (!op) { fprintf (stderr, "no op %s\n", t); return 2; }
      uint64_t h = seed * 1000003; for (const char *q = op->name; *q; q++) h = h * 131 + *q; rng_s = h * 2654435761u + op->w; rnd ();
      if (ex) { do_explore (op, n, maxsec, stdout); continue; }
      for (long i = 0; i < n; i++)
        {
          Call k; k.op = op; prep (&k);
          if (ri (4) == 0) k.f = (ri (2) ? FE_INEXACT : 0) | (ri (4) ? 0 : FE_INVALID) | (ri (4) ? 0 : FE_OVERFLOW) | (ri (4) ? 0 : FE_UNDERFLOW) | (ri (4) ? 0 : FE_DIVBYZERO);
          if (ri (4) == 0) { static const int en[] = { 33, 34, 4, 2, 12345 }; k.n = en[ri (5)]; }
          if (ri (10) == 0) { k.m = -1; k.f = -1; k.n = -1; }
          if (ri (50) == 0) k.b = ri (4); else if (k.b < 0 && ri (10) == 0) k.b = 0;
          gen_args (op, k.a); if (nc) gen_recode (op, k.a); call_print (stdout, &k);
        }
    }
  return 0;
}
