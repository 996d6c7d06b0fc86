/* The public API of libdfp as a table of callable operations. */
#define _GNU_SOURCE 1
#include <fenv.h>
#include <math.h>
#include <stdlib.h>
#include <wchar.h>
#include <stdio.h>
#include <string.h>
#include <errno.h>
#include <locale.h>
#include <unistd.h>
#include "val.h"
#include "ops_enum.h"
extern char *decoded32 (_Decimal32, char *);
extern char *decoded64 (_Decimal64, char *);
extern char *decoded128 (_Decimal128, char *);
int cxx_oput (int w, const void *bits, int flags, int prec, char *out, int n);
void cxx_iget (int, const char *, void *, void *, int *, int *);
void cxx_trip (int, void *, int, int);

#define OUTMAX 20000
static __thread char outbuf[OUTMAX + 64];

/* a[1].s: printf specification without '%' and without length modifier, e.g. "-08.3e".
   A leading '!' passes width and precision through '*'. */
static void do_fmt (V *r, const V *a, int w)
{
  const char *mod = w == 32 ? "H" : w == 64 ? "D" : "DD";
  char f[128]; const char *s = a[1].s; int star = 0, n = a[1].n;
  int width = 0, prec = 0, hw = 0, hp = 0;
  char flags[32]; int nf = 0;
  if (n && *s == '!') { star = 1; s++; n--; }
  if (star)
    {
      int i = 0;
      while (i < n - 1 && strchr ("-+ #0'", s[i]) && nf < 30) flags[nf++] = s[i++];
      flags[nf] = 0;
      if (s[i] >= '1' && s[i] <= '9') { hw = 1; width = strtol (s + i, 0, 10); while (s[i] >= '0' && s[i] <= '9') i++; }
      if (s[i] == '.') { hp = 1; prec = atoi (s + i + 1); }
      snprintf (f, sizeof f, "<%%d|%%%s%s%s%s%c|%%s>", flags, hw ? "*" : "", hp ? ".*" : "", mod, s[n-1]);
    }
  else
    snprintf (f, sizeof f, "<%%d|%%%.*s%s%c|%%s>", n - 1, s, mod, s[n-1]);
  int ret;
  memset (outbuf, '~', 64);
#define CALL(x) (hw && hp ? snprintf (outbuf, OUTMAX, f, 42, width, prec, x, "end") \
                : hw ? snprintf (outbuf, OUTMAX, f, 42, width, x, "end") \
                : hp ? snprintf (outbuf, OUTMAX, f, 42, prec, x, "end") \
                : snprintf (outbuf, OUTMAX, f, 42, x, "end"))
#pragma GCC diagnostic push
#pragma GCC diagnostic ignored "-Wformat-security"
  if (w == 32) ret = CALL (a[0].d32); else if (w == 64) ret = CALL (a[0].d64); else ret = CALL (a[0].d128);
#pragma GCC diagnostic pop
  outbuf[OUTMAX - 1] = 0;
  int len = strlen (outbuf);
  r[0].ty = T_STR;
  if (len >= 9 && !memcmp (outbuf, "<42|", 4) && !strcmp (outbuf + len - 5, "|end>"))
    { r[0].s = outbuf + 4; r[0].n = len - 9; r[1].in = ret - 9; }
  else { r[0].s = outbuf; r[0].n = len; r[1].in = -1000; }
}

static __thread char sfbuf[OUTMAX + 64];
static void do_strfrom (V *r, const V *a, int w)
{
  int n = a[2].i32, ret;
  if (n > OUTMAX) n = OUTMAX; if (n < 0) n = 0;
  memset (sfbuf, 0x7e, n + 32);
  if (w == 32) ret = strfromd32 (sfbuf, n, a[1].s, a[0].d32);
  else if (w == 64) ret = strfromd64 (sfbuf, n, a[1].s, a[0].d64);
  else ret = strfromd128 (sfbuf, n, a[1].s, a[0].d128);
  int clean = 1;
  for (int i = 0; i < 32; i++) if (sfbuf[n + i] != 0x7e) clean = 0;
  int len = n ? (int) strnlen (sfbuf, n) : 0;
  r[0].s = sfbuf; r[0].n = len; r[1].in = ret;
  r[2].in = clean && (n == 0 || len < n);
}
static void do_oput (V *r, const V *a, int w)
{
  int n = cxx_oput (w, &a[0].b128, a[1].i32, a[2].i32, outbuf, OUTMAX);
  r[0].s = outbuf; r[0].n = n;
}
static void do_iget (V *r, const V *a, int w)
{
  r[0].b128 = r[3].b128 = 0; int fail = 0, pos[2] = { 0, 0 };
  cxx_iget (w, a[0].s, &r[0].b128, &r[3].b128, &fail, pos);
  r[1].in = fail & 1; r[2].in = pos[0];
}
static void do_iget2 (V *r, const V *a, int w)
{
  r[0].b128 = r[1].b128 = 0; int fail = 0, pos[2] = { 0, 0 };
  cxx_iget (w, a[0].s, &r[0].b128, &r[1].b128, &fail, pos);
  r[2].in = fail; r[3].in = pos[1];
}
/* write with %a (or %.Pe with full precision) and read back: 0 printf and strtod, 1 strfrom and strtod,
   2 printf and wcstod, 3 streams */
static void do_rtrip (V *r, const V *a, int w)
{
  int how = a[1].i32 & 3, sci = (a[1].i32 & 4) != 0, prec = (w == 32 ? 7 : w == 64 ? 16 : 34) - 1;
  char b[600], f[16]; wchar_t wb[600];
  r[0].b128 = a[0].b128;
  if (how == 3) { cxx_trip (w, &r[0].b128, sci, prec); return; }
  const char *mod = how == 1 ? "" : w == 32 ? "H" : w == 64 ? "D" : "DD";
  if (sci) snprintf (f, sizeof f, "%%.%d%se", prec, mod); else snprintf (f, sizeof f, "%%%sa", mod);
#define WR(sf, x) (how == 1 ? sf (b, sizeof b, f, x) : snprintf (b, sizeof b, f, x))
#pragma GCC diagnostic push
#pragma GCC diagnostic ignored "-Wformat-security"
  if (w == 32) WR (strfromd32, a[0].d32); else if (w == 64) WR (strfromd64, a[0].d64); else WR (strfromd128, a[0].d128);
#pragma GCC diagnostic pop
  int i = 0; do wb[i] = (unsigned char) b[i]; while (b[i++]);
#define RD(sn, wn) (how == 2 ? wn (wb, 0) : sn (b, 0))
  if (w == 32) r[0].d32 = RD (strtod32, wcstod32); else if (w == 64) r[0].d64 = RD (strtod64, wcstod64); else r[0].d128 = RD (strtod128, wcstod128);
}
/* locales of our own, see locales.sh: radix character and the rest are known to the specification too */
static const char *const lnames[] = { "C", "vf1.UTF-8", "vf2.UTF-8", "vf3.UTF-8", "vf4.UTF-8", "vf5.UTF-8", "vf6.UTF-8" };
static const struct { const char *mb; wchar_t wc; } lradix[] = { { ".", L'.' }, { ",", L',' }, { ".", L'.' }, { "\xd9\xab", 0x66b }, { ",", L',' }, { ",", L',' }, { ",", L',' } };
#define NLOC ((unsigned) (sizeof lnames / sizeof *lnames))
static void set_locale (int i)
{
  int e = errno; static int ready;
  if (!ready) { ready = 1; char p[4096]; ssize_t n = readlink ("/proc/self/exe", p, sizeof p - 20); if (n > 0) { p[n] = 0; strcpy (strrchr (p, '/'), "/locales"); setenv ("LOCPATH", p, 1); } }
  if (!setlocale (LC_ALL, lnames[(unsigned) i % NLOC])) { fprintf (stderr, "no locale %s\n", lnames[(unsigned) i % NLOC]); _exit (9); }
  errno = e;
}
#define IN_LOCALE(i, call) do { set_locale (i); call; set_locale (0); } while (0)
static wchar_t *widen (const V *a, int loc)
{
  static __thread wchar_t b[OUTMAX]; unsigned l = (unsigned) loc % NLOC; int m = strlen (lradix[l].mb), n = 0;
  for (const char *p = a[0].s; *p && n < OUTMAX - 1; )
    if (!strncmp (p, lradix[l].mb, m)) { b[n++] = lradix[l].wc; p += m; } else b[n++] = (unsigned char) *p++;
  b[n] = 0; return b;
}
#include "ops_gen.h"
const Op *op_find (const char *name, int w)
{
  for (int i = 0; i < nops; i++) if (ops[i].w == w && !strcmp (ops[i].name, name)) return &ops[i];
  return 0;
}
