/* Structured argument generation.  Only chooses inputs; no verdict depends on it. */
#define _GNU_SOURCE 1
#include <math.h>
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include "val.h"
#include "gen.h"
#include "ops_enum.h"

uint64_t rng_s = 1;
uint64_t rnd (void) { uint64_t z = (rng_s += 0x9e3779b97f4a7c15ull); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
int ri (int n) { return n <= 0 ? 0 : (int) (rnd () % (unsigned) n); }
int rr (int a, int b) { return a + ri (b - a + 1); }
static u128 r128 (void) { return ((u128) rnd () << 64) | rnd (); }

uint64_t dict[DICT]; int ndict;       /* comparison operands harvested by the explorer */

static int ndig (u128 c) { int n = 0; while (c) { n++; c /= 10; } return n; }
static u128 rdig (int n) { return n <= 0 ? 0 : n >= 39 ? r128 () % p10[38] : r128 () % p10[n]; }

/* a coefficient with at most P digits */
u128 g_coef (int P)
{
  int n = rr (1, P);
  if (ri (4) == 0) n = P;
  u128 c;
  switch (ri (23))
    {
    case 0: c = 0; break;
    case 1: c = rr (1, 9); break;
    case 2: c = p10[n - 1]; break;
    case 3: c = p10[n] - 1; break;
    case 4: c = p10[n - 1] + rr (0, 9); break;
    case 5: c = p10[n] - 1 - rr (0, 20); break;
    case 6: c = 5 * p10[n - 1]; break;
    case 7: c = 5 * p10[n - 1] + 1; break;
    case 8: c = 5 * p10[n - 1] - 1; break;
    case 9: { int z = ri (n); c = rdig (n - z) * p10[z]; } break;           /* trailing zeros */
    case 10: { int z = ri (n); c = rdig (n - z) * p10[z] + (z ? 5 * p10[z - 1] : 0); } break;   /* ...5000 */
    case 11: { int z = ri (n); c = rdig (n - z) * p10[z] + (p10[z] - 1); } break;   /* ...9999 */
    case 12: c = ((u128) 1 << ri (113)) + rr (-2, 2); break;
    case 13: c = rr (1, 999); break;
    case 22: { int b = n > 20 && ri (4) ? 64 : n > 11 ? 32 : 16; c = (rdig (n) >> b << b) + rr (-6, 6); } break;
    case 14: if (ndict) { c = dict[ri (ndict)]; if (ri (2)) c &= 0x7fffffffffffffffull; if (ri (4) == 0) c = (c << 64) | dict[ri (ndict)]; if (ri (4) == 0) c &= ((u128) 1 << 53) - 1; break; } /* fallthrough */
    case 15: { int d = rr (1, 9); c = 0; for (int i = 0; i < n; i++) c = c * 10 + d; } break;
    case 16: c = 0; for (int i = 0; i < n; i++) c = c * 10 + (ri (3) ? 9 : ri (10)); break;
    case 17: c = 0; for (int i = 0; i < n; i++) c = c * 10 + (ri (3) ? 0 : ri (10)); break;
    default: c = rdig (n); break;
    }
  return c % p10[P];
}

int g_exp (int w)
{
  int P = dprec (w), lo = demin (w), hi = demax (w);
  switch (ri (10))
    {
    case 0: return rr (lo, hi);
    case 1: return lo + ri (P + 4);
    case 2: return hi - ri (P + 4);
    case 3: return lo + ri (3);
    case 4: return hi - ri (3);
    case 5: case 6: return rr (-P - 2, 4);
    case 7: return 0;
    default: return rr (-P * 2, P);
    }
}
static int clampe (int w, int e) { return e < demin (w) ? demin (w) : e > demax (w) ? demax (w) : e; }

u128 enc (int w, int s, u128 c, int e)
{
  Dec d = { 0, s, clampe (w, e), c % p10[dprec (w)], 1 };
  return dec_encode (w, d);
}
static u128 wmask (int w) { return w == 128 ? ~(u128) 0 : (((u128) 1) << w) - 1; }
/* infinities, NaNs, non-canonical patterns */
u128 g_special (int w)
{
  u128 s = (u128) (rnd () & 1) << (w - 1), top;
  switch (ri (14))
    {
    case 0: case 1: case 2: return s | ((u128) 0x78 << (w - 8));
    case 3: case 4: return s | ((u128) 0x7c << (w - 8));
    case 5: case 6: return s | ((u128) 0x7e << (w - 8));
    case 7: return s | ((u128) (ri (2) ? 0x7c : 0x7e) << (w - 8)) | (g_coef (dprec (w) - 1));
    case 8: return (s | ((u128) (ri (2) ? 0x7c : 0x7e) << (w - 8)) | (r128 () >> (128 - w + 8 - 1)));
    case 9: return s | ((u128) 0x78 << (w - 8)) | (r128 () >> (128 - w + 7));
    case 10: /* non-canonical coefficient, short form impossible for 32/64: use large form */
    case 11: top = ((u128) 3 << (w - 3)); return s | top | ((r128 () & wmask (w)) >> 3 & ~((u128) 3 << (w - 5)));
    case 12: if (w == 128) return s | ((u128) rr (0, 12287) << 113) | (p10[34] + (ri (3) == 0 ? (u128) ri (4) : r128 () % ((((u128) 1) << 113) - p10[34])));
             top = ((u128) 3 << (w - 3)); { int tb = w == 32 ? 21 : 51; u128 e = rr (0, w == 32 ? 191 : 767); u128 m = ((((u128) 1) << tb) - 1); return s | top | (e << tb) | (ri (2) ? m - ri (3) : (r128 () & m)); }
    default: return r128 () & wmask (w);
    }
}
/* the same datum in another encoding where there is one, or a large-coefficient number */
static u128 recode (int w, u128 b)
{
  Dec d = dec_decode (w, b); u128 s = (u128) d.s << (w - 1);
  if (d.k == 1) return s | ((u128) 0x78 << (w - 8)) | (r128 () >> (128 - w + 6) >> ri (w - 6));
  if (d.k >= 2) return ri (2) ? b : b | (r128 () >> (128 - w + 7) >> ri (w - 7));
  int tb = w == 32 ? 23 : w == 64 ? 53 : 113; u128 e = (u128) (d.e + dbias (w)), top = (u128) 3 << (w - 3), m, M = p10[dprec (w)];
  if (d.c && w != 128 && ri (2)) { m = (((u128) 1) << tb) + (ri (3) ? r128 () % (M - (((u128) 1) << tb)) : ri (2) ? (u128) ri (4) : M - (((u128) 1) << tb) - 1 - ri (4)); return s | top | e << (tb - 2) | (m & ((((u128) 1) << (tb - 2)) - 1)); }
  if (d.c && ri (3)) return b;
  if (w == 128 && ri (2)) { u128 lim = ((u128) 1) << 113; m = ri (3) ? M + r128 () % (lim - M) : ri (2) ? M + ri (4) : lim - 1 - ri (4); return s | e << 113 | m; }
  if (w == 128) return s | top | e << 111 | (ri (3) ? r128 () >> 17 : ri (4));
  u128 base = ((u128) 1) << tb, lim = base + (((u128) 1) << (tb - 2)); m = ri (3) ? M + r128 () % (lim - M) : ri (2) ? M + ri (4) : lim - 1 - ri (4);
  return s | top | e << (tb - 2) | (m & ((((u128) 1) << (tb - 2)) - 1));
}
void gen_recode (const Op *op, V *a)
{
  for (int i = 0; i < 4 && op->at[i]; i++)
    { int w = op->at[i] == T_D32 ? 32 : op->at[i] == T_D64 ? 64 : op->at[i] == T_D128 ? 128 : 0;
      if (w && ri (3)) val_set (&a[i], op->at[i], recode (w, val_bits (&a[i]))); }
}
u128 g_zero (int w) { return enc (w, ri (2), 0, g_exp (w)); }
u128 g_dec (int w)
{
  int k = ri (100);
  if (k < 5) return g_special (w);
  if (k < 8) return g_zero (w);
  if (k < 10) return r128 () & wmask (w);
  int P = dprec (w); u128 c = g_coef (P); int e = g_exp (w);
  if (ri (6) == 0) e = -ndig (c) + rr (-2, 2);
  return enc (w, ri (2), c, e);
}
/* another member of the same cohort if there is one */
static u128 cohort (int w, Dec d)
{
  if (d.k) return dec_encode (w, d);
  int n = rr (0, dprec (w));
  if (ri (2)) while (n-- && d.c && d.c % 10 == 0 && d.e < demax (w)) { d.c /= 10; d.e++; }
  else while (n-- && d.c < p10[dprec (w) - 1] && d.e > demin (w)) { d.c *= 10; d.e--; }
  return dec_encode (w, d);
}
static u128 tweak (int w, u128 b)
{
  Dec d = dec_decode (w, b);
  if (d.k) return b;
  switch (ri (8))
    {
    case 0: d.c += 1; break;
    case 1: if (d.c) d.c -= 1; break;
    case 2: d.e += rr (-2, 2); break;
    case 3: d.s ^= 1; break;
    case 4: if (d.c) d.c -= d.c % 10; break;
    case 5: d.c = d.c / 10; break;
    case 6: d.c = d.c * 10 + ri (10); break;
    default: { int k = ri (dprec (w)); d.c += p10[k] * rr (1, 9); }
    }
  d.c %= p10[dprec (w)]; d.e = clampe (w, d.e);
  return dec_encode (w, d);
}
/* y in relation to x */
u128 g_rel (int w, u128 xb)
{
  Dec x = dec_decode (w, xb);
  int P = dprec (w);
  if (x.k) return g_dec (w);
  int n = ndig (x.c);
  switch (ri (16))
    {
    case 0: return g_dec (w);
    case 1: return cohort (w, x);
    case 2: x.s ^= 1; return cohort (w, x);
    case 3: return tweak (w, cohort (w, x));
    case 4: return enc (w, ri (2), g_coef (P), x.e);
    case 5: return enc (w, ri (2), g_coef (P), x.e + rr (-P - 2, P + 2));
    case 6: return enc (w, ri (2), g_coef (P), x.e + rr (-2 * P - 2, 2 * P + 2));
    case 7: /* half ulp of x at full precision, exactly or nearly */
      { int ue = x.e + n - P; int z = ri (P); u128 c = 5 * p10[z]; if (ri (2)) c += rr (-1, 1); return enc (w, ri (2), c, ue - 1 - z); }
    case 8: /* digits just above and below the rounding position */
      { int ue = x.e + n - P; int k = rr (1, P); return enc (w, ri (2), g_coef (P), ue - k); }
    case 9: { u128 y = cohort (w, x); return tweak (w, tweak (w, y)); }
    case 10: return enc (w, ri (2), g_coef (P), demin (w) - x.e + rr (-P, P));        /* product near the bottom */
    case 11: return enc (w, ri (2), g_coef (P), demax (w) - x.e + rr (-P, P));        /* product near the top */
    case 12: return enc (w, ri (2), g_coef (P), x.e - demin (w) + rr (-P, P));        /* quotient near the bottom */
    case 13: return enc (w, ri (2), g_coef (P), x.e - demax (w) + rr (-P, P));
    case 14: return enc (w, ri (2), g_coef (rr (1, P)), x.e + ri (P));
    default: return enc (w, ri (2), rr (1, 9) * (ri (2) ? 1 : p10[ri (P)]), x.e + rr (-P, P));
    }
}
/* x * 10^k and y agree in their last M bits */
static void g_wrap (int w, u128 *xo, u128 *yo)
{
  int P = dprec (w), M = P == 34 ? (ri (3) ? 128 : 64) : P == 16 ? (ri (2) ? 64 : 32) : 32, k = rr (1, P - 1);
  u128 f = 1, inv = 1, y, x, m; for (int i = 0; i < k; i++) f *= 5;
  for (int i = 0; i < 7; i++) inv *= 2 - f * inv;          /* 5^-k modulo 2^128 */
  if (M - k < 1) k = M - 1;
  m = M - k >= 128 ? ~(u128) 0 : (((u128) 1) << (M - k)) - 1;
  y = rdig (rr (1, P)) >> k << k; x = ((y >> k) * inv) & m;
  if (m < p10[P] - 1 && ri (2)) x += (m + 1) * (r128 () % ((p10[P] - 1) / (m + 1) + 1));
  int e = rr (demin (w), demax (w) - k), s = ri (2); if (ri (2)) e = rr (-P, 0);
  *xo = enc (w, s, x, e + k); *yo = enc (w, s, y, e); if (ri (2)) { u128 t = *xo; *xo = *yo; *yo = t; }
}
/* two operands around the same magnitude whose exponents differ by a chosen amount */
void g_gap (int w, u128 *xo, u128 *yo)
{
  if (ri (6) == 0) { g_wrap (w, xo, yo); return; }
  int P = dprec (w), k = rr (0, P + 1), n = P - k < 1 ? 1 : P - k, sg = ri (2);
  if (ri (3) == 0) n = rr (1, n);
  u128 c = ri (3) ? rdig (n) : ri (2) ? p10[n - 1] : p10[n] - 1; if (!c) c = 1;
  int e = rr (demin (w) + P + 2, demax (w));
  if (ri (3)) e = rr (-P, P);
  u128 d = c; int f = e; for (int i = 0; i < k && d < p10[P - 1]; i++) d *= 10, f--;
  switch (ri (6)) { case 0: if (d + 1 < p10[P]) d += 1; break; case 1: d -= 1; break; case 2: d = d / p10[ri (P)] ; break; case 3: { u128 t = p10[ri (P)]; if (d + t < p10[P]) d += t; } break; default: break; }
  *xo = enc (w, sg, c, e); *yo = enc (w, ri (8) ? sg : !sg, d, f);
  if (ri (2)) { u128 t = *xo; *xo = *yo; *yo = t; }
}
/* ends of the range and of a decade */
u128 g_edge (int w)
{
  int P = dprec (w), s = ri (2);
  switch (ri (8))
    {
    case 0: return enc (w, s, p10[P] - 1, demax (w));
    case 1: return enc (w, s, p10[P] - 1 - ri (2), demax (w) - ri (2));
    case 2: return enc (w, s, rr (0, 2), demin (w));
    case 3: return enc (w, s, p10[P - 1] + rr (-1, 1), demin (w) + ri (2));
    case 4: return enc (w, s, p10[ri (P)], g_exp (w));
    case 5: return enc (w, s, p10[P] - 1, g_exp (w));
    case 6: return enc (w, s, rr (0, 9), demax (w) - ri (P + 1));
    default: return enc (w, s, p10[ri (P)], demin (w) + ri (P));
    }
}
/* exact quotients and half-way quotients */
static void aim_add (int w, u128 *x, u128 *y);
static void aim_mul (int w, u128 *x, u128 *y, int *drop);
static void aim_div (int w, u128 *x, u128 *y);
static void g_divpair (int w, u128 *x, u128 *y)
{
  int P = dprec (w);
  u128 q, c; int k = ri (6);
  if (k == 0)       /* tie: q has P+1 digits ending in 5, divisor even */
    {
      q = (rdig (P) | 1) * 10 + 5; if (P < 34 ? ndig (q) > P + 1 : 0) q %= p10[P + 1];
      int yv = 2 * rr (1, 50);
      if (P == 34) { q = rdig (34) / 10 * 10 + 5; }
      c = q * yv; while (c % 10 == 0 && c) c /= 10;
      if (c < p10[P]) { *x = enc (w, ri (2), c, g_exp (w)); *y = enc (w, ri (2), yv, g_exp (w)); return; }
      c %= p10[P];
      *x = enc (w, ri (2), c, g_exp (w)); *y = enc (w, ri (2), yv, g_exp (w)); return;
    }
  if (k == 1)       /* tie via power of two divisor */
    {
      int yv = 1 << rr (1, w == 32 ? 10 : 20);
      *x = enc (w, ri (2), rdig (P) | 1, g_exp (w)); *y = enc (w, ri (2), yv, g_exp (w)); return;
    }
  if (k == 2)       /* exact: x = q*y */
    {
      int a = rr (1, P - 1);
      u128 yv = rdig (a); if (!yv) yv = 3; q = rdig (P - a); c = yv * q;
      int e = g_exp (w), f = e + rr (-P, P);
      *x = enc (w, ri (2), c, e); *y = enc (w, ri (2), yv, f); return;
    }
  if (k == 3)       /* exact with trailing zeros to strip: divisor 2^a 5^b */
    {
      u128 yv = 1; int a = ri (12), b = ri (8); while (a--) yv *= 2; while (b--) yv *= 5;
      *x = enc (w, ri (2), g_coef (P), g_exp (w)); *y = enc (w, ri (2), yv % p10[P], g_exp (w)); return;
    }
  if (k == 4)       /* quotient close to a power of ten */
    {
      u128 a = g_coef (P); *x = enc (w, ri (2), a, g_exp (w)); *y = enc (w, ri (2), a + rr (-3, 3), g_exp (w)); return;
    }
  *x = g_dec (w); *y = g_rel (w, *x);
}
static void g_mulpair (int w, u128 *x, u128 *y)
{
  if (ri (3) == 0) { aim_mul (w, x, y, 0); return; }
  int P = dprec (w); int k = ri (5);
  if (k == 0)       /* product with P+1..P+3 digits: frequent ties */
    {
      int a = rr (1, P), b = P + rr (1, 3) - a; if (b > P) b = P; if (b < 1) b = 1;
      u128 u = rdig (a), v = rdig (b);
      if (ri (2)) { u = u / 10 * 10 + 5; v = v & ~(u128) 1; }
      int e = g_exp (w);
      *x = enc (w, ri (2), u, e); *y = enc (w, ri (2), v, ri (2) ? g_exp (w) : ri (2) ? demin (w) - e + rr (-P, P) : demax (w) - e + rr (-P - 2, 2)); return;
    }
  if (k == 1)
    {
      *x = enc (w, ri (2), ri (2) ? p10[rr (1, P)] - 1 : g_coef (P), g_exp (w)); *y = g_rel (w, *x); return;
    }
  if (k == 2)
    {
      int e = g_exp (w); *x = enc (w, ri (2), g_coef (P), e);
      *y = enc (w, ri (2), g_coef (P), ri (2) ? demin (w) - e + rr (-P - 1, P) : demax (w) - e + rr (-2 * P, 2)); return;
    }
  *x = g_dec (w); *y = g_rel (w, *x);
}
static void g_addpair (int w, u128 *x, u128 *y)
{
  if (ri (3) == 0) { aim_add (w, x, y); return; }
  int P = dprec (w); int k = ri (4);
  if (k == 0)
    {
      /* choose a target sum t = hi*10^d + tail and split it */
      int e = g_exp (w), d = rr (1, P); u128 tail;
      switch (ri (5)) { case 0: tail = 5 * p10[d - 1]; break; case 1: tail = 5 * p10[d - 1] + 1; break; case 2: tail = 5 * p10[d - 1] - 1; break; case 3: tail = 1; break; default: tail = p10[d] - 1; }
      u128 hi = ri (3) ? rdig (P) : ri (2) ? p10[P] - 1 : p10[P - 1];
      *x = enc (w, 0, hi, e + d); *y = enc (w, ri (2), tail, e);
      if (ri (2)) { u128 t = *x; *x = *y; *y = t; }
      if (ri (2)) { *x ^= (u128) 1 << (w - 1); *y ^= (u128) 1 << (w - 1); }
      return;
    }
  *x = g_dec (w); *y = g_rel (w, *x);
  if (ri (2)) { u128 t = *x; *x = *y; *y = t; }
}

/* ---- operands aimed at a result: chosen digits kept, chosen digits discarded ---- */
static void mul256 (u128 a, u128 b, u128 *hi, u128 *lo)
{
  u128 a0 = (uint64_t) a, a1 = a >> 64, b0 = (uint64_t) b, b1 = b >> 64, m = a0 * b1, n = a1 * b0, l = a0 * b0;
  u128 mid = (l >> 64) + (uint64_t) m + (uint64_t) n;
  *lo = (mid << 64) | (uint64_t) l; *hi = a1 * b1 + (m >> 64) + (n >> 64) + (mid >> 64);
}
/* d < 2^127 */
static u128 div256 (u128 hi, u128 lo, u128 d, u128 *r)
{
  u128 q = 0, m = hi % d;
  for (int i = 127; i >= 0; i--) { m = (m << 1) | ((lo >> i) & 1); q <<= 1; if (m >= d) { m -= d; q |= 1; } }
  *r = m; return q;
}
static u128 mulmod (u128 a, u128 b, u128 m) { u128 h, l, r; mul256 (a, b, &h, &l); div256 (h, l, m, &r); return r; }
static u128 invmod (u128 a, u128 m)
{
  s128 t = 0, nt = 1; u128 r = m, nr = a % m;
  while (nr) { u128 q = r / nr; s128 x = t - (s128) q * nt; t = nt; nt = x; u128 y = r - q * nr; r = nr; nr = y; }
  return r != 1 ? 0 : t < 0 ? (u128) (t + (s128) m) : (u128) t;
}
/* n digits exactly */
static u128 full (int n) { return n <= 0 ? 0 : p10[n - 1] + rdig (n) % (p10[n] - p10[n - 1]); }
/* a full coefficient worth having as a result: ends of the decade, ends of machine words */
static u128 g_sig (int P)
{
  u128 c;
  switch (ri (8))
    {
    case 0: return p10[P] - 1 - ri (4);
    case 1: return p10[P - 1] + ri (4);
    case 2: case 3: { int b = P == 34 ? (ri (3) ? 64 : ri (2) ? 32 : 96) : P == 16 ? (ri (2) ? 32 : 51) : 21; c = (full (P) >> b << b) + rr (-6, 6); break; }
    case 4: c = ((u128) 1 << (P == 34 ? rr (110, 112) : P == 16 ? rr (50, 53) : rr (20, 23))) + rr (-4, 4); break;
    default: return full (P);
    }
  return c % p10[P];
}
static u128 g_tail (int d)
{
  u128 h = d < 1 ? 0 : 5 * p10[d - 1];
  if (d < 1) return 0;
  switch (ri (11))
    {
    case 0: case 1: return h;
    case 2: return h + 1;
    case 3: return h - 1;
    case 4: return h + p10[ri (d)] * (d > 1);
    case 5: { u128 t = p10[ri (d)]; return t <= h ? h - t : h; }
    case 6: return 1 + ri (3);
    case 7: return p10[d] - 1 - ri (3);
    case 8: return 0;
    default: return rdig (d);
    }
}
/* x + y = T * 10^d + tail */
static void aim_add (int w, u128 *x, u128 *y)
{
  int P = dprec (w), sx = ri (2), op = ri (2), k = ri (4); u128 T = g_sig (P);
  int e = ri (3) ? rr (-2 * P, P) : g_exp (w);
  if (k == 0)      /* sum of one digit too many */
    {
      u128 S = p10[P] + g_sig (P) % (p10[P] - 2); if (ri (2)) S = S / 10 * 10 + g_tail (1); if (ri (4) == 0) S = p10[P] + ri (12); if (P == 34 && ri (3) == 0) S = (S >> 64 << 64) + rr (-7, 3);
      if (S > 2 * (p10[P] - 1)) S = 2 * (p10[P] - 1);
      u128 lo = S - (p10[P] - 1), a = lo + (ri (3) ? rdig (P) : (u128) ri (3)) % (p10[P] - lo);
      *x = enc (w, sx, a, e); *y = enc (w, sx, S - a, e);
    }
  else if (k == 1) /* no digits in common */
    {
      int d = rr (1, 2 * P), n = d < P ? d : P; if (ri (2)) { n = rr (1, n); }
      u128 t = g_tail (n); int z = d - n; /* tail t followed by z discarded... or preceded by zeros */
      if (ri (4) == 0)  /* the result just below a power of ten, next to half a unit of the decade below */
        { T = p10[P - 1]; op = 1; n = ri (2) ? P : rr (1, P); d = n + 1; z = 0; t = ri (2) ? 5 * p10[n - 1] + rr (-1, 1) * (ri (3) > 0) : g_tail (n); }
      if (e - d < demin (w)) e = demin (w) + d + ri (3);
      *x = enc (w, sx, T, e); *y = enc (w, sx ^ op, t, e - d + (ri (2) ? z : 0));
    }
  else             /* overlapping digits */
    {
      int d = k == 2 ? rr (1, P - 1) : rr (0, P - 1); u128 t = g_tail (d), h = rdig (rr (1, P - d > 0 ? P - d : 1)) % p10[P - d];
      if (e - d < demin (w)) e = demin (w) + d + ri (3);
      if (op) { u128 c = h * p10[d] + (d ? (p10[d] - t) : 0); if (c >= p10[P]) c = p10[P] - 1; u128 a = T + h + (d ? 1 : 0); if (a >= p10[P]) a = p10[P] - 1; *x = enc (w, sx, a, e); *y = enc (w, !sx, c, e - d); }
      else { if (h > T) h = T; *x = enc (w, sx, T - h, e); *y = enc (w, sx, h * p10[d] + t, e - d); }
    }
  Dec a = dec_decode (w, *x), b = dec_decode (w, *y);
  if (ri (4) == 0) *x = cohort (w, a);
  if (ri (4) == 0) *y = cohort (w, b);
  if (ri (2)) { u128 t = *x; *x = *y; *y = t; }
}
/* exponents for an exact value c * 10^(e1+e2) whose last d digits go */
static void aim_exp (int w, int d, int *e1, int *e2)
{
  int P = dprec (w), t = ri (4);
  *e1 = ri (3) ? rr (-P, P) : g_exp (w);
  *e2 = t == 0 ? demin (w) - d - *e1 : t == 1 ? demax (w) - d - *e1 + rr (-1, 1) : ri (2) ? rr (-P, P) : g_exp (w);
  if (*e2 < demin (w) || *e2 > demax (w)) { *e1 = (t == 0 ? demin (w) - d : demax (w) - d) / 2; *e2 = (t == 0 ? demin (w) - d : demax (w) - d) - *e1; }
}
/* x * y with chosen last digits, or with chosen first ones */
static void aim_mul (int w, u128 *x, u128 *y, int *drop)
{
  int P = dprec (w), e1, e2, n1 = rr (1, P), n2, d; u128 a, b, r;
  if (ri (3) == 0) n1 = P;
  if (ri (3))
    {
      n2 = rr (P - n1 + 1 > P ? P : P - n1 + 1, P); d = n1 + n2 - P - ri (2); if (d > n2) d = n2; if (d < 1) d = 1;
      if (ri (5) == 0) d = rr (1, n2);
      do a = full (n1) | 1; while (a % 5 == 0);
      r = g_tail (d); b = mulmod (r, invmod (a, p10[d]), p10[d]);
      if (n2 > d) b += p10[d] * full (n2 - d);
    }
  else if (ri (6))
    {
      d = n1 - (ri (4) > 0); a = ri (4) ? p10[n1 - 1] + rdig (n1 - 1) % (p10[n1 - 1] / 8 + 1) : full (n1); u128 h, l, T = g_sig (P);
      mul256 (T, p10[d], &h, &l);
      if (ri (4) == 0) { if (h) { l = 0; if (ri (4) == 0 && h >> 64) h = h >> 64 << 64; } else l = l >> 64 << 64; }       /* ends of words in the exact product */
      b = div256 (h, l, a, &r) + rr (-1, 1) * !!ri (3); if (b >= p10[P]) b = b / 10;
    }
  else             /* half the least number, or about */
    {
      static const int f[] = { 1, 2, 4, 5, 8, 10, 16, 20, 25, 125 };
      d = rr (1, P + 3); a = f[ri (10)]; b = 5 * p10[d - 1]; if (d > 1 && ri (3) == 0) a = 1, b += ri (2) ? 1 : -1; b /= a; if (b >= p10[P]) b /= 1000;
      e1 = ri (2) ? rr (-P, P) : rr (demin (w), -1); e2 = demin (w) - d - e1 + (ri (4) ? 0 : rr (-1, 1)); if (e2 > demax (w)) { e2 = 0; e1 = demin (w); }
      if (drop) *drop = d;
      *x = enc (w, ri (2), a, e1); *y = enc (w, ri (2), b, e2); if (ri (2)) { u128 t = *x; *x = *y; *y = t; }
      return;
    }
  aim_exp (w, d, &e1, &e2); if (drop) *drop = d;
  *x = enc (w, ri (2), a, e1); *y = enc (w, ri (2), b, e2);
  if (ri (2)) { u128 t = *x; *x = *y; *y = t; }
}
/* x / y with a chosen remainder after some digits */
static void aim_div (int w, u128 *x, u128 *y)
{
  if (ri (8) == 0)   /* half the least number, or about */
    { int j = ri (dprec (w) - 2), f = ri (2) ? 1 : rr (2, 9), e = rr (demin (w), 0); *x = enc (w, ri (2), 5 * p10[j] * f + rr (-1, 1) * (ri (3) == 0), e); *y = enc (w, ri (2), f, e + j + 1 - demin (w)); if (e + j + 1 - demin (w) <= demax (w)) return; }
  int P = dprec (w), n2 = ri (3) ? rr (1, P) : P, nx, k, e1, e2; u128 b, r, a, t;
  do b = full (n2) | 1; while (b % 5 == 0);
  nx = n2; k = P + n2 - nx - ri (2); if (ri (4) == 0) { nx = rr (n2, P); k = P + n2 - nx - ri (2); }
  if (ri (5) == 0) k = ri (k + 1);
  switch (ri (7)) { case 0: case 1: r = b / 2; break; case 2: r = b / 2 + 1; break; case 3: r = 1; break; case 4: r = b - 1; break; case 5: r = b / 2 + rr (-3, 3); break; default: r = ri (4); }
  r %= b; t = p10[k > 38 ? 38 : k] % b; a = b == 1 ? 0 : mulmod (r, invmod (t, b), b);
  if (p10[nx > P ? P : nx] > a + b) { u128 j = (p10[nx] - 1 - a) / b; a += b * (ri (3) ? r128 () % (j + 1) : ri (2) ? j : 0); }
  e1 = g_exp (w); e2 = ri (3) ? e1 - k - demin (w) : ri (2) ? g_exp (w) : e1 - k - demax (w) + rr (-1, 1);
  if (e2 < demin (w) || e2 > demax (w)) { e1 = 0; e2 = rr (-P, P); }
  if (ri (3)) { e1 = rr (-P, P); e2 = rr (-P, P); }
  *x = enc (w, ri (2), a, e1); *y = enc (w, ri (2), b, e2);
}
/* x * y + z */
static void aim_fma (int w, u128 *x, u128 *y, u128 *z)
{
  int P = dprec (w), d = 0, k = ri (4); Dec u, v; u128 h, l, q, r;
  if (k == 0)      /* the sum of two numbers, one of them factored */
    {
      aim_add (w, y, z); v = dec_decode (w, *y); int f = 1, c; for (int i = 0; i < 4; i++) { c = rr (2, 11); if (v.c && v.c % (f * c) == 0) f *= c; }
      v.c /= f; int e = ri (2) ? 0 : rr (-P, P); if (v.e - e < demin (w) || v.e - e > demax (w)) e = 0;
      v.e -= e; *y = dec_encode (w, v); *x = enc (w, 0, f, e); return;
    }
  aim_mul (w, x, y, &d); u = dec_decode (w, *x); v = dec_decode (w, *y); mul256 (u.c, v.c, &h, &l);
  int e = u.e + v.e, s = u.s ^ v.s;
  if (k == 1)      /* something far below, or almost nothing */
    { *z = enc (w, ri (2), ri (3) ? 1 + ri (9) : g_coef (P), e + rr (-2 * P, 1)); return; }
  q = div256 (h, l, p10[d], &r);
  if (k == 2)      /* cancellation: z is the product's first digits, nearly */
    { int g = d; while (q >= p10[P]) { q /= 10; g++; } *z = enc (w, !s, q + rr (-1, 1), e + g); return; }
  /* the sum's first digits chosen */
  { u128 T = g_sig (P); while (q >= p10[P]) { q /= 10; d++; } if (ri (2) && T + q < p10[P]) *z = enc (w, !s, T + q, e + d); else *z = enc (w, s, T > q ? T - q : T, e + d); }
}
/* values near integers / halves / integer type limits */
u128 g_fixv (int w)
{
  int P = dprec (w);
  if (ri (8) == 0) return g_dec (w);
  int k = ri (9); u128 c; int e = 0;
  static const int bits[] = { 31, 32, 63, 64, 127, 128, 15, 8, 53 };
  if (k <= 1)
    {
      int b = bits[ri (9)];
      u128 lim = b == 128 ? ~(u128) 0 : ((u128) 1 << b);
      int adj = rr (-3, 3); c = lim + adj; if (b == 128 && adj > 0) c = lim;
      int n = ndig (c), drop = n - P; if (drop > 0) { u128 f = 1; for (int i = 0; i < drop; i++) f *= 10; c = c / f + rr (-1, 1); e = drop; }
      else { int fr = ri (P - n + 1); c = c * p10[fr] + (ri (3) ? rdig (fr) : ri (2) && fr ? 5 * p10[fr - 1] : 0); e = -fr; }
      return enc (w, ri (2), c, e);
    }
  if (k <= 4)     /* integer part and half-way / near half-way fraction */
    {
      int fr = rr (1, P); c = rdig (P - fr); u128 f;
      switch (ri (7)) { case 0: f = 5 * p10[fr - 1]; break; case 1: f = 5 * p10[fr - 1] + 1; break; case 2: f = 5 * p10[fr - 1] - 1; break; case 3: f = 0; break; case 4: f = p10[fr] - 1; break; case 5: f = ri (2) ? 1 : g_tail (fr); break; default: f = ri (2) ? rdig (fr) : g_tail (fr); }
      if (ri (5) == 0) c = p10[P - fr] - 1;
      if (P - fr > 1 && ri (6) == 0) c = g_sig (P) % p10[P - fr];
      if (P - fr > 20 && ri (5) == 0) c = ((rdig (P - fr) >> 64) << 64) + rr (-2, 2);
      c = c * p10[fr] + f; return enc (w, ri (2), c % p10[P], -fr);
    }
  if (k == 5) return enc (w, ri (2), g_coef (P), rr (-P - 3, 3));
  if (k == 6) return enc (w, ri (2), g_coef (P), rr (0, 40));
  if (k == 7) return enc (w, ri (2), ri (2) ? 5 : rr (1, 9), rr (-3, 0));
  return enc (w, ri (2), g_coef (rr (1, P)), rr (-P, 20));
}
u128 g_int (int ty)
{
  int bits = ty == T_I32 || ty == T_U32 ? 32 : ty == T_I64 || ty == T_U64 ? 64 : 128;
  u128 m = bits == 128 ? ~(u128) 0 : ((u128) 1 << bits) - 1, v;
  switch (ri (12))
    {
    case 10: case 11: /* a full coefficient with a tail of one to many digits: next to a carry or a tie */
      { int P = ri (3) == 0 ? 7 : ri (2) ? 16 : 34, mx = (bits == 32 ? 10 : bits == 64 ? 19 : 38) - P; if (mx < 1) { P = bits == 32 ? 7 : 16; mx = bits == 32 ? 3 : 3; }
        int z = rr (1, mx); u128 hi = ri (2) ? p10[P] - 1 - (ri (3) ? 0 : ri (3)) : p10[P - 1] + (ri (3) ? 0 : ri (3)), h = 5 * p10[z - 1];
        if (ri (4) == 0) hi = rdig (P);
        u128 t; switch (ri (6)) { case 0: t = h; break; case 1: t = h + 1; break; case 2: t = h - 1; break; case 3: t = rdig (z); break; case 4: t = 1 + ri (4); break; default: t = p10[z] - 1 - ri (3); }
        v = hi * p10[z] + t; break; }
    case 0: v = ((u128) 1 << ri (bits)) + rr (-2, 2); break;
    case 1: v = rr (-20, 20); break;
    case 2: v = p10[ri (39)] + rr (-2, 2); break;
    case 3: { int n = rr (1, 38), z = ri (n); v = rdig (n - z) * p10[z]; } break;
    case 4: { int n = rr (1, 38), z = rr (1, n); v = rdig (n - z) * p10[z] + 5 * p10[z - 1] + rr (-1, 1); } break;
    case 5: v = p10[rr (0, 38)] - 1; if (ri (2)) v -= p10[ri (20)] * 5; break;
    case 6: v = m - ri (30); break;
    case 7: v = rdig (rr (1, 38)); break;
    case 8: { int n = rr (1, 38), z = rr (1, n); v = rdig (n - z) * p10[z] + p10[z] - 1; } break;
    default: v = r128 () >> ri (128); break;
    }
  if ((ty == T_I32 || ty == T_I64 || ty == T_I128) && ri (2)) v = -v;
  return v & m;
}
static char sbuf[8][4096]; static int sidx;
static char *newbuf (void) { sidx = (sidx + 1) & 7; return sbuf[sidx]; }

static int digs (char *p, int n, int mode)
{
  for (int i = 0; i < n; i++)
    p[i] = mode == 0 ? '0' + ri (10) : mode == 1 ? '9' : mode == 2 ? '0' : mode == 3 ? (i == 0 ? '5' : '0') : mode == 4 ? (i == n - 1 ? '1' : '0') : (ri (4) ? '0' : '0' + ri (10));
  return n;
}
/* text accepted, or nearly accepted, by strtod */
char *g_numtext (int w, int *len)
{
  char *b = newbuf (), *p = b; int P = dprec (w);
  static const char *const odd[] = { "inf", "INF", "-Inf", "infinity", "INFINITY", "+infinity", "infinit", "infx", "infinityx", "nan", "NAN", "-nan", "nan()", "nan(123)", "nan(abc_9)", "nan(", "nan(12", "nan(1-2)", "NaN(0x7)", "na", "in", "i", "n", "", " ", "+", "-", ".", "+.", "-.", "e5", ".e5", "+e1", "0x10", "0x", "0X1p3", "1e", "1e+", "1e-", "1e+x", "1ex", "1.e", "1.e5", ".5", ".5e", "5.", "..5", "1..5", "1.5.6", "--1", "+-1", "- 1", "1 2", "1,5", "1,000", "\t\n\v\f\r 7", "1e99999999999999999999", "1e-99999999999999999999", "0e99999999999", "0e-99999999999", "-0", "+0", "-0.00", "0.0000000000000000000000000000000000000000", "00000", "000001", "1e00005", "1e-00005", "1e+0", "1E5", "1E+5", "1e2147483647", "1e2147483648", "1e-2147483648", "1e-2147483649", "1e4294967296", "1e4294967297", "snan", "snan(1)", "1f", "1df", "1dd", "1e5e5", "\xa0" "1", "1_0", "١" };
  int k = ri (20);
  if (k == 0) { strcpy (b, odd[ri (sizeof odd / sizeof *odd)]); *len = strlen (b); return b; }
  if (k <= 2) while (ri (3)) *p++ = " \t\n\v\f\r "[ri (7)];
  int s = ri (4); if (s == 0) *p++ = '-'; else if (s == 1) *p++ = '+';
  int lz = ri (4) ? 0 : ri (30); p += digs (p, lz, 2);
  int ni, nf, mode = ri (3) ? 0 : rr (0, 5);
  int shape = ri (8);
  if (shape <= 2) { int n = rr (1, P + 2); ni = rr (0, n); nf = n - ni; }
  else if (shape == 3) { ni = rr (P - 1, P + 4); nf = ri (4); }
  else if (shape == 4) { ni = rr (0, 2 * P + 8); nf = rr (0, 2 * P + 8); }
  else if (shape == 5) { ni = rr (0, 2); nf = rr (0, 3 * P); }
  else if (shape == 6) { ni = rr (0, 3 * P); nf = 0; }
  else { ni = rr (0, 5); nf = rr (0, 5); }
  char *ds = p;
  p += digs (p, ni, mode);
  char *dot = 0;
  if (nf || ri (4) == 0) { dot = p; *p++ = '.'; }
  int fz = ri (4) || !dot ? 0 : ri (40); p += digs (p, fz, 2);
  p += digs (p, nf, ri (3) ? 0 : rr (0, 5));
  if (ri (3) == 0)
    {
      /* force a tie-like tail after P significant digits */
      int sig = 0; char *q;
      for (q = ds; q < p; q++) { if (*q == '.') continue; if (*q == '0' && !sig) continue; sig++; if (sig == P) { q++; break; } }
      if (q < p) { int first = 1, m = ri (4); for (; q < p; q++) { if (*q == '.') continue; *q = first ? (m == 1 ? '4' : '5') : (m == 1 ? '9' : '0'); first = 0; } if (m == 2) { *p++ = '1'; } else if (m == 3) { int z = ri (50); if (!dot) { } else { p += digs (p, z, 2); *p++ = '1'; } } }
    }
  if (ri (2))
    {
      *p++ = ri (2) ? 'e' : 'E';
      int ev;
      switch (ri (8))
        {
        case 0: ev = rr (-9, 9); break;
        case 1: ev = demin (w) + rr (-ni - 3, P + nf + 3); break;
        case 2: ev = demax (w) + P + rr (-ni - P, 4); break;
        case 3: ev = demin (w) - ni - nf + rr (-3, P + 3); break;
        case 4: ev = rr (-20000, 20000); break;
        case 5: ev = demax (w) - ni + rr (-3, P + 3); break;
        case 6: ev = demax (w) + rr (-2, 2); break;
        default: ev = rr (-P - 5, P + 5); break;
        }
      if (ri (6) == 0) p += sprintf (p, "%+0*d", rr (2, 9), ev); else p += sprintf (p, ri (3) ? "%d" : "%+d", ev);
    }
  if (ri (6) == 0) { static const char *const t[] = { " ", "x", ".", "e", "e+", "DF", "dd", "5", "-", "(", "\n", ",3", ".5" }; p += sprintf (p, "%s", t[ri (13)]); }
  *p = 0; *len = p - b;
  if (ri (25) == 0 && *len) b[ri (*len)] = " 0123456789.eE+-xnN("[ri (20)];
  return b;
}
static char *g_fmt (int w, int *len)
{
  char *b = newbuf (), *p = b; int P = dprec (w);
  if (ri (8) == 0) *p++ = '!';
  int nf = ri (4);
  while (nf--) { char c = "-+ #0"[ri (5)]; if (!memchr (b, c, p - b)) *p++ = c; }
  if (ri (3) == 0) p += sprintf (p, "%d", ri (3) ? rr (1, 20) : rr (1, P + 60));
  if (ri (4)) { *p++ = '.'; if (ri (10)) p += sprintf (p, "%d", ri (3) ? ri (P + 3) : ri (2) ? ri (4) : ri (P + 60)); }
  *p++ = "eEfFgGaA"[ri (8)];
  *p = 0; *len = p - b;
  if (*b == '!' && p[-2] == '.') { p[-2] = '.'; }
  return b;
}
static u128 g_fmtval (int w)
{
  int P = dprec (w);
  switch (ri (6))
    {
    case 0: return g_dec (w);
    case 1: return g_fixv (w);
    case 2: return enc (w, ri (2), g_coef (P), rr (-P - 8, 6));
    case 3: return enc (w, ri (2), g_coef (rr (1, 4)), rr (-12, 6));
    case 4: return enc (w, ri (2), g_coef (P), w == 128 ? rr (-60, 60) : g_exp (w));
    default: { int n = rr (1, P); u128 c = rdig (n); int z = ri (n); c = c / p10[z] * p10[z] + (z ? (ri (2) ? 5 * p10[z - 1] : p10[z] - rr (0, 1)) : 0); return enc (w, ri (2), c % p10[P], rr (-P - 3, 3)); }
    }
}
static double frac01 (void) { return (rnd () >> 11) * 0x1p-53; }
/* decimal approximation of a double (input choice only) */
static u128 from_double (int w, double v)
{
  char t[64]; int neg = v < 0; if (neg) v = -v;
  int P = dprec (w), n = ri (3) ? (P > 17 ? 17 : P) : rr (1, P > 17 ? 17 : P);
  snprintf (t, sizeof t, "%.*e", n - 1, v);
  u128 c = 0; int e = 0, fd = 0, dot = 0; char *q = t;
  for (; *q && *q != 'e'; q++) { if (*q == '.') dot = 1; else if (*q >= '0' && *q <= '9') { c = c * 10 + (*q - '0'); fd += dot; } }
  if (*q == 'e') e = atoi (q + 1);
  e -= fd;
  if (P > n && ri (2)) { int k = ri (P - n + 1); c = c * p10[k] + rdig (k); e -= k; }
  return enc (w, neg, c, e);
}
static u128 g_range (int w, double lo, double hi) { return from_double (w, lo + (hi - lo) * frac01 ()); }
static u128 g_log (int w, int elo, int ehi) { int P = dprec (w); u128 c = g_coef (P); return enc (w, ri (2), c, rr (elo, ehi) - ndig (c) + 1); }
static u128 g_near1 (int w) { int P = dprec (w); int k = rr (1, P - 1); u128 c; int s = ri (8) == 0; if (ri (2)) c = p10[P - 1] + rdig (k); else { c = p10[P] - 1 - rdig (k); return enc (w, s, c, -P); } return enc (w, s, c, -P + 1); }
static u128 absb (int w, u128 b) { return b & ~((u128) 1 << (w - 1)); }

static u128 str128 (const char *t) { u128 c = 0; while (*t) c = c * 10 + (*t++ - '0'); return c; }
/* k times a constant 0.d1d2d3... 10^(e0+34), cut or rounded to the format, give or take a few units in some place */
static u128 g_mult (int w, const char *digits, int e0, int k)
{
  u128 c = str128 (digits) * (unsigned) k; int e = e0, P = dprec (w), last = 0;
  while (c >= p10[P]) { last = (int) (c % 10); c /= 10; e++; }
  if (last >= 5 && ri (2)) c++;
  if (ri (3) == 0) c += (u128) rr (-2, 2);
  if (ri (4) == 0) { int z = ri (P); c = c / p10[z] * p10[z]; }
  return enc (w, ri (2), c, e);
}
#define LN10D "2302585092994045684017991454684364"
#define LG10D "3321928094887362347870319429489390"
#define PIO2D "1570796326794896619231321691639751"
static int sw;          /* walks table entries and reduction intervals */
static u128 g_sweep (int w, int g)
{
  int P = dprec (w), i = sw++, ke = w == 32 ? 101 : w == 64 ? 398 : 6176;
  switch (g)
    {
    case G_MATH_EXP: case G_MATH_EXPM1: case G_MATH_SINH: case G_MATH_COSH: case G_MATH_TANH:
      if (i % 5 == 4) return g_mult (w, LN10D, -33, rr (0, ke));
      if (w == 128) return from_double (w, rr (-ke, ke) * (ri (2) ? 2.302585092994045684 : 0) + (i % 231 - 115) / 100. + (i % 203 - 101) / 1e4 + (frac01 () - .5) * 1e-4);
      { int n = i % (w == 32 ? 240 : 925), d = P - ndig (n); return enc (w, ri (2), n * p10[d] + rdig (ri (d + 1)), -d); }
    case G_MATH_EXP2:
      if (i % 5 == 4) return g_mult (w, LG10D, -33, rr (0, ke));
      { int n = i % (w == 32 ? 340 : 1400), d = P - ndig (n); return enc (w, ri (2), n * p10[d] + rdig (ri (d + 1)), -d); }
    case G_MATH_LOG: case G_MATH_LOG2: case G_MATH_LOG10: case G_MATH_LOG1P: case G_MATH_ACOSH: case G_MATH_ASINH: case G_MATH_CBRT:
      { int lead = 100 + i % 900, d = P - 3, f = ri (d + 1); u128 t = ri (4) ? rdig (f) : ri (2) ? 5 * p10[d - 1] + rr (-1, 1) : p10[d] - 1 - ri (3);
        return enc (w, 0, lead * p10[d] + t, w == 128 && ri (3) ? -P + (ri (4) == 0) : -P + 1 + (ri (3) ? rr (-3, 3) : g_exp (w))); }
    case G_MATH_SIN: case G_MATH_COS: case G_MATH_TAN:
      return ri (4) ? g_mult (w, PIO2D, -33, i % 200) : ri (2) ? g_mult (w, PIO2D, -33, rr (0, 9999)) : enc (w, ri (2), g_coef (P), w == 128 ? ri (120) : ri (demax (w)));
    case G_MATH_LGAMMA: case G_MATH_TGAMMA:   /* next to integers, and every integer and half */
      { int n = i % 100, z = ri (P - 1), d = P - 1 - (n > 9); u128 c = n * p10[d]; if (ri (3)) c += (ri (2) ? 1 : -1) * rr (1, 9) * p10[z < d ? z : 0]; else if (ri (2)) c += 5 * p10[d - 1]; return enc (w, ri (2), c, -d); }
    case G_MATH_ERF: case G_MATH_ERFC:   /* every tenth */
      { int n = i % 160, d = P - 3; return enc (w, ri (2), n * p10[d] + rdig (ri (d + 1)), -d - 1); }
    case G_MATH_ASIN: case G_MATH_ACOS: case G_MATH_ATANH: case G_MATH_ATAN:
      { int lead = i % 100, d = P - 2; return enc (w, ri (2), lead * p10[d] + rdig (ri (d + 1)), g == G_MATH_ATAN && ri (2) ? rr (-P - 3, 3) : -P); }
    default: return g_dec (w);
    }
}
static u128 g_math (int w, int g)
{
  if (ri (5) < (w == 128 && g == G_MATH_LOG ? 4 : 2)) return g_sweep (w, g);    /* log: a table of 900 entries */
  double emax = w == 32 ? 97 : w == 64 ? 385 : 6145;
  int k = ri (20);
  if (k == 0) return g_dec (w);
  if (k == 1) return g_special (w);
  if (k == 2) return g_near1 (w);
  if (k == 3) return enc (w, ri (2), rr (0, 20), rr (-2, 1));
  if (k == 4) return g_log (w, -dprec (w) - 2, 1);
  if (k == 5) return enc (w, ri (2), p10[ri (dprec (w))], g_exp (w));
  switch (g)
    {
    case G_MATH_EXP: case G_MATH_EXPM1: return k < 10 ? g_range (w, -3, 3) : k < 14 ? g_range (w, -emax * 2.4, emax * 2.4) : k < 16 ? g_range (w, emax * 2.30, emax * 2.305) : g_log (w, -8, 3);
    case G_MATH_EXP2: return k < 10 ? g_range (w, -3, 3) : k < 16 ? g_range (w, -emax * 3.4, emax * 3.4) : enc (w, ri (2), ri (300), 0);
    case G_MATH_LOG: case G_MATH_LOG2: case G_MATH_LOG10: return ri (12) ? absb (w, k < 9 ? g_near1 (w) : k < 13 ? g_range (w, 0.1, 20) : g_log (w, -dbias (w), demax (w))) : g_dec (w);
    case G_MATH_LOG1P: return k < 9 ? g_log (w, -10, 2) : k < 13 ? g_range (w, -1, 10) : absb (w, g_dec (w));
    case G_MATH_SIN: case G_MATH_COS: case G_MATH_TAN: return k < 14 ? g_range (w, -7, 7) : k < 17 ? g_range (w, -200, 200) : g_log (w, -8, 5);
    case G_MATH_ASIN: case G_MATH_ACOS: case G_MATH_ATANH: return k < 16 ? g_range (w, -1, 1) : g_near1 (w);
    case G_MATH_ACOSH: return k < 10 ? g_range (w, 1, 20) : k < 14 ? absb (w, g_near1 (w)) : absb (w, g_dec (w));
    case G_MATH_SINH: case G_MATH_COSH: return k < 13 ? g_range (w, -3, 3) : g_range (w, -emax * 2.31, emax * 2.31);
    case G_MATH_TANH: return k < 15 ? g_range (w, -4, 4) : g_range (w, -60, 60);
    case G_MATH_ERF: case G_MATH_ERFC: return k < 17 ? g_range (w, -6, 6) : g_range (w, -30, 30);
    case G_MATH_LGAMMA: case G_MATH_TGAMMA: return k < 12 ? g_range (w, -6, 20) : k < 16 ? g_range (w, 1, 80) : enc (w, ri (2), ri (60), ri (2) ? 0 : -1);
    default: return k < 14 ? g_range (w, -20, 20) : g_dec (w);
    }
}

/* ---- binary formats ---- */
static u128 rbits (int n) { return n <= 0 ? 0 : r128 () >> (128 - n); }
static u128 b_sig (int p)
{
  u128 top = ((u128) 1) << (p - 1);
  switch (ri (8))
    {
    case 0: return top; case 1: return top + ri (4); case 2: return 2 * top - 1 - ri (4); case 3: return 1;
    case 4: { int z = ri (p); return (rbits (p - z) | 1) << z; }
    case 5: return rbits (rr (1, p)) | 1;
    default: return top | rbits (p - 1);
    }
}
/* a decimal number near v */
static u128 near_float (int w, _Float128 v)
{
  char t[80]; int P = dprec (w); sprintf (t, "%%.%de", P - 1); char b[80]; strfromf128 (b, sizeof b, t, v);
  if (b[0] != '-' && (b[0] < '0' || b[0] > '9')) return g_special (w);
  int s = b[0] == '-'; char *q = b + s; u128 c = 0; for (; *q && *q != 'e'; q++) if (*q >= '0' && *q <= '9') c = c * 10 + (*q - '0');
  int e = *q ? atoi (q + 1) - (P - 1) : 0;
  switch (ri (5)) { case 0: c += 1; break; case 1: if (c) c -= 1; break; case 2: c += rr (-3, 3); }
  return enc (w, s, c, e);
}
static _Float128 b_value (int ty, u128 b) { V v; val_set (&v, ty, b); return ty == T_F32 ? v.f32 : ty == T_F64 ? v.f64 : ty == T_F80 ? (_Float128) v.f80 : v.f128; }
static u128 b_round (int ty, _Float128 x) { V v; memset (&v, 0, sizeof v); if (ty == T_F32) v.f32 = x; else if (ty == T_F64) v.f64 = x; else if (ty == T_F80) v.f80 = x; else v.f128 = x; v.ty = ty; return val_bits (&v); }
static int b_exp (int ty)
{
  switch (ri (8)) { case 0: return bemin (ty) + ri (4); case 1: return bemin (ty) - ri (bprec (ty)); case 2: return bemax (ty) - ri (3); case 3: return rr (bemin (ty), bemax (ty)); case 4: return rr (-400, 400); default: return rr (-2 * bprec (ty), bprec (ty)); }
}
static u128 g_bin (int ty, int w)
{
  int p = bprec (ty), P = dprec (w), k = ri (16);
  if (k == 0) return bin_special (ty, 1 + ri (3), ri (2));
  if (k == 1) return bin_encode (ty, ri (2), 0, 0);
  if (k < 6) return bin_encode (ty, ri (2), b_sig (p), b_exp (ty));
  if (k < 9)             /* an integer or dyadic fraction with more digits than the decimal format: a tie, or next to one */
    {
      int d = rr (1, 4); u128 c = full (P < 30 ? P : 30) * p10[d] + (ri (3) ? 5 * p10[d - 1] : rdig (d)) + (ri (3) ? 0 : rr (-1, 1));
      int z = 0; while (c >> p) { c >>= 1; z++; }
      return bin_encode (ty, ri (2), c, z - (ri (2) ? 0 : ri (P)));
    }
  if (k < 12)            /* next to a decimal number or to a point half way between two */
    {
      char t[80]; int lim = ty == T_F32 ? 38 : ty == T_F64 ? 308 : 4900, e = ri (2) ? rr (-P - 3, 5) : rr (-lim, lim);
      u128 c = full (P); char dg[45]; int n = 0; while (c) { dg[n++] = '0' + c % 10; c /= 10; } char *q = t; while (n) *q++ = dg[--n];
      sprintf (q, ".%de%d", ri (3) ? 5 : 0, e - P);
      u128 b = b_round (ty, strtof128 (t, 0));
      return b + rr (-1, 1);
    }
  if (k < 14) { Dec x = dec_decode (w, ri (2) ? g_edge (w) : enc (w, ri (2), g_coef (P), ri (2) ? demax (w) - ri (P) : demin (w) + ri (4)));
                char t[80]; char dg[45]; int n = 0; u128 c = x.c; do dg[n++] = '0' + c % 10; while (c /= 10); char *q = t; if (x.s) *q++ = '-'; while (n) *q++ = dg[--n]; if (ri (2)) { *q++ = '.'; *q++ = '5'; } sprintf (q, "e%d", x.e);
                return b_round (ty, strtof128 (t, 0)); }
  return bin_encode (ty, ri (2), rbits (rr (1, p)) | 1, rr (-40, 40));
}
static u128 g_tobin (int ty, int w)
{
  int p = bprec (ty), P = dprec (w), k = ri (16);
  if (k < 3) return g_dec (w);
  if (k < 6)             /* exactly half way between two binary numbers, or next to it: c * 5^j / 10^j */
    {
      int j = rr (0, P < 20 ? P : 28); u128 c = ((b_sig (ri (2) ? p : rr (1, p)) << 1) | 1), M = p10[P], f = 1; int i = 0;
      while (c >= M) c >>= 1; c |= 1;
      for (; i < j && c * f < M / 5 && f < M; i++) f *= 5;
      return enc (w, ri (2), c * f + (ri (3) ? 0 : rr (-1, 1)), -i);
    }
  if (k < 12)            /* decimal numbers around a binary one and around the points half way */
    {
      u128 c = b_sig (p); int e = b_exp (ty); _Float128 x = b_value (ty, bin_encode (ty, ri (2), c, e));
      if (ri (3) && p < 113) { int lo = e < bemin (ty) ? bemin (ty) : e > bemax (ty) ? bemax (ty) : e; _Float128 h = ldexpf128 (1, lo - 1); x += x < 0 ? -h : h; }
      return near_float (w, x);
    }
  if (k < 14) { _Float128 m = b_value (ty, bin_encode (ty, 0, ~(u128) 0, bemax (ty))); if (ri (2)) m *= 1 + (ri (5) - 2) * (1 / (_Float128) (1 << 20)); return near_float (w, ri (2) ? m : -m); }
  return enc (w, ri (2), g_coef (P), ri (3) ? rr (-P, 5) : rr (-330, 310));
}
void gen_args (const Op *op, V *a)
{
  int w = op->w;
  u128 x = 0, y = 0, z = 0;
  memset (a, 0, 4 * sizeof *a);
  switch (op->gen)
    {
    case G_NONE: return;
    case G_MCONST: val_set (&a[0], T_I32, (unsigned) ri (13)); return;
    case G_ADD: case G_SUB: g_addpair (w, &x, &y); if (op->gen == G_SUB && ri (4)) y ^= (u128) 1 << (w - 1); break;
    case G_MUL: g_mulpair (w, &x, &y); break;
    case G_DIV: g_divpair (w, &x, &y); break;
    case G_CMP: case G_FDIM: case G_NEXT2:
      if (op->gen == G_NEXT2 ? ri (4) == 0 : ri (3) == 0) { if (op->gen == G_NEXT2) { x = g_edge (w); y = ri (2) ? g_special (w) : g_edge (w); } else g_gap (w, &x, &y); break; }
      x = g_dec (w); y = g_rel (w, x); if (ri (2)) { u128 t = x; x = y; y = t; } break;
    case G_BITS: x = ri (4) ? g_dec (w) : ri (2) ? g_special (w) : g_fixv (w); break;
    case G_BITS2: x = g_dec (w); y = ri (3) ? g_rel (w, x) : g_dec (w); if (ri (6) == 0) { x = g_special (w); } if (ri (6) == 0) y = g_special (w); break;
    case G_NEXT1:
      { x = ri (4) ? g_dec (w) : g_edge (w); if (ri (3) == 0) { Dec d = dec_decode (w, x); x = cohort (w, d); } break; }
    case G_NEXTT:
      { x = ri (5) ? g_dec (w) : g_edge (w); Dec d = dec_decode (w, x); int k = ri (5);
        if (k == 0 || d.k) y = g_dec (128);
        else if (k == 1) { y = enc (128, d.s, d.c, d.e); }
        else if (k == 2) { u128 c = d.c; int e = d.e; int m = ri (20); while (m-- && c < p10[33]) { c *= 10; e--; } y = enc (128, d.s, c + rr (-1, 1), e); }
        else { u128 t = g_rel (w, x); Dec f = dec_decode (w, t); y = f.k ? g_special (128) : enc (128, f.s, f.c, f.e); }
        val_set (&a[0], op->at[0], x); val_set (&a[1], op->at[1], y); return; }
    case G_CONV32: case G_CONV64: case G_CONV128:
      {
        int v = op->gen == G_CONV32 ? 32 : op->gen == G_CONV64 ? 64 : 128;
        if (v < w && ri (5))
          {
            int P = dprec (v), Q = dprec (w), d = rr (0, Q - P); u128 c = ri (4) ? rdig (P) : ri (2) ? p10[P] - 1 : p10[P - 1], t = 0;
            if (d) switch (ri (7)) { case 0: t = 5 * p10[d - 1]; break; case 1: t = 5 * p10[d - 1] + 1; break; case 2: t = 5 * p10[d - 1] - 1; break; case 3: t = 1; break; case 4: t = p10[d] - 1; break; case 5: t = 0; break; default: t = rdig (d); }
            int e; switch (ri (4)) { case 0: e = demin (v) + rr (-P - 2, 2); break; case 1: e = demax (v) + rr (-P, P + 2); break; default: e = rr (demin (v), demax (v)); }
            x = enc (w, ri (2), c * p10[d] + t, e - d);
            if (ri (5) == 0) { int n = rr (1, P); x = enc (w, ri (2), rdig (n), demax (v) + rr (0, P)); }
            if (ri (5) == 0) { int n = rr (1, Q); x = enc (w, ri (2), g_coef (n), demin (v) - rr (0, n)); }
          }
        else x = g_dec (w);
        break;
      }
    case G_FROMBIN: x = g_bin (op->at[0], w); break;
    case G_TOBIN: x = g_tobin (op->rt[0], w); break;
    case G_FIX: case G_LRINT: case G_RINT: x = g_fixv (w); break;
    case G_FLOAT: case G_SETRND:
      if (op->gen == G_SETRND && ri (3)) { val_set (&a[0], op->at[0], (u128) (s128) rr (-2, 7)); return; }
      val_set (&a[0], op->at[0], g_int (op->at[0])); return;
    case G_QUANT:
      { int P = dprec (w);
        if (ri (3) == 0)  /* chosen last digits, all of them to go */
          {
            int n = rr (0, P - 1), k = rr (1, P - n), e = ri (2) ? rr (-2 * P, P) : g_exp (w); u128 h = n ? (ri (3) ? full (n) : g_sig (P) % p10[n]) : 0, t = g_tail (k);
            if (e + k > demax (w)) e = demax (w) - k; x = enc (w, ri (2), h * p10[k] + t, e); y = enc (w, ri (2), ri (2) ? 1 : g_coef (P), e + k + (ri (8) == 0)); break;
          }
        x = ri (3) ? g_dec (w) : g_fixv (w); Dec d = dec_decode (w, x);
        y = d.k ? g_dec (w) : ri (6) == 0 ? g_dec (w) : ri (20) == 0 ? g_special (w) : enc (w, ri (2), ri (2) ? 1 : g_coef (P), d.e + (ri (3) ? rr (-3, P + 1) : rr (-P - 2, P + 2)));
        break; }
    case G_REM:
      { int k = ri (6), P = dprec (w);
        if (k == 0) { x = g_dec (w); y = g_dec (w); }
        else if (k == 1) { x = g_dec (w); y = g_rel (w, x); }
        else if (k == 2) /* half-way quotient */
          { u128 c = g_coef (P - 1); if (!c) c = 1; int m = rr (0, 9); int e = g_exp (w); x = enc (w, ri (2), (c * (2 * m + 1)) % p10[P], e); y = enc (w, ri (2), (2 * c) % p10[P], e); if (ri (3) == 0) x = tweak (w, x); if (ri (3) == 0) { Dec d = dec_decode (w, x); x = cohort (w, d); } }
        else if (k == 3) { u128 c = rdig (rr (1, P)); int e = g_exp (w); x = enc (w, ri (2), g_coef (P), e + rr (0, P + 5)); y = enc (w, ri (2), c, e); }
        else if (k == 4) { x = enc (w, ri (2), g_coef (P), rr (0, ri (3) ? 60 : demax (w))); y = enc (w, ri (2), g_coef (rr (1, P)), rr (-P, 3)); }
        else { int e = g_exp (w); x = enc (w, ri (2), rr (1, 99), e); y = enc (w, ri (2), rr (1, 99), e + rr (-3, 3)); }
        break; }
    case G_SQRT:
      { int k = ri (5), P = dprec (w);
        if (k == 0) x = g_dec (w);
        else if (k == 1) { u128 r = g_coef (P / 2); x = enc (w, 0, r * r, g_exp (w) & ~1); }
        else if (k == 2) { u128 r = g_coef (P / 2); x = enc (w, 0, r * r + rr (-2, 2), g_exp (w)); }
        else if (k == 3) { u128 r = g_coef (P / 2); int z = ri (P); u128 c = r * r; while (z-- && c < p10[P - 2]) c *= 100; x = enc (w, 0, c, g_exp (w)); }
        else x = enc (w, ri (20) == 0, g_coef (P), g_exp (w));
        break; }
    case G_FMA:
      { int k = ri (6), P = dprec (w);
        if (ri (2)) { aim_fma (w, &x, &y, &z); break; }
        g_mulpair (w, &x, &y); Dec u = dec_decode (w, x), v = dec_decode (w, y);
        if (u.k || v.k || k == 0) { z = g_dec (w); break; }
        int e = u.e + v.e, n = ndig (u.c) + ndig (v.c);
        if (k == 1) { u128 c = g_coef (P); z = enc (w, ri (2), c, e + rr (-P - 2, 2 * P + 2)); }
        else if (k == 2) /* half ulp of the product */ { int t = ri (P); z = enc (w, ri (2), 5 * p10[t] + rr (-1, 1), e + n - P - 1 - t + rr (-1, 0)); }
        else if (k == 3) /* product is half ulp of z */ { u128 c = g_coef (P); z = enc (w, ri (2), c, e + n + rr (-1, 1)); }
        else if (k == 4 && P <= 16) /* massive cancellation */
          { u128 pr = u.c * v.c; int m = ndig (pr), dr = m > P ? m - P : 0; u128 f = p10[dr > 38 ? 38 : dr]; z = enc (w, !(u.s ^ v.s), pr / f + rr (-1, 1), e + dr); }
        else z = enc (w, ri (2), g_coef (P), e + rr (-3 * P, 3 * P));
        break; }
    case G_SCALE:
      { x = g_dec (w); Dec d = dec_decode (w, x); s128 n; int P = dprec (w);
        switch (ri (8)) { case 0: n = rr (-5, 5); break; case 1: n = rr (-2 * dbias (w), 2 * dbias (w)); break; case 2: n = demax (w) - d.e + rr (-3, P + 2); break; case 3: n = demin (w) - d.e + rr (-P - 2, 3); break; case 4: n = (int64_t) g_int (T_I64); break; case 5: n = (ri (2) ? 1 : -1) * (int64_t) (0x7fffffffLL - ri (3)); break; case 6: n = 0; break; default: n = rr (-P, P); }
        if (op->at[1] == T_I32) n = (int32_t) n;
        val_set (&a[0], op->at[0], x); val_set (&a[1], op->at[1], (u128) n); return; }
    case G_NAN:
      { static const char *const t[] = { "", "0", "1", "123", "0x1f", "abc", "999999", "1000000", "123456789012345678901234567890123", "12ab", " 5", "-1" };
        char *b = newbuf (); if (ri (3)) strcpy (b, t[ri (12)]); else { int n = ri (36); digs (b, n, 0); b[n] = 0; }
        a[0].ty = T_STR; a[0].s = b; a[0].n = strlen (b); return; }
    case G_STR:
      a[0].ty = T_STR; a[0].s = g_numtext (w, &a[0].n); return;
    case G_STR2:
      { int n1, n2; char *x = g_numtext (w, &n1), *y = g_numtext (w, &n2), *b = newbuf ();
        static const char *sep[] = { " ", "\n", "\t ", "  ", " ", ",", "", "e", "-" }; const char *z = sep[ri (9)];
        if (n1 > 900) n1 = 900; if (n2 > 900) n2 = 900;
        memcpy (b, x, n1); int l = strlen (z); memcpy (b + n1, z, l); memcpy (b + n1 + l, y, n2); b[n1 + l + n2] = 0;
        a[0].ty = T_STR; a[0].s = b; a[0].n = n1 + l + n2; return; }
    case G_RTRIP:
      val_set (&a[0], op->at[0], ri (2) ? g_dec (w) : g_fmtval (w)); val_set (&a[1], T_I32, ri (8)); return;
    case G_FMT:
      val_set (&a[0], op->at[0], g_fmtval (w)); a[1].ty = T_STR; a[1].s = g_fmt (w, &a[1].n); return;
    case G_STRFROM:
      { val_set (&a[0], op->at[0], g_fmtval (w));
        char *b = newbuf (), *p = b; *p++ = '%'; if (ri (4)) { *p++ = '.'; if (ri (10)) p += sprintf (p, "%d", ri (3) ? ri (dprec (w) + 3) : ri (60)); } *p++ = "eEfFgGaA"[ri (8)]; *p = 0;
        a[1].ty = T_STR; a[1].s = b; a[1].n = p - b;
        val_set (&a[2], T_I32, ri (3) ? 300 : ri (2) ? ri (30) : ri (4)); return; }
    case G_LSTR: case G_LFMT: case G_LSTRFROM:
      { static const char *const rx[] = { ".", ",", ".", "\xd9\xab", ",", ",", "," }, *const sp[] = { "", ".", ",", "\xd9\xac", "\xe2\x80\xaf", "'", "" };
        int l = ri (7), j = 0; char *b = newbuf ();
        if (op->gen == G_LSTR)
          {
            int n; char *s = g_numtext (w, &n); if (n > 900) n = 900; int keep = ri (5) == 0, sep = ri (6) == 0;
            for (int i = 0; i < n; i++)
              {
                if (s[i] == '.' && !keep) j += sprintf (b + j, "%s", rx[l]); else b[j++] = s[i];
                if (sep && ri (4) == 0) j += sprintf (b + j, "%s", sp[l]);
              }
            b[j] = 0; a[0].ty = T_STR; a[0].s = b; a[0].n = j; val_set (&a[1], T_I32, l); return;
          }
        val_set (&a[0], op->at[0], ri (3) ? g_fmtval (w) : enc (w, ri (2), rdig (rr (1, dprec (w))), ri (3) ? -ri (dprec (w)) : ri (12))); a[1].ty = T_STR;
        if (op->gen == G_LFMT)
          {
            int n; char *s = g_fmt (w, &n), *q = b; int at = s[0] == '!';
            memcpy (b, s, n + 1);
            if (ri (3)) { memmove (b + at + 1, b + at, n - at + 1); b[at] = '\''; n++; if (strchr ("aA", b[n - 1])) b[n - 1] = b[n - 1] == 'a' ? 'f' : 'g'; }
            a[1].s = q; a[1].n = n; val_set (&a[2], T_I32, l); return;
          }
        char *p = b; *p++ = '%'; if (ri (4)) { *p++ = '.'; if (ri (10)) p += sprintf (p, "%d", ri (3) ? ri (dprec (w) + 3) : ri (60)); } *p++ = "eEfFgGaA"[ri (8)]; *p = 0;
        a[1].s = b; a[1].n = p - b; val_set (&a[2], T_I32, ri (3) ? 300 : ri (30)); val_set (&a[3], T_I32, l); return; }
    case G_OPUT:
      val_set (&a[0], op->at[0], g_fmtval (w)); val_set (&a[1], T_I32, ri (8)); val_set (&a[2], T_I32, ri (3) ? ri (dprec (w) + 1) : ri (60)); return;
    case G_MATH_POW:
      { int k = ri (10);
        if (k == 0) { x = g_dec (w); y = g_dec (w); }
        else if (k == 1) { x = g_special (w); y = ri (2) ? enc (w, ri (2), ri (6), 0) : g_dec (w); }
        else if (k == 2) { x = ri (2) ? enc (w, ri (2), 1, 0) : g_zero (w); y = g_dec (w); }
        else if (k == 3) { x = enc (w, ri (2), rr (1, 20), rr (-2, 1)); y = enc (w, ri (2), ri (40), 0); }
        else if (k == 4) { x = enc (w, ri (2), rr (1, 20), rr (-2, 1)); y = enc (w, ri (2), ri (400), -1); }
        else if (k == 5) { x = absb (w, g_near1 (w)); y = g_log (w, 0, 6); }
        else if (k == 6) { x = absb (w, g_log (w, -10, 10)); y = g_range (w, -10, 10); }
        else if (k == 7) { x = g_dec (w); y = g_special (w); }
        else { x = absb (w, g_range (w, 0.01, 100)); y = g_range (w, -30, 30); }
        break; }
    case G_MATH_ATAN2: x = g_dec (w); y = ri (3) ? g_rel (w, x) : g_dec (w); if (ri (2)) { x = g_range (w, -5, 5); y = g_range (w, -5, 5); } break;
    case G_MATH_HYPOT: x = g_dec (w); y = g_rel (w, x); if (ri (3) == 0) { x = g_range (w, -50, 50); y = g_range (w, -50, 50); } if (ri (5) == 0) { int e = g_exp (w), m = rr (1, 9999); x = enc (w, ri (2), 3 * m, e); y = enc (w, ri (2), 4 * m, e); } break;
    default: x = g_math (w, op->gen); break;
    }
  u128 v[3] = { x, y, z };
  for (int i = 0; i < 3 && op->at[i]; i++) val_set (&a[i], op->at[i], v[i]);
}

/* mutation of an interesting input (explorer) */
static void mut_args1 (const Op *op, V *a)
{
  int n = 0; while (n < 4 && op->at[n]) n++;
  if (!n) return;
  int rep = 1 + ri (3);
  while (rep--)
    {
      int i = ri (n); V *v = &a[i];
      if (ri (12) == 0) { V b[4]; gen_args (op, b); *v = b[i]; continue; }
      int w = tw (v->ty);
      if (v->ty == T_STR && (op->gen == G_FMT || op->gen == G_STRFROM || op->gen == G_LFMT || op->gen == G_LSTRFROM)) { V b[4]; gen_args (op, b); *v = b[i]; continue; }
      if (v->ty == T_STR)
        {
          char *b = newbuf (); int l = v->n > 4000 ? 4000 : v->n; memcpy (b, v->s, l); b[l] = 0;
          static const char al[] = "0123456789.eE+-naifNAIF() 9050";
          switch (ri (4))
            {
            case 0: if (l) b[ri (l)] = al[ri (sizeof al - 1)]; break;
            case 1: { int p = ri (l + 1); if (l < 4000) { memmove (b + p + 1, b + p, l - p + 1); b[p] = al[ri (sizeof al - 1)]; l++; } } break;
            case 2: if (l) { int p = ri (l); memmove (b + p, b + p + 1, l - p); l--; } break;
            default: if (l && l < 2000) { int p = ri (l), q = 1 + ri (l - p > 8 ? 8 : l - p); memmove (b + p + q, b + p, l - p + 1); l += q; }
            }
          b[l] = 0; v->s = b; v->n = l; continue;
        }
      u128 bits = val_bits (v);
      if (w)
        {
          Dec d = dec_decode (w, bits);
          switch (ri (d.k ? 2 : 10))
            {
            case 0: bits ^= (u128) 1 << ri (w); break;
            case 1: bits = g_dec (w); break;
            case 2: bits = tweak (w, bits); break;
            case 3: d.e = clampe (w, d.e + rr (-8, 8)); bits = dec_encode (w, d); break;
            case 4: bits = cohort (w, d); break;
            case 5: { int k = ri (dprec (w)); u128 dg = d.c / p10[k] % 10; d.c = d.c - dg * p10[k] + ri (10) * p10[k]; bits = dec_encode (w, d); } break;
            case 6: d.c = g_coef (dprec (w)); bits = dec_encode (w, d); break;
            case 7: d.e = g_exp (w); bits = dec_encode (w, d); break;
            case 8: if (ndict) { d.c = dict[ri (ndict)] % p10[dprec (w)]; bits = dec_encode (w, d); } break;
            default: if (ndict) { uint64_t t = dict[ri (ndict)]; if (w == 128) bits = ri (2) ? (bits >> 64 << 64) | t : ((u128) t << 64) | (uint64_t) bits; else bits = t & wmask (w); } break;
            }
        }
      else
        switch (ri (4)) { case 0: bits ^= (u128) 1 << ri (isbin (v->ty) ? (v->ty == T_F32 ? 32 : v->ty == T_F64 ? 64 : v->ty == T_F80 ? 63 : 128) : v->ty == T_I32 || v->ty == T_U32 ? 32 : v->ty == T_I64 || v->ty == T_U64 ? 64 : 128); break; case 1: bits = isbin (v->ty) ? g_bin (v->ty, op->w) : g_int (v->ty); break; case 2: bits += rr (-3, 3); break; default: if (ndict && v->ty != T_F80) bits = dict[ri (ndict)]; }
      if (v->ty == T_F80 && (bits >> 64 & 0x7fff) && !(bits >> 63 & 1)) bits |= (u128) 1 << 63;   /* no unnormal encodings */
      if (v->ty == T_F80 && !(bits >> 64 & 0x7fff)) bits &= ~((u128) 1 << 63);
      val_set (v, v->ty, bits);
    }
}

void mut_args (const Op *op, V *a)
{
  mut_args1 (op, a);
  if (op->gen == G_OPUT) { a[1].i32 &= 7; a[2].i32 = (uint32_t) a[2].i32 % 61; }
  if (op->gen == G_RTRIP) a[1].i32 &= 7;
  if (op->gen == G_LSTR) a[1].i32 = (uint32_t) a[1].i32 % 7;
  if (op->gen == G_LFMT) a[2].i32 = (uint32_t) a[2].i32 % 7;
  if (op->gen == G_LSTRFROM) a[3].i32 = (uint32_t) a[3].i32 % 7;
}
