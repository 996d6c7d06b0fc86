#include "val.h"
u128 p10[39];
void val_init (void) { p10[0] = 1; for (int i = 1; i < 39; i++) p10[i] = p10[i-1] * 10; }

Dec dec_decode (int w, u128 b)
{
  Dec d = { 0, 0, 0, 0, 1 };
  int eb, tb;                   /* exponent bits, trailing significand bits */
  if (w == 32) { b &= 0xffffffffu; eb = 8; tb = 23; }
  else if (w == 64) { b &= ~(uint64_t) 0; eb = 10; tb = 53; }
  else { eb = 14; tb = 113; }
  d.s = (int) (b >> (w - 1)) & 1;
  int g = (int) (b >> (w - 6)) & 31;         /* top five combination bits */
  u128 max = p10[dprec (w)] - 1;
  if (g >= 30)
    {
      if (g == 30)
        {
          d.k = 1; d.canon = (b << 1) == ((u128) 0x78 << (w - 8)) << 1;
          u128 body = b & ((((u128) 1) << (w - 6)) - 1);
          d.canon = body == 0;
        }
      else
        {
          int sn = (int) (b >> (w - 7)) & 1;
          d.k = sn ? 3 : 2;
          int pb = tb - 3 ;      /* payload field: low bits up to 10^(p-1)-1 */
          (void) pb;
          int tbits = w == 32 ? 20 : w == 64 ? 50 : 110;
          u128 pay = b & ((((u128) 1) << tbits) - 1);
          u128 rest = (b >> tbits) & ((((u128) 1) << (w - 7 - tbits)) - 1);
          d.c = pay;
          d.canon = rest == 0 && pay < p10[dprec (w) - 1];
          if (pay >= p10[dprec (w) - 1]) d.c = 0;
        }
      return d;
    }
  if ((g >> 3) == 3)
    {
      /* large form */
      int sh = tb - 2;
      d.e = (int) (b >> sh) & ((1 << eb) - 1);
      d.c = ((u128) 4 << (tb - 2)) | (b & ((((u128) 1) << sh) - 1));
      /* significand = 100 followed by tb-2 bits */
      d.c = (((u128) 1) << tb) | (b & ((((u128) 1) << sh) - 1));
    }
  else
    {
      d.e = (int) (b >> tb) & ((1 << eb) - 1);
      d.c = b & ((((u128) 1) << tb) - 1);
    }
  d.e -= dbias (w);
  if (d.c > max) { d.c = 0; d.canon = 0; }
  return d;
}

u128 dec_encode (int w, Dec d)
{
  u128 s = (u128) (d.s & 1) << (w - 1);
  if (d.k == 1) return s | ((u128) 0x78 << (w - 8));
  if (d.k >= 2) return s | ((u128) (d.k == 3 ? 0x7e : 0x7c) << (w - 8)) | d.c;
  int tb = w == 32 ? 23 : w == 64 ? 53 : 113;
  u128 e = (u128) (d.e + dbias (w));
  if (d.c >> tb)
    return s | ((u128) 3 << (w - 3)) | (e << (tb - 2)) | (d.c & ((((u128) 1) << (tb - 2)) - 1));
  return s | (e << tb) | d.c;
}

/* sign, exponent field, fraction with its leading bit made explicit */
static int bebits (int ty) { return ty == T_F32 ? 8 : ty == T_F64 ? 11 : 15; }
Dec bin_decode (int ty, u128 b)
{
  Dec d = { 0, 0, 0, 0, 1 };
  int p = bprec (ty), eb = bebits (ty), fb = ty == T_F80 ? 64 : p - 1;
  u128 f = b & ((((u128) 1) << fb) - 1), lead = ((u128) 1) << (p - 1);
  int x = (int) (b >> fb) & ((1 << eb) - 1);
  d.s = (int) (b >> (fb + eb)) & 1;
  if (x == (1 << eb) - 1) { u128 fr = f & (lead - 1); d.k = fr == 0 ? 1 : fr >> (p - 2) & 1 ? 2 : 3; return d; }
  if (ty != T_F80 && x) f |= lead;
  d.c = f; d.e = f ? bemin (ty) + (x ? x - 1 : 0) : 0;
  return d;
}
u128 bin_encode (int ty, int s, u128 c, int e)
{
  int p = bprec (ty), eb = bebits (ty), fb = ty == T_F80 ? 64 : p - 1;
  u128 lead = ((u128) 1) << (p - 1), sg = (u128) s << (fb + eb);
  c &= lead | (lead - 1);
  if (!c) return sg;
  while (!(c & lead) && e > bemin (ty)) { c <<= 1; e--; }
  while (e < bemin (ty) && c > 1) { c >>= 1; e++; }
  if (e < bemin (ty)) e = bemin (ty);
  if (e > bemax (ty)) e = bemax (ty);
  int x = c & lead ? e - bemin (ty) + 1 : 0;
  return sg | (u128) x << fb | (ty == T_F80 ? c : c & (lead - 1));
}
u128 bin_special (int ty, int k, int s)
{
  int p = bprec (ty), eb = bebits (ty), fb = ty == T_F80 ? 64 : p - 1;
  u128 r = (u128) s << (fb + eb) | (u128) ((1 << eb) - 1) << fb | (ty == T_F80 ? ((u128) 1) << 63 : 0);
  return k == 1 ? r : k == 2 ? r | ((u128) 1 << (p - 2)) : r | 1;
}
u128 val_bits (const V *v)
{
  switch (v->ty)
    {
    case T_D32: case T_U32: case T_F32: return v->b32;
    case T_D64: case T_U64: case T_F64: return v->b64;
    case T_F80: return v->b128 & ((((u128) 1) << 80) - 1);
    case T_I32: return (u128) (s128) v->i32;
    case T_I64: return (u128) (s128) v->i64;
    case T_INT: return (u128) (s128) v->in;
    default: return v->b128;
    }
}
void val_set (V *v, int ty, u128 b)
{
  v->ty = ty; v->b128 = 0; v->s = 0; v->n = 0;
  switch (ty)
    {
    case T_D32: case T_U32: case T_I32: case T_INT: case T_F32: v->b32 = (uint32_t) b; break;
    case T_D64: case T_U64: case T_I64: case T_F64: v->b64 = (uint64_t) b; break;
    default: v->b128 = b;
    }
}
