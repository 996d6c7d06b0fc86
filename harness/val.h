/* Values exchanged with libdfp, and their independent decoding.  Nothing here comes from libdfp. */
#ifndef VAL_H
#define VAL_H
#include <stdint.h>
#include <stddef.h>
typedef unsigned __int128 u128;
typedef __int128 s128;

enum { T_NONE, T_D32, T_D64, T_D128, T_I32, T_U32, T_I64, T_U64, T_I128, T_U128, T_INT, T_STR, T_F32, T_F64, T_F80, T_F128 };

typedef struct {
  int ty;
  union {
    uint32_t b32; uint64_t b64; u128 b128;
    _Decimal32 d32; _Decimal64 d64; _Decimal128 d128;
    int32_t i32; uint32_t u32; int64_t i64; uint64_t u64; s128 i128; u128 u128_; int in;
    float f32; double f64; long double f80; __float128 f128;
  };
  char *s; int n;               /* T_STR */
} V;

/* Decoded decimal: k 0 finite, 1 infinity, 2 quiet NaN, 3 signaling NaN. */
typedef struct { int k, s, e; u128 c; int canon; } Dec;

#define P32 7
#define P64 16
#define P128 34
/* Decoded binary: (-1)^s * c * 2^e with as many bits in c as the format has where the range allows. */
static inline int isbin (int ty) { return ty >= T_F32 && ty <= T_F128; }
static inline int bprec (int ty) { return ty == T_F32 ? 24 : ty == T_F64 ? 53 : ty == T_F80 ? 64 : 113; }
static inline int bemin (int ty) { return ty == T_F32 ? -149 : ty == T_F64 ? -1074 : ty == T_F80 ? -16445 : -16494; }
static inline int bemax (int ty) { return ty == T_F32 ? 104 : ty == T_F64 ? 971 : ty == T_F80 ? 16320 : 16271; }
Dec bin_decode (int ty, u128 bits);
u128 bin_encode (int ty, int s, u128 c, int e);   /* c < 2^bprec; e clamped to the format */
u128 bin_special (int ty, int k, int s);           /* infinity or NaN */
static inline int dprec (int w) { return w == 32 ? 7 : w == 64 ? 16 : 34; }
static inline int dbias (int w) { return w == 32 ? 101 : w == 64 ? 398 : 6176; }
static inline int demin (int w) { return -dbias (w); }
static inline int demax (int w) { return w == 32 ? 90 : w == 64 ? 369 : 6111; }
extern u128 p10[39];
void val_init (void);
Dec dec_decode (int w, u128 bits);
u128 dec_encode (int w, Dec d);            /* canonical encoding; d must be in range */
static inline int tw (int ty) { return ty == T_D32 ? 32 : ty == T_D64 ? 64 : ty == T_D128 ? 128 : 0; }
static inline int wt (int w) { return w == 32 ? T_D32 : w == 64 ? T_D64 : T_D128; }
u128 val_bits (const V *v);
void val_set (V *v, int ty, u128 bits);

typedef struct Op {
  const char *name; int w;
  int at[4]; int rt[4];
  void (*call) (V *r, const V *a);
  int gen;                      /* generator class, see gen.c */
} Op;
extern const Op ops[]; extern const int nops;
const Op *op_find (const char *name, int w);
#endif
