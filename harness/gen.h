#ifndef GEN_H
#define GEN_H
#include "val.h"
#define DICT 8192
extern uint64_t rng_s, dict[DICT]; extern int ndict;
uint64_t rnd (void); int ri (int n); int rr (int a, int b);
void gen_recode (const Op *, V *);
void gen_args (const Op *op, V *a);
void mut_args (const Op *op, V *a);
u128 enc (int w, int s, u128 c, int e);
#endif
