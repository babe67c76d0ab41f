/* Casts between decimal and binary floating-point types, the type-generic
   macros and constants of the headers, compiled as a user's program is.  */
#define _GNU_SOURCE 1
#define __STDC_WANT_IEC_60559_BFP_EXT__ 1
#include <math.h>
#include <float.h>
#include <fenv.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include "shim.h"
#include "conv.h"
typedef _Decimal32 T32; typedef _Decimal64 T64; typedef _Decimal128 T128;
typedef float B0; typedef double B1; typedef long double B2; typedef __float128 B3;
#define NI __attribute__ ((noinline, used))
#define SZ(b) ((b) == 2 ? 10 : (int) sizeof (B##b))
#define D2B(N,b) static NI void d2b_##N##_##b (u128 in, u128 *out) { volatile T##N x; memcpy ((void *)&x, &in, sizeof (T##N)); volatile B##b r = (B##b) x; *out = 0; memcpy (out, (const void *)&r, SZ (b)); }
#define B2D(N,b) static NI void b2d_##N##_##b (u128 in, u128 *out) { volatile B##b x; memset ((void *)&x, 0, sizeof x); memcpy ((void *)&x, &in, SZ (b)); volatile T##N r = (T##N) x; *out = 0; memcpy (out, (const void *)&r, sizeof (T##N)); }
#define ALLB(M,N) M(N,0) M(N,1) M(N,2) M(N,3)
ALLB(D2B,32) ALLB(D2B,64) ALLB(D2B,128) ALLB(B2D,32) ALLB(B2D,64) ALLB(B2D,128)
static void (*const D2[3][4]) (u128, u128 *) = { { d2b_32_0, d2b_32_1, d2b_32_2, d2b_32_3 }, { d2b_64_0, d2b_64_1, d2b_64_2, d2b_64_3 }, { d2b_128_0, d2b_128_1, d2b_128_2, d2b_128_3 } };
static void (*const BD[3][4]) (u128, u128 *) = { { b2d_32_0, b2d_32_1, b2d_32_2, b2d_32_3 }, { b2d_64_0, b2d_64_1, b2d_64_2, b2d_64_3 }, { b2d_128_0, b2d_128_1, b2d_128_2, b2d_128_3 } };
static const int BM[4] = { FE_TONEAREST, FE_TOWARDZERO, FE_UPWARD, FE_DOWNWARD };
static void around (void (*f) (u128, u128 *), int mode, int bmode, u128 in, cv_out *o)
{
  fe_dec_setround (mode);
  feclearexcept (FE_ALL_EXCEPT);
  errno = 0;
  fesetround (BM[bmode]);
  f (in, &o->v);
  o->env = fegetround () != BM[bmode];
  fesetround (FE_TONEAREST);
  o->flags = fetestexcept (FE_ALL_EXCEPT);
  o->err = errno;
  o->env |= (fe_dec_getround () != mode) << 1;
}
void cv_d2b (int fi, int b, int mode, int bmode, u128 in, cv_out *o) { around (D2[fi][b], mode, bmode, in, o); }
void cv_b2d (int fi, int b, int mode, int bmode, u128 in, cv_out *o) { around (BD[fi][b], mode, bmode, in, o); }

/* the macros, on every floating-point type */
#define CLS(x,c) { c[0] = fpclassify (x); c[1] = !!signbit (x); c[2] = !!isfinite (x); c[3] = !!isnormal (x); c[4] = !!isinf (x); c[5] = !!isnan (x); c[6] = !!issignaling (x); }
#define CB(b) static NI void cb_##b (u128 in, int *c) { volatile B##b y; memset ((void *)&y, 0, sizeof y); memcpy ((void *)&y, &in, SZ (b)); B##b x = y; CLS (x, c) }
CB(0) CB(1) CB(2)
#define CD(N) static NI void cd_##N (u128 in, int *c) { volatile T##N y; memcpy ((void *)&y, &in, sizeof (T##N)); T##N x = y; CLS (x, c) }
CD(32) CD(64) CD(128)
void cv_class (int type, u128 in, int *c)
{
  switch (type) { case 0: cd_32 (in, c); break; case 1: cd_64 (in, c); break; case 2: cd_128 (in, c); break;
    case 3: cb_0 (in, c); break; case 4: cb_1 (in, c); break; default: cb_2 (in, c); break; }
}
void cv_fpc (int *c) { c[0] = FP_NAN; c[1] = FP_INFINITE; c[2] = FP_ZERO; c[3] = FP_SUBNORMAL; c[4] = FP_NORMAL; }
static void p128 (u128 *o, T128 x) { memcpy (o, &x, 16); }
static void p64 (u128 *o, T64 x) { *o = 0; memcpy (o, &x, 8); }
static void p32 (u128 *o, T32 x) { *o = 0; memcpy (o, &x, 4); }
const char *cv_const (int i, int *fi, u128 *v)
{
#define C(k,f,n,e) case k: *fi = f; p##n (v, e); return #e;
  switch (i)
    {
    C(0,2,128,M_Edl) C(1,2,128,M_LOG2Edl) C(2,2,128,M_LOG10Edl) C(3,2,128,M_LN2dl) C(4,2,128,M_LN10dl)
    C(5,2,128,M_PIdl) C(6,2,128,M_PI_2dl) C(7,2,128,M_PI_4dl) C(8,2,128,M_1_PIdl) C(9,2,128,M_2_PIdl)
    C(10,2,128,M_2_SQRTPIdl) C(11,2,128,M_SQRT2dl) C(12,2,128,M_SQRT1_2dl)
    C(13,0,32,HUGE_VAL_D32) C(14,1,64,HUGE_VAL_D64) C(15,2,128,HUGE_VAL_D128) C(16,0,32,DEC_INFINITY) C(17,0,32,DEC_NAN)
    default: return 0;
    }
}
