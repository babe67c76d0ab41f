#define _GNU_SOURCE 1
#include <math.h>
#include <fenv.h>
#include <stdlib.h>
#include <wchar.h>
#include <stdio.h>
#include <string.h>
#include <errno.h>
#include <dlfcn.h>
#include "shim.h"

/* The generic macros are checked separately; here we call the functions.  */
#undef fpclassify
#undef signbit
#undef isfinite
#undef isnormal
#undef isinf
#undef isnan
#undef issignaling
#undef isgreater
#undef isgreaterequal
#undef isless
#undef islessequal
#undef islessgreater
#undef isunordered

typedef _Decimal32 T32; typedef _Decimal64 T64; typedef _Decimal128 T128;
#define GET(N,v,src) volatile T##N v; memcpy ((void *)&v, (src), sizeof (T##N))
#define PUT(dst,r) do { (dst) = 0; memcpy (&(dst), (const void *)&(r), sizeof (r)); } while (0)
#define SPUT(dst,r) (dst) = (u128)(__int128)(r)

#define DEFALL(M, ...) M(32, __VA_ARGS__) M(64, __VA_ARGS__) M(128, __VA_ARGS__)
#define NI __attribute__ ((noinline, used))
#define U_ (void)in; (void)iarg

/* unary D -> D */
#define M_D1(N,f) static NI void x_##f##_##N (const u128 *in, long long iarg, shim_out *o) \
 { U_; GET(N,a,&in[0]); volatile T##N r = f##d##N (a); PUT(o->d, r); }
#define M_D2(N,f) static NI void x_##f##_##N (const u128 *in, long long iarg, shim_out *o) \
 { U_; GET(N,a,&in[0]); GET(N,b,&in[1]); volatile T##N r = f##d##N (a, b); PUT(o->d, r); }
#define M_D3(N,f) static NI void x_##f##_##N (const u128 *in, long long iarg, shim_out *o) \
 { U_; GET(N,a,&in[0]); GET(N,b,&in[1]); GET(N,c,&in[2]); volatile T##N r = f##d##N (a, b, c); PUT(o->d, r); }
#define M_I1(N,f) static NI void x_##f##_##N (const u128 *in, long long iarg, shim_out *o) \
 { U_; GET(N,a,&in[0]); SPUT(o->i, f##d##N (a)); }
#define M_I2(N,f) static NI void x_##f##_##N (const u128 *in, long long iarg, shim_out *o) \
 { U_; GET(N,a,&in[0]); GET(N,b,&in[1]); SPUT(o->i, f##d##N (a, b)); }
#define M_DI(N,f) static NI void x_##f##_##N (const u128 *in, long long iarg, shim_out *o) \
 { U_; GET(N,a,&in[0]); volatile T##N r = f##d##N (a, iarg); PUT(o->d, r); }
#define M_FREXP(N,f) static NI void x_##f##_##N (const u128 *in, long long iarg, shim_out *o) \
 { U_; GET(N,a,&in[0]); int e = 0x5a5a5a5a; volatile T##N r = f##d##N (a, &e); PUT(o->d, r); SPUT(o->i, e); }
#define M_MODF(N,f) static NI void x_##f##_##N (const u128 *in, long long iarg, shim_out *o) \
 { U_; GET(N,a,&in[0]); T##N ip; memset (&ip, 0x33, sizeof ip); volatile T##N r = f##d##N (a, &ip); PUT(o->d, r); PUT(o->d2, ip); }
#define M_NT(N,f) static NI void x_##f##_##N (const u128 *in, long long iarg, shim_out *o) \
 { U_; GET(N,a,&in[0]); GET(128,b,&in[1]); volatile T##N r = f##d##N (a, b); PUT(o->d, r); }
#define M_OP(N,nm,op) static NI void x_##nm##_##N (const u128 *in, long long iarg, shim_out *o) \
 { U_; GET(N,a,&in[0]); GET(N,b,&in[1]); volatile T##N r = a op b; PUT(o->d, r); }
#define M_CMP(N,nm,op) static NI void x_##nm##_##N (const u128 *in, long long iarg, shim_out *o) \
 { U_; GET(N,a,&in[0]); GET(N,b,&in[1]); SPUT(o->i, (a op b)); }
/* conversions: D -> D' */
#define M_CVD(N,nm,M) static NI void x_##nm##_##N (const u128 *in, long long iarg, shim_out *o) \
 { U_; GET(N,a,&in[0]); volatile T##M r = (T##M)a; PUT(o->d, r); }
#define M_TOI(N,nm,ty) static NI void x_##nm##_##N (const u128 *in, long long iarg, shim_out *o) \
 { U_; GET(N,a,&in[0]); volatile ty r = (ty)a; o->i = (u128)(__int128)r; }
#define M_FRI(N,nm,ty) static NI void x_##nm##_##N (const u128 *in, long long iarg, shim_out *o) \
 { U_; volatile ty a = (ty)in[0]; volatile T##N r = (T##N)a; PUT(o->d, r); }
#define M_MAC(N,nm,fn) static NI void x_##nm##_##N (const u128 *in, long long iarg, shim_out *o) \
 { U_; GET(N,a,&in[0]); SPUT(o->i, fn##d##N (a)); }
static const char *const nantags[8] = { "", "0", "1", "123", "abc", "_9", "0x7", "99999999999999999999999999999999999999999999" };
#define M_NAN(N,nm) static NI void x_##nm##_##N (const u128 *in, long long iarg, shim_out *o) \
 { U_; volatile T##N r = nand##N (nantags[iarg & 7]); PUT(o->d, r); }
#define M_NEG(N,nm) static NI void x_##nm##_##N (const u128 *in, long long iarg, shim_out *o) \
 { U_; GET(N,a,&in[0]); volatile T##N r = -a; PUT(o->d, r); }

#define D1_LIST X(acos) X(acosh) X(asin) X(asinh) X(atan) X(atanh) X(cbrt) X(cos) X(cosh) \
 X(erf) X(erfc) X(exp) X(exp2) X(expm1) X(lgamma) X(log) X(log10) X(log1p) X(log2) X(logb) \
 X(nearbyint) X(quantum) X(rint) X(sin) X(sinh) X(sqrt) X(tan) X(tanh) X(tgamma) \
 X(nextdown) X(nextup) X(ceil) X(fabs) X(floor) X(round) X(roundeven) X(trunc)
#define D2_LIST X(atan2) X(fdim) X(fmax) X(fmin) X(fmod) X(hypot) X(pow) X(quantize) \
 X(remainder) X(fmaxmag) X(fminmag) X(copysign) X(nextafter)
#define I1_LIST X(fpclassify) X(isfinite) X(isinf) X(isnan) X(issignaling) X(finite) X(ilogb) \
 X(llogb) X(llquantexp) X(lrint) X(lround) X(llrint) X(llround) X(isnormal)
#define I2_LIST X(samequantum) X(isgreater) X(isgreaterequal) X(isless) X(islessequal) \
 X(islessgreater) X(isunordered)
#define X(f) DEFALL(M_D1, f)
D1_LIST
#undef X
#define X(f) DEFALL(M_D2, f)
D2_LIST
#undef X
#define X(f) DEFALL(M_I1, f)
I1_LIST
#undef X
#define X(f) DEFALL(M_I2, f)
I2_LIST
#undef X
DEFALL(M_D3, fma)
DEFALL(M_DI, ldexp) DEFALL(M_DI, scalbn) DEFALL(M_DI, scalbln)
DEFALL(M_FREXP, frexp) DEFALL(M_MODF, modf) DEFALL(M_NT, nexttoward)
DEFALL(M_OP, add, +) DEFALL(M_OP, sub, -) DEFALL(M_OP, mul, *) DEFALL(M_OP, div, /)
DEFALL(M_CMP, eq, ==) DEFALL(M_CMP, ne, !=) DEFALL(M_CMP, lt, <) DEFALL(M_CMP, le, <=)
DEFALL(M_CMP, gt, >) DEFALL(M_CMP, ge, >=)
DEFALL(M_CVD, tod32, 32) DEFALL(M_CVD, tod64, 64) DEFALL(M_CVD, tod128, 128)
DEFALL(M_TOI, toi32, int) DEFALL(M_TOI, tou32, unsigned int)
DEFALL(M_TOI, toi64, long) DEFALL(M_TOI, tou64, unsigned long)
DEFALL(M_TOI, toi128, __int128) DEFALL(M_TOI, tou128, u128)
DEFALL(M_FRI, fri32, int) DEFALL(M_FRI, fru32, unsigned int)
DEFALL(M_FRI, fri64, long) DEFALL(M_FRI, fru64, unsigned long)
DEFALL(M_FRI, fri128, __int128) DEFALL(M_FRI, fru128, u128)
DEFALL(M_MAC, signbit, __signbit)
DEFALL(M_NAN, nan) DEFALL(M_NEG, neg)

#define ROW(f) { #f, { x_##f##_32, x_##f##_64, x_##f##_128 } },
#define X(f) ROW(f)
const shim_op shim_ops[] = {
 D1_LIST D2_LIST I1_LIST I2_LIST
 X(fma) X(ldexp) X(scalbn) X(scalbln) X(frexp) X(modf) X(nexttoward)
 X(add) X(sub) X(mul) X(div) X(eq) X(ne) X(lt) X(le) X(gt) X(ge)
 X(tod32) X(tod64) X(tod128) X(toi32) X(tou32) X(toi64) X(tou64) X(toi128) X(tou128)
 X(fri32) X(fru32) X(fri64) X(fru64) X(fri128) X(fru128) X(signbit) X(nan) X(neg)
};
#undef X
const int shim_nops = sizeof shim_ops / sizeof *shim_ops;

void shim_call (shim_fn fn, int mode, const u128 *in, long long iarg, shim_out *o)
{
  memset (o, 0, sizeof *o);
  /* mode: decimal direction + 8 * index of the binary direction + 64 if every
     exception flag is already raised before the call.  */
  static const int bm[4] = { FE_TONEAREST, FE_DOWNWARD, FE_UPWARD, FE_TOWARDZERO };
  int b = (mode >> 3) & 3;
  fe_dec_setround (mode & 7);
  if (mode & 64) feraiseexcept (FE_ALL_EXCEPT); else feclearexcept (FE_ALL_EXCEPT);
  errno = 0;
  if (b) fesetround (bm[b]);
  fn (in, iarg, o);
  o->err = errno;
  o->flags = fetestexcept (FE_ALL_EXCEPT);
  o->mode = fe_dec_getround ();
  o->envflags = fegetround () != bm[b];
  if (b) fesetround (FE_TONEAREST);
}

int shim_strfrom (int fmt, char *buf, size_t n, const char *format, u128 v)
{
  switch (fmt)
    {
    case 0: { GET(32,a,&v); return strfromd32 (buf, n, format, a); }
    case 1: { GET(64,a,&v); return strfromd64 (buf, n, format, a); }
    default: { GET(128,a,&v); return strfromd128 (buf, n, format, a); }
    }
}
void shim_strto (int fmt, const char *s, long *endoff, shim_out *o)
{
  char *e = (char *)-1;
  memset (o, 0, sizeof *o);
  feclearexcept (FE_ALL_EXCEPT);
  errno = 0;
  switch (fmt)
    {
    case 0: { volatile T32 r = strtod32 (s, endoff ? &e : NULL); o->err = errno; PUT (o->d, r); break; }
    case 1: { volatile T64 r = strtod64 (s, endoff ? &e : NULL); o->err = errno; PUT (o->d, r); break; }
    default: { volatile T128 r = strtod128 (s, endoff ? &e : NULL); o->err = errno; PUT (o->d, r); break; }
    }
  o->flags = fetestexcept (FE_ALL_EXCEPT);
  o->mode = fe_dec_getround ();
  if (endoff) *endoff = e - s;
}
void shim_wcsto (int fmt, const wchar_t *s, long *endoff, shim_out *o)
{
  wchar_t *e = NULL;
  memset (o, 0, sizeof *o);
  feclearexcept (FE_ALL_EXCEPT);
  errno = 0;
  switch (fmt)
    {
    case 0: { volatile T32 r = wcstod32 (s, endoff ? &e : NULL); o->err = errno; PUT (o->d, r); break; }
    case 1: { volatile T64 r = wcstod64 (s, endoff ? &e : NULL); o->err = errno; PUT (o->d, r); break; }
    default: { volatile T128 r = wcstod128 (s, endoff ? &e : NULL); o->err = errno; PUT (o->d, r); break; }
    }
  o->flags = fetestexcept (FE_ALL_EXCEPT);
  o->mode = fe_dec_getround ();
  if (endoff) *endoff = e - s;
}
int shim_snprintf (int fmt, char *buf, size_t n, const char *format, int nstar, int a, int b, u128 v)
{
#define SP(N) { GET(N,x,&v); T##N y = x; \
   return nstar == 0 ? snprintf (buf, n, format, y) : nstar == 1 ? snprintf (buf, n, format, a, y) \
     : snprintf (buf, n, format, a, b, y); }
  switch (fmt) { case 0: SP(32) case 1: SP(64) default: SP(128) }
}
extern char *decoded32 (_Decimal32, char *);
extern char *decoded64 (_Decimal64, char *);
extern char *decoded128 (_Decimal128, char *);
char *shim_decoded (int fmt, u128 v, char *buf)
{
  switch (fmt)
    {
    case 0: { GET(32,a,&v); return decoded32 (a, buf); }
    case 1: { GET(64,a,&v); return decoded64 (a, buf); }
    default: { GET(128,a,&v); return decoded128 (a, buf); }
    }
}
int shim_setround (int m) { return fe_dec_setround (m); }
int shim_getround (void) { return fe_dec_getround (); }
const char *shim_origin (const char *sym)
{
  void *p = dlsym (RTLD_DEFAULT, sym);
  Dl_info di;
  if (!p || !dladdr (p, &di)) return "";
  return di.dli_fname;
}
#include <wchar.h>
int shim_swprintf (int fmt, wchar_t *buf, size_t n, const wchar_t *format, u128 v)
{
#define SWP(N) { GET(N,x,&v); T##N y = x; return swprintf (buf, n, format, y); }
  switch (fmt) { case 0: SWP(32) case 1: SWP(64) default: SWP(128) }
}
