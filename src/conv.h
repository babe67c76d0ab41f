#ifndef CONV_H
#define CONV_H
#include "shim.h"
#ifdef __cplusplus
extern "C" {
#endif
typedef struct { u128 v; int flags, err, env; } cv_out;
/* binary types: 0 float, 1 double, 2 x87 long double (80 bits), 3 __float128 */
void cv_d2b (int fi, int b, int mode, int bmode, u128 in, cv_out *o);
void cv_b2d (int fi, int b, int mode, int bmode, u128 in, cv_out *o);
/* types: 0..2 decimal, 3 float, 4 double, 5 long double */
void cv_class (int type, u128 in, int *c);
void cv_fpc (int *c);
const char *cv_const (int i, int *fi, u128 *v);
#ifdef __cplusplus
}
#endif
#endif
