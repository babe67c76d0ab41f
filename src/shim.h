/* Uniform, bit-level access to every entry point of libdfp that is under
   check.  The C side (shim.c) is compiled exactly as a user's program is.  */
#ifndef SHIM_H
#define SHIM_H
#include <stdint.h>
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef unsigned __int128 u128;
typedef struct {
  u128 d;        /* decimal result (low 32/64/128 bits) */
  u128 i;        /* integer result, sign extended to 128 bits */
  u128 d2;       /* second decimal result (modf) */
  int err;       /* errno afterwards (0 before) */
  int flags;     /* floating-point exception flags afterwards (none before) */
  int mode;      /* fe_dec_getround afterwards */
  int envflags;  /* non-decimal state that changed: fegetround */
} shim_out;
typedef void (*shim_fn) (const u128 *in, long long iarg, shim_out *o);
typedef struct {
  const char *name;
  shim_fn fn[3];       /* 32, 64, 128 */
} shim_op;
extern const shim_op shim_ops[];
extern const int shim_nops;
/* Run one op: set decimal rounding mode, clear flags and errno, call, observe. */
void shim_call (shim_fn fn, int mode, const u128 *in, long long iarg, shim_out *o);
/* text */
int shim_strfrom (int fmt, char *buf, size_t n, const char *format, u128 v);
void shim_strto (int fmt, const char *s, long *endoff, shim_out *o);
void shim_wcsto (int fmt, const wchar_t *s, long *endoff, shim_out *o);
int shim_snprintf (int fmt, char *buf, size_t n, const char *format, int nstar, int a, int b, u128 v);
char *shim_decoded (int fmt, u128 v, char *buf);
int shim_setround (int m);
int shim_getround (void);
const char *shim_origin (const char *sym);
#ifdef __cplusplus
}
#endif
#endif
