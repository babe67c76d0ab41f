/* printf calls with every sequence of three arguments of nine types, from
   registers or from the stack.  The format comes from the caller.  */
#include <stdio.h>
#include <fenv.h>
#include <stdlib.h>
#include <wchar.h>
#define A0 v32
#define A1 v64
#define A2 v128
#define A3 vi
#define A4 vl
#define A5 vd
#define A6 vld
#define A7 "str"
#define A8 'c'
#define C1(a,b,c) case a*81+b*9+c: return p ? snprintf (buf, n, f, 1, 2, 3, 1.5, 2.5, 3.5, 4.5, 5.5, 6.5, 7.5, 8.5, A##a, A##b, A##c) : snprintf (buf, n, f, A##a, A##b, A##c);
#define C2(a,b) C1(a,b,0) C1(a,b,1) C1(a,b,2) C1(a,b,3) C1(a,b,4) C1(a,b,5) C1(a,b,6) C1(a,b,7) C1(a,b,8)
#define C3(a) C2(a,0) C2(a,1) C2(a,2) C2(a,3) C2(a,4) C2(a,5) C2(a,6) C2(a,7) C2(a,8)
int shim_mixed (int seq, int p, char *buf, size_t n, const char *f)
{
  volatile _Decimal32 v32 = 1234.5DF;
  volatile _Decimal64 v64 = -0.0015625DD;
  volatile _Decimal128 v128 = 1234567890123456789012345678.901234DL;
  volatile int vi = -42;
  volatile long vl = 9000000000L;
  volatile double vd = 2.5;
  volatile long double vld = 0.125L;
  switch (seq) { C3(0) C3(1) C3(2) C3(3) C3(4) C3(5) C3(6) C3(7) C3(8) }
  return -9;
}
