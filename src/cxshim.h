#ifndef CXSHIM_H
#define CXSHIM_H
#ifdef __cplusplus
extern "C" {
#endif
struct cx_fmt { int fixed, sci, up, adj, prec, width; char fill; };
struct cx_res { unsigned __int128 d; int st, c; char rest[64]; };
long cx_put (int, const struct cx_fmt *, int, const unsigned __int128 *, const char *, char *, long, int *);
int cx_get (int, const char *, const char *, struct cx_res *);
void cx_bits (int *, int *, int *);
#ifdef __cplusplus
}
#endif
#endif
