// Reference model of decimal floating-point data and arithmetic, written from
// IEEE 754-2008 / TS 18661-2, independent of libdfp.  Values are exact
// sign * coefficient * 10^exponent with big-integer coefficients; every
// operation is computed exactly and rounded once, by `finish`.
#ifndef REF_HPP
#define REF_HPP
#include <boost/multiprecision/cpp_int.hpp>
#include <vector>
#include <string>
#include <cfenv>
#include <cstdint>
#include <cstring>
#include <algorithm>
#include "shim.h"
namespace ref {
namespace mp = boost::multiprecision;
typedef mp::number<mp::cpp_int_backend<1536, 1536, mp::unsigned_magnitude, mp::unchecked, void>, mp::et_off> U;

struct Fmt { int bits, p, qmin, qmax; };        // quantum exponent range
static const Fmt FM[3] = { {32,7,-101,90}, {64,16,-398,369}, {128,34,-6176,6111} };
inline int emax(const Fmt&f){ return f.qmax+f.p-1; }       // exponent of d.ddd
inline int emin(const Fmt&f){ return f.qmin+f.p-1; }

enum Mode { RNE=0, RTZ=1, RUP=2, RDN=3, RNA=4 };
enum Kind { KFIN, KINF, KQN, KSN };
enum { XX=FE_INEXACT, XU=FE_UNDERFLOW, XO=FE_OVERFLOW, XZ=FE_DIVBYZERO, XV=FE_INVALID };

inline const U& p10(unsigned k){
  static std::vector<U> t = []{ std::vector<U> v(420); v[0]=1; for(size_t i=1;i<v.size();i++) v[i]=v[i-1]*10; return v; }();
  if (k>=t.size()) { fprintf(stderr,"p10 range %u\n",k); abort(); }
  return t[k];
}
inline unsigned ndig(const U&c){                 // 0 for zero
  if (c==0) return 0;
  unsigned b = mp::msb(c);
  unsigned d = (unsigned)((unsigned long long)b*30103ull/100000ull);
  while (c >= p10(d)) d++;
  while (d>0 && c < p10(d-1)) d--;
  return d;
}
inline u128 tou128(const U&c){ U lo = c & U(0xffffffffffffffffULL); U hi = (c>>64) & U(0xffffffffffffffffULL);
  return ((u128)hi.convert_to<uint64_t>()<<64)|lo.convert_to<uint64_t>(); }
inline U fromu128(u128 v){ U r = (uint64_t)(v>>64); r <<= 64; r |= U((uint64_t)v); return r; }

struct D {
  Kind k=KFIN; bool s=false; U c=0; int e=0;
  bool fin()const{return k==KFIN;} bool nan()const{return k==KQN||k==KSN;} bool zero()const{return k==KFIN&&c==0;} bool inf()const{return k==KINF;}
};
inline D mkfin(bool s,const U&c,int e){ D d; d.s=s; d.c=c; d.e=e; return d; }
inline D mkinf(bool s){ D d; d.k=KINF; d.s=s; return d; }
inline D mknan(){ D d; d.k=KQN; return d; }

// ---- BID interchange encoding -------------------------------------------
inline D dec(int fi,u128 v){
  D d; const Fmt&f=FM[fi]; int B=f.bits;
  if (B<128) v &= (((u128)1)<<B)-1;
  d.s = (v>>(B-1))&1;
  int top5 = (int)(v>>(B-6))&31;
  if (top5==30) { d.k=KINF; return d; }
  if (top5==31) { d.k = ((v>>(B-7))&1) ? KSN : KQN; return d; }
  int ew = fi==0?8: fi==1?10:14;
  u128 m; int be;
  if (((v>>(B-3))&3)==3) {
    int sh = B-1-2-ew;
    be = (int)(v>>sh) & ((1<<ew)-1);
    m = (v & ((((u128)1)<<sh)-1)) | (((u128)4)<<sh);
  } else {
    int sh = B-1-ew;
    be = (int)(v>>sh) & ((1<<ew)-1);
    m = v & ((((u128)1)<<sh)-1);
  }
  static const u128 lim[3] = { 10000000u, 10000000000000000ull, (u128)10000000000000000ull*1000000000000000000ull };
  if (m>=lim[fi]) m=0;           // non-canonical coefficient denotes zero
  d.c = fromu128(m); d.e = be + f.qmin;
  return d;
}
inline u128 enc(int fi,const D&d){
  const Fmt&f=FM[fi]; int B=f.bits; u128 s = ((u128)(d.s?1:0))<<(B-1);
  if (d.k==KINF) return s | (((u128)30)<<(B-6));
  if (d.k==KQN) return s | (((u128)31)<<(B-6));
  if (d.k==KSN) return s | (((u128)63)<<(B-7));
  int ew = fi==0?8: fi==1?10:14;
  u128 m=tou128(d.c), be=(u128)(d.e-f.qmin);
  int sh=B-1-ew;
  if (m < ((u128)1<<sh)) return s | (be<<sh) | m;
  sh-=2;
  return s | (((u128)3)<<(B-3)) | (be<<sh) | (m & ((((u128)1)<<sh)-1));
}
inline bool canonical(int fi,u128 v){
  D d=dec(fi,v); int B=FM[fi].bits; if(B<128) v &= (((u128)1)<<B)-1;
  if (d.k==KFIN) return enc(fi,d)==v;
  if (d.k==KINF) return enc(fi,d)==v;
  // NaN: payload < 10^(p-1) and reserved bits zero
  int pw = fi==0?20:fi==1?50:110;
  u128 pl = v & ((((u128)1)<<pw)-1); u128 rest = v ^ pl;
  D z=d; if (enc(fi,z)!=rest) return false;
  static const u128 lim[3]={1000000u,1000000000000000ull,(u128)1000000000000000ull*1000000000000000000ull};
  return pl<lim[fi];
}
inline int kindshift(){return 0;}

inline bool sameval(const D&a,const D&b){       // identical datum: kind, sign, coefficient, exponent (NaN ~ NaN)
  if (a.nan()&&b.nan()) return true;
  if (a.k!=b.k||a.s!=b.s) return false;
  if (a.k==KFIN) return a.c==b.c && a.e==b.e;
  return true;
}

// ---- comparison of numeric values ----------------------------------------
// magnitude compare of finite values, exact
inline int cmpmag(const D&a,const D&b){
  if (a.c==0||b.c==0) return a.c==0 ? (b.c==0?0:-1) : 1;
  int la=(int)ndig(a.c)+a.e, lb=(int)ndig(b.c)+b.e;
  if (la!=lb) return la<lb?-1:1;
  U x=a.c,y=b.c;
  if (a.e>b.e) x*=p10(a.e-b.e); else if (b.e>a.e) y*=p10(b.e-a.e);
  return x<y?-1: x>y?1:0;
}
inline int cmpnum(const D&a,const D&b){          // neither NaN
  auto key=[](const D&d){ return d.zero()?0:(d.s?-1:1); };
  int ka=key(a),kb=key(b);
  if (ka!=kb) return ka<kb?-1:1;
  if (ka==0) return 0;
  int m;
  if (a.inf()||b.inf()) m = a.inf()? (b.inf()?0:1) : -1; else m=cmpmag(a,b);
  return ka<0?-m:m;
}
inline bool eqnum(const D&a,const D&b){ return !a.nan()&&!b.nan()&&cmpnum(a,b)==0; }

// ---- rounding --------------------------------------------------------------
// Round c (plus sticky below) dropping k digits; returns quotient, sets inexact
inline U droprnd(bool s,const U&c,unsigned k,bool sticky,int mode,bool&inexact){
  U q=c,r=0; 
  int half;  // compare remainder with half: -1,0,1
  if (k==0) { half = sticky?-1: -2; r=0; }
  else if (k > ndig(c)+1) { q=0; r=c; half=(c==0&&!sticky)?-2:-1; }
  else {
    mp::divide_qr(c,p10(k),q,r);
    U h = p10(k)/2;
    if (r==0&&!sticky) half=-2;
    else if (r<h) half=-1; else if (r>h) half=1; else half = sticky?1:0;
  }
  inexact = half!=-2;
  bool up=false;
  if (inexact) switch(mode){
    case RNE: up = half>0 || (half==0 && (q & 1)!=0); break;
    case RNA: up = half>=0; break;
    case RUP: up = !s; break;
    case RDN: up = s; break;
    default: up=false;
  }
  if (up) q+=1;
  return q;
}
// Exact value s*(c+sticky)*10^e -> format, preferred exponent pref
inline D finish(int fi,bool s,U c,int e,bool sticky,int mode,int pref,int&flags){
  const Fmt&f=FM[fi]; flags=0;
  if (c==0&&!sticky) { D d=mkfin(s,0,std::min(std::max(pref,f.qmin),f.qmax)); return d; }
  int nd=ndig(c);
  if (!sticky) {
    // exact candidate: move toward pref
    // strip or pad toward preferred exponent
    int target=std::min(std::max(pref,f.qmin),f.qmax);
    if (e<target) { U q,r; while (e<target && c!=0) { mp::divide_qr(c,p10(1),q,r); if (r!=0) break; c=q; e++; } nd=ndig(c); }
    if (e>target) { int room=f.p-nd; int k=std::min(room,e-target); if (k>0) { c*=p10(k); e-=k; nd+=k; } }
    if (e>f.qmax) { int k=e-f.qmax; if (nd+k<=f.p) { c*=p10(k); e-=k; nd+=k; } }
    if (nd<=f.p && e>=f.qmin && e<=f.qmax) return mkfin(s,c,e);
  }
  // inexact or too long
  int k = std::max(0, nd-f.p);
  if (e+k<f.qmin) k=f.qmin-e;
  bool ix; 
  bool tiny = (nd+e-1) < emin(f);                 // tininess before rounding
  if (sticky && k==0 && nd<f.p) {                 // need more digits than given: caller error
    // the model always supplies enough digits
    fprintf(stderr,"finish: short sticky operand\n"); abort();
  }
  U q=droprnd(s,c,k,sticky,mode,ix); int ee=e+k;
  if (ndig(q)>(unsigned)f.p) { q/=10; ee++; }
  if (!ix) {                                        // trailing zeros made it exact
    int f2; return finish(fi,s,q,ee,false,mode,pref,f2);
  }
  flags|=XX; if (tiny) flags|=XU;
  if (ee>f.qmax) {
    // overflow
    flags=XX|XO;
    bool toinf = mode==RNE||mode==RNA||(mode==RUP&&!s)||(mode==RDN&&s);
    if (toinf) return mkinf(s);
    return mkfin(s,p10(f.p)-1,f.qmax);
  }
  return mkfin(s,q,ee);
}
inline D finish_checked(int fi,bool s,U c,int e,bool sticky,int mode,int pref,int&flags){
  const Fmt&f=FM[fi];
  // exact overflow (huge exponent but few digits) also overflows
  if (c!=0 && !sticky) {
    int nd=ndig(c);
    if (nd+e-1 > emax(f)) {
      flags=XX|XO;
      bool toinf = mode==RNE||mode==RNA||(mode==RUP&&!s)||(mode==RDN&&s);
      if (toinf) return mkinf(s);
      return mkfin(s,p10(f.p)-1,f.qmax);
    }
  }
  return finish(fi,s,c,e,sticky,mode,pref,flags);
}

struct R { D d; int flags=0; };                    // expected result and exceptions
inline R nanop(std::initializer_list<const D*> l){ R r; r.d=mknan(); for(auto p:l) if (p->k==KSN) r.flags=XV; return r; }
inline R invalid(){ R r; r.d=mknan(); r.flags=XV; return r; }
inline bool anynan(const D&a,const D&b){return a.nan()||b.nan();}

// exact sum of two finite values, with far-apart operands collapsed to sticky
inline R addx(int fi,const D&a,const D&b,int mode,int prefmin){
  R r; const Fmt&f=FM[fi];
  if (a.c==0&&b.c==0) { bool s = a.s==b.s ? a.s : mode==RDN; r.d=mkfin(s,0,std::min(std::max(prefmin,f.qmin),f.qmax)); return r; }
  if (a.c==0||b.c==0) { const D&x=a.c==0?b:a; r.d=finish_checked(fi,x.s,x.c,x.e,false,mode,prefmin,r.flags); return r; }
  const D*x=&a,*y=&b;                              // x has the larger leading position
  int lx=(int)ndig(x->c)+x->e, ly=(int)ndig(y->c)+y->e;
  if (lx<ly) { std::swap(x,y); std::swap(lx,ly); }
  int floor_e = lx - (2*f.p+8) ;                   // digits below this position act as sticky only
  if (x->e < floor_e) floor_e = x->e;
  if (f.qmin-4 < floor_e && false) floor_e=f.qmin-4;
  U cx=x->c, cy=y->c; int e; bool sticky=false;
  if (ly < floor_e-1) {                             // y is far below: epsilon
    e=floor_e-2; cx*=p10(x->e-e);
    if (x->s==y->s) sticky=true; else { cx-=1; sticky=true; }
    r.d=finish_checked(fi,x->s,cx,e,sticky,mode,prefmin,r.flags); return r;
  }
  e=std::min(x->e,y->e); cx*=p10(x->e-e); cy*=p10(y->e-e);
  bool s; U c;
  if (x->s==y->s) { s=x->s; c=cx+cy; }
  else if (cx==cy) { r.d=mkfin(mode==RDN,0,std::min(std::max(prefmin,f.qmin),f.qmax)); return r; }
  else if (cx>cy) { s=x->s; c=cx-cy; } else { s=y->s; c=cy-cx; }
  r.d=finish_checked(fi,s,c,e,false,mode,prefmin,r.flags); return r;
}
inline R add(int fi,const D&a,const D&b,int mode){
  if (anynan(a,b)) return nanop({&a,&b});
  if (a.inf()||b.inf()) { if (a.inf()&&b.inf()&&a.s!=b.s) return invalid(); R r; r.d=mkinf(a.inf()?a.s:b.s); return r; }
  return addx(fi,a,b,mode,std::min(a.e,b.e));
}
inline R sub(int fi,const D&a,D b,int mode){ if(!b.nan()) b.s=!b.s; return add(fi,a,b,mode); }
inline R mul(int fi,const D&a,const D&b,int mode){
  if (anynan(a,b)) return nanop({&a,&b});
  bool s=a.s!=b.s;
  if (a.inf()||b.inf()) { if (a.zero()||b.zero()) return invalid(); R r; r.d=mkinf(s); return r; }
  R r; r.d=finish_checked(fi,s,a.c*b.c,a.e+b.e,false,mode,a.e+b.e,r.flags); return r;
}
inline R fma(int fi,const D&a,const D&b,const D&c,int mode){
  if (a.nan()||b.nan()||c.nan()) { 
    return nanop({&a,&b,&c}); }
  bool s=a.s!=b.s;
  if (a.inf()||b.inf()) { if (a.zero()||b.zero()) return invalid(); if (c.inf()&&c.s!=s) return invalid(); R r; r.d=mkinf(s); return r; }
  if (c.inf()) { R r; r.d=mkinf(c.s); return r; }
  D x=mkfin(s,a.c*b.c,a.e+b.e);
  return addx(fi,x,c,mode,std::min(x.e,c.e));
}
inline R div(int fi,const D&a,const D&b,int mode){
  if (anynan(a,b)) return nanop({&a,&b});
  bool s=a.s!=b.s; R r;
  if (a.inf()) { if (b.inf()) return invalid(); r.d=mkinf(s); return r; }
  if (b.inf()) { r.d=mkfin(s,0,FM[fi].qmin); return r; }
  if (b.c==0) { if (a.c==0) return invalid(); r.d=mkinf(s); r.flags=XZ; return r; }
  if (a.c==0) { r.d=finish(fi,s,0,a.e-b.e,false,mode,a.e-b.e,r.flags); return r; }
  unsigned k=FM[fi].p+3+std::max(0,(int)ndig(b.c)-(int)ndig(a.c));
  U q,rem; mp::divide_qr(U(a.c*p10(k)),b.c,q,rem);
  r.d=finish_checked(fi,s,q,a.e-b.e-(int)k,rem!=0,mode,a.e-b.e,r.flags); return r;
}
inline R sqrt(int fi,const D&a,int mode){
  if (a.nan()) return nanop({&a});
  R r;
  if (a.zero()) { int h=a.e>=0? a.e/2 : -((-a.e+1)/2); r.d=mkfin(a.s,0,h); return r; }
  if (a.s) return invalid();
  if (a.inf()) { r.d=mkinf(false); return r; }
  int pref = a.e>=0? a.e/2 : -((-a.e+1)/2);
  U c=a.c; int e=a.e; if (e&1) { c*=10; e--; }
  unsigned k=FM[fi].p+3; c*=p10(2*k); e-=2*(int)k;
  U rem; U q=mp::sqrt(c,rem);
  r.d=finish_checked(fi,false,q,e/2,rem!=0,mode,pref,r.flags); return r;
}
// round to integral: rounding of value to exponent max(e,0)
inline R toint(int fi,const D&a,int mode,bool signal_inexact){
  if (a.nan()) return nanop({&a});
  R r; if (a.inf()||a.e>=0) { r.d=a; return r; }
  bool ix; U q=droprnd(a.s,a.c,-a.e,false,mode,ix);
  r.d=mkfin(a.s,q,0); if (ix&&signal_inexact) r.flags=XX; return r;
}
inline R quantize(int fi,const D&a,const D&b,int mode){
  if (anynan(a,b)) return nanop({&a,&b});
  if (a.inf()!=b.inf()) return invalid();
  R r; if (a.inf()) { r.d=a; return r; }
  if (a.c==0) { r.d=mkfin(a.s,0,b.e); return r; }
  if (a.e>=b.e) { if ((int)ndig(a.c)+a.e-b.e>FM[fi].p) return invalid(); r.d=mkfin(a.s,a.c*p10(a.e-b.e),b.e); return r; }
  bool ix; U q=droprnd(a.s,a.c,b.e-a.e,false,mode,ix);
  if ((int)ndig(q)>FM[fi].p) return invalid();
  r.d=mkfin(a.s,q,b.e); if(ix) r.flags=XX; return r;
}
// width conversion
inline R conv(int from,int to,const D&a,int mode){
  R r; if (a.nan()) return nanop({&a}); if (a.inf()) { r.d=a; return r; }
  r.d=finish_checked(to,a.s,a.c,a.e,false,mode,a.e,r.flags); (void)from; return r;
}
// integer value in mode; returns false if out of [lo,hi] (given as magnitudes for negative / positive)
inline bool tointeger(const D&a,int mode,const U&negmax,const U&posmax,u128&out,bool&inexact){
  inexact=false;
  if (a.k!=KFIN) return false;
  U q;
  if (a.e>=0) { if (a.c!=0 && ndig(a.c)+a.e>60) return false; q=a.c==0?U(0):U(a.c*p10(a.e)); }
  else q=droprnd(a.s,a.c,-a.e,false,mode,inexact);
  if (a.s? q>negmax : q>posmax) return false;
  u128 m=tou128(q); out = a.s? (u128)0-m : m; return true;
}
inline R fromint(int fi,u128 v,bool sgn,int mode){
  bool s=sgn && (v>>127); u128 m=s?(u128)0-v:v; R r;
  r.d=finish_checked(fi,s,fromu128(m),0,false,mode,0,r.flags); return r;
}
// next representable value above
inline D nextup(int fi,const D&a){
  const Fmt&f=FM[fi]; U top=p10(f.p)-1;
  if (a.nan()) return mknan();
  if (a.inf()) return a.s? mkfin(true,top,f.qmax) : a;
  if (a.c==0) return mkfin(false,1,f.qmin);
  // scale to maximal digits
  U c=a.c; int e=a.e; int k=std::min(f.p-(int)ndig(c), e-f.qmin); c*=p10(k); e-=k;
  if (!a.s) { c+=1; if (ndig(c)>(unsigned)f.p) { if (e==f.qmax) return mkinf(false); c/=10; e++; } return mkfin(false,c,e); }
  if (c==p10(f.p-1) && e>f.qmin) { return mkfin(true,top,e-1); }
  c-=1; return mkfin(true,c,e);
}
inline D neg(D a){ a.s=!a.s; return a; }
inline D nextdown(int fi,const D&a){ if(a.nan()) return mknan(); return neg(nextup(fi,neg(a))); }
// x - n*y exactly, n = trunc(x/y) (fmod) or nearest even (remainder).
inline R rem(int fi,const D&a,const D&b,bool nearest){
  if (anynan(a,b)) return nanop({&a,&b});
  if (a.inf()||b.zero()) return invalid();
  R r; if (b.inf()) { r.d=a; return r; }
  int pe=std::min(a.e,b.e);
  if (a.c==0) { r.d=finish(fi,a.s,0,pe,false,RNE,pe,r.flags); return r; }
  // modular exponentiation when a.e>b.e
  U rr; bool odd;
  if (a.e>=b.e) {
    U m=b.c*2;                                     // mod 2*|b| to learn quotient parity
    U base=10, acc=1; unsigned n=a.e-b.e; base%=m; acc%=m;
    while(n){ if(n&1) acc=acc*base%m; base=base*base%m; n>>=1; }
    U x=(a.c%m)*acc%m; odd = x>=b.c; rr = odd? x-b.c : x;
    int e=b.e; bool s=a.s;
    if (nearest) { U t=rr*2; if (t>b.c||(t==b.c&&odd)) { rr=b.c-rr; s=!s; } }
    if (rr==0) s=a.s;
    r.d=finish_checked(fi,s,rr,e,false,RNE,pe,r.flags); return r;
  }
  // a.e < b.e
  int lb=(int)ndig(b.c)+b.e, la=(int)ndig(a.c)+a.e;
  if (la<lb-1) { r.d=finish_checked(fi,a.s,a.c,a.e,false,RNE,pe,r.flags); return r; }
  U y=b.c*p10(b.e-a.e); U q; mp::divide_qr(a.c,y,q,rr); odd=(q&1)!=0; bool s=a.s;
  if (nearest) { U t=rr*2; if (t>y||(t==y&&odd)) { rr=y-rr; s=!s; } }
  if (rr==0) s=a.s;
  r.d=finish_checked(fi,s,rr,a.e,false,RNE,pe,r.flags); return r;
}
inline D ldexp10(int fi,const D&a,long long n,int mode,int&flags){
  flags=0; if (a.nan()) { if(a.k==KSN) flags=XV; return mknan(); } if (a.inf()) return a;
  long long e=a.e+n; e=std::max(-20000ll,std::min(20000ll,e));
  if (a.c==0) return finish(fi,a.s,0,(int)e,false,mode,(int)e,flags);
  if (e < FM[fi].qmin-200) { // far underflow: tiny sticky
    U c=1; return finish_checked(fi,a.s,c,FM[fi].qmin-100,false,mode,FM[fi].qmin-100,flags); }
  if (e>FM[fi].qmax+200) e=FM[fi].qmax+200;
  return finish_checked(fi,a.s,a.c,(int)e,false,mode,(int)e,flags);
}
// ---- text -------------------------------------------------------------------
inline std::string str(const U&c){ return c.str(); }
inline std::string show(const D&d){
  std::string s = d.s?"-":"+";
  if (d.k==KINF) return s+"Inf"; if (d.k==KQN) return s+"NaN"; if (d.k==KSN) return s+"sNaN";
  return s+d.c.str()+"E"+std::to_string(d.e);
}
inline std::string hex(int fi,u128 v){ char b[64]; if(fi==0) snprintf(b,64,"%08x",(unsigned)v); else if(fi==1) snprintf(b,64,"%016llx",(unsigned long long)v);
  else snprintf(b,64,"%016llx%016llx",(unsigned long long)(v>>64),(unsigned long long)v); return b; }
}
#endif
