// What each operation must do, in terms of the reference model.
#ifndef ORACLE_HPP
#define ORACLE_HPP
#include "explore.hpp"
#include <climits>
#include <cmath>
namespace xp {
using namespace ref;
inline int arity(const string&n){
  static const std::set<string> two={"atan2","fdim","fmax","fmin","fmod","hypot","pow","quantize","remainder","fmaxmag","fminmag","copysign","nextafter","nexttoward","samequantum","isgreater","isgreaterequal","isless","islessequal","islessgreater","isunordered","add","sub","mul","div","eq","ne","lt","le","gt","ge"};
  static const std::set<string> four={"ldexp","scalbn","scalbln"};
  if(n=="fma") return 3; if(two.count(n)) return 2; if(four.count(n)) return 4; return 1; }

// what a property asks for beyond values and signs
struct Opt { bool canon=true; /* results must be canonical */ int fmask=0; bool perop=false; bool quant=true, zquant=true, quiet=true; };
static Opt OPT;
// exceptions an operation reports exactly (others are not promised by libdfp)
inline int promised(const string&n,int fi){
  if(n=="add"||n=="sub"||n=="mul") return fi==2? XV|XZ|XO|XX|(n=="mul"?0:XU) : XV|XZ|XO;
  if(n=="div"||n=="tod32"||n=="tod64"||n=="tod128") return XV|XZ|XO;
  return XZ; }
enum { CK_QUANT=1, CK_FLAGS=2, CK_CANON=4, CK_ZSIGN=8, CK_ALL=15 };
inline bool cmpd(int fi,u128 got,const D&e,int ck,string&why){
  D g=dec(fi,got);
  auto bad=[&](const char*cls){ why=string(cls)+": got "+show(g)+" want "+show(e); return false; };
  if(e.nan()){ if(!g.nan()) return bad("value"); if(OPT.quiet&&g.k==KSN&&e.k!=KSN) return bad("signaling"); return true; }
  if(g.k!=e.k) return bad("value");
  if(e.k==KINF){ if(g.s!=e.s) return bad("value"); return true; }
  if(cmpnum(g,e)!=0) return bad("value");
  if(g.s!=e.s && (!e.zero()||(ck&CK_ZSIGN))) return bad("sign");
  if((ck&CK_QUANT)&&OPT.quant&&(OPT.zquant||!e.zero())&&g.e!=e.e) return bad("quantum");
  if((ck&CK_CANON)&&OPT.canon&&!canonical(fi,got)) return bad("noncanonical");
  return true; }
inline string fl(int f){ string s; if(f&XV)s+="V"; if(f&XZ)s+="Z"; if(f&XO)s+="O"; if(f&XU)s+="U"; if(f&XX)s+="X"; return s.empty()?"-":s; }
inline bool ckflags(int got,int want,string&why){ if(!OPT.fmask) return true; got&=OPT.fmask; want&=OPT.fmask; if(got==want) return true; why="flags: got "+fl(got)+" want "+fl(want); return false; }
inline bool cki(u128 got,__int128 want,string&why){ if((__int128)got==want) return true; why="int: got "+hx(got)+" want "+hx((u128)want); return false; }
inline bool isx(const string&n,std::initializer_list<const char*> l){ for(auto x:l) if(n==x) return true; return false; }
inline bool cmpres(const string&n,const D&a,const D&b,int&flags){ // relational
  flags=0; if(a.k==KSN||b.k==KSN) flags=XV;
  bool un=a.nan()||b.nan(); int c=un?2:cmpnum(a,b);
  if(n=="eq") return c==0; if(n=="ne") return c!=0;
  if(isx(n,{"lt","le","gt","ge"})&&un) flags=XV;
  if(n=="lt"||n=="isless") return c==-1; if(n=="le"||n=="islessequal") return c==-1||c==0; if(n=="gt"||n=="isgreater") return c==1; if(n=="ge"||n=="isgreaterequal") return c==1||c==0;
  if(n=="islessgreater") return c==1||c==-1; return un; }
inline U pw2(int k){ return U(1)<<k; }

inline bool oracle(const Case&c0,const shim_out&o,string&why){
  Case c=c0; c.mode&=7;
  if(OPT.perop) OPT.fmask=(c0.mode&64)?0:promised(shim_ops[c.op].name,c.fmt);
  static std::vector<string> names; if(names.empty()) for(int i=0;i<shim_nops;i++) names.push_back(shim_ops[i].name);
  const string&n=names[c.op]; int fi=c.fmt; const Fmt&f=FM[fi];
  if(o.mode!=c.mode){ why="mode: rounding mode changed to "+std::to_string(o.mode); return false; }
  if(o.envflags){ why="mode: binary rounding mode changed"; return false; }
  if((c0.mode&64)&&(o.flags&FE_ALL_EXCEPT)!=(FE_ALL_EXCEPT)){ why="flags: a raised flag was lost"; return false; }
  // an operation that returns an operand may return its non-canonical encoding
  static std::vector<char> keep; if(keep.empty()) for(auto&x:names) keep.push_back(!isx(x,{"add","sub","mul","div","fma","tod32","tod64","tod128","quantize"}));
  OPT.canon=true; if(keep[c.op]) for(int i=0;i<3;i++) if(!canonical(n=="nexttoward"&&i==1?2:fi,c.in[i])) OPT.canon=false;
  static std::vector<char> pass; if(pass.empty()) for(auto&x:names) pass.push_back(isx(x,{"nextup","nextdown","nextafter","nexttoward","quantum","modf","copysign","fabs","neg"}));
  OPT.quiet=!pass[c.op];
  D a=dec(fi,c.in[0]);
  auto R2=[&](const R&r,int ck=CK_ALL){ if(!cmpd(fi,o.d,r.d,ck,why)) return false; if((ck&CK_FLAGS)&&!ckflags(o.flags,r.flags,why)) return false; return true; };
  switch(arity(n)){
  case 3: { D b=dec(fi,c.in[1]),d=dec(fi,c.in[2]); R r=fma(fi,a,b,d,c.mode); return R2(r); }
  case 2: {
    D b=dec(n=="nexttoward"?2:fi,c.in[1]);
    if(n=="add") return R2(add(fi,a,b,c.mode)); if(n=="sub") return R2(sub(fi,a,b,c.mode));
    if(n=="mul") return R2(mul(fi,a,b,c.mode)); if(n=="div") return R2(div(fi,a,b,c.mode));
    if(isx(n,{"eq","ne","lt","le","gt","ge","isgreater","isgreaterequal","isless","islessequal","islessgreater","isunordered"})){ int w; bool e=cmpres(n,a,b,w); if((o.i!=0)!=e){why="int: got "+hx(o.i); return false;} return ckflags(o.flags,w,why); }
    if(n=="samequantum"){ bool e= a.nan()||b.nan()? a.nan()&&b.nan() : a.inf()||b.inf()? a.inf()&&b.inf() : a.e==b.e; if((o.i!=0)!=e){why="int: got "+hx(o.i);return false;} return ckflags(o.flags,0,why); }
    if(n=="quantize") return R2(quantize(fi,a,b,c.mode));
    if(n=="fmod") return R2(rem(fi,a,b,false),CK_CANON|CK_ZSIGN|CK_FLAGS); if(n=="remainder") return R2(rem(fi,a,b,true));
    if(n=="copysign"){ D e=a; e.s=b.s; D g=dec(fi,o.d); if(a.nan()){ if(!g.nan()||g.s!=e.s){why="value: nan";return false;} return ckflags(o.flags,0,why);} R r; r.d=e; return R2(r); }
    if(isx(n,{"fmax","fmin","fmaxmag","fminmag"})){
      R r; bool mag=n.size()>4, mx=n[2]=='a'; if(a.k==KSN||b.k==KSN){ r.d=mknan(); r.flags=XV; }
      else if(a.nan()&&b.nan()) r.d=mknan(); else if(a.nan()) r.d=b; else if(b.nan()) r.d=a;
      else { int k; if(mag){ D x=a,y=b; x.s=y.s=false; k=cmpnum(x,y); if(k==0) k=cmpnum(a,b);} else k=cmpnum(a,b);
        if(k==0){ // either operand acceptable (equal values)
          D g=dec(fi,o.d); if(!(sameval(g,a)||sameval(g,b))){ why="value: got "+show(g)+" want "+show(a)+" or "+show(b); return false;} return ckflags(o.flags,0,why); }
        r.d = (mx?k>0:k<0)?a:b; }
      return R2(r); }
    if(n=="fdim"){ R r; if(anynan(a,b)) r=nanop({&a,&b}); else if(cmpnum(a,b)<=0) r.d=mkfin(false,0,0); else r=sub(fi,a,b,c.mode); return R2(r,CK_CANON|CK_FLAGS|CK_ZSIGN); }
    if(n=="nextafter"||n=="nexttoward"){ R r; int k; if(anynan(a,b)) { r=nanop({&a,&b}); return R2(r); } k=cmpnum(a,b);
      if(k==0){ r.d=a; if(n=="nextafter") r.d=b; else { int fl2; r=conv(2,fi,b,0); r.flags=0; (void)fl2; } return R2(r,CK_CANON|CK_FLAGS|CK_ZSIGN); }
      r.d = k<0?nextup(fi,a):nextdown(fi,a); D g=r.d;
      if(g.zero()) r.d.s=a.s;
      if(g.inf()) r.flags=XO|XX; else if(g.zero()||(int)ndig(g.c)+g.e-1<emin(f)) r.flags=XU|XX; return R2(r); }
    if(n=="hypot"){ R r; if(a.inf()||b.inf()) r.d=mkinf(false); else if(anynan(a,b)) r.d=mknan(); else { // exact sum of squares, the smaller one reduced to a sticky tail when far below
      D x=a,y=b; x.s=y.s=false; if(cmpnum(x,y)<0) std::swap(x,y);
      if(y.c==0) r.d=finish(fi,false,x.c,x.e,false,0,x.e,r.flags);
      else { U X=x.c*x.c; int ex=2*x.e; int gx=(int)ndig(X)+ex, gy=2*(int)ndig(y.c)+2*y.e; U S; int e;
        if(gx-gy>300){ S=X*p10(240)+1; e=ex-240; } else { U Y=y.c*y.c; int ey=2*y.e; e=std::min(ex,ey); S=X*p10(ex-e)+Y*p10(ey-e); }
        D t=mkfin(false,S,e); r=ref::sqrt(fi,t,0); } }
      return R2(r,CK_CANON|CK_ZSIGN); }
    return true; }
  case 4: { int w; D e=ldexp10(fi,a,std::max(-200000LL,std::min(200000LL,c.iarg)),c.mode,w); R r; r.d=e; r.flags=w; return R2(r); }
  default: {
    if(n=="sqrt") return R2(ref::sqrt(fi,a,c.mode));
    if(n=="nan"){ D g=dec(fi,o.d); if(g.k!=KQN||g.s||o.err||o.flags){ why="value: want a quiet NaN"; return false; } return true; }
    if(n=="neg"){ D g=dec(fi,o.d); if(a.nan()) return g.nan(); R r; r.d=neg(a); return R2(r,CK_ZSIGN|CK_QUANT|CK_FLAGS);} 
    if(n=="fabs"){ D g=dec(fi,o.d); if(a.nan()){ if(g.nan()&&!g.s) return ckflags(o.flags,0,why); why="value: nan"; return false;} R r; r.d=a; r.d.s=false; return R2(r); }
    if(n=="ceil") return R2(toint(fi,a,RUP,false)); if(n=="floor") return R2(toint(fi,a,RDN,false)); if(n=="trunc") return R2(toint(fi,a,RTZ,false));
    if(n=="round") return R2(toint(fi,a,RNA,false)); if(n=="roundeven") return R2(toint(fi,a,RNE,false)); if(n=="nearbyint") return R2(toint(fi,a,c.mode,false)); if(n=="rint") return R2(toint(fi,a,c.mode,true));
    if(n=="nextup"||n=="nextdown"){ R r; if(a.nan()) r=nanop({&a}); else r.d=n=="nextup"?nextup(fi,a):nextdown(fi,a); if(r.d.zero()) r.d.s = n=="nextup"; return R2(r); }
    if(n=="quantum"){ R r; if(a.nan()) r.d=mknan(); else if(a.inf()) r.d=mkinf(false); else r.d=mkfin(false,1,a.e); return R2(r); }
    if(n=="tod32"||n=="tod64"||n=="tod128"){ int to=n=="tod32"?0:n=="tod64"?1:2; R r=conv(fi,to,a,c.mode); if(to==fi) { r.d=a; r.flags=0; if(a.nan()) return dec(fi,o.d).nan(); return cmpd(to,o.d,r.d,CK_QUANT|CK_ZSIGN,why); } if(!cmpd(to,o.d,r.d,CK_ALL,why)) return false; return ckflags(o.flags,r.flags,why); }
    if(n.substr(0,3)=="toi"||n.substr(0,3)=="tou"){ bool sg=n[2]=='i'; int bits=atoi(n.c_str()+3); U pos=sg?pw2(bits-1)-1:pw2(bits)-1, ng=sg?pw2(bits-1):U(0); u128 v; bool ix; if(!tointeger(a,RTZ,ng,pos,v,ix)){ return ckflags(o.flags,XV,why);} if(sg&&!cki(o.i,(__int128)v,why)) return false; if(!sg&&bits<128) { if(o.i!=v){why="int: got "+hx(o.i);return false;} } else if(o.i!=v){ why="int: got "+hx(o.i)+" want "+hx(v); return false;} return ckflags(o.flags,ix?XX:0,why); }
    if(isx(n,{"lrint","llrint","lround","llround"})){ int m=n.find("round")!=string::npos?(int)RNA:c.mode; u128 v; bool ix; if(!tointeger(a,m,pw2(63),pw2(63)-1,v,ix)) return ckflags(o.flags,XV,why); if(!cki(o.i,(__int128)v,why)) return false; return ckflags(o.flags,n.find("rint")!=string::npos&&ix?XX:0,why); }
    if(isx(n,{"fri32","fru32","fri64","fru64","fri128","fru128"})){ int bits=atoi(n.c_str()+3); u128 v=c.in[0]; bool sg=n[2]=='i'; if(bits<128){ v&=(((u128)1)<<bits)-1; if(sg&&(v>>(bits-1))) v|=~((((u128)1)<<bits)-1);} return R2(fromint(fi,v,sg,c.mode)); }
    if(n=="signbit"){ if((o.i!=0)!=a.s){why="int";return false;} return ckflags(o.flags,0,why);} 
    if(isx(n,{"fpclassify","isfinite","isinf","isnan","issignaling","finite","isnormal"})){ bool nz=a.fin()&&a.c!=0; bool sub=nz&&(int)ndig(a.c)+a.e-1<emin(f); int e;
      if(n=="fpclassify"){ e=a.nan()?FP_NAN:a.inf()?FP_INFINITE:!nz?FP_ZERO:sub?FP_SUBNORMAL:FP_NORMAL; if((int)o.i!=e){why="int: got "+hx(o.i);return false;} }
      else { bool b=n=="isfinite"||n=="finite"?a.fin():n=="isinf"?a.inf():n=="isnan"?a.nan():n=="issignaling"?a.k==KSN:nz&&!sub; if((o.i!=0)!=b){why="int: got "+hx(o.i);return false;} }
      return ckflags(o.flags,0,why); }
    if(n=="ilogb"||n=="llogb"){ __int128 e; int w=0; if(a.nan()){e=n=="ilogb"?FP_ILOGBNAN:FP_LLOGBNAN;w=XV;} else if(a.inf()){ __int128 g=(__int128)o.i; e=n=="ilogb"?(long)INT_MAX:LONG_MAX;w=XV; if(a.s&&(g==e||g==-e-1)) e=g; } else if(a.c==0){e=n=="ilogb"?(long)FP_ILOGB0:FP_LLOGB0;w=XV;} else e=(int)ndig(a.c)+a.e-1; if(!cki(o.i,e,why)) return false; return ckflags(o.flags,w,why); }
    if(n=="llquantexp"){ if(a.fin()) { if(!cki(o.i,a.e,why)) return false; return ckflags(o.flags,0,why);} if(!cki(o.i,LLONG_MIN,why)) return false; return ckflags(o.flags,XV,why);} 
    if(n=="logb"){ R r; if(a.nan()) r=nanop({&a}); else if(a.inf()) r.d=mkinf(false); else if(a.c==0){ r.d=mkinf(true); r.flags=XZ;} else { int e=(int)ndig(a.c)+a.e-1; r.d=mkfin(e<0,std::abs(e),0);} return R2(r,CK_CANON|CK_ZSIGN|CK_FLAGS); }
    if(n=="frexp"){ if(a.nan()) return R2(nanop({&a})); if(a.inf()){ R r; r.d=a; return R2(r);} if(a.c==0){ R r; r.d=a; if(!R2(r,CK_ZSIGN|CK_CANON|CK_FLAGS)) return false; return cki(o.i,0,why);} int nd=ndig(a.c); R r; r.d=mkfin(a.s,a.c,-nd); if(!R2(r,CK_ZSIGN|CK_CANON|CK_FLAGS)) return false; return cki(o.i,a.e+nd,why); }
    if(n=="modf"){ if(a.nan()){ R r=nanop({&a}); if(!R2(r)) return false; return cmpd(fi,o.d2,mknan(),0,why);} D ip,fp; if(a.inf()){ ip=a; fp=mkfin(a.s,0,0);} else { ip=toint(fi,a,RTZ,false).d; if(a.e>=0) fp=mkfin(a.s,0,0); else { U q,r; if((int)ndig(a.c)<=-a.e) {r=a.c; if((int)ndig(a.c)==-a.e){} } else mp::divide_qr(a.c,p10(-a.e),q,r); fp=mkfin(a.s,r,a.e);} }
      if(!cmpd(fi,o.d2,ip,CK_ZSIGN|CK_CANON,why)) {why+=" (ipart)";return false;} R r; r.d=fp; return R2(r,CK_ZSIGN|CK_CANON|CK_FLAGS); }
    return true; }
  } }
}
#endif
