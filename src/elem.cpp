// Elementary and special functions against a 110-digit reference:
//   elem C21|C22|C23 --tier quick
#include "explore.hpp"
#include "alphabet.hpp"
#include <boost/multiprecision/cpp_bin_float.hpp>
#include <boost/math/special_functions/gamma.hpp>
#include <boost/math/special_functions/erf.hpp>
#include <boost/math/special_functions/expm1.hpp>
#include <boost/math/policies/policy.hpp>
using namespace xp; using namespace ref; namespace mp=boost::multiprecision;
typedef mp::number<mp::cpp_bin_float<110,mp::digit_base_10>,mp::et_off> F;
namespace bp=boost::math::policies;
typedef bp::policy<bp::overflow_error<bp::ignore_error>,bp::underflow_error<bp::ignore_error>,bp::pole_error<bp::ignore_error>,bp::domain_error<bp::ignore_error>,bp::evaluation_error<bp::ignore_error>> P;
static string PROP; static bool Q=true;
static vector<F> T10; // 10^0 .. 10^6400
static const F&p10f(int e){ return T10[e]; }
static F scale(const F&m,int e){ return e>=0?F(m*p10f(e)):F(m/p10f(-e)); }
static F toF(const D&d){ F r=scale(F(mp::cpp_int(d.c)),d.e); return d.s?F(-r):r; }
static bool isint(const D&d){ if(d.c==0||d.e>=0) return true; if(-d.e>=(int)ndig(d.c)) return false; return d.c%ref::p10(-d.e)==0; }
static bool isodd(const D&d){ if(d.c==0||d.e>0||!isint(d)) return false; auto q=d.c/ref::p10(-d.e); return (q&1)!=0; }

// ---- what must come out -----------------------------------------------------
struct Ref { enum K{NUM,ZERO,INF,NAN_,ANY} k=NUM; bool s=false; bool signfree=false; F v; double slack=0; int err=0; bool far=false; }; // v: the exact value, or far beyond the range
static Ref num(const F&v){ Ref r; r.v=v; return r; }
static Ref zero(bool s){ Ref r; r.k=Ref::ZERO; r.s=s; return r; }
static Ref inf(bool s,int err=0){ Ref r; r.k=Ref::INF; r.s=s; r.err=err; return r; }
static Ref nan_(int err=0){ Ref r; r.k=Ref::NAN_; r.err=err; return r; }
static const F BIG("1e6300"), SMALL("1e-6300");
static F ser(std::initializer_list<F> c,const F&x2,const F&x){ F r=0; for(auto i=std::rbegin(c);i!=std::rend(c);++i) r=r*x2+*i; return r*x; }
static F PI_; static F LN2;
static F fexp(const F&x){ if(x>30000) return BIG; if(x<-30000) return SMALL; return exp(x); }
static F atan_(const F&x){ return atan(x); }
static F lgamma_(const F&x){ if(x>=1e8) { F i=1/x,i2=i*i; return (x-F("0.5"))*log(x)-x+log(2*PI_)/2+i*(F(1)/12-i2*(F(1)/360-i2*(F(1)/1260-i2*(F(1)/1680-i2*F(5)/5940)))); } return boost::math::lgamma(x,P()); }
enum { EXP,EXP2,EXPM1,LOG,LOG2,LOG10,LOG1P,CBRT,POW, SIN,COS,TAN,ASIN,ACOS,ATAN,ATAN2,SINH,COSH,TANH,ASINH,ACOSH,ATANH, ERF,ERFC,LGAMMA,TGAMMA, NF };
static const char*FN[NF]={"exp","exp2","expm1","log","log2","log10","log1p","cbrt","pow","sin","cos","tan","asin","acos","atan","atan2","sinh","cosh","tanh","asinh","acosh","atanh","erf","erfc","lgamma","tgamma"};
static int OP[NF];
static Ref reference(int f,const D&a,const D&b){
  bool nan=a.nan(), i=a.inf(), z=a.fin()&&a.c==0, s=a.s; 
  if(f!=POW&&nan) return nan_();
  F x; if(a.fin()) x=toF(a); F ax=abs(x);
  switch(f){
  case EXP: if(i) return s?zero(0):inf(0); return num(fexp(x));
  case EXP2: if(i) return s?zero(0):inf(0); { if(x>40000) return num(BIG); if(x<-40000) return num(SMALL); if(isint(a)) return num(ldexp(F(1),x.convert_to<int>())); return num(exp(x*LN2)); }
  case EXPM1: if(i) return s?num(-1):inf(0); if(z) return zero(s); if(ax<F("1e-30")) return num(x+x*x/2+x*x*x/6+x*x*x*x/24+x*x*x*x*x/120); if(x>30000) return num(BIG); if(x<-30000) return num(-1+SMALL); return num(boost::math::expm1(x,P()));
  case LOG: case LOG2: case LOG10: if(z) return inf(1,ERANGE); if(s) return nan_(EDOM); if(i) return inf(0); if(x==1) return zero(0); { F r=log(x); if(f==LOG2) r/=LN2; if(f==LOG10) r/=log(F(10)); return num(r); }
  case LOG1P: if(z) return zero(s); if(i) return s?nan_(EDOM):inf(0); if(x==-1) return inf(1,ERANGE); if(x<-1) return nan_(EDOM); if(ax<F("1e-25")) return num(x-x*x/2+x*x*x/3-x*x*x*x/4+x*x*x*x*x/5); return num(log(1+x));
  case CBRT: if(i) return inf(s); if(z) return zero(s); { F y=exp(log(ax)/3); y=y-(y*y*y-ax)/(3*y*y); return num(s?F(-y):y); }
  case SIN: if(i) return nan_(EDOM); if(z) return zero(s); return num(ax<F("1e-25")?ser({1,F(-1)/6,F(1)/120},x*x,x):F(sin(x)));
  case COS: if(i) return nan_(EDOM); return num(ax<F("1e-25")?F(1-x*x/2):F(cos(x)));
  case TAN: if(i) return nan_(EDOM); if(z) return zero(s); return num(ax<F("1e-25")?ser({1,F(1)/3,F(2)/15},x*x,x):F(sin(x)/cos(x)));
  case ASIN: if(z) return zero(s); if(i||ax>1) return nan_(EDOM); return num(ax<F("1e-25")?ser({1,F(1)/6,F(3)/40},x*x,x): ax==1? F(s?-PI_/2:PI_/2): F(atan(x/sqrt((1-x)*(1+x)))));
  case ACOS: if(i||ax>1) return nan_(EDOM); if(x==1) return zero(0); if(x==-1) return num(PI_); if(z) return num(PI_/2); { F r=atan(sqrt((1-x)*(1+x))/x); if(x<0) r+=PI_; return num(r); }
  case ATAN: if(i) return num(s?F(-PI_/2):F(PI_/2)); if(z) return zero(s); return num(ax<F("1e-25")?ser({1,F(-1)/3,F(1)/5},x*x,x):atan_(x));
  case SINH: if(i) return inf(s); if(z) return zero(s); if(ax<F("1e-20")) return num(ser({1,F(1)/6,F(1)/120,F(1)/5040},x*x,x)); { F e=fexp(ax); F r=(e-1/e)/2; return num(s?F(-r):r); }
  case COSH: if(i) return inf(0); { F e=fexp(ax); return num((e+1/e)/2); }
  case TANH: if(i) return num(s?-1:1); if(z) return zero(s); if(ax<F("1e-20")) return num(ser({1,F(-1)/3,F(2)/15,F(-17)/315},x*x,x)); { F e=ax>200?F(1):F((exp(2*ax)-1)/(exp(2*ax)+1)); if(ax>200) e=1-F("1e-170"); return num(s?F(-e):e); }
  case ASINH: if(i) return inf(s); if(z) return zero(s); if(ax<F("1e-20")) return num(ser({1,F(-1)/6,F(3)/40,F(-15)/336},x*x,x)); { F r=log(ax+sqrt(ax*ax+1)); return num(s?F(-r):r); }
  case ACOSH: if(i) return s?nan_(EDOM):inf(0); if(x<1) return nan_(EDOM); if(x==1) return zero(0); return num(log(x+sqrt((x-1)*(x+1))));
  case ATANH: if(z) return zero(s); if(i||ax>1) return nan_(EDOM); if(ax==1) return inf(s,ERANGE); if(ax<F("1e-20")) return num(ser({1,F(1)/3,F(1)/5,F(1)/7},x*x,x)); { F r=log((1+ax)/(1-ax))/2; return num(s?F(-r):r); }
  case ERF: if(i) return num(s?-1:1); if(z) return zero(s); if(ax<F("1e-25")) return num(2/sqrt(PI_)*(x-x*x*x/3+x*x*x*x*x/10)); if(ax>16){ F r=1-F("1e-100"); return num(s?F(-r):r); } return num(boost::math::erf(x,P()));
  case ERFC: if(i) return s?num(2):zero(0); if(x<-16) return num(2-F("1e-100")); if(x>130) return num(SMALL); return num(boost::math::erfc(x,P()));
  case LGAMMA: if(i) return inf(0); if(z||(s&&isint(a))) return inf(0,ERANGE); if(x==1||x==2) return zero(0); if(s&&ax<F("1e-50")) return num(-log(ax)); if(!s&&ax<F("1e-50")) return num(-log(ax)); return num(lgamma_(x));
  case TGAMMA: if(z) return inf(s,ERANGE); if(i) return s?nan_(EDOM):inf(0); if(s&&isint(a)) return nan_(EDOM); if(x>3000) return num(BIG); if(ax<F("1e-50")) return num(1/x-F("0.57721566490153286060651209008240243104215933593992359880576723488486772677766467")); return num(boost::math::tgamma(x,P()));
  case ATAN2: { const D&y=a; const D&X=b; if(b.nan()) return nan_(); bool ys=y.s,xs=X.s; auto sg=[&](const F&v){ return num(ys?F(-v):v); }; bool yz=y.fin()&&y.c==0,xz=X.fin()&&X.c==0;
      if(yz) return xs?sg(PI_):zero(ys); if(xz) return sg(PI_/2); if(y.inf()) return X.inf()? sg(xs?F(3*PI_/4):F(PI_/4)):sg(PI_/2); if(X.inf()) return xs?sg(PI_):zero(ys);
      F q=abs(toF(y))/abs(toF(X)); F r; if(q<F("1e-30")) r=q-q*q*q/3+q*q*q*q*q/5; else if(q>F("1e40")) { F w=1/q; r=PI_/2-(w-w*w*w/3); } else r=atan(q); if(xs) r=PI_-r; return sg(r); }
  case POW: { bool bz=b.fin()&&b.c==0, bs=b.s, bi=b.inf(); bool one=a.fin()&&!s&&x==1; if(bz||one) return num(1); if(nan||b.nan()) return nan_(); bool bint=b.fin()&&isint(b), odd=b.fin()&&isodd(b);
      if(z) return bs? inf(odd&&s,bi?0:ERANGE):zero(odd&&s);
      if(i||bi){ if(bi&&a.fin()&&ax==1) return num(1); if(bi){ bool big=i||ax>1; return big!=bs?inf(0):zero(0); } return bs?zero(s&&odd):inf(s&&odd); }
      if(s&&!bint) return nan_(EDOM); F y=toF(b), L; if(ax==1) return num(s&&odd?-1:1); L=log(ax); F t=y*L; if(ax>F("0.9")&&ax<F("1.1")){ } F r=fexp(t); if(bint&&abs(y)<=64&&abs(t)<30000){ int n=abs(y).convert_to<int>(); F p=1; for(int k=0;k<n;k++) p*=ax; r=bs?F(1/p):p; } return num(s&&odd?F(-r):r); }
  }
  return nan_(); }
// allowed error in units in the last place
static double tol(int f,int fi,int m,const D&a){
  double t=1; 
  if(f==EXP&&fi==1) t=12; 
  if(f==ASIN||f==ACOS) if(fi==2) t=5; if(f==LOG&&fi==2) t=m?32:2;
  if(f==ERFC&&fi==2) t=10; if(f==ERF&&fi==2) t=2; if(f==LGAMMA&&fi==2) t=30; if(f==TGAMMA&&fi==2) t=1e6;
  if(m) t=2*t; return t; }
static int adjof(const F&ar){ int e=(int)std::floor(ilogb(ar)*0.30102999566398119521); auto ge=[&](int k){ return k>=0?ar>=p10f(k):ar*p10f(-k)>=1; }; while(ge(e+1)) e++; while(!ge(e)) e--; return e; }
static bool judge(int f,const Case&c,const Ref&r,const shim_out&o,string&why){
  int fi=c.fmt; const Fmt&fm=FM[fi]; D a=dec(fi,c.in[0]), g=dec(fi,o.d); char buf[200];
  if(o.mode!=c.mode){ why="rounding direction changed"; return false; }
  if(!canonical(fi,o.d)&&canonical(fi,c.in[0])&&canonical(fi,c.in[1])){ // (a non-canonical operand may be returned)
    why="encoding not canonical"; return false; }
  if(r.err&&o.err!=r.err){ why="errno: want "+std::to_string(r.err); return false; }
  auto E=[&](const char*k){ if(r.err==0&&o.err!=0){ why=string("errno: want none for ")+k; return false; } return true; };
  switch(r.k){
  case Ref::NAN_: if(!g.nan()){ why="special: want NaN"; return false; } if(g.k==KSN){ why="special: signaling result"; return false; } return E("NaN");
  case Ref::INF: if(!g.inf()||g.s!=r.s){ why=string("special: want ")+(r.s?"-":"+")+"Inf"; return false; } return E("Inf");
  case Ref::ZERO: if(!g.fin()||g.c!=0||g.s!=r.s){ why=string("special: want ")+(r.s?"-0":"+0"); return false; } return E("zero");
  default: break; }
  F ar=abs(r.v); bool rs=r.v<0; double t=tol(f,fi,c.mode,a); 
  int top=fm.qmax+fm.p-1; F lim=scale(F(mp::cpp_int(ref::p10(fm.p)-1)),fm.qmax);
  if(g.nan()){ why="range: NaN for a finite value"; return false; }
  if(ar>lim*(1+F(t)*p10f(2)/p10f(fm.p+1)*10)){ // overflow
    if(c.mode==0&&(!g.inf()||g.s!=rs)){ why="range: want overflow"; return false; } if(g.s!=rs){ why="sign: of overflow"; return false; } if(!g.inf()){ int k=(int)ndig(g.c)+g.e-1; if(k<top){ why="range: want overflow"; return false; } } if(g.inf()&&o.err!=ERANGE){ why="errno: want ERANGE for overflow"; return false; } return true; }
  if(g.inf()){ F near=lim-scale(F(t+1),fm.qmax); if(ar<near||g.s!=rs){ why="range: infinite for a finite value"; return false; } return true; }
  F gv=toF(g); int adj= ar<p10f(0)/p10f(6300)? -6301: adjof(F(ar*(1+1/p10f(60)))); if(g.c!=0&&ar>0) adj=std::max(adj,std::min(adj+1,(int)ndig(g.c)+g.e-1)); int q=std::max(adj-fm.p+1,fm.qmin);
  F d=abs(gv-r.v); F u= q>=0?p10f(q):F(1/p10f(-q)); double ulp=(d/u).convert_to<double>();
  double extra=0; if(f==LGAMMA&&fi==2) extra=(c.mode?2:1)*(F("1e-31")/u).convert_to<double>(); 
  if(ulp>t+extra){ snprintf(buf,200,"accuracy: off by %.3g units, want %s",ulp,r.v.str(30).c_str()); why=buf; return false; }
  if(g.s!=rs&&(g.c!=0||f!=ERFC)){ why="sign: want "+r.v.str(10); return false; }
  // exactly representable values
  if(c.mode==0&&t<=2){ F m=q>=0?F(r.v/p10f(q)):F(r.v*p10f(-q)); F k=round(m); if(abs(m-k)<=abs(m)/p10f(85)&&k!=0&&(adj>=fm.qmin+fm.p-1)){ if(abs(gv-k*u)>u/p10f(20)){ F kk=abs(k); if(kk<p10f(fm.p)){ why="exact: want "+r.v.str(40); return false; } } } }
  bool normal=adj>=fm.qmin+fm.p&&g.c!=0; if(normal&&o.err!=0){ why="errno: want none for a normal result"; return false; }
  return true; }

static std::map<int,int> FOF;
static bool runone(const Case&c,string&o,string&why){ auto it=FOF.find(c.op); if(it==FOF.end()) return true; shim_out r; shim_call(shim_ops[c.op].fn[c.fmt],c.mode,c.in,c.iarg,&r); o=obs(r); return judge(it->second,c,reference(it->second,dec(c.fmt,c.in[0]),dec(c.fmt,c.in[1])),r,why); }
static void go(Worker&w,int f,int fi,u128 a,u128 b,const vector<int>&modes){ Case c; c.op=OP[f]; c.fmt=fi; c.in[0]=a; c.in[1]=b; c.mode=0; w.setcur(key(c)); bool safe=w.x.safe; Ref r=safe?Ref():reference(f,dec(fi,a),dec(fi,b));
  for(int m:modes){ c.mode=m; w.setcur(key(c)); shim_out o; shim_call(shim_ops[c.op].fn[fi],m,c.in,0,&o); w.tr++; uint64_t h=hstep(hstep(c.op*3+fi,(uint64_t)o.d),(uint64_t)(o.d>>64)); w.state(hstep(h,o.err*8+m)); string why; if(!safe&&!judge(f,c,r,o,why)) w.fail(key(c),obs(o),why); } }

// ---- arguments --------------------------------------------------------------
// the decimal nearest to v, and its neighbours
static void around(int fi,const F&v,int k,vector<u128>&out){ const Fmt&fm=FM[fi]; if(v==0) return; F ar=abs(v); int adj=adjof(ar); int q=std::max(adj-fm.p+1,fm.qmin); if(q>fm.qmax) return; F m=q>=0?F(ar/p10f(q)):F(ar*p10f(-q)); mp::cpp_int c=round(m).convert_to<mp::cpp_int>(); for(int d=-k;d<=k;d++){ mp::cpp_int x=c+d; if(x<=0||x>=mp::cpp_int(ref::p10(fm.p))) continue; u128 y=0; mp::cpp_int t=x; y=((u128)(uint64_t)(t>>64)<<64)|(uint64_t)(t&mp::cpp_int(0xffffffffffffffffULL)); out.push_back(al::E(fi,v<0,y,q)); } }
static vector<u128> grid(int fi,int cl,int lo,int hi){ const Fmt&fm=FM[fi]; std::set<int> A; int emin_=fm.qmin,emax_=fm.qmax+fm.p-1; for(int e=std::max(lo,emin_);e<=std::min(hi,emax_);e++) A.insert(e); 
  vector<int> sparse; for(int e:{emin_,emin_+1,emin_+fm.p-1,emin_+fm.p,emin_+2*fm.p,emin_/2,emin_/3,emin_*2/3,-200,-150,-100,-95,-75,-60,-50,50,60,75,90,95,96,100,150,200,300,380,384,1000,emax_/3,emax_/2,emax_*2/3,emax_-1,emax_}) if(e>=emin_&&e<=emax_) sparse.push_back(e);
  vector<u128> v; for(u128 c:al::coefs(fi,cl)){ if(!c) continue; int nd=ndig(fromu128(c)); auto put=[&](int adj){ int e=adj-nd+1; if(e<fm.qmin||e>fm.qmax) return; v.push_back(al::E(fi,0,c,e)); v.push_back(al::E(fi,1,c,e)); }; for(int a:A) put(a); for(int a:sparse) put(a); }
  for(u128 x:al::specials(fi,2)) v.push_back(x); for(int e:{0,fm.qmin,fm.qmax,-3}) for(int s=0;s<2;s++) v.push_back(al::E(fi,s,0,e)); return v; }
static vector<u128> args(int f,int fi,bool deep){
  int lo=-45,hi=5; 
  switch(f){ case LOG: case LOG2: case LOG10: lo=-45; hi=45; break; case CBRT: lo=-40; hi=40; break; case LOG1P: case ASINH: case ACOSH: case ATAN: hi=40; break; case SIN: case COS: case TAN: hi=20; break; case ASIN: case ACOS: case ATANH: hi=2; break; case ERF: case ERFC: hi=4; break; case TGAMMA: lo=-25; hi=3; break; case LGAMMA: lo=-25; hi=25; break; default: break; }
  vector<u128> v=grid(fi,deep?2:1,lo,hi);
  bool trig=f==SIN||f==COS||f==TAN; if(trig){ vector<u128> w; for(u128 x:v){ D d=dec(fi,x); if(d.fin()&&d.c!=0&&(int)ndig(d.c)+d.e-1>20) continue; w.push_back(x); } v=w; }
  int k=deep?3:1; auto both=[&](const F&x){ around(fi,x,k,v); around(fi,F(-x),k,v); };
  switch(f){
  case EXP: case EXP2: case EXPM1: case SINH: case COSH: case TANH: { F L=log(F(10)); int top=fi==0?240:fi==1?900:14300; int st=fi==2?(deep?7:61):1; for(int n=1;n<=std::min(top,900);n++){ both(F(n)); both(F(n)+F("0.3")); both(F(n)-F("0.000123")); both(F(n)/100); both(F(n)/200); both(F(n)/1000); } for(int n=900;n<=top;n+=st){ both(F(n)); both(n+F("0.77")); } 
      for(int n=-FM[fi].p-2;n<=2;n++) for(int e:{FM[fi].qmin,FM[fi].qmin+FM[fi].p,FM[fi].qmax+FM[fi].p}){ F x=(e+n)*L; both(x); both(x/LN2/L*L); both(x/LN2); } for(int n=1;n<=130;n++) for(int k:{0,1,3,37}){ both(F(n)/10000+k); both(F(n)/100+F("0.0043")*k); } for(int n=0;n<=(deep?400:60);n++){ both(n*L); both(n*L+F("0.5")*L); } if(f==EXP2) for(int n=1;n<=112;n++) both(n); break; }
  case LOG: case LOG2: case LOG10: case LOG1P: case ACOSH: case ASINH: case ATANH: case CBRT: for(int n=1;n<=1300;n++){ F x=F(n)/1000; both(x); both(x+F("0.0004")); if(f!=ATANH){ both(x*10); if(n%7==0){ both(scale(x,20)); both(scale(x,-20)); } } } for(int e=1;e<=FM[fi].p;e++){ both(1+1/p10f(e)); both(1-1/p10f(e)); both(1+5/p10f(e)); } if(f==LOG2) for(int n=-40;n<=112;n++) both(ldexp(F(1),n)); if(f==LOG10) for(int n=FM[fi].qmin;n<=FM[fi].qmax+FM[fi].p-1;n+=(fi==2&&!deep?41:1)) both(scale(F(1),n)); if(f==CBRT) for(int n=1;n<=(deep?5000:600);n++){ F c=F(n)*n*n; both(c); both(scale(c,-3)); both(scale(c,30)); } break;
  case SIN: case COS: case TAN: for(int n=1;n<=(deep?4000:400);n++){ both(n*PI_/4); both(n*PI_/6); both(n*PI_/5+F("0.01")); } for(int e=1;e<=15;e++) for(int n=1;n<10;n++){ F t=round(F(n)*p10f(e)*2/PI_)*PI_/2; both(t); } break;
  case ASIN: case ACOS: case ATAN: for(int n=1;n<=1000;n++){ both(F(n)/1000); both(F(n)/1000-F("0.00037")); if(f==ATAN){ both(F(n)/10); both(F(1000)/n); } } for(int e=1;e<=FM[fi].p;e++){ both(1-1/p10f(e)); both(1-5/p10f(e)); } for(const char*s:{"0.41421356237309504880168872420969807856967187537694","2.41421356237309504880168872420969807856967187537694","0.70710678118654752440084436210484903928483593768847","0.57735026918962576450914878050195745564760175127013","0.19891236737965800691159762264467622"}) both(F(s)); break;
  case ERF: case ERFC: for(int n=1;n<=1000;n++){ both(F(n)/128); both(F(n)/100); both(F(n)/1000); both(F(n)/8); both(F(n)/64+F("0.001")); } break;
  case LGAMMA: case TGAMMA: for(int n=1;n<=1760;n++){ if(n<=120*8) both(F(n)/8); if(n<400){ both(F(n)/16+F("0.0123")); both(F(n)/100); } if(n<=1760) { around(fi,F(n),k,v); around(fi,F(n)+F("0.5"),k,v); } } for(const char*s:{"1.4616321449683623412626595423257213","0.46163214496836","2.4570247382208005","2.7476826467274126","3.1435808883499799","3.9552942848585979"}) both(F(s)); if(f==TGAMMA) for(int n=1;n<=2300;n+=3) around(fi,-(F(n)+F("0.25")),k,v); break;
  }
  return al::uniq(v); }
static bool inside(int f,int fi,const D&d){ // the stated domain
  if(!d.fin()||d.c==0) return true; int k=(int)ndig(d.c)+d.e-1; 
  if(f==TGAMMA&&d.s&&k>=(fi==2?3:fi==1?3:2)) return isint(d)&&d.e<=0; if(f==LGAMMA&&d.s&&k>=3) return isint(d)&&d.e<=0; return true; }
static vector<u128> pa(int fi,bool deep,bool y){ vector<u128> v; auto put=[&](const F&x){ around(fi,x,1,v); around(fi,F(-x),1,v); }; auto put0=[&](const F&x){ around(fi,x,0,v); around(fi,F(-x),0,v); };
  int n=deep?60:24; for(int i=1;i<=n;i++) put0(F(i)); for(const char*s:{"0.5","0.25","0.1","0.9","1.5","2.5","0.3333333333333333333333333333333333","1.1","0.99","0.999999","1.000001","10","100","3.7","0.125","7.25","64","99","127","128","301","308","383","999","1000","6000","0.01","0.0007"}) put0(F(s)); put(F(1)); put(F(2)); put(F("0.5"));
  for(int e:{3,7,15,20,33}){ put0(p10f(e)); put0(1/p10f(e)); if(e<FM[fi].p){ put0(1+1/p10f(e)); put0(1-1/p10f(e)); } put0(F("7.3")*p10f(e)); put0(p10f(e)+1); put0(p10f(e)*9-1); } if(y){ for(const char*s:{"4294967295","4294967296","9223372036854775807","9223372036854775000","18446744073709551616","2147483647","2147483649","9007199254740993"}) put0(F(s)); }
  const Fmt&fm=FM[fi]; for(int q:{fm.qmin,fm.qmin+fm.p,fm.qmax,fm.qmax+fm.p-1,fm.qmin/2,fm.qmax/2}){ put0(scale(F(3),q>fm.qmax?fm.qmax:q)); } put0(scale(F(mp::cpp_int(ref::p10(fm.p)-1)),fm.qmax)); 
  for(u128 x:al::specials(fi,2)) v.push_back(x); for(int s=0;s<2;s++) v.push_back(al::E(fi,s,0,0)); for(int s=0;s<2;s++){ v.push_back(al::E(fi,s,al::P10(3)*3,-3)); v.push_back(al::E(fi,s,al::P10(2)*20,-2)); v.push_back(al::E(fi,s,1,5)); } return al::uniq(v); }

int main(int argc,char**argv){
  if(argc<2) return 2; PROP=argv[1]; Explorer x(PROP,argc-1,argv+1); Q=x.quick();
  T10.resize(6500); T10[0]=1; for(int i=1;i<6500;i++) T10[i]=pow(F(10),i); PI_=boost::math::constants::pi<F>(); LN2=log(F(2));
  vector<int> fs; if(PROP=="C21") fs={EXP,EXP2,EXPM1,LOG,LOG2,LOG10,LOG1P,CBRT,POW}; else if(PROP=="C22") fs={SIN,COS,TAN,ASIN,ACOS,ATAN,ATAN2,SINH,COSH,TANH,ASINH,ACOSH,ATANH}; else if(PROP=="C23") fs={ERF,ERFC,LGAMMA,TGAMMA}; else return 2;
  string only=getenv("FN")?getenv("FN"):""; 
  for(int f=0;f<NF;f++) OP[f]=opid(FN[f]); for(int f:fs) FOF[OP[f]]=f;
  x.runkey=[](const string&k,string&o,string&why){ Case c; if(!parse(k,c)){ why="unparsable"; return true; } return runone(c,o,why); };
  string names; for(int f:fs) names+=string(names.empty()?"":", ")+FN[f];
  x.rule="Every argument of a function-specific alphabet (boundary coefficients at every decade near one and selected decades to the ends of the range, the knots of every table and piecewise approximation with their neighbours, the points next to exact results, poles, zeros and range limits, all special values) for "+names+" in all three widths, in round-to-nearest and a subset in the other four directions; pairs of arguments exhaustively for the two-argument functions; against a 110-digit binary reference. A state is a distinct (function, width, result, errno, direction); a transition is one call; a trace is one argument.";
  x.assumptions={"Boost.Multiprecision/Math 110-digit references are right to 40 digits","arguments outside the alphabets behave like those inside"}; x.samples={string(FN[fs[0]])+" 64 of 0.49999", string(FN[fs[1]])+" 128 next to its range limit"};
  auto body=[&](Worker&w){ for(int f:fs){ if(!only.empty()&&only!=FN[f]) continue; for(int fi=0;fi<3;fi++){
      if(f==POW||f==ATAN2){ auto A=pa(fi,!Q,f==ATAN2),B=pa(fi,!Q,true); for(u128 a:A){ if(!w.row()) continue; int n=0; for(u128 b:B){ bool all=(n++%8)==0; if(w.x.safe&&Q&&!all) continue; if(w.x.safe&&Q) all=false; go(w,f,fi,a,b,all||!Q?vector<int>{0,1,2,3,4}:vector<int>{0}); } w.trace(); } continue; }
      auto A=args(f,fi,!Q); size_t n=0; for(u128 a:A){ n++; if(!w.row()) continue; if(!inside(f,fi,dec(fi,a))) continue; if(w.x.safe&&Q&&n%10&&dec(fi,a).fin()&&dec(fi,a).c!=0) continue; go(w,f,fi,a,0,((n%5==0)&&!w.x.safe)||!Q?vector<int>{0,1,2,3,4}:vector<int>{0}); w.trace(); } } } };
  return x.main(body);
}
