// Casts between decimal and binary types, header macros, decoded text:
//   conv C30|C31 --tier quick
#include "explore.hpp"
#include "alphabet.hpp"
#include "conv.h"
using namespace xp; using namespace ref;
namespace mp=boost::multiprecision; typedef mp::cpp_int Z;
struct BF { int p,emin,emax,bits; };           // value m*2^q, m < 2^p, q in [emin-p+1, emax-p+1]
static const BF BM[4]={{24,-126,127,32},{53,-1022,1023,64},{64,-16382,16383,80},{113,-16382,16383,128}};
struct B { Kind k=KFIN; bool s=false; Z m=0; int q=0; };
static Z zz(const U&u){ Z r=0; u128 lo=tou128(u); r=(uint64_t)(lo>>64); r<<=64; r+=(uint64_t)lo; return r; }
static Z z128(u128 v){ Z r=(uint64_t)(v>>64); r<<=64; r+=(uint64_t)v; return r; }
static u128 u128z(const Z&z){ return ((u128)((z>>64)&Z(~0ULL)).convert_to<uint64_t>()<<64)|(z&Z(~0ULL)).convert_to<uint64_t>(); }
static B bdec(int b,u128 v){ const BF&f=BM[b]; B r; int mb= b==2?64:f.p-1, ew=f.bits-1-mb; u128 one=1; r.s=v>>(f.bits-1)&1; int e=(int)(v>>mb)&((1<<ew)-1); u128 m=v&((one<<mb)-1);
  if(e==(1<<ew)-1){ u128 fr= b==2? m&~(one<<63):m; if(!fr) r.k=KINF; else r.k= fr>>(f.p-2)&1?KQN:KSN; return r; }
  if(b!=2&&e) m|=one<<mb; r.m=z128(m); r.q=(e?e:1)-f.emax-(f.p-1); return r; }
static u128 benc(int b,const B&x){ const BF&f=BM[b]; int mb= b==2?64:f.p-1, ew=f.bits-1-mb; u128 one=1, s=(u128)x.s<<(f.bits-1); 
  if(x.k==KINF) return s|(u128)((1<<ew)-1)<<mb|(b==2?one<<63:0);
  u128 m=u128z(x.m); int e=x.q+f.emax+f.p-1; bool norm= m>>(f.p-1)&1; if(!norm) e=0; if(b!=2) m&=~(one<<(f.p-1)); return s|(u128)e<<mb|m; }
static bool up(int mode,bool s,bool odd,int half){ // half: -1 below, 0 exactly half, 1 above; never called when exact
  switch(mode){ case RNE: return half>0||(half==0&&odd); case RTZ: return false; case RUP: return !s; case RDN: return s; default: return half>=0; } }
static const Z& P5(int k){ static std::map<int,Z> t; auto i=t.find(k); if(i!=t.end()) return i->second; return t[k]=mp::pow(Z(5),k); }
// exact c*10^e rounded once to the binary format
static B tobin(const D&d,int b,int mode,bool&inex,bool&tiny){ const BF&f=BM[b]; B r; r.s=d.s; inex=tiny=false; if(d.nan()){ r.k=KQN; return r; } if(d.inf()){ r.k=KINF; return r; } if(d.c==0) { r.q=f.emin-f.p+1; return r; }
  Z c=zz(d.c); int qmin=f.emin-f.p+1, qmax=f.emax-f.p+1; // value = N*2^e2/den
  Z N=c,den=1; if(d.e>=0) N*=P5(d.e); else den=P5(-d.e); int e2=d.e;
  long lb=(long)mp::msb(N)-(long)mp::msb(den)+e2;   // 2^(lb-1) < v < 2^(lb+1)
  int q=std::max<long>(lb-f.p,qmin); Z m,rem; bool sticky=false; 
  auto divi=[&](int q){ Z n=N, dd=den; int sh=e2-q; if(sh>=0) n<<=sh; else dd<<=-sh; mp::divide_qr(n,dd,m,rem); rem<<=1; int half= rem==0?-2: rem<dd?-1: rem==dd?0:1; return half; };
  (void)sticky; int half=divi(q); if(m!=0&&(int)mp::msb(m)>=f.p){ q++; half=divi(q); }
  tiny = m==0||(int)mp::msb(m)<f.p-1; if(half!=-2){ inex=true; if(up(mode,r.s,(m&1)!=0,half)){ m+=1; if((int)mp::msb(m)>=f.p){ m>>=1; q++; } } }
  if(q>qmax){ inex=true; bool toinf= mode==RNE||mode==RNA||(mode==RUP&&!r.s)||(mode==RDN&&r.s); if(toinf) r.k=KINF; else { r.m=(Z(1)<<f.p)-1; r.q=qmax; } return r; }
  r.m=m; r.q=q; return r; }
// exact m*2^q rounded once to the decimal format
static int nd(const Z&z){ if(z==0) return 0; unsigned b=mp::msb(z); int d=(int)((unsigned long long)b*30103ull/100000ull); static std::map<int,Z> t; auto P=[&](int k)->const Z&{ auto i=t.find(k); return i!=t.end()?i->second:t[k]=mp::pow(Z(10),k); }; while(z>=P(d)) d++; while(d>0&&z<P(d-1)) d--; return d; }
static D todec(const B&x,int fi,int mode,bool&inex){ const Fmt&f=FM[fi]; D r; r.s=x.s; inex=false; if(x.k==KQN||x.k==KSN) return mknan(); if(x.k==KINF) return mkinf(x.s); if(x.m==0) return mkfin(x.s,0,0);
  Z m=x.m; int q=x.q; unsigned tz=mp::lsb(m); m>>=tz; q+=tz; Z c; int e; if(q>=0){ c=m<<q; e=0; } else { c=m*P5(-q); e=q; }
  int drop=std::max(nd(c)-f.p, f.qmin-e); 
  if(drop>0){ Z t=mp::pow(Z(10),drop), rem,qq; mp::divide_qr(c,t,qq,rem); e+=drop; c=qq; if(rem!=0){ inex=true; rem<<=1; int half=rem<t?-1:rem==t?0:1; if(up(mode,x.s,(c&1)!=0,half)){ c+=1; if(nd(c)>f.p){ c/=10; e++; } } } }
  if(!inex){ while(e<0&&c!=0&&c%10==0){ c/=10; e++; } }     // exact: exponent nearest zero
  if(e>f.qmax){ while(e>f.qmax&&nd(c)<f.p){ c*=10; e--; } if(e>f.qmax){ inex=true; bool toinf= mode==RNE||mode==RNA||(mode==RUP&&!r.s)||(mode==RDN&&r.s); if(toinf) return mkinf(r.s); return mkfin(r.s,fromu128(al::P10(f.p)-1),f.qmax); } }
  while(!inex&&e>0&&nd(c)<f.p){ c*=10; e--; }
  return mkfin(x.s,fromu128(u128z(c)),e); }
static string bshow(const B&x){ return (x.s?"-":"+")+(x.k==KINF?string("Inf"):x.k!=KFIN?string("NaN"):x.m.str()+"*2^"+std::to_string(x.q)); }

struct T { string kind; int fi=0,b=0,mode=0,bmode=0; u128 v=0; };
static string key(const T&t){ std::ostringstream o; o<<t.kind<<' '<<(32<<t.fi)<<' '<<t.b<<' '<<t.mode<<' '<<t.bmode<<' '<<hx(t.v); return o.str(); }
static bool unkey(const string&s,T&t){ std::istringstream i(s); int d; string v; if(!(i>>t.kind>>d>>t.b>>t.mode>>t.bmode>>v)) return false; t.fi=d==32?0:d==64?1:2; t.v=unhx(v); return true; }
static int FPC[5];
static string decoded_want(int fi,u128 v){ D d=dec(fi,v); int nu= fi==0?3:fi==1?6:12; string s=d.s?"-":"+"; string c="0"; int e=FM[fi].qmin; if(d.fin()){ c=d.c.str(); e=d.e; } while((int)c.size()<nu*3) c="0"+c; c=c.substr(2); string o=c.substr(0,1); for(int i=1;i<nu;i++) o+=","+c.substr(1+(i-1)*3,3); char b[20]; snprintf(b,20,"E%+d",e); return s+o+b; }
static bool run(const T&t,string&o,string&why){ std::ostringstream os;
  if(t.kind=="d2b"||t.kind=="b2d"){ cv_out r{}; bool inex,tiny; u128 want; bool ok=true; bool isnan=false;
    if(t.kind=="d2b"){ D d=dec(t.fi,t.v); B w=tobin(d,t.b,t.mode,inex,tiny); cv_d2b(t.fi,t.b,t.mode,t.bmode,t.v,&r); os<<hx(r.v); isnan=d.nan(); B g=bdec(t.b,r.v); if(isnan){ if(g.k!=KQN||g.s!=d.s){ ok=false; why="NaN: got "+bshow(g); } } else { want=benc(t.b,w); if(want!=r.v){ ok=false; why="value: got "+bshow(g)+" want "+bshow(w)+" from "+show(d); } } }
    else { B x=bdec(t.b,t.v); D w=todec(x,t.fi,t.mode,inex); cv_b2d(t.fi,t.b,t.mode,t.bmode,t.v,&r); os<<hx(r.v); D g=dec(t.fi,r.v); isnan=x.k==KQN||x.k==KSN; if(isnan){ if(g.k!=KQN||g.s!=x.s){ ok=false; why="NaN: got "+show(g); } } else if(enc(t.fi,w)!=r.v){ ok=false; bool sv=w.fin()&&g.fin()&&sameval(g,w); why=string(sv?"exponent":"value")+": got "+show(g)+" want "+show(w)+" from "+bshow(x); } }
    if(ok&&r.env){ ok=false; why="environment: a rounding direction changed"; } if(ok&&r.err){ ok=false; why="errno: "+std::to_string(r.err); }
    o=os.str(); return ok; }
  if(t.kind=="decoded"){ char buf[96]; memset(buf,0x5a,sizeof buf); char*p=shim_decoded(t.fi,t.v,buf+8); string w=decoded_want(t.fi,t.v); string g(buf+8,strnlen(buf+8,80)); o=g; if(p!=buf+8){ why="return value"; return false; } if(g!=w){ why="text: want "+w; return false; } for(int i=0;i<8;i++) if(buf[i]!=0x5a){ why="bounds: wrote before the buffer"; return false; } for(size_t i=8+w.size()+1;i<sizeof buf;i++) if(buf[i]!=0x5a){ why="bounds: wrote after the text"; return false; } return true; }
  if(t.kind=="class"){ int c[7],w[7]; cv_class(t.b,t.v,c); Kind k; bool s,z,sub; if(t.b<3){ D d=dec(t.b,t.v); k=d.k; s=d.s; z=d.zero(); const Fmt&f=FM[t.b]; sub=d.fin()&&d.c!=0&&(int)ndig(d.c)+d.e-1<emin(f); } else { B x=bdec(t.b-3,t.v); k=x.k; s=x.s; z=k==KFIN&&x.m==0; sub=k==KFIN&&x.m!=0&&(int)mp::msb(x.m)<BM[t.b-3].p-1; }
    w[0]= k==KINF?FPC[1]:k!=KFIN?FPC[0]:z?FPC[2]:sub?FPC[3]:FPC[4]; w[1]=s; w[2]=k==KFIN; w[3]=k==KFIN&&!z&&!sub; w[4]=k==KINF; w[5]=k==KQN||k==KSN; w[6]=k==KSN; static const char*N[]={"fpclassify","signbit","isfinite","isnormal","isinf","isnan","issignaling"}; for(int i=0;i<7;i++) os<<c[i]<<' '; o=os.str(); for(int i=0;i<7;i++) if(c[i]!=w[i]){ why=string(N[i])+": want "+std::to_string(w[i]); return false; } return true; }
  if(t.kind=="const"){ // 45 digits, rounded here
    static const char*K[13]={"271828182845904523536028747135266249775724709","144269504088896340735992468100189213742664595","0434294481903251827651128918916605082294397006","0693147180559945309417232121458176568075500134","230258509299404568401799145468436420760110149","314159265358979323846264338327950288419716940","157079632679489661923132169163975144209858470","0785398163397448309615660845819875721049292350","0318309886183790671537767526745028724068919291","0636619772367581343075535053490057448137838582","112837916709551257389615890312154517168810126","141421356237309504880168872420969807856967188","0707106781186547524400844362104849039284835938"};
    int fi; u128 v; const char*n=cv_const(t.b,&fi,&v); D d=dec(fi,v); o=string(n)+"="+show(d); D w; if(t.b<13){ string s=K[t.b]; int frac=(int)s.size()-1; U c(s[0]=='0'?s.substr(1):s); int drop=(int)ndig(c)-34; U q=c/p10(drop), r=c%p10(drop); if(r*2>=p10(drop)) q+=1; w=mkfin(false,q,-frac+drop); if(!(d.fin()&&sameval(d,w))){ why="value: want "+show(w); return false; } return true; }
    if(t.b==17){ if(d.k!=KQN){ why="value: not a NaN"; return false; } } else if(!d.inf()||d.s){ why="value: not +Inf"; return false; } return true; }
  why="unknown"; return true; }
static void go(Worker&w,const T&t){ string k=key(t); w.setcur(k); string o,why; bool ok=run(t,o,why); w.tr++; w.state(hstr(t.kind+char('0'+t.fi)+char('0'+t.b)+o)); if(!ok) w.fail(k,o,why); }

// binary operands: every exponent (float, double) or a ladder of them, with the
// significands at which rounding and normalisation change
static vector<u128> bins(int b,bool Q){ const BF&f=BM[b]; vector<u128> v; u128 one=1, top=one<<(f.p-1); vector<u128> ms={top,top|1,top|2,(top<<1)-1,(top<<1)-2,top|top>>1,top|(top>>1)-1,top+top/4,top+top/3,top+top/5*3,top+top/10,top+top/7*5}; std::set<int> qs; int q0=f.emin-f.p+1,q1=f.emax-f.p+1; int st= b<2?(Q&&b==1?1:1):(Q?61:7);
  for(int q=q0;q<=q1;q+=st) qs.insert(q); for(int c:{q0,q1,0,-f.p,-f.p+1,-2*f.p,f.p,-1000,1000,-333,333,-20500/10,20400/10}) for(int d=-8;d<=8;d++) if(c+d>=q0&&c+d<=q1) qs.insert(c+d);
  for(int k:{6144,6111,6176,385,384,383,398,96,97,101,95}) for(int s:{-1,1}) for(int d=-6;d<=6;d++){ int q=(int)(s*k*3.3219281)-f.p+d; if(q>=q0&&q<=q1) qs.insert(q); }
  for(int q:qs) for(u128 m:ms) for(int s=0;s<2;s++){ B x; x.s=s; x.m=z128(m); x.q=q; v.push_back(benc(b,x)); }
  for(int i=0;i<f.p;i++) for(int d=-1;d<=1;d++) for(int s=0;s<2;s++){ B x; x.s=s; u128 m=(one<<i)+d; if(!m) continue; x.m=z128(m); x.q=q0; v.push_back(benc(b,x)); }   // subnormals
  for(long long n=0;n<=1100;n++) for(int sh:{0,1,2,3,10}) if(b!=2||n){ u128 m=n; int q=-sh; if(!m){ v.push_back(benc(b,B())); continue; } while(!(m>>(f.p-1))){ m<<=1; q--; } B x; x.m=z128(m); x.q=q; v.push_back(benc(b,x)); }
  u128 sg=one<<(f.bits-1); B inf; inf.k=KINF; u128 iv=benc(b,inf); u128 qb=one<<(f.p-2); for(u128 s:{(u128)0,sg}) for(u128 x:{iv,iv|qb,iv|qb|5,iv|1,iv|(qb>>1)}) v.push_back(s|x); v.push_back(sg|benc(b,B())); return al::uniq(v); }
// the binary numbers around a decimal value, and halfway between
static void near_bins(vector<u128>&v,int b,const D&d){ bool i,t; for(int m:{RTZ,RNE}) { B x=tobin(d,b,m,i,t); if(x.k!=KFIN) return; x.s=d.s; for(int k=-1;k<=2;k++){ B y=x; Z mm=x.m+k; if(mm<0||(mm!=0&&(int)mp::msb(mm)>=BM[b].p)) continue; y.m=mm; if(mm!=0&&(int)mp::msb(mm)<BM[b].p-1&&y.q>BM[b].emin-BM[b].p+1) continue; if(mm==0) continue; v.push_back(benc(b,y)); } } }
// decimal values next to a binary number or a midpoint of two
static void near_decs(vector<u128>&v,int fi,const B&x){ bool i; if(x.k!=KFIN||x.m==0) return; for(int k=0;k<2;k++){ B y=x; y.m=x.m*2+k; y.q=x.q-1; D d=todec(y,fi,RTZ,i); if(!d.fin()) continue; D e=d; int pad=FM[fi].p-(int)ndig(d.c); if(pad>0&&d.c!=0){ pad=std::min(pad,d.e-FM[fi].qmin); if(pad>0){ e.c=d.c*p10(pad); e.e-=pad; } } v.push_back(enc(fi,d)); for(int j=-1;j<=2;j++){ D g=e; if(j<0&&g.c==0) continue; if(j<0) g.c-=1; else g.c+=j; if(ndig(g.c)>(unsigned)FM[fi].p) continue; v.push_back(enc(fi,g)); } } }

int main(int argc,char**argv){ if(argc<2) return 2; string P=argv[1]; cv_fpc(FPC); Explorer x(P,argc-1,argv+1); bool Q=x.quick();
  x.runkey=[](const string&k,string&o,string&why){ T t; if(!unkey(k,t)){ why="unparsable"; return true; } return run(t,o,why); };
  x.assumptions={"the decimal encoding is BID, binary types are float, double, x87 long double and __float128","reference: exact big-integer ratios, one rounding"};
  std::function<void(Worker&)> body;
  if(P=="C30"){
    x.rule="Both ways between the three decimal and four binary formats. Decimal operands: boundary coefficients x exponents over the whole range, plus the decimal values next to every enumerated binary number and next to the midpoint of two. Binary operands: every exponent of float and double and a ladder over those of the wide formats x significands at which rounding changes, subnormals, small integers and eighths, plus the binary numbers around every boundary decimal value; infinities, NaNs, zeros. x five decimal rounding directions (x four binary ones on a part). Result bits, errno and both rounding directions compared with exact rational arithmetic. A state is a distinct result, a transition one cast, a trace one operand.";
    x.samples={"(double)9007199254740993DD","(_Decimal32)0x1.fffffep+127f","(_Decimal128)0x1p-16494Q"};
    body=[Q](Worker&w){
      // each base operand is one row: the worker that owns it also makes and runs its neighbours
      for(int fi=0;fi<3;fi++) for(int b=0;b<4;b++){ size_t n=0;
        auto D2=[&](const vector<u128>&v){ for(u128 a:al::uniq(v)){ n=mix((uint64_t)a^(uint64_t)(a>>64)*31); for(int m=0;m<5;m++) for(int bm=0;bm<(n%16==0?4:1);bm++){ T t; t.kind="d2b"; t.fi=fi; t.b=b; t.mode=m; t.bmode=bm; t.v=a; go(w,t); } w.trace(); } };
        auto B2=[&](const vector<u128>&v){ for(u128 a:al::uniq(v)){ n=mix((uint64_t)a^(uint64_t)(a>>64)*31); for(int m=0;m<5;m++) for(int bm=0;bm<(n%16==0?4:1);bm++){ T t; t.kind="b2d"; t.fi=fi; t.b=b; t.mode=m; t.bmode=bm; t.v=a; go(w,t); } w.trace(); } };
        vector<u128> bs=bins(b,Q), ds=al::grid(fi,Q?1:2,2,2); w.sh_beat();
        for(u128 a:bs){ if(!w.row()) continue; vector<u128> v; near_decs(v,fi,bdec(b,a)); D2(v); B2({a}); }
        for(u128 a:ds){ if(!w.row()) continue; vector<u128> u; D d=dec(fi,a); if(d.fin()&&d.c!=0){ near_bins(u,b,d); D h=d; if(ndig(d.c)==(unsigned)FM[fi].p){ h.c=d.c*10+5; h.e=d.e-1; near_bins(u,b,h); } } B2(u); D2({a}); } } };
  } else {
    x.rule="decoded32, decoded64 and decoded128 of every boundary coefficient x exponent and of the special values, text and buffer bounds against the encoding; fpclassify, signbit, isfinite, isnormal, isinf, isnan and issignaling macros on the same operands and on float, double and long double operands of every exponent; every constant of the header against its 45-digit value. A state is a distinct answer, a transition one call, a trace one operand.";
    x.samples={"decoded64(-123.45DD)","isnormal(0x1p-1074)","M_PIdl"};
    body=[Q](Worker&w){
      for(int fi=0;fi<3;fi++){ vector<u128> v=al::grid(fi,w.x.safe&&Q?1:Q?2:3,w.x.safe&&Q?2:3,w.x.safe?3:2); for(u128 a:v){ if(!w.row()) continue; for(const char*k:{"decoded","class"}){ T t; t.kind=k; t.fi=fi; t.b=fi; t.v=a; go(w,t); } w.trace(); } }
      if(!w.x.safe) for(int b=0;b<3;b++) for(u128 a:bins(b,Q)){ if(!w.row()) continue; T t; t.kind="class"; t.b=3+b; t.v=a; go(w,t); w.trace(); }
      for(int i=0;;i++){ int fi; u128 v; if(!cv_const(i,&fi,&v)) break; if(!w.row()) continue; T t; t.kind="const"; t.b=i; t.fi=fi; go(w,t); w.trace(); } };
  }
  return x.main(body); }
