// Exhaustive exploration of the arithmetic-like operations against the exact
// reference model, one property per invocation:  arith C01 --tier quick
#include "explore.hpp"
#include "alphabet.hpp"
#include "oracle.hpp"
#include "hard.hpp"
using namespace xp;
static string PROP; static bool Q=true;

static bool skip(const Case&c){ // cases the property does not speak about
  const string n=shim_ops[c.op].name;
  if(n=="fmod"){ D a=dec(c.fmt,c.in[0]),b=dec(c.fmt,c.in[1]); return b.inf()&&a.fin(); }
  return false; }

struct Plan { vector<string> ops; int cl[3], el[3]; int sl=2; vector<int> modes={0,1,2,3,4}; vector<int> fmts={0,1,2}; string sweep; bool edge=false; vector<int> dense; int hard=0; bool small=false; };
static vector<long long> KS={0,1,-1,2,-2,3,-3,6,7,8,-6,-7,-8,15,16,17,-15,-16,-17,33,34,35,-33,-34,-35,89,90,96,97,98,-89,-94,-95,-100,-101,-102,-108,191,192,193,-191,-200,369,384,385,-369,-383,-398,-399,-415,767,768,-800,6111,6144,6145,-6111,-6143,-6176,-6177,-6211,12287,12321,-12400,32767,32768,-32768,65536,100000,-100000,999999999,1000000000,-1000000000,1999999999,-1999999999,-2000000000,2000000001,-2000000001,2147483647,-2147483647-1};
static vector<long long> KL={4294967296LL,-4294967296LL,4294967297LL,-4294967295LL,1LL<<40,-(1LL<<40),LLONG_MAX,LLONG_MIN};

static void run(Worker&w,const Plan&p){
  for(auto&n:p.ops){ int op=opid(n), ar=arity(n); bool fr=n.substr(0,2)=="fr"&&isdigit((unsigned char)n.back());
    for(int fi:p.fmts){ if(p.cl[fi]<0) continue;
      auto g= fr? al::ints(p.cl[fi]) : al::grid(fi,p.cl[fi],p.el[fi],p.sl);
      auto h= n=="nexttoward"? al::grid(2,std::min(p.cl[fi],1),std::min(p.el[fi],1),p.sl) : g;
      auto go=[&](u128 a,u128 b,u128 d,long long k){ Case c; c.op=op;c.fmt=fi;c.in[0]=a;c.in[1]=b;c.in[2]=d;c.iarg=k; if(skip(c)) return; for(int m:p.modes){ c.mode=m; w.exec(c);} };
      for(u128 a:g){ if(!w.row()) continue;
        if(n=="nan"){ for(int k=0;k<8;k++) go(a,0,0,k); } else if(ar==1) go(a,0,0,0); else if(ar==2) for(u128 b:h) go(a,b,0,0); else if(ar==3) for(u128 b:g) for(u128 d:g) go(a,b,d,0);
        else { for(long long k:KS) go(a,0,0,k); if(n=="scalbln") for(long long k:KL) go(a,0,0,k); }
        w.trace(); }
      if(p.hard){ size_t cnt=0; bool on=false; auto hg=[&](const hard::T3&t){ if(cnt++%256==0){ if(on) w.trace(); on=w.row(); } if(on) go(t.a,t.b,t.d,0); }; bool rich=p.hard>1;
        if(n=="mul") hard::mul(fi,rich,hg); else if(n=="div") hard::div(fi,rich,hg); else if(n=="fma") hard::fma(fi,rich,hg); else if(n=="add"||n=="sub") hard::add(fi,rich,hg); else if(n=="sqrt") hard::sqrt(fi,hg); continue; }
      if(p.small) for(int e:{0,-1,-2,-3}) for(int c0=0;c0<1200;c0+=50){ if(!w.row()) continue; for(int c=c0;c<c0+50;c++) for(int s=0;s<2;s++) go(al::E(fi,s,c,e),0,0,0); w.trace(); }
      if(p.edge) for(u128 a:al::intedge(fi)){ if(!w.row()) continue; go(a,0,0,0); w.trace(); }
      if(fi==0) for(int e:p.dense) for(unsigned c0=0;c0<10000000;c0+=1000){ if(!w.row()) continue; // every 7-digit coefficient
        for(unsigned c=c0;c<c0+1000;c++) if(ar==1) for(int s=0;s<2;s++) go(al::E(0,s,c,e),0,0,0); else for(u128 b:{al::E(0,0,1,0),al::E(0,0,3,2),al::E(0,1,9999999,-7),al::E(0,0,7000001,-3)}) go(al::E(0,0,c,e),b,0,0);
        w.trace(); }
      if(!p.sweep.empty()&&(ar==2||ar==3)){ // every alignment of two coefficients, at the middle and both ends of the exponent range
        int cl=p.sweep[fi]-'0'; auto C=al::coefs(fi,cl); const Fmt&f=FM[fi]; int W=2*f.p+3;
        for(u128 a:C) { if(!w.row()) continue; for(u128 b:C) for(int base:{0,1}) for(int d=-W;d<=W;d++){ 
          int ea= base==0? d/2 : f.qmin+std::max(0,d)+ (n=="mul"||n=="div"?0:0), eb=ea-d; if(base==0){ ea=d-d/2; eb=-d/2+0; eb=ea-d; }
          if(ea<f.qmin||ea>f.qmax||eb<f.qmin||eb>f.qmax) continue;
          if(ar==3){ // a*b + d with the addend sliding past the product
            for(u128 t:al::coefs(fi,0)) go(al::E(fi,0,a,ea),al::E(fi,t&1,b,0),al::E(fi,1,t,eb),0);
          } else for(int s=0;s<2;s++) go(al::E(fi,s,a,ea),al::E(fi,s&&base,b,eb),0,0); }
          w.trace(); } }
    } } }

int main(int argc,char**argv){
  if(argc<2) return 2; PROP=argv[1]; Explorer x(PROP,argc-1,argv+1); x.oracle=oracle; Q=x.quick();
  vector<Plan> P; auto A=[&](vector<string> ops,std::array<int,6> ce,std::array<int,6> ct,int sl=2,vector<int> modes={0,1,2,3,4},string sw="",string swt=""){ Plan p; p.ops=ops; auto&z=Q?ce:ct; for(int i=0;i<3;i++){p.cl[i]=z[2*i];p.el[i]=z[2*i+1];} p.sl=sl; p.modes=modes; p.sweep=Q?sw:swt; P.push_back(p); };
  vector<string> rel={"eq","ne","lt","le","gt","ge","isgreater","isgreaterequal","isless","islessequal","islessgreater","isunordered"};
  vector<string> toi={"toi32","toi64","toi128","tou32","tou64","tou128"}, fri={"fri32","fri64","fri128","fru32","fru64","fru128"};
  vector<int> M0={0};
  string dom;
  // U: one-operand operations, deepest useful alphabets in quick; thorough adds
  // every _Decimal32 coefficient at the listed exponents.  D: extra thorough plan.
  auto U=[&](vector<string> ops,vector<int> modes,vector<int> dense,bool edge=false){ A(ops,{3,2,3,2,2,2},{3,3,3,3,3,2},2,modes); P.back().edge=edge; if(!Q) P.back().dense=dense; };
  auto D=[&](vector<string> ops,int cl,int el,vector<int> fmts,vector<int> modes,vector<int> dense={}){ if(Q) return; Plan p; p.ops=ops; p.fmts=fmts; p.modes=modes; for(int i=0;i<3;i++){p.cl[i]=cl;p.el[i]=el;} p.dense=dense; P.push_back(p); };
  vector<int> M5={0,1,2,3,4};
  auto H=[&](vector<string> ops,vector<int> modes){ Plan p; p.ops=ops; p.modes=modes; p.hard=Q?1:2; for(int i=0;i<3;i++) p.cl[i]=p.el[i]=0; P.push_back(p); };
  if(PROP=="C01"){ H({"add","sub","mul","div"},M5); A({"add","sub","mul","div"},{0,1,0,1,0,1},{1,1,1,1,1,0},2,M5,"111","111"); if(Q) A({"add","sub","mul","div"},{1,0,1,0,1,0},{1,0,1,0,1,0},2,M5); D({"add","sub","mul","div"},2,0,{0,1,2},{0,3}); D({"add","mul","div"},0,0,{0},M5,{0,-7}); dom="add, subtract, multiply and divide"; }
  else if(PROP=="C02"){ H({"fma"},M5); A({"fma"},{0,0,0,0,-1,0},{0,0,0,0,0,0},2,M5,"000","000"); if(Q){ Plan p; p.ops={"fma"}; p.fmts={2}; p.cl[2]=0;p.el[2]=0;p.sl=0;p.modes={0,2,3}; P.push_back(p);} dom="fused multiply-add"; }
  else if(PROP=="C03"){ A({"eq","ne","lt","le","gt","ge"},{1,1,1,1,1,0},{1,1,1,1,1,1},2,M0,"111","222"); A({"isgreater","isgreaterequal","isless","islessequal","islessgreater","isunordered"},{1,1,1,1,1,0},{1,1,1,1,1,1},2,M0,"111","111"); dom="relational operators and classification of order"; }
  else if(PROP=="C04"){ A({"tod32","tod64","tod128"},{3,2,3,2,3,2},{3,3,3,3,3,2},2); if(!Q) P.back().dense={0,-101,-95,90}; dom="conversions between the three widths"; OPT.zquant=true; }
  else if(PROP=="C05"){ A(fri,{1,0,1,0,1,0},{1,0,1,0,1,0}); dom="integers to decimal"; }
  else if(PROP=="C06"){ U(toi,M5,{0,-3,2},true); U({"lrint","llrint","lround","llround"},M5,{0,-3,12},true); dom="decimal to integers"; }
  else if(PROP=="C07"){ U({"ceil","floor","trunc","round","roundeven","nearbyint","rint"},M5,{0,-1,-3,-7},true); dom="rounding to integral values"; OPT.zquant=false; }
  else if(PROP=="C08"){ U({"nextup","nextdown"},M0,{0,-101,90}); A({"nextafter","nexttoward"},{1,1,1,1,1,1},{2,1,1,1,1,1},2,{0,3}); dom="neighbouring values"; OPT.zquant=false; }
  else if(PROP=="C09"){ A({"quantize"},{1,1,1,1,1,1},{1,2,1,1,1,1},2); A({"samequantum"},{0,1,0,1,0,1},{1,1,1,1,1,1},2,M0); U({"quantum","llquantexp"},M0,{0}); D({"quantize"},0,0,{0},M5,{0,-7,-3}); dom="quantum operations"; }
  else if(PROP=="C10"){ U({"logb","ilogb","llogb","frexp","modf"},{0,2},{0,-3,-101}); A({"ldexp","scalbn","scalbln"},{2,1,1,1,1,1},{2,2,2,1,2,1}); dom="scaling and exponent extraction"; OPT.zquant=false; }
  else if(PROP=="C11"){ A({"remainder"},{0,0,0,0,0,0},{0,1,0,1,0,0},2,M0,"000","000"); A({"fmod"},{0,0,0,0,0,0},{0,1,0,1,0,0},2,M5,"000","000"); dom="remainders"; OPT.zquant=false; }
  else if(PROP=="C12"){ A({"fmax","fmin","fmaxmag","fminmag","copysign"},{1,1,1,1,0,1},{1,1,1,1,1,1},2,M0); A({"fdim"},{0,1,0,1,0,1},{1,1,1,1,1,0},2,M5,"100","110"); U({"fabs","neg"},M0,{0}); dom="selection, sign and positive difference"; }
  else if(PROP=="C13"){ U({"fpclassify","isfinite","isinf","isnan","issignaling","finite","isnormal","signbit"},M0,{0,-101,-96,90}); A({"nan"},{0,-1,0,-1,0,-1},{0,-1,0,-1,0,-1},0,M5); dom="classification"; }
  else if(PROP=="C14"){ H({"sqrt"},M0); A({"sqrt"},{3,2,3,2,2,2},{3,3,3,2,2,2},2,M0); if(!Q) P.back().dense={0,-1,-101}; A({"hypot"},{1,1,0,1,0,0},{1,1,1,1,1,0},2,M0); dom="square root and hypotenuse"; OPT.quant=false; }
  else if(PROP=="C24"||PROP=="C25"||PROP=="C32"){ OPT.perop=PROP=="C24"; OPT.quant=false; bool E=PROP=="C25";
    vector<string> one={"ceil","floor","trunc","round","roundeven","nearbyint","rint","nextup","nextdown","quantum","llquantexp","logb","ilogb","llogb","frexp","modf","fabs","neg","fpclassify","isfinite","isinf","isnan","issignaling","finite","isnormal","signbit","tod32","tod64","tod128","lrint","llrint","lround","llround"};
    vector<string> two={"quantize","samequantum","fmod","remainder","fmax","fmin","fmaxmag","fminmag","fdim","copysign","nextafter","nexttoward"}, bas={"add","sub","mul","div"}, sc={"ldexp","scalbn","scalbln"}, rt={"sqrt","hypot"};
    vector<string> el1={"acos","acosh","asin","asinh","atan","atanh","cbrt","cos","cosh","erf","erfc","exp","exp2","expm1","lgamma","log","log10","log1p","log2","sin","sinh","tan","tanh","tgamma"}, el2={"atan2","pow"};
    for(auto&t:toi) one.push_back(t); for(auto&t:rel) two.push_back(t);
    vector<int> all,st={64,64+2},nz={8,16,24,16+2,8+3}; all=E?nz:M5; vector<int> few=E?nz:vector<int>{0,2,3}, df=E?vector<int>{8,16,24}:M0;
    if(PROP=="C32"){ one.push_back("nan"); // no judgement of results: any bit pattern
      auto Z=[&](vector<string> ops,int cl,int el,vector<int> modes,vector<int> fmts={0,1,2},int sl=3){ Plan p; p.ops=ops; p.fmts=fmts; p.modes=modes; p.sl=sl; for(int i=0;i<3;i++){p.cl[i]=cl;p.el[i]=el;} P.push_back(p); };
      Z(one,Q?1:2,Q?1:2,{0,2}); P.back().edge=true; Z(bas,0,0,{0,3}); if(!Q) Z(bas,1,0,{0,3}); Z(two,0,Q?-1:0,{0,2}); Z(sc,0,Q?0:1,{0}); Z(fri,0,0,{0,3}); Z({"fma"},0,-1,{0},{0,1,2},0); Z({"sqrt"},1,1,{0}); H(bas,{0}); H({"fma"},{0}); Z(el1,Q?0:1,Q?0:1,{0}); P.back().small=true; Z({"hypot","atan2","pow"},0,-1,{0},Q?vector<int>{0,1}:vector<int>{0,1,2},Q?1:3); if(Q) Z({"hypot","atan2","pow"},0,-1,{0},{2},0);
      dom="memory safety"; goto planned; }
    A(one,{2,1,2,1,2,1},{3,2,3,2,2,2},2,all); A(bas,{0,1,0,1,0,1},{1,1,1,1,0,1},2,all,"110","111"); H(bas,E?vector<int>{8,16,24,8+2,16+3}:vector<int>{0,2}); A(two,{0,1,0,1,0,0},{1,1,1,1,0,1},2,few); A(sc,{0,1,0,1,0,1},{1,1,1,1,1,1},2,df); A(fri,{0,0,0,0,0,0},{1,0,1,0,1,0},0,df);
    A({"fma"},{0,0,0,0,-1,0},{0,0,0,0,0,0},E?0:1,E?vector<int>{16}:M0); A(rt,{0,0,0,0,0,0},{1,1,0,1,0,0},1,df);
    if(!E){ for(auto*l:{&one,&bas,&two,&sc,&fri}) A(*l,{0,0,0,0,0,0},{0,1,0,1,0,1},1,st); A(rt,{0,0,0,0,0,0},{0,0,0,0,0,0},1,{64}); A(el1,{0,0,0,0,0,0},{0,1,0,1,0,0},1,{64}); A(el2,{0,-1,0,-1,0,-1},{0,0,0,0,0,0},1,{64}); if(Q){ P.pop_back(); Plan p; p.ops=el2; p.fmts={0,1}; p.cl[0]=p.cl[1]=0; p.el[0]=p.el[1]=-1; p.modes={64}; P.push_back(p);} }
    dom=E?"every operation under each binary rounding direction":"exception flags"; }
  else { fprintf(stderr,"unknown property %s\n",PROP.c_str()); return 2; }
  planned:
  string ops; for(auto&p:P) for(auto&o:p.ops) if(ops.find(" "+o)==string::npos) ops+=" "+o;
  x.rule="All operand combinations from boundary alphabets (coefficients at 0,1,2,5, powers of ten and two and neighbours, halves, all nines; exponents at and around 0, the precision, and both range ends; zeros, infinities, quiet and signaling NaNs; non-canonical encodings of all of them; operands whose exact result lies at or next to a rounding boundary; every relative alignment in the sliding sweeps) under every listed decimal rounding direction, executed on the built library through compiled C operators and functions, for "+dom+":"+ops+". Each post-state (result bits, second result, errno, flags, rounding mode) is compared with an exact integer reference model. A state is a distinct observed post-state; a transition is one library call; a trace is one operand row replayed step by step.";
  x.assumptions={"operands outside the stated alphabets behave like those inside","gcc 13.3 on x86_64 with software decimal arithmetic in binary-integer encoding"};
  x.samples={"divisions of 5000001 by 3 under upward rounding","the largest finite value plus half a unit in the last place","signaling NaN against zero"};
  if(PROP=="C02") x.samples={"a product of 68 digits cancelled by its rounded value","infinity times zero plus NaN","subnormal product plus tiny opposite addend in all directions"};
  return x.main([&](Worker&w){ for(auto&p:P) run(w,p); });
}
