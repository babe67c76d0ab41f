// Exhaustive exploration of formatting and parsing:  text C15 --tier quick
#include "explore.hpp"
#include "alphabet.hpp"
#include "textref.hpp"
#include <cwchar>
using namespace xp; using namespace tx;
static string PROP; static bool Q=true;
static string es(const string&s){ string r; for(unsigned char c:s){ if(c<=32||c>=127||c=='\\'){ char b[8]; snprintf(b,8,"\\%02x",c); r+=b; } else r+=c; } return r.empty()?"\\e":r; }
static string ue(const string&s){ if(s=="\\e") return ""; string r; for(size_t i=0;i<s.size();i++) if(s[i]=='\\'&&i+2<s.size()){ r+=(char)strtol(s.substr(i+1,2).c_str(),0,16); i+=2; } else r+=s[i]; return r; }
static string cut(const string&s){ return s.size()<=90?s:s.substr(0,60)+"...("+std::to_string(s.size())+" chars)..."+s.substr(s.size()-20); }

// kinds: printf star strfrom strto wcsto round wprintf
struct T { string kind; int fi=0, mode=0; u128 v=0; string a; long n=-1; int s1=0,s2=0; };
static string key(const T&t){ std::ostringstream o; o<<t.kind<<' '<<(32<<t.fi)<<' '<<t.mode<<' '<<hx(t.v)<<' '<<es(t.a)<<' '<<t.n<<' '<<t.s1<<' '<<t.s2; return o.str(); }
static bool unkey(const string&s,T&t){ std::istringstream i(s); int b; string v,a; if(!(i>>t.kind>>b>>t.mode>>v>>a>>t.n>>t.s1>>t.s2)) return false; t.fi=b==32?0:b==64?1:2; t.v=unhx(v); t.a=ue(a); return true; }
static char BUF[70000];
extern "C" int shim_swprintf(int fmt,wchar_t*buf,size_t n,const wchar_t*format,u128 v);
extern "C" int shim_mixed(int seq,int p,char*buf,size_t n,const char*f);
#include <sys/mman.h>
// the string ends where an unmapped page begins
static char*atend(const void*src,size_t len){ static char*base=0; const size_t SZ=1<<20; if(!base){ base=(char*)mmap(0,SZ+4096,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS,-1,0); mprotect(base+SZ,4096,PROT_NONE); } if(len>SZ) abort(); char*q=base+SZ-len; memcpy(q,src,len); return q; }
static std::wstring widen(const string&s){ return std::wstring(s.begin(),s.end()); }

static bool run(const T&t,string&o,string&why){
  shim_setround(t.mode);
  if(t.kind=="printf"||t.kind=="star"||t.kind=="wprintf"){ Spec sp; if(!parsefmt(t.a,sp)){ why="bad case"; return true; }
    string f=t.a; int ns=0,a1=0,a2=0;
    if(t.kind=="star"){ // the same directive with width/precision passed as arguments
      f="%"; if(sp.left&&t.s1>=0)f+='-'; if(sp.plus)f+='+'; if(sp.space)f+=' '; if(sp.alt)f+='#'; if(sp.zero)f+='0'; f+="*.*"; f+= t.fi==0?"H":t.fi==1?"D":"DD"; f+=sp.conv; ns=2; a1=t.s1; a2=t.s2; sp.width=abs(t.s1); if(t.s1<0) sp.left=1; sp.prec=t.s2<0?-1:t.s2; }
    string w=format(t.fi,dec(t.fi,t.v),t.mode,sp); string g; int r;
    if(t.kind=="wprintf"){ static wchar_t WB[20000]; std::wstring wf=widen(f); wmemset(WB,L'~',20000); r=shim_swprintf(t.fi,WB,20000,wf.c_str(),t.v); for(size_t i=0;WB[i]&&i<19999;i++) g+=(char)WB[i]; }
    else { memset(BUF,'~',sizeof BUF<20000?sizeof BUF:20000); size_t n=t.n<0?sizeof BUF:(size_t)t.n; r=shim_snprintf(t.fi,BUF,n,f.c_str(),ns,a1,a2,t.v);
      if(n){ if(strnlen(BUF,n)==n) { o="unterminated"; why="buffer not terminated: n="+std::to_string(n); return false; } g=BUF; } 
      if(BUF[n]!='~'&&n<1000){ o="overrun"; why="write past the buffer"; return false; } if(t.n>=0){ w.resize(w.size()); string full=w; if(n) w=full.substr(0,n-1); else w=""; o="\""+cut(g)+"\" "+std::to_string(r); if(r!=(int)full.size()){ why="count: want "+std::to_string(full.size()); return false; } if(g!=w){ why="text: want \""+cut(w)+"\""; return false; } return true; } }
    o="\""+cut(g)+"\" "+std::to_string(r);
    if(g!=w){ why="text: want \""+cut(w)+"\""; return false; }
    if(r!=(int)w.size()){ why="count: want "+std::to_string(w.size()); return false; }
    return true; }
  if(t.kind=="mixed"){ // s1: sequence, s2: 0 registers, 1 stack, +2 positional in reverse order
    static const char*MB[9]={"H","D","DD","d","ld","f","Lf","s","c"}; static const char*PT[9]={"","","","-42","9000000000","2.500000","0.125000","str","c"};
    static const u128 VV[3]={enc(0,mkfin(false,12345,-1)),enc(1,mkfin(true,15625,-7)),enc(2,mkfin(false,fromu128((u128)123456789012345678ULL*al::P10(16)+9012345678901234ULL),-6))};
    int ix[3]={t.s1/81,t.s1/9%9,t.s1%9}; bool stk=t.s2&1, pos=t.s2&2; string f,w; if(stk&&!pos){ f="%d%d%d%.1f%.1f%.1f%.1f%.1f%.1f%.1f%.1f|"; w="1231.52.53.54.55.56.57.58.5|"; }
    static const char*CV="fegaFEGA"; for(int j=0;j<3;j++){ int i=pos?2-j:j; int k=ix[i]; f+="%"; if(pos) f+=std::to_string(i+1+(stk?11:0))+"$"; if(k<3){ Spec sp; sp.conv=CV[(t.s1+j*3)%8]; sp.width=(t.s1%4)*5; if(t.s1%3) sp.prec=t.s1%7+1; string d=fmtstr(k,sp); f+=d.substr(1); w+=format(k,dec(k,VV[k]),t.mode,sp); } else { f+=MB[k]; w+=PT[k]; } f+=";"; w+=";"; }
    if(pos&&stk){ string pre; static const char*PV[11]={"1","2","3","1.5","2.5","3.5","4.5","5.5","6.5","7.5","8.5"}; string pw; for(int i=0;i<11;i++){ pre+="%"+std::to_string(i+1)+(i<3?"$d":"$.1f"); pw+=PV[i]; } f=pre+f; w=pw+w; }
    char b[600]; memset(b,'~',sizeof b); int r=shim_mixed(t.s1,stk,b,500,f.c_str()); string g=b; o="\""+cut(g)+"\" "+std::to_string(r)+" of \""+f+"\""; if(g!=w){ why="text: want \""+w+"\""; return false; } if(r!=(int)w.size()){ why="count: want "+std::to_string(w.size()); return false; } return true; }
  if(t.kind=="strfrom"){ Spec sp; if(!parsefmt(t.a,sp)){ why="bad case"; return true; }
    string full=format(t.fi,dec(t.fi,t.v),t.mode,sp); string w=full; size_t n=t.n<0?sizeof BUF-8:(size_t)t.n; memset(BUF,'~',n<20000?20000:sizeof BUF); if(n>=20000) BUF[sizeof BUF-1]=0;
    int r=shim_strfrom(t.fi,BUF,n,t.a.c_str(),t.v); string g; 
    if(n){ if(strnlen(BUF,n)==n){ o="unterminated"; why="not terminated"; return false; } g=BUF; w=full.substr(0,n-1); } else w="";
    if(n<10000&&BUF[n]!='~'){ o="overrun"; why="write past the buffer"; return false; }
    o="\""+cut(g)+"\" "+std::to_string(r);
    if(g!=w){ why="text: want \""+cut(w)+"\""; return false; }
    if(r!=(int)full.size()){ why="count: want "+std::to_string(full.size()); return false; }
    return true; }
  if(t.kind=="strto"||t.kind=="wcsto"){ shim_out so; long end=-7; Parsed p=parse(t.fi,t.a,t.mode);
    bool noend=t.n==0;
    if(t.kind=="strto") shim_strto(t.fi,atend(t.a.c_str(),t.a.size()+1),noend?0:&end,&so); else { std::wstring w=widen(t.a); shim_wcsto(t.fi,(wchar_t*)atend(w.c_str(),(w.size()+1)*sizeof(wchar_t)),noend?0:&end,&so); }
    D g=dec(t.fi,so.d); o=show(g)+" end="+std::to_string(end)+" errno="+std::to_string(so.err);
    if(!noend&&end!=p.end){ why="end: want "+std::to_string(p.end); return false; }
    if(!sameval(g,p.d)){ why="value: want "+show(p.d); return false; }
    if(!canonical(t.fi,so.d)){ why="encoding not canonical"; return false; }
    if(so.mode!=t.mode){ why="rounding direction changed"; return false; }
    if(p.over&&so.err!=ERANGE){ why="errno: overflow without ERANGE"; return false; }
    if(!p.over&&!p.tiny&&g.fin()&&so.err==ERANGE){ const Fmt&f=FM[t.fi]; if(!(g.c!=0&&((int)ndig(g.c)+g.e-1<emin(f)||(g.c==p10(f.p-1)&&g.e==f.qmin)))){ why="errno: ERANGE without range error"; return false; } }
    if(p.tiny){ bool zero=true; for(char c:t.a){ if((c|32)=='e') break; if(c>='1'&&c<='9') zero=false; } if(zero?so.err!=0:so.err!=ERANGE){ why=string("errno: underflow to zero ")+(zero?"of zero":"without ERANGE"); return false; } }
    return true; }
  if(t.kind=="round"){ // print, parse back
    char b[20000]; string f=t.a; int k=shim_snprintf(t.fi,b,sizeof b,f.c_str(),0,0,0,t.v); (void)k; shim_out so; long end; shim_strto(t.fi,b,&end,&so); D g=dec(t.fi,so.d), v=dec(t.fi,t.v); o=string("\"")+cut(b)+"\" "+show(g)+" end="+std::to_string(end);
    if(b[end]){ why="parse stopped early"; return false; }
    char c=f.back()|32; bool same= c=='a'? sameval(g,v) : (v.fin()? g.fin()&&g.s==v.s&&eqnum(g,v) : sameval(g,v));
    if(!same){ why="value: want "+show(v); return false; }
    return true; }
  why="unknown kind"; return true; }

static void go(Worker&w,const T&t){ string k=key(t); w.setcur(k); string o,why; bool ok=run(t,o,why); w.tr++; w.state(hstr(t.kind+o)); if(!ok) w.fail(k,o,why); }

static vector<u128> vals(int fi,int cl,bool wide){ vector<u128> v; const Fmt&f=FM[fi]; std::set<int> E; for(int e=-f.p-10;e<=12;e++) if(e>=f.qmin) E.insert(e); for(int e:{20,-50,f.qmin,f.qmax,f.qmin+1,f.qmax-1,-90,-100,90,-101,-99,99}) if(e>=f.qmin&&e<=f.qmax) E.insert(e); if(wide) for(int e:al::exps(fi,2)) E.insert(e);
  for(u128 c:al::coefs(fi,cl)) for(int e:E) for(int s=0;s<2;s++){ if(s&&cl>=1&&c%3) continue; v.push_back(al::E(fi,s,c,e)); } for(u128 x:al::specials(fi,2)) v.push_back(x); return al::uniq(v); }

static void printfs(Worker&w,const char*kind,int cl,bool wide,const vector<int>&P,const string&convs,const vector<int>&modes){
  bool mod=string(kind)!="strfrom";
  for(int fi=0;fi<3;fi++) for(u128 v:vals(fi,cl,wide)){ if(!w.row()) continue; for(char cv:convs) for(int p:P){ Spec sp; sp.conv=cv; sp.prec=p; if((cv|32)=='a'&&p==0) { D d=dec(fi,v); if(d.fin()&&ndig(d.c)>1) continue; }
      T t; t.kind=kind; t.fi=fi; t.v=v; t.a=fmtstr(fi,sp,mod); for(int m:modes){ t.mode=m; go(w,t); } } w.trace(); } }
static void bigprec(Worker&w,const char*kind){ bool mod=string(kind)!="strfrom"; for(int fi=0;fi<3;fi++) { const Fmt&F=FM[fi]; vector<u128> V; for(u128 c:{(u128)0,(u128)1,(u128)15,(u128)995,al::P10(F.p)-1,5*al::P10(F.p-1)}) for(int e:{0,-1,-3,-F.p,F.qmin,F.qmax}) V.push_back(al::E(fi,e&1,c,e)); for(u128 x:al::specials(fi,2)) V.push_back(x); for(u128 v:V){ if(!w.row()) continue; for(char cv:string("efga")) for(int p:{20,50,77,99,100,101,340,398,404,999,1000,1001,4095,4096,6176,6200,9999,10000,12345}){ Spec sp; sp.conv=cv; sp.prec=p; T t; t.kind=kind; t.fi=fi; t.v=v; t.a=fmtstr(fi,sp,mod); go(w,t); t.mode=3; go(w,t); if(mod){ sp.width=p+p/2; sp.zero=p&1; t.mode=0; t.a=fmtstr(fi,sp,mod); go(w,t); } } w.trace(); } } }
static void allexps(Worker&w,const char*kind){ bool mod=string(kind)!="strfrom"; for(int fi=0;fi<3;fi++) for(int e=FM[fi].qmin;e<=FM[fi].qmax;e++){ if(!w.row()) continue; for(u128 c:{(u128)0,(u128)1,(u128)95,(u128)123456,al::P10(FM[fi].p)-1,5*al::P10(FM[fi].p-1)}) for(char cv:string("ega")) for(int p:{-1,1,4}){ if(cv=='a'&&p==0) continue; Spec sp; sp.conv=cv; sp.prec=p; T t; t.kind=kind; t.fi=fi; t.v=al::E(fi,c&1,c,e); t.a=fmtstr(fi,sp,mod); go(w,t); } if(e>=-400&&e<400){ Spec sp; T t; t.kind=kind; t.fi=fi; t.v=al::E(fi,e&1,123456,e); t.a=fmtstr(fi,sp,mod); go(w,t); } w.trace(); } }
static void mixed(Worker&w){ for(int s=0;s<729;s++){ if(!w.row()) continue; for(int k=0;k<4;k++) for(int m=0;m<5;m++){ T t; t.kind="mixed"; t.s1=s; t.s2=k; t.mode=m; go(w,t); } w.trace(); } }
static void flags(Worker&w,const char*kind,bool rich){ vector<int> W=rich?vector<int>{0,1,2,4,6,7,9,12,17,25,40,60}:vector<int>{0,1,6,9,17,40};
  for(int fi=0;fi<3;fi++){ vector<u128> vs; for(u128 c:{(u128)0,(u128)1,(u128)15,(u128)9999,(u128)1234567,al::P10(FM[fi].p)-1,al::P10(FM[fi].p-1)}) for(int e:{0,-1,-4,-9,3,-FM[fi].p-2,11}) for(int s=0;s<2;s++) vs.push_back(al::E(fi,s,c,e)); for(u128 x:al::specials(fi,2)) vs.push_back(x);
    for(u128 v:vs){ if(!w.row()) continue; for(char cv:string("eEfgGaA")) for(int p:{-1,0,1,3,8}) for(int fl=0;fl<32;fl++) for(int wd:W){ Spec sp; sp.conv=cv; sp.prec=p; sp.left=fl&1; sp.plus=fl>>1&1; sp.space=fl>>2&1; sp.alt=fl>>3&1; sp.zero=fl>>4&1; sp.width=wd; D d=dec(fi,v);
        if((cv|32)=='a'&&(p==0&&d.fin()&&ndig(d.c)>1)) continue; 
        if(string(kind)=="star"){ T t; t.kind=kind; t.fi=fi; t.v=v; Spec b=sp; b.width=0; b.prec=-1; t.a=fmtstr(fi,b); t.s1=sp.left?-wd:wd; t.s2=p; if(sp.left){ b.left=0; t.a=fmtstr(fi,b);} if(wd==0&&sp.left) continue; go(w,t); continue; }
        T t; t.kind=kind; t.fi=fi; t.v=v; t.a=fmtstr(fi,sp); go(w,t); } w.trace(); } } }

// ---- input strings -----------------------------------------------------------
static vector<string> strings(int fi,bool rich){ std::set<string> S; const Fmt&f=FM[fi]; int p=f.p;
  // every syntax skeleton: space, sign, integer part, point, fraction, exponent, tail
  for(string ws:{""," ","\t\n "}) for(string sg:{"","-","+","--","+-"}) for(string ip:{"","0","00","7","12","007","999"}) for(string pt:{"",".",".."}) for(string fp:{"","0","00","5","05","500","1x"}) for(string ex:{"","e","e+","e-","E5","e-3","e+0","e00012","e-000","ex","e 5","e5.2"}) for(string tl:{""," ","x",".","e1"}){ if(pt.empty()&&!fp.empty()) continue; S.insert(ws+sg+ip+pt+fp+ex+tl); }
  for(string sg:{"","-","+"," +"}) for(string b:{"inf","INF","infinity","Infinity","INFINITYx","infinit","in","i","nan","NaN","NAN()","nan(123)","nan(abc_9)x","nan(","nan(12","nan(-)","na","n","nanx","inf.","nan(1)(2)","0x10","0x","1_000","1,000","1e","p5","e5",".e5","-.","+.","."," ","","infinitYE","nan( )","0e","0.e","00.","0x1p3","1e+-5","0.0.0"}) S.insert(sg+b);
  // digits x exponents: rounding positions
  vector<string> D; auto A=[&](string s){ D.push_back(s); };
  for(int n:{1,2,p-1,p,p+1,p+2,2*p,40,60,100}) { string nines(n,'9'), ones="1"+string(n-1,'0'), th(n,'3'); A(nines); A(ones); A(th); A(ones.substr(0,n-1)+"1"); A(string(n-1,'1')+"5"); }
  for(string head:{string("1")+string(p-1,'0'),string("1")+string(p-2,'0')+"1",string(p,'9'),string(p-1,'9')+"8",string("4")+string(p-1,'2')}) for(string tail:{"4","5","6","49","50","51","49999999999999999999999999999999999999999","50000000000000000000000000000000000000000","50000000000000000000000000000000000000001","0","00000000","000000000000000000000000000000000000000000000000000000000001","5000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000001","99999999"}) A(head+tail);
  if(rich) for(int k=1;k<p+6;k++) for(int d=0;d<10;d++) A("2"+string(k-1,'4')+char('0'+d)+"7"+string(3,'1'));
  vector<int> X; for(int x:{0,1,-1,5,-5,10,-10}) X.push_back(x); for(int d=-3;d<=3;d++){ X.push_back(f.qmax+d); X.push_back(f.qmin+d); X.push_back(f.qmax+p+d); X.push_back(f.qmin+p+d); X.push_back(f.qmin-p+d); X.push_back(f.qmin+p/2+d); }
  for(int x:{2000,-2000,7000,-7000,100000,-100000}) X.push_back(x);
  for(auto&d:D){ S.insert(d); S.insert("-0."+d); S.insert("0.000"+d); S.insert(d+".0"); S.insert("-"+d+"."); S.insert(d+"000"); for(size_t k: {size_t(1),d.size()/2,d.size()-1}) if(k>0&&k<d.size()) S.insert(d.substr(0,k)+"."+d.substr(k));
    for(int x:X){ S.insert(d+"e"+std::to_string(x)); S.insert("-"+d.substr(0,1)+"."+d.substr(1)+"E"+(x>=0?"+":"")+std::to_string(x)); if(rich) S.insert("."+d+"e"+std::to_string(x)); if(rich) S.insert("00"+d+"0e"+std::to_string(x)); } }
  // zeros with exponents; exponents that overflow int/long; long zero runs
  for(string z:{"0","0.0","0.000","-0","-0.00000000000000000000000000000000000000000000",".0","00000"}) for(int x:X){ S.insert(z+"e"+std::to_string(x)); }
  for(string m:{"0","1","-9.99","0.0","-0"}) for(string x:{"2147483647","2147483648","4294967296","4294967297","-2147483648","-2147483649","-4294967296","9223372036854775807","9223372036854775808","-9223372036854775809","18446744073709551616","99999999999999999999999999","-99999999999999999999999999","0000000000000000000000000000002","-000000000000000000000000003"}) S.insert(m+"e"+x);
  for(int n:{50,100,400,1000,7000}){ string z(n,'0'); S.insert("0."+z+"123"); S.insert("-0."+z+"1"); S.insert("0."+z+"123e"+std::to_string(n)); S.insert("123"+z); S.insert("123"+z+"e-"+std::to_string(n)); S.insert(z+"5"); S.insert("1"+z+"."+z+"1e-"+std::to_string(n)); S.insert("1."+z+"1"); S.insert("-123"+z+".5e-"+std::to_string(n+2)); S.insert("0."+z); S.insert(z+"."+z+"e3"); S.insert("0."+z+"e"+std::to_string(n)); S.insert(string(n,'9')+"e-"+std::to_string(n)); }
  // every string of up to five (thorough: six) characters of the number alphabet
  { const char*AB="019.e-+ "; vector<string> cur={""}; for(int n=0;n<(rich?6:5);n++){ vector<string> nx; for(auto&q:cur) for(const char*c=AB;*c;c++) nx.push_back(q+*c); for(auto&q:nx) S.insert(q); cur=nx; } }
  // every character at every place of some skeletons; every case and every one-character change of the names
  for(int c=1;c<128;c++){ string k(1,(char)c); for(const char*z:{"#","#1","1#","1#2","1.#","1.2#",".#",".#3","1e#","1e#2","1e-#","1e1#","-#","+#2"," #1","0#","nan(#)","nan(1#","nan#","inf#"}){ string q=z; q.replace(q.find('#'),1,k); S.insert(q); }
    for(string q:{"inf","infinity","nan","nan(1)"}) for(size_t i=0;i<q.size();i++){ string r=q; r[i]=(char)c; S.insert(r); S.insert("-"+r); } }
  for(string q:{"inf","nan","infinity"}) for(int m=0;m<(1<<q.size());m++){ string r=q; for(size_t i=0;i<q.size();i++) if(m>>i&1) r[i]-=32; S.insert(r); }
  // every digit at every place; every exponent of the range
  for(int k=0;k<p+3;k++) for(int d=0;d<10;d++) for(string fill:{"0","9","4"}){ string q; for(int i=0;i<p+3;i++) q+=i==k?string(1,(char)('0'+d)):fill; S.insert(q); S.insert("."+q); S.insert("-"+q.substr(0,p/2)+"."+q.substr(p/2)+"e"+std::to_string(f.qmin+2)); S.insert(q+"e"+std::to_string(f.qmax-4)); }
  for(int x=f.qmin-p-4;x<=f.qmax+p+4;x++) for(string q:{string("0"),string("7"),string("-1234.5"),string(p,'9'),string("1.")+string(p,'5')}) S.insert(q+"e"+std::to_string(x));
  return vector<string>(S.begin(),S.end()); }

int main(int argc,char**argv){
  if(argc<2) return 2; PROP=argv[1]; Explorer x(PROP,argc-1,argv+1); Q=x.quick();
  x.runkey=[](const string&k,string&o,string&why){ T t; if(!unkey(k,t)){ why="unparsable"; return true; } return run(t,o,why); };
  vector<int> M5={0,1,2,3,4}; vector<int> PR={-1,0,1,2,3,4,5,6,7,8,12,15,16,17,33,34,35,45};
  x.assumptions={"the C locale except where stated","glibc 2.39 printf hooks; gcc 13.3 on x86_64, binary-integer encoding","inputs outside the stated alphabets behave like those inside"};
  std::function<void(Worker&)> body;
  if(PROP=="C15"){ x.rule="Every value of the alphabet (coefficient patterns x exponents -p-10..12 and range ends, zeros, infinities, NaNs, non-canonical encodings, both signs) x conversions e f g a and upper case x precisions none,0..45 x five rounding directions through snprintf; all 32 flag combinations x widths x precisions on a core of values, also with * arguments, through swprintf, and every sequence of six mixed decimal, integer and floating directives in one format, passed in registers, on the stack and positionally; output text and return count compared with an exact formatter. A state is a distinct output; a transition is one formatting call; a trace is one value's row.";
    x.samples={"%.0De of 9.5 under ties-away","%+#012.3DDg of -0E-9","%a of 999999.5 rounded to 3 digits upward"};
    body=[&](Worker&w){ printfs(w,"printf",Q?0:1,!Q,PR,"efga",M5); printfs(w,"printf",0,false,{-1,2},"EFGA",{0}); mixed(w); bigprec(w,"printf"); allexps(w,"printf"); flags(w,"printf",!Q); flags(w,"star",false); printfs(w,"wprintf",0,false,{-1,0,3},"efga",{0}); }; }
  else if(PROP=="C16"){ x.rule="strfromd32/64/128 on every value of the alphabet x conversions x precisions x five directions into an ample buffer, and on a core of values with every buffer size 0..len+2: text, truncation, terminator, return count and absence of writes past the buffer compared with an exact formatter. A state is a distinct output; a transition is one call; a trace is one value's row.";
    x.samples={"strfromd64 of 12.5 %.3f into 0, 1, 2 .. 9 bytes","strfromd32 of -infinity","strfromd128 %a of a 34-digit coefficient"};
    body=[&](Worker&w){ bigprec(w,"strfrom"); allexps(w,"strfrom"); printfs(w,"strfrom",Q?0:1,!Q,PR,"efga",M5); printfs(w,"strfrom",0,false,{-1,2},"EFGA",{0});
      for(int fi=0;fi<3;fi++) for(u128 v:vals(fi,0,false)){ if(!w.row()) continue; for(char cv:string("efgaA")) for(int p:{-1,1,5}){ Spec sp; sp.conv=cv; sp.prec=p; string full=format(fi,dec(fi,v),0,sp); vector<long> N; if(full.size()<64) for(size_t n=0;n<=full.size()+2;n++) N.push_back(n); else for(long n:{0L,1L,2L,3L,10L,(long)full.size()-1,(long)full.size(),(long)full.size()+1}) N.push_back(n); for(long n:N){ T t; t.kind="strfrom"; t.fi=fi; t.v=v; t.a=fmtstr(fi,sp,false); t.n=n; go(w,t); } } w.trace(); } }; }
  else if(PROP=="C17"||PROP=="C18"){ x.rule="Every string of the grammar product (white space, signs, integer, point, fraction, exponent, trailing text, infinities, NaNs), of the rounding family (digit strings of up to 7000 digits at every rounding position x exponents around both range ends) and of the exponent-overflow family, in five rounding directions: value, quantum, end pointer and errno compared with an exact parser. A state is a distinct result; a transition is one call; a trace is one string.";
    x.samples={"1.00000050000000000000000000000000000000001 to _Decimal32","-0e-99999999999999999999999999","0.000...0123e400"};
    body=[&](Worker&w){ for(int fi=0;fi<3;fi++) for(auto&s:strings(fi,!Q)){ if(!w.row()) continue; T t; t.kind=PROP=="C17"?"strto":"wcsto"; t.fi=fi; t.a=s; for(int m:M5){ t.mode=m; go(w,t); } t.mode=0; t.n=0; go(w,t); w.trace(); } }; }
  else if(PROP=="C19"){ x.rule="Every value of the alphabets is printed with %a and with enough digits with %e (and parsed back in every rounding direction): %a restores the identical datum (sign, coefficient and exponent), %.(p-1)e restores the value. A state is a distinct text; a transition is one print-parse pair; a trace is one value.";
    x.samples={"0E+90 as %a","9999999999999999E-398","1.000000000000000000000000000000000E+6144"};
    body=[&](Worker&w){ for(int fi=0;fi<3;fi++){ string m=fi==0?"H":fi==1?"D":"DD"; for(u128 v: al::grid(fi,2,2,2)){ if(!w.row()) continue; for(int md:M5){ T t; t.kind="round"; t.fi=fi; t.mode=md; t.v=v; t.a="%"+m+"a"; go(w,t); t.a="%."+std::to_string(FM[fi].p-1)+m+"e"; go(w,t); } w.trace(); } } }; }
  else { fprintf(stderr,"unknown property %s\n",PROP.c_str()); return 2; }
  return x.main(body);
}
