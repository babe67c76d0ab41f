// C++ stream insertion and extraction:  stream C29 --tier quick
// Every formatting state x value, and every string over the number alphabet x
// every short program of stream operations, against an exact model.
#include "explore.hpp"
#include "alphabet.hpp"
#include "textref.hpp"
#include "cxshim.h"
using namespace xp; using namespace tx;
static string pr(const string&s){ string r; for(unsigned char c:s){ if(c<32||c>=127||c=='\\'||c==' '){ char b[8]; snprintf(b,8,"\\%02x",c); r+=b; } else r+=c; } return r.empty()?"\\e":r; }
static string upr(const string&s){ if(s=="\\e") return ""; string r; for(size_t i=0;i<s.size();i++) if(s[i]=='\\'&&i+2<s.size()){ r+=(char)strtol(s.substr(i+1,2).c_str(),0,16); i+=2; } else r+=s[i]; return r; }
static int EOFB,FAILB,BADB;
struct T { string kind; int fi=0,mode=0; u128 v=0,v2=0; cx_fmt f{}; string s,prog; };
static string key(const T&t){ std::ostringstream o; o<<t.kind<<' '<<(32<<t.fi)<<' '<<t.mode; if(t.kind=="put") o<<' '<<hx(t.v)<<' '<<hx(t.v2)<<' '<<t.f.fixed<<t.f.sci<<t.f.up<<t.f.adj<<' '<<t.f.prec<<' '<<t.f.width<<' '<<(int)t.f.fill; else o<<' '<<pr(t.s)<<' '<<t.prog; return o.str(); }
static bool unkey(const string&k,T&t){ std::istringstream i(k); int b; if(!(i>>t.kind>>b>>t.mode)) return false; t.fi=b==32?0:b==64?1:2; if(t.kind=="put"){ string a,c,fl; int fill; if(!(i>>a>>c>>fl>>t.f.prec>>t.f.width>>fill)||fl.size()!=4) return false; t.v=unhx(a); t.v2=unhx(c); t.f.fixed=fl[0]-'0'; t.f.sci=fl[1]-'0'; t.f.up=fl[2]-'0'; t.f.adj=fl[3]-'0'; t.f.fill=fill; return true; } string a; if(!(i>>a>>t.prog)) return false; t.s=upr(a); return true; }

// can s begin a number?
static bool begins(const string&s){ size_t i=0,n=s.size(); if(i<n&&(s[i]=='+'||s[i]=='-')) i++; string w; for(size_t j=i;j<n;j++) w+=(char)lo(s[j]);
  for(string k:{"infinity","nan"}) if(w==k.substr(0,w.size())) return true;
  if(w.substr(0,4)=="nan("){ for(i=4;i<w.size();i++){ if(w[i]==')') return i+1==w.size(); if(!alnumc(w[i])&&w[i]!='_') return false; } return true; }
  bool dig=false; while(i<n&&isdigit((unsigned char)s[i])){ i++; dig=true; } if(i<n&&s[i]=='.'){ i++; while(i<n&&isdigit((unsigned char)s[i])){ i++; dig=true; } }
  if(i<n&&dig&&lo(s[i])=='e'){ i++; if(i<n&&(s[i]=='+'||s[i]=='-')) i++; while(i<n&&isdigit((unsigned char)s[i])) i++; } return i==n; }
struct M { string s; size_t pos=0; int st=0; bool skip=true; };
static bool ws(char c){ return c==' '||(c>='\t'&&c<='\r'); }
static bool sentry(M&m){ if(m.st){ m.st|=FAILB; return false; } if(m.skip){ while(m.pos<m.s.size()&&ws(m.s[m.pos])) m.pos++; if(m.pos==m.s.size()){ m.st|=EOFB|FAILB; return false; } } return true; }
static bool run(const T&t,string&o,string&why){ shim_setround(t.mode);
  if(t.kind=="put"){ Spec sp; bool A=t.f.fixed&&t.f.sci; sp.conv= A?'a':t.f.fixed?'f':t.f.sci?'e':'g'; if(t.f.up) sp.conv-=32; int pc=t.f.prec<0?6:t.f.prec; sp.prec=A?-1:std::min(pc,FM[t.fi].p);
    string want; u128 vv[2]={t.v,t.v2}; for(u128 v:vv){ string b=format(t.fi,dec(t.fi,v),t.mode,sp); long pad=t.f.width-(long)b.size(); if(pad>0){ if(t.f.adj==1) b+=string(pad,t.f.fill); else b=string(pad,t.f.fill)+b; } want+=b+"|"; }
    static char B[40000]; int st=0; long n=cx_put(t.fi,&t.f,2,vv,"|",B,sizeof B,&st); string g=n<0?"exception":n>=(long)sizeof B?"too long":B; o=pr(g.substr(0,300))+" "+std::to_string(st); if(st!=0){ why="stream state"; return false; } if(g!=want){ why="text: want "+pr(want.substr(0,300)); return false; } return true; }
  cx_res r[16]; M m; m.s=t.s; int n=cx_get(t.fi,t.s.c_str(),t.prog.c_str(),r); bool ok=true; 
  for(int i=0;i<n;i++){ char c=t.prog[i]; u128 wd=0; bool keep=false; int wc=0; string rest; 
    if(c=='x'){ if(!sentry(m)) keep=true; else { string got; while(m.pos<m.s.size()&&begins(got+m.s[m.pos])) got+=m.s[m.pos++]; if(m.pos==m.s.size()) m.st|=EOFB; Parsed p=parse(t.fi,got,t.mode); if(got.empty()||p.none||p.end!=(long)got.size()){ m.st|=FAILB; wd=enc(t.fi,mkfin(false,0,0)); } else { wd=enc(t.fi,p.d); if(p.d.nan()) wd=0; } 
        o+=show(dec(t.fi,r[i].d))+"/"+std::to_string(r[i].st)+" "; D g=dec(t.fi,r[i].d); D w=(got.empty()||p.none||p.end!=(long)got.size())?mkfin(false,0,0):p.d; if(!sameval(g,w)){ why="value: step "+std::to_string(i)+" want "+show(w); ok=false; } }
      if(keep){ u128 ones=t.fi==0?(u128)0xffffffffu:t.fi==1?(u128)~0ULL:~(u128)0; o+="kept/"+std::to_string(r[i].st)+" "; if(r[i].d!=ones){ why="value: changed although nothing was extracted"; ok=false; } } }
    else if(c=='c'){ wc=1; if(sentry(m)){ if(m.pos<m.s.size()) wc=(unsigned char)m.s[m.pos++]; else m.st|=EOFB|FAILB; } o+="c"+std::to_string(r[i].c)+" "; if(r[i].c!=wc){ why="rest: step "+std::to_string(i)+" want char "+std::to_string(wc); ok=false; } }
    else if(c=='k') m.st=0; else if(c=='n') m.skip=false;
    else if(c=='r'){ if(m.st){ m.st|=FAILB; } else { rest=m.s.substr(m.pos); m.pos=m.s.size(); m.st|=EOFB; if(rest.empty()) m.st|=FAILB; } string g=r[i].rest; o+="["+pr(g)+"] "; if(g!=rest.substr(0,63)){ why="rest: want "+pr(rest); ok=false; } }
    if(ok&&r[i].st!=m.st){ why="state: step "+std::to_string(i)+" want "+std::to_string(m.st)+" got "+std::to_string(r[i].st); ok=false; } if(!ok) return false; }
  return true; }
static void go(Worker&w,const T&t){ string k=key(t); w.setcur(k); string o,why; bool ok=run(t,o,why); w.tr++; w.state(hstr(t.kind+o)); if(!ok) w.fail(k,o,why); }
int main(int argc,char**argv){ if(argc<2) return 2; cx_bits(&EOFB,&FAILB,&BADB); Explorer x(argv[1],argc-1,argv+1); bool Q=x.quick();
  x.runkey=[](const string&k,string&o,string&why){ T t; if(!unkey(k,t)){ why="unparsable"; return true; } return run(t,o,why); };
  x.rule="Insertion: every combination of fixed, scientific, uppercase, adjustment, precision (unset, 0..p+3), width and fill x values over the whole exponent range x five rounding directions, two values per stream. Extraction: every string of up to 5 (thorough 6) characters over the symbols of a number (digits, point, e, sign, space, letters of inf and nan, parentheses, a foreign letter), a grammar family of numbers separated by spaces and punctuation, and long digit strings, x programs of stream operations (extract, extract a character, clear, noskipws, read the rest): values, stream state after each step and remaining characters compared with an exact model. A state is a distinct output; a transition is one program; a trace is one value or string.";
  x.samples={"fixed << 9.999E+6144 (decimal128)","\"1.5,2.5\" >> decimal64 >> char >> decimal64","\"1e+ 2\" >> decimal32"};
  x.assumptions={"the C locale","showpos, showpoint and precision beyond the format's digit count are not honoured by the library and not claimed"};
  x.one.size();
  auto body=[&](Worker&w){
    for(int fi=0;fi<3;fi++){ const Fmt&f=FM[fi]; vector<u128> vs; std::set<int> ex={0,-1,-3,-f.p,-f.p-6,1,3,5,f.p,30,60,f.qmin,f.qmax,f.qmax/2,f.qmin/2}; for(u128 c:al::coefs(fi,Q?0:1)) for(int e:ex) if(e>=f.qmin&&e<=f.qmax) for(int s=0;s<2;s++){ if(s&&c%2) continue; vs.push_back(al::E(fi,s,c,e)); } for(u128 v:al::specials(fi,2)) vs.push_back(v);
      vs=al::uniq(vs); u128 v2=al::E(fi,1,25,-1);
      for(u128 v:vs){ if(!w.row()) continue; for(int st=0;st<8;st++) for(int p:{-1,0,1,2,5,f.p-1,f.p,f.p+3}) for(int m:{0,1,2,3,4}) for(int wd:{0,1,12,70}) for(int adj=0;adj<4;adj++){ if(wd==0&&adj) continue; if(m&&wd) continue; T t; t.kind="put"; t.fi=fi; t.mode=m; t.v=v; t.v2=v2; t.f={st&1,st>>1&1,st>>2&1,adj,p,wd,wd==12?'*':' '}; go(w,t); } w.trace(); } }
    const string A="1.e- +in9(x"; int N=Q?(x.safe?4:5):6; vector<string> progs={"xr","xcxr","xxkr","nxkxr"};
    for(int len=0;len<=N;len++){ std::vector<int> ix(len,0); for(;;){ if(w.row()){ string s; for(int k:ix) s+=A[k]; T t; t.kind="get"; t.s=s; t.fi=len%3; for(size_t pi=0;pi<progs.size();pi++){ t.prog=progs[pi]; go(w,t); t.fi=(t.fi+1)%3; } w.trace(); } int k=len-1; while(k>=0&&++ix[k]==(int)A.size()) ix[k--]=0; if(k<0) break; } }
    vector<string> nums={"0","-0.00","1.5","+7e2",".5","5.","12e-3","1E+2","inf","-INFINITY","nan","NaN(12)","-nan(a_1)","9999999999999999999999999999999999999999","0.00000000000000000000000000000000000000001","1e99999","1e-99999","1.000000500000000000000000000000000000000000001","000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000001.5",string(300,'3'),"1."+string(200,'0')+"1","infin","nan(1","1e+","-","+.","e5","x","(1)",""};
    for(int fi=0;fi<3;fi++) for(auto&a:nums) for(string sep:{" ","","\n",",","  \t","e","x",";","+","-","."," ,","'"}) for(auto&b:nums){ if(!w.row()) continue; for(string prog:{"xxr","xcxr","xkcxkr","xkxkxr","ckxr","nxxkr","xxxkr"}) for(string pre:{""," "}) for(int m:{0,2}){ T t; t.kind="get"; t.fi=fi; t.mode=m; t.s=pre+a+sep+b; t.prog=prog; go(w,t); } w.trace(); } };
  return x.main(body); }
