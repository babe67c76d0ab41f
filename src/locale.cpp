// Locale dependent text:  locale C28 --tier quick
// Every (locale, way of selecting it, directive, value) and (locale, string) of
// the alphabets, byte and wide, against the exact formatter and parser.
#include "explore.hpp"
#include "alphabet.hpp"
#include "textref.hpp"
#include <cwchar>
#include <clocale>
#include <langinfo.h>
using namespace xp; using namespace tx;
extern "C" int shim_swprintf(int fmt,wchar_t*buf,size_t n,const wchar_t*format,u128 v);
struct Loc { const char*name,*map,*dp,*sep,*grp,*ctype; string dpu,sepu,g; bool latin=false; };
// decimal point and separator in localedef's notation; grouping as written
static vector<Loc> L={
 {"C",0,".","","-1",0,".","",""},
 {"de","UTF-8",",",".","3;3","i18n_ctype",",",".","\3\3"},
 {"in","UTF-8",".",",","3;2","i18n_ctype",".",",","\3\2"},
 {"once","UTF-8",".","_","3;-1","i18n_ctype",".","_","\3\177"},
 {"mb","UTF-8","<U066B>","<U202F>","3","i18n_ctype","\xd9\xab","\xe2\x80\xaf","\3"},
 {"ng","UTF-8",",",".","-1","i18n_ctype",",",".",""},
 {"mix","UTF-8","<U00B7>","'","1;2;4","i18n_ctype","\xc2\xb7","'","\1\2\4"},
 {"nosep","UTF-8",",","","3;3","i18n_ctype",",","",""},
 {"l1","ISO-8859-1",",","<U00A0>","3;3","i18n_ctype",",","\xc2\xa0","\3\3",true},
 {"ff","ISO-8859-1","<U00FF>","<U00B7>","4","i18n_ctype","\xc3\xbf","\xc2\xb7","\4",true},
 {"tr","UTF-8",",",".","3;3","tr_TR",",",".","\3\3"},
};
static string LDIR;
static bool mklocales(){
  char t[]="/tmp/vploc.XXXXXX"; if(!mkdtemp(t)) return false; LDIR=t;
  for(auto&l:L) if(l.map){ string s=LDIR+"/"+l.name+".src"; FILE*f=fopen(s.c_str(),"w"); if(!f) return false;
    fprintf(f,"comment_char %%\nescape_char /\nLC_CTYPE\ncopy \"%s\"\nEND LC_CTYPE\nLC_NUMERIC\ndecimal_point \"%s\"\nthousands_sep \"%s\"\ngrouping %s\nEND LC_NUMERIC\n",l.ctype,l.dp,l.sep,l.grp);
    for(const char*c:{"COLLATE","TIME","MESSAGES","MONETARY"}) fprintf(f,"LC_%s\ncopy \"POSIX\"\nEND LC_%s\n",c,c);
    for(const char*c:{"PAPER","NAME","ADDRESS","TELEPHONE","MEASUREMENT","IDENTIFICATION"}) fprintf(f,"LC_%s\ncopy \"i18n\"\nEND LC_%s\n",c,c);
    fclose(f); string cmd="cd "+LDIR+" && LC_ALL=C localedef -c -i "+l.name+".src -f "+l.map+" --no-archive ./"+l.name+" >/dev/null 2>&1"; if(system(cmd.c_str())){} if(access((LDIR+"/"+l.name+"/LC_NUMERIC").c_str(),R_OK)){ fprintf(stderr,"localedef failed for %s\n",l.name); return false; } }
  setenv("LOCPATH",LDIR.c_str(),1); return true; }
static void rmlocales(){ if(LDIR.rfind("/tmp/vploc.",0)==0) if(system(("rm -rf "+LDIR).c_str())){} }
// how: 0 setlocale(LC_ALL), 1 only LC_CTYPE and LC_NUMERIC, 2 uselocale of this thread
static int CUR=-1, CURH=-1; static locale_t TL[32];
static bool setloc(int i,int how){ if(i==CUR&&how==CURH) return true; CUR=i; CURH=how;
  uselocale(LC_GLOBAL_LOCALE); 
  if(how==0) return setlocale(LC_ALL,L[i].name)!=0;
  setlocale(LC_ALL,"C");
  if(how==1) return setlocale(LC_CTYPE,L[i].name)&&setlocale(LC_NUMERIC,L[i].name);
  if(!TL[i]) TL[i]=newlocale(LC_ALL_MASK,L[i].name,0); if(!TL[i]) return false; uselocale(TL[i]); return true; }
static void unset(){ uselocale(LC_GLOBAL_LOCALE); setlocale(LC_ALL,"C"); CUR=-1; }

static std::wstring u2w(const string&s){ std::wstring w; for(size_t i=0;i<s.size();){ unsigned char c=s[i]; int n=c<0x80?1:c<0xe0?2:c<0xf0?3:4; wchar_t x=n==1?c:c&(0xff>>(n+1)); for(int k=1;k<n;k++) x=x<<6|(s[i+k]&0x3f); w+=x; i+=n; } return w; }
static string w2u(const std::wstring&w){ string s; for(wchar_t x:w){ unsigned c=x; if(c<0x80) s+=(char)c; else if(c<0x800){ s+=(char)(0xc0|c>>6); s+=(char)(0x80|(c&63)); } else if(c<0x10000){ s+=(char)(0xe0|c>>12); s+=(char)(0x80|(c>>6&63)); s+=(char)(0x80|(c&63)); } else s+="<"+std::to_string(c)+">"; } return s; }
static string nat(const Loc&l,const string&u){ if(!l.latin) return u; string r; for(wchar_t x:u2w(u)) r+=(char)(unsigned char)x; return r; }
static string pr(const string&s){ string r; for(unsigned char c:s){ if(c<32||c>=127||c=='\\'||c==' '){ char b[8]; snprintf(b,8,"\\%02x",c); r+=b; } else r+=c; } return r.empty()?"\\e":r; }
static string upr(const string&s){ if(s=="\\e") return ""; string r; for(size_t i=0;i<s.size();i++) if(s[i]=='\\'&&i+2<s.size()){ r+=(char)strtol(s.substr(i+1,2).c_str(),0,16); i+=2; } else r+=s[i]; return r; }

struct T { string kind; int loc=0,how=0,fi=0,mode=0; u128 v=0; string a; };
static string key(const T&t){ std::ostringstream o; o<<t.kind<<' '<<L[t.loc].name<<' '<<t.how<<' '<<(32<<t.fi)<<' '<<t.mode<<' '<<hx(t.v)<<' '<<pr(t.a); return o.str(); }
static bool unkey(const string&s,T&t){ std::istringstream i(s); int b; string v,a,n; if(!(i>>t.kind>>n>>t.how>>b>>t.mode>>v>>a)) return false; t.loc=-1; for(size_t k=0;k<L.size();k++) if(n==L[k].name) t.loc=k; if(t.loc<0) return false; t.fi=b==32?0:b==64?1:2; t.v=unhx(v); t.a=upr(a); return true; }
static string ABS(const string&s,const Loc&l){ // abstract string -> locale's text (UTF-8): D decimal point, S separator
  string r; for(char c:s) if(c=='D') r+=l.dpu; else if(c=='S') r+=l.sepu.empty()?",":l.sepu; else r+=c; return r; }
// what the C grammar sees: the locale's decimal point is '.', every other punctuation is foreign
static string SEEN(const string&s,const Loc&l){ string r; for(char c:s) if(c=='D') r+='.'; else if(c=='S') r+= (l.sepu.empty()? string(","):l.sepu)==l.dpu?'.':'\1'; else if(c=='.'||c==',') r+= l.dpu==string(1,c)?'.':'\1'; else r+=c; return r; }
static bool run(const T&t,string&o,string&why){
  const Loc&l=L[t.loc]; if(!setloc(t.loc,t.how)){ why="locale"; o="cannot select the locale"; fprintf(stderr,"locale %s\n",l.name); _exit(3); }
  shim_setround(t.mode);
  bool ok=true; D dv=dec(t.fi,t.v);
  if(t.kind=="printf"||t.kind=="wprintf"||t.kind=="strfrom"){ Spec sp; if(!parsefmt(t.a,sp)){ why="bad case"; return true; } sp.dp=l.dpu; sp.sep=l.sepu; sp.grp=l.g;
    string w=format(t.fi,dv,t.mode,sp), g; int r,len;
    if(t.kind=="wprintf"){ static wchar_t WB[20000]; wmemset(WB,L'~',20000); std::wstring wf=u2w(t.a); r=shim_swprintf(t.fi,WB,20000,wf.c_str(),t.v); WB[19999]=0; g=w2u(WB); len=u2w(w).size(); }
    else { static char B[20000]; memset(B,'~',sizeof B); r= t.kind=="printf"? shim_snprintf(t.fi,B,sizeof B,t.a.c_str(),0,0,0,t.v) : shim_strfrom(t.fi,B,sizeof B,t.a.c_str(),t.v); B[sizeof B-1]=0; g=B; w=nat(l,w); len=w.size(); }
    o="\""+pr(g.substr(0,200))+"\" "+std::to_string(r); if(g!=w){ why="text: want \""+pr(w.substr(0,200))+"\""; ok=false; } else if(r!=len){ why="count: want "+std::to_string(len); ok=false; } }
  else { shim_out so; long end=-7; string seen=SEEN(t.a,l); Parsed p=parse(t.fi,seen,t.mode); string u=ABS(t.a.substr(0,p.end),l); long want;
    if(t.kind=="strto"){ string s=nat(l,ABS(t.a,l)); want=nat(l,u).size(); shim_strto(t.fi,s.c_str(),&end,&so); } else { std::wstring s=u2w(ABS(t.a,l)); want=u2w(u).size(); shim_wcsto(t.fi,s.c_str(),&end,&so); }
    D g=dec(t.fi,so.d); o=show(g)+" end="+std::to_string(end); if(end!=want){ why="end: want "+std::to_string(want); ok=false; } else if(!sameval(g,p.d)){ why="value: want "+show(p.d); ok=false; } }
  return ok; }
static void go(Worker&w,const T&t){ string k=key(t); w.setcur(k); string o,why; bool ok=run(t,o,why); w.tr++; w.state(hstr(t.kind+o)); if(!ok){ string oo; w.fail(k,o,why); } }

int main(int argc,char**argv){
  if(argc<2) return 2; Explorer x(argv[1],argc-1,argv+1); bool Q=x.quick(); if(!mklocales()){ rmlocales(); return 2; }
  x.runkey=[](const string&k,string&o,string&why){ T t; if(!unkey(k,t)){ why="unparsable"; return true; } bool r=run(t,o,why); unset(); return r; };
  x.rule="Eleven locales (C, comma, Indian 3-2 grouping, one group only, multibyte decimal point and separator, no grouping, groups of 1-2-4, no separator, two single-byte locales with characters above 0x7f including 0xff, Turkish letters) x three ways to select them (setlocale LC_ALL, LC_CTYPE with LC_NUMERIC, uselocale in the thread), alternating call by call x values x directives (grouping flag, widths, flags, precisions) through snprintf, swprintf, strfromd; and every string of a grammar with the locale's decimal point, foreign points and separators through strtod and wcstod: text, count, value and end pointer compared with an exact model. A state is a distinct output; a transition is one call; a trace is one value or string in every locale.";
  x.samples={"%'20.2DDf of 12345678.9 with U+202F groups, wide","\"INFINITY\" wide in a Turkish locale","1.234,5 in a comma locale"};
  x.assumptions={"locales compiled at the start of the check by localedef from the definitions in src/locale.cpp","field widths count characters, as glibc's own conversions do","the grouping flag is not combined with %a (undefined in C)"};
  auto body=[&](Worker&w){
    vector<int> W=Q?vector<int>{0,9,24}:vector<int>{0,1,5,9,12,17,24,45};
    for(int fi=0;fi<3;fi++){ const Fmt&f=FM[fi]; vector<u128> vs; std::set<int> ex={0,-1,-2,-3,-4,-5,-7,1,2,3,4,5,9,-f.p,-f.p-3,f.qmin,f.qmax}; if(!Q) for(int e=-f.p-2;e<=14;e++) ex.insert(e);
      for(u128 c:{(u128)0,(u128)7,(u128)12,(u128)123,(u128)999,(u128)1000,(u128)9999,(u128)12345,(u128)123456,(u128)999999,(u128)1234567,al::P10(f.p)-1,al::P10(f.p-1),al::P10(f.p)/7}) for(int e:ex) vs.push_back(al::E(fi,0,c,e)); for(u128 c:{(u128)0,(u128)12345,al::P10(f.p)-1}) for(int e:{0,-2,5}) vs.push_back(al::E(fi,1,c,e)); for(u128 v:al::specials(fi,2)) vs.push_back(v);
      bool few=w.x.safe&&Q; for(u128 v:al::uniq(vs)){ if(few&&dec(fi,v).fin()&&!(dec(fi,v).c==0||dec(fi,v).c==12345||dec(fi,v).c==ref::p10(f.p)-1||dec(fi,v).c==999)) continue; if(!w.row()) continue;
        for(int how=0;how<3;how++) for(size_t l=0;l<L.size();l++) for(const char*kd:{"printf","wprintf","strfrom"}) { bool sf=kd[0]=='s'; 
          for(char cv:string("fegaFG")) for(int p:{-1,0,1,2,9}) for(int fl=0;fl<(sf?1:Q?12:32);fl++) for(int wd:W){ if(sf&&wd) continue; Spec sp; sp.conv=cv; sp.prec=p; sp.width=wd; sp.group=fl&1; sp.zero=fl>>1&1; sp.left= Q? fl>=8 : fl>>2&1; sp.alt= Q? (fl>>2&1) : fl>>3&1; sp.plus=fl>>4&1;
            if((cv|32)=='a'&&(sp.group||p==0)) continue; if(how&&(wd||p>2)) continue; if(Q&&(dec(fi,v).fin()&&dec(fi,v).e>400)&&fl>3) continue;
            T t; t.kind=kd; t.loc=l; t.how=how; t.fi=fi; t.v=v; t.a=fmtstr(fi,sp,!sf); go(w,t); } }
        w.trace(); } 
      vector<string> S; for(string sg:{"","-"}) for(string ip:{"","0","00","7","12","123","1234567"}) for(string pt:{"","D",".",",","S","DD","SD","DS"}) for(string fp:{"","0","5","123","50S1","1D2","123S456"}) for(string ep:{"","e3","E-2","e"}) S.push_back(sg+ip+pt+fp+ep);
      for(string b:{"inf","INF","Inf","iNF","infinity","INFINITY","InFiNiTy","nan","NAN","NaN","nan(I)","NAN(abcI_1)","nan(i)","nan(1I)","NAN(","INFIN","1SD5","1S234D5","S123","D","S","-D","D5","-D5e1","1e5D","12S","1S2S3S4","000S000","0S1","1234567D891234567","999999D5","9999999999999999D5","0D00000012"}) for(string sg:{"","-","+"}) S.push_back(sg+b);
      for(auto&s:S){ if(!w.row()) continue; for(int how=0;how<3;how++) for(size_t l=0;l<L.size();l++) for(const char*kd:{"strto","wcsto"}) for(int m:{0,2,4}){ T t; t.kind=kd; t.loc=l; t.how=how; t.fi=fi; t.a=s; t.mode=m; go(w,t); } w.trace(); } }
    unset(); };
  int r=x.main(body); rmlocales(); return r;
}
