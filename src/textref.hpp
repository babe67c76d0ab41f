// Reference model of decimal text: formatting (C23 7.23.6.1 / TS 18661-2) and
// parsing (strtod family), independent of libdfp.
#ifndef TEXTREF_HPP
#define TEXTREF_HPP
#include "ref.hpp"
namespace tx {
using namespace ref; using std::string;
struct Spec { bool left=0,plus=0,space=0,alt=0,zero=0,group=0; int width=0; int prec=-1; char conv='f'; string dp=".", sep="", grp; };
inline string zeros(long n){ return n>0?string(n,'0'):string(); }
// c*10^e rounded so that its last digit has weight 10^-P: digit string of the integer c*10^(e+P)
inline string fixdigits(bool s,const U&c,int e,long P,int mode){
  long sh=e+P; if(sh>=0) return c==0? string("0") : str(c)+zeros(sh);
  bool inx; U q=droprnd(s,c,(unsigned)std::min<long>(-sh,400),false,mode,inx); return str(q); }
inline string stylef(bool s,const U&c,int e,long P,int mode,const Spec&sp){
  string d=fixdigits(s,c,e,P,mode); if((long)d.size()<=P) d=zeros(P+1-d.size())+d;
  string ip=d.substr(0,d.size()-P), fp=d.substr(d.size()-P);
  if(sp.group&&!sp.sep.empty()&&!sp.grp.empty()){ string o; size_t gi=0; int cnt=0; int g=sp.grp[0]; for(size_t i=ip.size();i-->0;){ o.insert(o.begin(),ip[i]); if(++cnt==g&&i>0&&g>0&&g!=127){ o=sp.sep+o; cnt=0; if(gi+1<sp.grp.size()) g=sp.grp[++gi]; } } ip=o; }
  return ip+((P>0||sp.alt)?sp.dp:string())+fp; }
// P fraction digits; returns text and exponent
inline string stylee(bool s,const U&c,int e,long P,int mode,const Spec&sp,bool up,bool minexp,bool keepzeroexp,int*xout=0){
  string d; int x;
  if(c==0){ d=zeros(P+1); x= keepzeroexp? e : 0; }
  else { int n=ndig(c); bool inx; U q=c; x=e+n-1; if(n>P+1){ q=droprnd(s,c,(unsigned)(n-P-1),false,mode,inx); if((long)ndig(q)>P+1){ q/=10; x++; } d=str(q);} else d=str(c)+zeros(P+1-n); }
  if(xout) *xout=x;
  string o=d.substr(0,1); if(P>0||sp.alt) o+=sp.dp; o+=d.substr(1);
  char b[16]; snprintf(b,16,minexp?"%c%d":"%c%02d",x<0?'-':'+',abs(x)); return o+(up?"E":"e")+b; }
inline string striptail(string t,const string&dp){ size_t ep=t.find_first_of("eE"); string ex; if(ep!=string::npos){ ex=t.substr(ep); t=t.substr(0,ep);} size_t p=t.find(dp); if(p!=string::npos){ while(t.size()&&t.back()=='0') t.pop_back(); if(t.size()==p+dp.size()) t=t.substr(0,p);} return t+ex; }
inline string body(int fi,const D&v,int mode,const Spec&sp){ // without sign and padding
  bool up=sp.conv<'a'; char k=sp.conv|32;
  if(v.inf()) return up?"INF":"inf"; if(v.nan()) return up?"NAN":"nan";
  long P=sp.prec; 
  if(k=='f') return stylef(v.s,v.c,v.e,P<0?6:P,mode,sp);
  if(k=='e') return stylee(v.s,v.c,v.e,P<0?6:P,mode,sp,up,false,false);
  if(k=='g'){ if(P<0) P=6; if(P==0) P=1; int x=0; stylee(v.s,v.c,v.e,P-1,mode,sp,up,false,false,&x);
    string t= (P>x&&x>=-4)? stylef(v.s,v.c,v.e,P-1-x,mode,sp) : stylee(v.s,v.c,v.e,P-1,mode,sp,up,false,false);
    return sp.alt? t : striptail(t,sp.dp); }
  // a: triple (s,c,q)
  U c=v.c; int q=v.e; int n=c==0?1:ndig(c);
  if(P>0&&P<n){ bool inx; c=droprnd(v.s,c,n-P,false,mode,inx); q+=n-P; if((long)ndig(c)>P){ c/=10; q++; } n=P; }
  if(-(n+5)<=q&&q<=0) return stylef(v.s,c,q,-q,mode,sp);
  return stylee(v.s,c,q,n-1,mode,sp,up,true,true);
}
inline size_t chars(const string&s){ size_t n=0; for(unsigned char c:s) if((c&0xc0)!=0x80) n++; return n; }
inline string format(int fi,const D&v,int mode,const Spec&sp){
  string b=body(fi,v,mode,sp), sg= v.s?"-":sp.plus?"+":sp.space?" ":"";
  long pad=sp.width-(long)chars(b)-(long)sg.size(); if(pad<=0) return sg+b;
  if(sp.left) return sg+b+string(pad,' ');
  if(sp.zero&&v.fin()) return sg+zeros(pad)+b;
  return string(pad,' ')+sg+b; }
inline string fmtstr(int fi,const Spec&sp,bool mod=true){ string s="%"; if(sp.left)s+='-'; if(sp.plus)s+='+'; if(sp.space)s+=' '; if(sp.alt)s+='#'; if(sp.zero)s+='0'; if(sp.group)s+='\''; if(sp.width)s+=std::to_string(sp.width); if(sp.prec>=0) s+="."+std::to_string(sp.prec); if(mod) s+= fi==0?"H":fi==1?"D":"DD"; return s+sp.conv; }
inline bool parsefmt(const string&f,Spec&sp){ size_t i=0; if(f[i++]!='%') return false; for(;i<f.size();i++){ char c=f[i]; if(c=='-')sp.left=1; else if(c=='+')sp.plus=1; else if(c==' ')sp.space=1; else if(c=='#')sp.alt=1; else if(c=='0')sp.zero=1; else if(c=='\'')sp.group=1; else break; }
  while(isdigit((unsigned char)f[i])) sp.width=sp.width*10+f[i++]-'0'; if(f[i]=='.'){ i++; sp.prec=0; while(isdigit((unsigned char)f[i])) sp.prec=sp.prec*10+f[i++]-'0'; } while(f[i]=='H'||f[i]=='D') i++; sp.conv=f[i]; return i+1==f.size(); }

// ---- parsing ----------------------------------------------------------------
struct Parsed { D d; long end=0; bool over=false, tiny=false, none=false; };
inline int lo(char c){ return c>='A'&&c<='Z'?c+32:c; }
inline bool alnumc(char c){ return (c>='0'&&c<='9')||(lo(c)>='a'&&lo(c)<='z'); }
inline bool ieq(const string&s,size_t i,const char*t){ for(;*t;t++,i++) if(i>=s.size()||(lo(s[i])!=*t)) return false; return true; }
inline Parsed parse(int fi,const string&s,int mode){
  Parsed r; r.d=mkfin(false,0,0); size_t i=0; const Fmt&f=FM[fi];
  while(i<s.size()&&isspace((unsigned char)s[i])) i++;
  bool neg=false; if(i<s.size()&&(s[i]=='-'||s[i]=='+')){ neg=s[i]=='-'; i++; }
  if(ieq(s,i,"inf")){ r.d=mkinf(neg); r.end=i+(ieq(s,i,"infinity")?8:3); return r; }
  if(ieq(s,i,"nan")){ r.d=mknan(); r.d.s=neg; r.end=i+3; if(i+3<s.size()&&s[i+3]=='('){ size_t j=i+4; while(j<s.size()&&(alnumc(s[j])||s[j]=='_')) j++; if(j<s.size()&&s[j]==')') r.end=j+1; } return r; }
  string dg; long q=0; long long wexp=0; size_t j=i; bool any=false; while(j<s.size()&&isdigit((unsigned char)s[j])){ dg+=s[j++]; any=true; }
  if(j<s.size()&&s[j]=='.'){ size_t k=j+1; size_t st=k; while(k<s.size()&&isdigit((unsigned char)s[k])){ dg+=s[k++]; q--; } if(any||k>st){ any=true; j=k; } }
  if(!any){ r.none=true; r.end=0; return r; }
  if(j<s.size()&&(s[j]|32)=='e'){ size_t k=j+1; bool en=false; if(k<s.size()&&(s[k]=='-'||s[k]=='+')){ en=s[k]=='-'; k++; } if(k<s.size()&&isdigit((unsigned char)s[k])){ long long x=0; while(k<s.size()&&isdigit((unsigned char)s[k])){ if(x<1000000000000LL) x=x*10+s[k]-'0'; k++; } wexp=en?-x:x; q+=wexp; j=k; } }
  r.end=j;
  size_t z=0; while(z<dg.size()&&dg[z]=='0') z++; string sig=dg.substr(z);
  long e=std::max(-1000000000L,std::min(1000000000L,q)); // saturate: far outside every format
  if(sig.empty()){ r.d=mkfin(neg,0,(int)std::min<long>(std::max<long>(e,f.qmin),f.qmax)); return r; }
  // keep 60 digits plus a sticky flag
  bool sticky=false; if(sig.size()>60){ for(size_t k=60;k<sig.size();k++) if(sig[k]!='0') sticky=true; e+=sig.size()-60; 
     long drop=sig.size()-60; sig.resize(60); (void)drop; }
  U c=0; for(char ch:sig) c=c*10+(unsigned)(ch-'0');
  long adj=e+(long)sig.size()-1;
  if(adj>f.qmax+f.p+10){ c=p10(45); e=f.qmax+f.p; } else if(adj<f.qmin-20){ c=p10(45); e=f.qmin-60; sticky=true; }
  int fl; r.d=finish_checked(fi,neg,c,(int)e,sticky,mode,(int)std::min<long>(std::max<long>(q,-1000000),1000000),fl);
  // libdfp's own rules, fixed by its tests: an exponent above qmax left-justifies the coefficient;
  // a result below the normal range written with an exponent below qmin, or rounded to zero, is 0E0
  if(r.d.fin()&&r.d.c!=0&&q>f.qmax) while((int)ndig(r.d.c)<f.p){ r.d.c*=10; r.d.e--; }
  if(r.d.fin()&&(r.d.c==0||(adj<emin(f)&&wexp<f.qmin))) { r.d=mkfin(neg,0,0); }
  r.over=(fl&XO)!=0; r.tiny= r.d.fin()&&r.d.c==0; return r; }
}
#endif
