// Finite operand alphabets.  Every member is here because it sits on (or next
// to) a boundary of the data model: powers of ten and two, halves, all-nines,
// coefficient-limb limits, trailing zeros, exponent range ends, specials.
#ifndef ALPHABET_HPP
#define ALPHABET_HPP
#include "ref.hpp"
#include <set>
namespace al {
using namespace ref; using std::vector;
inline vector<u128> uniq(vector<u128> v){ std::sort(v.begin(),v.end()); v.erase(std::unique(v.begin(),v.end()),v.end()); return v; }
inline u128 P10(int k){ u128 r=1; while(k--) r*=10; return r; }
// level 0: small core; 1: medium; 2: rich; 3: all short coefficients too
inline vector<u128> coefs(int fi,int lvl){
  int p=FM[fi].p; u128 top=P10(p)-1; vector<u128> v; auto A=[&](u128 x){ if(x<=top) v.push_back(x); };
  for(int d=0; d<= (lvl?10:2); d++) A(d);
  A(5); A(top); A(top-1); A(P10(p-1)); A(P10(p-1)+1); A(P10(p-1)-1); A(5*P10(p-1)); A(5*P10(p-1)+1); A(5*P10(p-1)-1);
  A(P10(p/2)); A(P10(p/2)-1); A(P10(p/2)+1); 
  u128 t=0; for(int i=0;i<p;i++) t=t*10+(i+1)%10; A(t); t=0; for(int i=0;i<p;i++) t=t*10+3; A(t); A(t*2); A(t*2+1); A(t/10*10+5);
  if(lvl>=1) for(int k=0;k<p;k++){ A(P10(k)); A(P10(k)-1); A(P10(k)+1); A(5*P10(k)); if(lvl>=2){ A(5*P10(k)+1); A(5*P10(k)-1); A(2*P10(k)); A(25*P10(k)); A(9*P10(k)); A(15*P10(k)); A(top-P10(k)); A(top-5*P10(k)); A(3*P10(k)+7); A(P10(p-1)+P10(k)); A(P10(p-1)+5*P10(k)); A(top/P10(k)); A(top/P10(k)*P10(k)); A(t/P10(k)); A(11*P10(k)); A(99*P10(k)); } }
  // machine-word and encoding boundaries
  if(lvl>=1){ u128 o=1; if(fi==0){ A((o<<23)-1); A(o<<23); A((o<<16)); } if(fi==1){ A((o<<53)-1); A(o<<53); A((o<<53)+1); A(o<<32); A((o<<32)-1); } if(fi==2){ for(int b:{32,64,96}){ A((o<<b)-1); A(o<<b); A((o<<b)+1); } A((u128)3<<64); A((u128)1000000007<<64); A(((u128)0xffffffffULL)<<64); A(((u128)1<<112)); A(~(uint64_t)0/5*3); } }
  if(lvl>=2) for(int b=3;b<128;b++){ u128 x=(u128)1<<b; if(x>top+1) break; A(x); A(x-1); if(b%8==0||b==23||b==53||lvl>=3) A(x+1); }
  if(lvl>=3) for(int d=0; d<=1100; d++) A(d);
  return uniq(v);
}
inline vector<int> exps(int fi,int lvl){
  const Fmt&f=FM[fi]; vector<int> v; auto A=[&](int x){ if(x>=f.qmin&&x<=f.qmax) v.push_back(x); };
  if(lvl<0){ A(0); A(-1); return v; } for(int x:{0,1,-1,f.qmin,f.qmax}) A(x);
  if(lvl>=1){ for(int x:{2,-2,-3,f.p,-f.p,f.p-1,1-f.p,f.qmin+1,f.qmax-1,f.qmin+f.p-1,f.qmin+f.p,f.qmax-f.p,f.qmax-f.p+1,f.qmin/2,f.qmax/2}) A(x); }
  if(lvl>=2){ for(int x=-2*f.p-2;x<=2*f.p+2;x++) A(x); for(int x=0;x<=f.p+2;x++){ A(f.qmin+x); A(f.qmax-x);} for(int x=f.qmin/2-2;x<=f.qmin/2+2;x++)A(x); for(int x=f.qmax/2-2;x<=f.qmax/2+2;x++)A(x); int st=fi==0?1:fi==1?16:256; for(int x=f.qmin;x<=f.qmax;x+=st) A(x); }
  if(lvl>=3) for(int x=f.qmin;x<=f.qmax;x++) A(x);
  std::sort(v.begin(),v.end()); v.erase(std::unique(v.begin(),v.end()),v.end()); return v;
}
inline u128 E(int fi,bool s,u128 c,int e){ return enc(fi,mkfin(s,fromu128(c),e)); }
// infinities, NaNs with and without payload and sign, signaling, and
// non-canonical encodings (coefficient too large, Inf/NaN with trailing junk)
inline vector<u128> specials(int fi,int lvl){
  vector<u128> v; int B=FM[fi].bits; u128 sg=(u128)1<<(B-1);
  u128 inf=(u128)30<<(B-6), qn=(u128)31<<(B-6), sn=(u128)63<<(B-7);
  v={inf,inf|sg,qn,sn};
  if(lvl>=1){ v.push_back(qn|sg); v.push_back(sn|sg); v.push_back(qn|5); v.push_back(sn|77);
    // zeros
    v.push_back(E(fi,0,0,0)); v.push_back(E(fi,1,0,0)); v.push_back(E(fi,0,0,FM[fi].qmin)); v.push_back(E(fi,1,0,FM[fi].qmax)); }
  if(lvl>=2){ v.push_back(inf|123); v.push_back(inf|sg|((u128)1<<(B-8)));
    int ew=fi==0?8:fi==1?10:14; int pw=fi==0?20:fi==1?50:110; u128 big=((u128)1<<pw)-1;
    v.push_back(qn|big); v.push_back(sn|big|sg);
    // non-canonical finite: both encodings
    u128 be=(u128)(-FM[fi].qmin); int sh2=B-3-ew; u128 all=((u128)1<<sh2)-1;
    v.push_back(((u128)3<<(B-3))|(be<<sh2)|all); v.push_back(sg|((u128)3<<(B-3))|((be+3)<<sh2)|all);
    if(fi==2) v.push_back(((u128)(be)<<(B-1-ew))|(((u128)1<<(B-1-ew))-1)); 
    v.push_back(((u128)3<<(B-3))|((u128)0<<sh2)|all); }
  if(lvl>=3){ // arbitrary bit patterns: every combination field with extreme and mixed trailing bits
    for(int t=0;t<128;t++){ u128 h=(u128)t<<(B-7); u128 m=(((u128)1<<(B-7))-1); u128 x=0x5555555555555555ull; x=(x<<64|x)&m; for(u128 lo:{(u128)0,m,x,m>>1,(u128)1}) v.push_back(h|lo); } }
  return uniq(v);
}
inline vector<u128> grid(int fi,int cl,int el,int sl){ vector<u128> v; for(u128 c:coefs(fi,cl)) for(int e:exps(fi,el)) for(int s=0;s<2;s++) v.push_back(E(fi,s,c,e)); for(u128 x:specials(fi,sl)) v.push_back(x); return uniq(v); }
// two's-complement integers: powers of two and ten and their neighbours, digit
// strings with a rounding boundary after every digit position, range ends
inline vector<u128> ints(int lvl){
  vector<u128> v; auto A=[&](u128 x){ v.push_back(x); v.push_back(0-x); };
  for(int i=0;i<=(lvl?2000:20);i++) A(i);
  for(int k=0;k<128;k++) for(int d=-2;d<=2;d++) A(((u128)1<<k)+d);
  for(int k=1;k<39;k++) for(int d=-2;d<=2;d++){ A(P10(k)+d); for(int m=2;m<=9;m++) A(m*P10(k-1)*(k<38?10:1)+d); }
  // n significant digits, then a tail below / at / above one half
  for(int p:{7,16,34}) for(int n=0;p+n<39;n++){ u128 hd[]={P10(p-1),P10(p-1)+1,P10(p)-1,P10(p)-2,P10(p)/3,P10(p)/3*2+1,P10(p)/7};
    for(u128 h:hd){ u128 b=h*P10(n); A(b); if(n){ u128 half=5*P10(n-1); for(u128 t:{(u128)1,half-1,half,half+1,P10(n)-1,P10(n-1),(u128)3*P10(n-1)+(n>1)}) A(b+t); } } }
  if(lvl) for(int k=0;k<128;k++) for(int j=0;j<k;j++){ A(((u128)1<<k)|((u128)1<<j)); A(((u128)1<<k)-((u128)1<<j)); }
  return uniq(v);
}
// values whose integral part sits at the end of a 16..128-bit integer type:
// 2^k, 2^k-1/2, 2^k+1/2, 2^k-1, 2^k+1 in every scaling the precision allows,
// truncated to the precision, with the neighbouring coefficients
inline vector<u128> intedge(int fi){
  vector<u128> v; const Fmt&f=FM[fi]; U top=fromu128(P10(f.p)-1);
  for(int k:{7,8,15,16,31,32,53,63,64,113,127,128}) for(int j=-40;j<=f.p+1;j++) for(int half=-2;half<=2;half++){
    U n=((U(1)<<(k+1))+(half+2)-2)*5; // tenths
    U c=n; if(j>=1) c=c*fromu128(P10(std::min(j,38)))/10; else { for(int i=0;i<1-j;i++) c/=10; }
    if(j>38) continue;
    if(c<4) continue; for(int d=-3;d<=3;d++){ U x=c+(d+3)-3; if(x>top) continue; for(int s=0;s<2;s++) if(-j>=f.qmin&&-j<=f.qmax) v.push_back(enc(fi,mkfin(s,x,-j))); } }
  return uniq(v);
}
}
#endif
