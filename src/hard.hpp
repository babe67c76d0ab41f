// Operands constructed, by modular arithmetic, so that the exact result lies on
// or next to a rounding boundary: every number of dropped digits, remainders of
// exactly one half and one unit either side, carries through machine words.
#ifndef HARD_HPP
#define HARD_HPP
#include "alphabet.hpp"
namespace hard {
using namespace ref; using std::vector; typedef mp::cpp_int Z;
struct T3 { u128 a=0,b=0,d=0; };
inline Z z10(int k){ Z r=1; while(k-->0) r*=10; return r; }
inline u128 tou(const Z&z){ return ((u128)(uint64_t)(z>>64)<<64)|(uint64_t)(z&Z(0xffffffffffffffffULL)); }
inline Z fromu(u128 v){ return (Z((uint64_t)(v>>64))<<64)+(uint64_t)v; }
inline int nd(Z z){ int n=0; while(z!=0){ z/=10; n++; } return n; }
inline Z inv(const Z&b,const Z&m){ Z r0=m,r1=b%m,t0=0,t1=1; while(r1!=0){ Z q=r0/r1; Z r=r0-q*r1; r0=r1; r1=r; Z t=t0-q*t1; t0=t1; t1=t; } t0%=m; if(t0<0) t0+=m; return t0; }
inline bool put(int fi,bool s,const Z&c,int e,u128&o){ const Fmt&f=FM[fi]; if(c<0||c>=z10(f.p)) return false; if(e<f.qmin||e>f.qmax) return false; o=al::E(fi,s,tou(c),e); return true; }
// factors without common divisor with ten
inline vector<Z> odd(int fi,bool rich){ int p=FM[fi].p; vector<Z> v; auto A=[&](Z x){ if(x>1&&x<z10(p)&&x%2!=0&&x%5!=0) v.push_back(x); };
  for(int x:{3,7,9,11,13,17,99,101,127,333,999,1001,9973}) A(x);
  for(int k=2;k<=p;k+=(rich?1:p>16?4:2)){ A(z10(k)-1); A(z10(k)+1); A(z10(k)/3); A(z10(k)/7); A(z10(k)/7*3+4); A(z10(k)-3); A(z10(k)*2/3); A(z10(k)/9*7+2); }
  A(z10(p)-1); A(z10(p)-3); A(z10(p-1)+1); A(z10(p-1)+3); for(int b:{23,31,32,33,52,53,63,64,65,95,96,97,112}) { A((Z(1)<<b)+1); A((Z(1)<<b)-1); A((Z(1)<<b)-3); A((Z(1)<<b)+3); A((Z(7)<<b)-1); }
  std::sort(v.begin(),v.end()); v.erase(std::unique(v.begin(),v.end()),v.end()); return v; }
inline vector<Z> resid(int j){ Z h=z10(j)/2, t=z10(j); vector<Z> r={1,h-1,h,h+1,t-1}; if(j>2){ r.push_back(2); r.push_back(t-2); r.push_back(h+10); } vector<Z> o; for(auto&x:r) if(x>=0&&x<t) o.push_back(x); std::sort(o.begin(),o.end()); o.erase(std::unique(o.begin(),o.end()),o.end()); return o; }
inline void split(int fi,int sum,int&ea,int&eb){ ea=sum/2; eb=sum-ea; const Fmt&f=FM[fi]; if(ea<f.qmin){ eb-=f.qmin-ea; ea=f.qmin; } if(eb<f.qmin){ ea-=f.qmin-eb; eb=f.qmin; } if(ea>f.qmax){ eb+=ea-f.qmax; ea=f.qmax; } }
template<class G> void mul(int fi,bool rich,G go){ const Fmt&f=FM[fi]; int p=f.p;
  for(const Z&b:odd(fi,rich)) for(int j=1;j<=p;j++){ Z M=z10(j), iv=inv(b,M); for(const Z&r:resid(j)){ Z a0=r*iv%M; Z lim=z10(p)-1; std::set<Z> ms; 
      auto full=[&](const Z&lo,const Z&hi){ Z l=lo<=a0*b?Z(0):Z((lo-a0*b+b*M-1)/(b*M)); Z h=hi<=a0*b?Z(-1):Z((hi-1-a0*b)/(b*M)); Z cap=a0>lim?Z(-1):Z((lim-a0)/M); if(h>cap) h=cap; if(l<=h){ ms.insert(l); ms.insert(h); ms.insert((l+h)/2); } };
      full(z10(p+j-1),z10(p+j)); for(const Z&m:ms){ Z a=a0+m*M; for(int sum:{-p,f.qmax-j,f.qmin-3}) for(int s=0;s<2;s++){ int ea,eb; split(fi,sum,ea,eb); T3 t; if(put(fi,s,a,ea,t.a)&&put(fi,0,b,eb,t.b)) go(t); } }
      ms.clear(); full(z10(j-1),z10(p+j)); for(const Z&m:ms) for(int s=0;s<2;s++){ Z a=a0+m*M; int ea,eb; split(fi,f.qmin-j,ea,eb); T3 t; if(put(fi,s,a,ea,t.a)&&put(fi,s,b,eb,t.b)) go(t); } } } }
template<class G> void fma(int fi,bool rich,G go){ const Fmt&f=FM[fi]; int p=f.p;
  vector<Z> B=odd(fi,rich); for(size_t bi=0;bi<B.size();bi+=(rich?1:3)){ const Z&b=B[bi]; for(int j=1;j<=p;j+=(rich?1:p>16?3:1)){ Z M=z10(j), iv=inv(b,M); for(const Z&r:{Z(0),Z(1),Z(M/2-1),Z(M/2),Z(M/2+1),Z(M-1)}){ if(r<0||r>=M) continue; Z a0=r*iv%M; Z lim=z10(p)-1; Z lo=z10(p+j-1),hi=z10(p+j); Z l=lo<=a0*b?Z(0):Z((lo-a0*b+b*M-1)/(b*M)); Z h=hi<=a0*b?Z(-1):Z((hi-1-a0*b)/(b*M)); Z cap=a0>lim?Z(-1):Z((lim-a0)/M); if(h>cap) h=cap; if(l>h) continue;
        for(const Z&m:{l,h}){ Z a=a0+m*M, P=a*b; for(int sum:{-p,f.qmin-1}){ int ea,eb; split(fi,sum,ea,eb); 
          auto add=[&](bool s,const Z&c,int e){ for(int sg=0;sg<2;sg++){ T3 t; if(put(fi,sg,a,ea,t.a)&&put(fi,0,b,eb,t.b)&&put(fi,s^sg,c,e,t.d)) go(t); } };
          for(int s=0;s<2;s++){ add(s,1,sum); add(s,1,sum-1); add(s,5,sum-1); add(s,1,sum-p-1); add(s,1,sum-40); add(s,0,sum-40); add(s,z10(p)-1,sum-p); add(s,M/2<z10(p)?M/2:Z(1),sum); add(s,M-r<z10(p)?Z(M-r):Z(3),sum); add(s,z10(p)-1,sum); add(s,1,sum+j); add(s,5,sum+j-1); }
          add(1,P/M,sum+j); add(1,P/M+1,sum+j); add(1,P/M-1,sum+j); add(1,z10(p-1),sum+j); } } } } } }
template<class G> void div(int fi,bool rich,G go){ const Fmt&f=FM[fi]; int p=f.p;
  for(const Z&y:odd(fi,rich)) for(int k=1;k<=p+1;k++) for(int r:{1,-1,3,-3,7,-7}){
    auto q=[&](const Z&N,bool tie){ // N: number of result digits wanted
      Z M=tie?Z(2*z10(k)):z10(k); Z iv=inv(y,M); Z q0=(-Z(r)*iv)%M; if(q0<0) q0+=M; Z lo=N/10,hi=N; if(tie){ lo*=2; hi*=2; } Z l=q0>=lo?Z(0):Z((lo-q0+M-1)/M), h=q0>=hi?Z(-1):Z((hi-1-q0)/M); if(l>h) return; std::set<Z> ms={l,h,(l+h)/2};
      for(const Z&m:ms){ Z Q=q0+m*M; Z x=Q*y+r; if(x<=0||x%M!=0) continue; x/=M; 
        int dq=nd(tie?Z(Q/2):Q); for(int d:{0,1,2}){ int ex,ey; if(d==0){ if(dq<p) continue; ex=0; ey=3; } else if(d==1){ ex=f.qmin+k; ey=0; } else { if(dq<p) continue; ex=f.qmax; ey=k; if(ex-k-ey+0<f.qmin) continue; ey=-k; if(rich) ey=-k-1; }
          for(int s=0;s<2;s++){ T3 t; if(put(fi,s,x,ex,t.a)&&put(fi,0,y,ey,t.b)) go(t); } } } };
    q(z10(p),true); q(z10(p),false); q(z10(p-1),true); q(z10(p/2),true); q(z10(1),true); q(z10(p/2),false); } }
// sums: a target coefficient q with a tail of j digits below it, split between
// the operands in different ways
inline vector<Z> targets(int fi,bool rich){ int p=FM[fi].p; Z top=z10(p); vector<Z> v; auto A=[&](Z x){ for(int d=-1;d<=1;d++) if(x+d>=top/100&&x+d<=top) v.push_back(x+d); };
  A(top); A(top/10); A(top/2); A(top/3); A(top*2/3+1); if(rich){ A(top/7); A(top/100+1); A(top*9/11); }
  for(int b:{16,24,32,48,53,60,64,96}) { Z w=Z(1)<<b; if(w>=top) continue; Z k=top/10/w+1; A(k*w); A((top/w)*w); A((top/2/w)*w); if(rich){ A((k+12345)*w); A((top/3/w)*w); } }
  std::sort(v.begin(),v.end()); v.erase(std::unique(v.begin(),v.end()),v.end()); return v; }
template<class G> void add(int fi,bool rich,G go){ const Fmt&f=FM[fi]; int p=f.p;
  for(const Z&q:targets(fi,rich)) for(int j=1;j<=p+2;j++){ Z M=z10(j); std::set<Z> R; for(const Z&r:resid(j)) R.insert(r); R.insert(0); 
    for(const Z&tail:R) for(const Z&u:{Z(0),Z(1),Z(2),Z(7),Z(123456),Z(z10(p/2)+1),Z(z10(std::max(0,p-j))/3),Z(z10(std::max(0,p-j))-1),Z(q/2),Z(q-1)}) for(int sg=0;sg<2;sg++){ // q*10^j+tail = (q-+u)*10^j + (tail+-u*10^j)
      Z a= sg? Z(q+u):Z(q-u), b= sg? Z(tail-u*M):Z(tail+u*M); if(a<=0||b==0) continue; bool nb=b<0; if(nb) b=-b; int eb0=0, ea0=j; Z a2=a; int sh=0; while(a2>=z10(p)&&a2%10==0){ a2/=10; sh++; } int sb=0; while(b>=z10(p)&&b%10==0){ b/=10; sb++; }
      if(a2>=z10(p)||b>=z10(p)) continue;
      for(int base:{0,1,2}){ int e= base==0? -p : base==1? f.qmin : f.qmax-j; for(int s=0;s<2;s++){ T3 t; if(put(fi,s,a2,e+ea0+sh,t.a)&&put(fi,s!=nb,b,e+eb0+sb,t.b)) go(t); } } } } }
// roots: x*10^k just off the square of q+1/2
template<class G> void sqrt(int fi,G go){ const Fmt&f=FM[fi]; int p=f.p; int rs[]={1,9,41,49,81,89,-31,-39,-71,-79,121,129,-111,-119,161,169};
  for(int k=p-2;k<=p+3;k++) for(int r:rs){ // s*s = r mod 4*10^k
    Z m2=Z(1)<<(k+2), m5=1; for(int i=0;i<k;i++) m5*=5; Z R2=((Z(r)%m2)+m2)%m2, R5=((Z(r)%m5)+m5)%m5;
    Z s2=1; bool ok=false; for(int c:{1,3,5,7}) if((c*c-r)%16==0||(c*c-r)%8==0){ s2=c; Z m=8; int b=3; ok=true; // lift bit by bit
        while(b<k+2){ Z d=((s2*s2-r)%(Z(1)<<(b+1))+(Z(1)<<(b+1)))%(Z(1)<<(b+1)); if(d!=0) s2+=Z(1)<<(b-1); d=((s2*s2-r)%(Z(1)<<(b+1))+(Z(1)<<(b+1)))%(Z(1)<<(b+1)); if(d!=0){ ok=false; break; } b++; } if(ok) break; }
    if(!ok) continue; Z s5=0; for(int c=1;c<5;c++) if(((c*c-r)%5+5)%5==0){ s5=c; break; } if(s5==0) continue; Z m=5; while(m<m5){ m*=m; if(m>m5) m=m5; Z iv=inv(Z(2*s5%m),m); Z d=((s5*s5-r)%m+m)%m; s5=((s5-d*iv)%m+m)%m; }
    Z MM=m2*m5; Z e2=m5*inv(m5%m2,m2)%MM, e5=m2*inv(m2%m5,m5)%MM;
    for(int w=0;w<8;w++){ Z x2=(w&1)?Z(m2-s2%m2):Z(s2%m2); if(w&2) x2=(x2+m2/2)%m2; Z x5=(w&4)?Z(m5-s5):s5; Z s=(x2*e2+x5*e5)%MM; if(((s*s-r)%MM)!=0) continue; 
      Z lo=2*z10(p-1),hi=2*z10(p); for(Z t=s<lo?Z(s+(lo-s+MM-1)/MM*MM):s;t<hi;t+=MM){ Z x=(t*t-r)/MM; if(x<=0||x>=z10(p)) continue; for(int e:{k,k-2*p,k-2*(p+7)}){ T3 v; if(put(fi,0,x,e,v.a)) go(v); } } } } }
}
#endif
