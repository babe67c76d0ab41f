// State, history and threads:  state C20|C26|C27 --tier quick
//  C20  every action sequence up to a depth over the decimal direction and its
//       surroundings, with probes that read the direction actually in force
//  C26  one call preempted at every machine instruction by a whole call in
//       another thread (single-stepped with the trap flag)
//  C27  every ordered pair of calls in one process against the same call alone
#include "explore.hpp"
#include "alphabet.hpp"
#include "oracle.hpp"
#include "textref.hpp"
#include <pthread.h>
#include <ucontext.h>
#include <sched.h>
#include <link.h>
#include <cwchar>
#include <sys/syscall.h>
#include <linux/futex.h>
using namespace xp;
static string PROP; static bool Q=true;
extern "C" int shim_swprintf(int fmt,wchar_t*buf,size_t n,const wchar_t*format,u128 v);

// ---- calls -------------------------------------------------------------
struct Call { string name; int kind=0; /*0 arithmetic 1 text*/ int op=0, fmt=0, mode=0; u128 in[3]={0,0,0}; long long iarg=0; string s; std::wstring ws; };
static string show(const Call&c){ std::ostringstream o; o<<c.name<<'/'<<(32<<c.fmt)<<'/'<<c.mode; for(int i=0;i<3;i++) if(c.in[i]) o<<'/'<<hx(c.in[i]); if(c.iarg) o<<'/'<<c.iarg; if(!c.s.empty()) o<<'/'<<c.s; string r=o.str(); for(char&ch:r) if(ch==' ') ch='_'; return r; }
struct Res { char b[160]; bool operator==(const Res&o)const{ return memcmp(b,o.b,sizeof b)==0; } };
static const char*TK[]={"printf","strfrom","strtod","wcstod","swprintf","decoded"};
static void doit(const Call&c,Res&r){
  memset(&r,0,sizeof r);
  if(c.kind==0){ shim_out o; shim_call(shim_ops[c.op].fn[c.fmt],c.mode,c.in,c.iarg,&o); memcpy(r.b,&o.d,16); memcpy(r.b+16,&o.i,16); memcpy(r.b+32,&o.d2,16); memcpy(r.b+48,&o.err,4); int fl=o.flags; memcpy(r.b+52,&fl,4); memcpy(r.b+56,&o.mode,4); return; }
  shim_setround(c.mode); int n=-1; 
  switch(c.op){
  case 0: n=shim_snprintf(c.fmt,r.b,120,c.s.c_str(),0,0,0,c.in[0]); break;
  case 1: n=shim_strfrom(c.fmt,r.b,120,c.s.c_str(),c.in[0]); break;
  case 2: { shim_out o; long e; shim_strto(c.fmt,c.s.c_str(),&e,&o); memcpy(r.b,&o.d,16); memcpy(r.b+16,&o.err,4); n=e; break; }
  case 3: { shim_out o; long e; shim_wcsto(c.fmt,c.ws.c_str(),&e,&o); memcpy(r.b,&o.d,16); memcpy(r.b+16,&o.err,4); n=e; break; }
  case 4: { wchar_t w[120]; wmemset(w,0,120); n=shim_swprintf(c.fmt,w,120,c.ws.c_str(),c.in[0]); for(int i=0;i<119&&w[i];i++) r.b[i]=(char)w[i]; break; }
  case 5: { char b[200]; memset(b,0,sizeof b); shim_decoded(c.fmt,c.in[0],b); memcpy(r.b,b,119); n=0; break; }
  }
  memcpy(r.b+148,&n,4); int m=shim_getround(); memcpy(r.b+152,&m,4);
}
static string rstr(const Call&c,const Res&r){ string o; if(c.kind==0){ u128 d,i,d2; int e,f,m; memcpy(&d,r.b,16); memcpy(&i,r.b+16,16); memcpy(&d2,r.b+32,16); memcpy(&e,r.b+48,4); memcpy(&f,r.b+52,4); memcpy(&m,r.b+56,4); return "d="+hx(d)+" i="+hx(i)+" d2="+hx(d2)+" errno="+std::to_string(e)+" flags="+std::to_string(f)+" mode="+std::to_string(m); }
  if(c.op==2||c.op==3){ u128 d; memcpy(&d,r.b,16); o="d="+hx(d); } else o="\""+string(r.b)+"\""; int n,m; memcpy(&n,r.b+148,4); memcpy(&m,r.b+152,4); return o+" n="+std::to_string(n)+" mode="+std::to_string(m); }
static u128 num(int fi,bool s,const char*c,int e){ u128 v=0; for(;*c;c++) v=v*10+(*c-'0'); u128 top=al::P10(FM[fi].p)-1; while(v>top) v/=10; return al::E(fi,s,v,e); }
// representative calls: for every operation and width, `rows` operand rows
static vector<Call> calls(int rows,bool text=true){
  vector<Call> L; static const char*A[4]={"2718281828459045235360287471352662","5","9999999999999999999999999999999999","31"};
  static const char*B[4]={"7142857142857142857142857142857142","2","1000000000000000000000000000000001","17"};
  for(int op=0;op<shim_nops;op++) for(int fi=0;fi<3;fi++){ string n=shim_ops[op].name; int ar=arity(n); if(n=="nan") continue; bool fr=n.substr(0,2)=="fr"&&isdigit((unsigned char)n.back());
    static const std::set<string> dom1={"acos","asin","atanh"}, big={"acosh"}; int p=FM[fi].p;
    for(int r=0;r<rows;r++){ Call c; c.name=n; c.op=op; c.fmt=fi; int e=-(p-1);
      bool el=n=="tgamma"||n=="lgamma";
      switch(r%4){
      case 0: c.in[0]=num(fi,0,A[0],dom1.count(n)?-p:e); c.in[1]=n=="nexttoward"?num(2,0,B[0],-34):num(fi,0,B[0],-p); c.in[2]=num(fi,1,B[0],-2*p); c.mode=2; break;
      case 1: c.in[0]=num(fi,0,A[1],dom1.count(n)||el?-1:0); c.in[1]=n=="nexttoward"?num(2,0,B[1],-5):num(fi,0,B[1],-5); c.in[2]=num(fi,0,A[2],-p-3); c.mode=3; break;
      case 2: c.in[0]=(u128)31<<(FM[fi].bits-6); c.in[1]=n=="nexttoward"?num(2,0,B[2],3):num(fi,0,B[2],3); c.in[2]=num(fi,0,A[3],0); c.mode=0; break; // quiet NaN
      default: c.in[0]=num(fi,!dom1.count(n)&&!big.count(n)&&n.substr(0,3)!="log"&&n!="sqrt"&&n!="pow"&&!el,A[3],dom1.count(n)?-2:-1); c.in[1]=n=="nexttoward"?num(2,0,B[3],0):num(fi,0,B[3],0); c.in[2]=num(fi,0,A[3],-1); c.mode=1; }
      if(fr) c.in[0]= r==0? (u128)0-al::P10(18)*3+7 : r==1? (u128)1234567891 : r==2? (u128)1<<63 : (u128)99999999995ull; 
      if(ar==4) c.iarg= r==0? 3 : r==1? -2 : r==2? 1 : -(p);
      if(ar<3) c.in[2]=0; if(ar!=2&&ar!=3) c.in[1]=0; L.push_back(c); } }
  if(text) for(int k=0;k<6;k++) for(int fi=0;fi<3;fi++) for(int r=0;r<rows;r++){ Call c; c.kind=1; c.op=k; c.fmt=fi; c.name=TK[k]; string m=fi==0?"H":fi==1?"D":"DD"; int p=FM[fi].p;
    static const char*cv[4]={".4","#.3",".2",""}; static const char*vv[4]={"e","g","f","a"}; c.mode= r==0?2:r==1?3:r==2?0:1;
    c.in[0]= r%4==2? (u128)30<<(FM[fi].bits-6) : num(fi,r&1,A[r%4],r%4==0?-(p-1):-3);
    if(k==0||k==4) c.s="%"+string(cv[r%4])+m+vv[r%4]; if(k==1) c.s="%"+string(r%4==1?".3":cv[r%4])+vv[r%4]; if(k==2||k==3){ static const char*st[4]={"2.71828182845904523536028747135266249775724709369995e-3x","-12345678901234567890123456789012345678901234567.5","infinityx","  0.000123"}; c.s=st[r%4]; c.in[0]=0; }
    if(k==5&&0) continue; if(k==3||k==4) c.ws=std::wstring(c.s.begin(),c.s.end()); L.push_back(c); }
  return L; }

// ---- C20: the direction as a state machine ------------------------------
struct Act { string n; int k; int v; }; // k: 0 setround 1 fesetround 2 fenv 3 call 4 thread
static vector<Act> ACT; static vector<Call> C20C;
static const int BM[4]={FE_TONEAREST,FE_DOWNWARD,FE_UPWARD,FE_TOWARDZERO};
static bool probe(int m,string&why){ // does the library round in direction m?
  static struct { int op[8]; u128 a[3][8],b[3][8]; } P; static bool init=false;
  static vector<Case> cs; if(!init){ init=true; for(int fi=0;fi<3;fi++){ int p=FM[fi].p; auto add=[&](const char*n,u128 a,u128 b){ Case c; c.op=opid(n); c.fmt=fi; c.in[0]=a; c.in[1]=b; cs.push_back(c); };
    u128 one=al::E(fi,0,1,0), half=al::E(fi,0,5,-1), b1=al::E(fi,0,al::P10(p-1),0), b2=al::E(fi,1,al::P10(p-1)+1,0);
    add("add",b1,half); add("sub",b2,half); add("div",al::E(fi,0,2,0),al::E(fi,0,3,0)); add("div",al::E(fi,1,1,0),al::E(fi,0,3,0)); add("mul",al::E(fi,0,al::P10(p-1)+5,0),al::E(fi,0,11,-1)); add("quantize",al::E(fi,1,25,-1),one); add("quantize",al::E(fi,0,15,-1),one); add("rint",al::E(fi,0,21,-1),0); add("nearbyint",al::E(fi,1,27,-1),0); add("lrint",al::E(fi,1,5,-1),0); add("fma",al::E(fi,0,3,0),0); cs.pop_back();
    if(fi) add("tod32",al::E(fi,0,12345675,0),0); } (void)P; }
  for(auto c:cs){ shim_out o; memset(&o,0,sizeof o); shim_ops[c.op].fn[c.fmt](c.in,0,&o); o.mode=m; c.mode=m; if(!oracle(c,o,why)){ why="effective direction is not "+std::to_string(m)+": "+key(c)+" "+why; return false; } }
  for(int fi=0;fi<3;fi++) for(bool s:{false,true}){ char b[64]; u128 v=al::E(fi,s,25,-1); shim_snprintf(fi,b,64,fi==0?"%.0Hf":fi==1?"%.0Df":"%.0DDf",0,0,0,v); tx::Spec sp; sp.prec=0; if(tx::format(fi,dec(fi,v),m,sp)!=b){ why="printf is not in direction "+std::to_string(m)+": "+b; return false; }
    const char*st=s?"-1.00000000000000000000000000000000005":"1.9999999999999999999999999999999999999"; shim_out o; long e; shim_strto(fi,st,&e,&o); tx::Parsed p=tx::parse(fi,st,m); if(!sameval(dec(fi,o.d),p.d)){ why="strtod is not in direction "+std::to_string(m); return false; } }
  return true; }
static int sv[]={0,1,2,3,4,5,6,7,-1,8,99,INT_MAX,INT_MIN,0x102,-4};
struct ThA { int m; string why; };
static void*thr(void*p){ ThA*t=(ThA*)p; if(shim_setround(t->m)) t->why="setround refused"; else if(shim_getround()!=t->m) t->why="getround in a thread"; return 0; }
static void mkacts(bool full){ 
  for(int i=0;i<15;i++) ACT.push_back({"set("+std::to_string(sv[i])+")",0,i}); 
  for(int i=0;i<4;i++) ACT.push_back({"fesetround#"+std::to_string(i),1,i}); static const char*fe[]={"feclearexcept","feraiseexcept","fesetenv","feholdexcept"}; for(int i=0;i<4;i++) ACT.push_back({fe[i],2,i});
  auto L=calls(3); std::set<string> want={"add","div","fma","quantize","exp","sin","pow","log","tgamma","fmod","remainder","hypot","rint","lround","ceil","nextafter","sqrt","toi64","fri64","tod32","ldexp","cosh","atan2","round","fdim","lt","cbrt","printf","strfrom","strtod","wcstod","decoded","nexttoward","asinh"};
  std::map<string,int> seen; for(auto&c:L){ bool w=want.count(c.name); if(!full&&!w) continue; int&k=seen[c.name]; if(full||(k++)%4==0){ C20C.push_back(c); ACT.push_back({show(c),3,(int)C20C.size()-1}); } }
  for(int i=0;i<5;i++) ACT.push_back({"thread("+std::to_string(i)+")",4,i}); }
struct St { int dec=0,bin=0; };
static bool step(St&s,const Act&a,string&why){
  switch(a.k){
  case 0: { int v=sv[a.v], r=shim_setround(v); bool ok=v>=0&&v<=4; if(ok){ if(r!=0){ why="setround refused a valid direction"; return false; } s.dec=v; } else if(r==0){ why="setround accepted an invalid direction"; return false; } break; }
  case 1: fesetround(BM[a.v]); s.bin=a.v; break;
  case 2: { static fenv_t e; if(a.v==0) feclearexcept(FE_ALL_EXCEPT); else if(a.v==1) feraiseexcept(FE_ALL_EXCEPT); else if(a.v==2){ fesetenv(FE_DFL_ENV); s.bin=0; } else feholdexcept(&e); break; }
  case 3: { const Call&c=C20C[a.v]; if(c.kind==0){ shim_out o; memset(&o,0,sizeof o); shim_ops[c.op].fn[c.fmt](c.in,c.iarg,&o); } else { Call d=c; d.mode=s.dec; Res r; doit(d,r); } break; }
  case 4: { pthread_t t; ThA x; x.m=a.v; if(pthread_create(&t,0,thr,&x)){ why=""; return true; } pthread_join(t,0); if(!x.why.empty()){ why=x.why; return false; } break; } }
  int g=shim_getround(); if(g!=s.dec){ why="getround gives "+std::to_string(g)+" instead of "+std::to_string(s.dec); return false; }
  if(fegetround()!=BM[s.bin]){ why="the binary direction changed"; return false; }
  return true; }
static string seqkey(const vector<int>&q){ string s="seq"; for(int i:q) s+=" "+ACT[i].n; return s; }
static bool runseq(const vector<int>&q,string&o,string&why,bool prb){ St s; shim_setround(0); fesetround(FE_TONEAREST); feclearexcept(FE_ALL_EXCEPT);
  bool ok=true; for(size_t i=0;i<q.size()&&ok;i++){ ok=step(s,ACT[q[i]],why); if(!ok) o="step "+std::to_string(i+1); } if(ok&&prb){ ok=probe(s.dec,why); if(!ok) o="probe"; else if(shim_getround()!=s.dec){ why="probe changed the direction"; ok=false; o="probe"; } }
  fesetround(FE_TONEAREST); shim_setround(0); if(ok) o="dec="+std::to_string(s.dec)+" bin="+std::to_string(s.bin); return ok; }
static bool c20key(const string&k,string&o,string&why){ std::istringstream i(k); string t; i>>t; vector<int> q; while(i>>t){ int f=-1; for(size_t j=0;j<ACT.size();j++) if(ACT[j].n==t) f=j; if(f<0){ why="unparsable"; return true; } q.push_back(f); } return runseq(q,o,why,true); }

// ---- C26: preemption at every instruction --------------------------------
static std::atomic<int> cmd{0}; // 0 idle 1 run 2 done
static Call*Bc; static Res Br; static pthread_t Bt; static Call*A_c; static Res A_r;
static void futex(std::atomic<int>*a,int op,int v,const struct timespec*ts){ syscall(SYS_futex,(int*)a,op,v,ts,0,0); }
static void*bthread(void*){ for(;;){ while(cmd.load()!=1){ for(int i=0;i<2000&&cmd.load()!=1;i++) __builtin_ia32_pause(); int v=cmd.load(); if(v!=1) futex(&cmd,FUTEX_WAIT_PRIVATE,v,0); } if(!Bc) return 0; doit(*Bc,Br); cmd.store(2); futex(&cmd,FUTEX_WAKE_PRIVATE,1,0); } }
static volatile int stepping=0; static volatile long traps, preempts, from, to, every, blocked; static const Res*Bexp; static volatile int bbad; static Res Bbadr; static volatile int pend;
static bool waitB(long us){ for(int i=0;i<20000;i++){ if(cmd.load()==2) return true; __builtin_ia32_pause(); } struct timespec ts={0,us*1000}; for(int i=0;i<50;i++){ int v=cmd.load(); if(v==2) return true; futex(&cmd,FUTEX_WAIT_PRIVATE,v,&ts); } return cmd.load()==2; }
static void finB(){ if(!(Br==*Bexp)&&!bbad){ bbad=traps; Bbadr=Br; } cmd.store(0); pend=0; }
static Shared::W*BEAT; static vector<unsigned long> HOT; static bool counting=false;
// write watch: which instructions write static data of libdfp during a call
static vector<std::pair<unsigned long,unsigned long>> RW; static volatile bool watching=false; static unsigned long WIP[256]; static volatile int nwip=0;
static void findrw(){ dl_iterate_phdr([](struct dl_phdr_info*d,size_t,void*)->int{ if(!d->dlpi_name||!strstr(d->dlpi_name,"libdfp")) return 0; for(int i=0;i<d->dlpi_phnum;i++){ auto&h=d->dlpi_phdr[i]; if(h.p_type!=PT_LOAD||!(h.p_flags&PF_W)) continue; unsigned long a=(d->dlpi_addr+h.p_vaddr)&~4095ul, b=(d->dlpi_addr+h.p_vaddr+h.p_memsz+4095)&~4095ul; RW.push_back({a,b}); } return 0; },0); if(RW.empty()){ fprintf(stderr,"no writable segment of libdfp\n"); exit(2); } }
static void prot(int p){ for(auto&r:RW) mprotect((void*)r.first,r.second-r.first,p); }
static void onsegv(int sig,siginfo_t*si,void*u){ ucontext_t*c=(ucontext_t*)u; unsigned long a=(unsigned long)si->si_addr; bool in=false; for(auto&r:RW) if(a>=r.first&&a<r.second) in=true; if(!watching||!in){ signal(sig,SIG_DFL); return; }
  if(nwip<256) WIP[nwip++]=c->uc_mcontext.gregs[REG_RIP]; prot(PROT_READ|PROT_WRITE); c->uc_mcontext.gregs[REG_EFL]|=0x100; }
static vector<unsigned long> writers(const Call&a){ static bool init=false; if(!init){ init=true; findrw(); struct sigaction s; memset(&s,0,sizeof s); s.sa_sigaction=onsegv; s.sa_flags=SA_SIGINFO; sigaction(SIGSEGV,&s,0); } Res r; nwip=0; watching=true; prot(PROT_READ); doit(a,r); prot(PROT_READ|PROT_WRITE); watching=false; vector<unsigned long> v(WIP,WIP+nwip); std::sort(v.begin(),v.end()); v.erase(std::unique(v.begin(),v.end()),v.end()); return v; }
static void onstep(int,siginfo_t*,void*u){ ucontext_t*c=(ucontext_t*)u; if(watching){ prot(PROT_READ); c->uc_mcontext.gregs[REG_EFL]&=~0x100; return; } if(!stepping){ c->uc_mcontext.gregs[REG_EFL]&=~0x100; return; }
  int se=errno; traps++; if((traps&255)==0&&BEAT) BEAT->beat.fetch_add(1);
  bool hot=false; if(!HOT.empty()){ static bool last=false; unsigned long ip=c->uc_mcontext.gregs[REG_RIP]; bool h=std::binary_search(HOT.begin(),HOT.end(),ip); hot=h||last; last=h; } // next to a write of shared data
  if(pend){ if(cmd.load()==2) finB(); }
  else if(hot||(traps>=from&&traps<=to&&(traps-from)%every==0)){ preempts++; cmd.store(1); futex(&cmd,FUTEX_WAKE_PRIVATE,1,0); if(waitB(200)) finB(); else { pend=1; blocked++; } }
  errno=se; if(traps>=to&&!pend&&HOT.empty()&&!counting){ stepping=0; c->uc_mcontext.gregs[REG_EFL]&=~0x100; return; }
  c->uc_mcontext.gregs[REG_EFL]|=0x100; }
static void startB(){ static bool on=false; if(on) return; on=true; struct sigaction a; memset(&a,0,sizeof a); a.sa_sigaction=onstep; a.sa_flags=SA_SIGINFO; sigaction(SIGTRAP,&a,0); pthread_create(&Bt,0,bthread,0); }
__attribute__((noinline)) static void stepped(const Call&a,Res&r){ stepping=1; __asm__ volatile("pushfq; orq $0x100,(%%rsp); popfq":::"memory","cc"); doit(a,r); stepping=0; __asm__ volatile("nop; nop":::"memory"); }
static long count(const Call&a,Res&r){ Res x; counting=true; traps=0; from=1; to=0; every=1; pend=0; bbad=0; Bexp=&x; stepped(a,r); counting=false; return traps; }
// run a with b preempting at every `ev`-th instruction of [f,t]
static bool pair(const Call&a,const Res&ea,const Call&b,const Res&eb,long f,long t,long ev,string&o,string&why){
  startB(); Res r; traps=preempts=blocked=0; from=f; to=t; every=ev; pend=0; bbad=0; Bexp=&eb; Bc=(Call*)&b; cmd.store(0); stepped(a,r); if(pend){ while(!waitB(1000)){} finB(); }
  if(bbad){ o="other: "+rstr(b,Bbadr); why="the preempting call differs (instruction "+std::to_string(bbad)+"): want "+rstr(b,eb); return false; }
  if(!(r==ea)){ o=rstr(a,r); why="the preempted call differs: want "+rstr(a,ea); return false; }
  o="ok"; return true; }
static vector<Call> ALL; static int CAP=2500;
static int callid(const string&s){ for(size_t i=0;i<ALL.size();i++) if(show(ALL[i])==s) return i; return -1; }
static Res fresh(const Call&c);
static bool firstat(const Call&,const Res&,const Call&,const Res&,long,long&,string&,string&);
static bool c26key(const string&k,string&o,string&why){ std::istringstream i(k); string t,a,b; long f,to_,ev; i>>t>>a>>b>>f>>to_>>ev; int x=callid(a),y=callid(b); if(x<0||y<0){ why="unparsable"; return true; } if(t=="first"){ Res ea=fresh(ALL[x]), eb=fresh(ALL[y]); long d; return firstat(ALL[x],ea,ALL[y],eb,f,d,o,why); } startB(); HOT=writers(ALL[x]); Res ra,rb; doit(ALL[x],ra); doit(ALL[x],ra); doit(ALL[y],rb); doit(ALL[y],rb); startB(); return pair(ALL[x],ra,ALL[y],rb,f,to_,ev,o,why); }
// the very first call of a process: preempted at one instruction, in a fresh child
struct First { long total; int nw; unsigned long ip[256]; };
static First firstw(const Call&a){ int p[2]; if(pipe(p)) exit(2); pid_t q=fork(); if(q==0){ First f; memset(&f,0,sizeof f); auto v=writers(a); f.nw=std::min<size_t>(256,v.size()); for(int i=0;i<f.nw;i++) f.ip[i]=v[i]; if(write(p[1],&f,sizeof f)!=sizeof f) _exit(1); _exit(0); } close(p[1]); First f; memset(&f,0,sizeof f); f.total=-1; size_t n=0; while(n<sizeof f){ ssize_t k=read(p[0],(char*)&f+n,sizeof f-n); if(k<=0) break; n+=k; } close(p[0]); int st; waitpid(q,&st,0); return f; }
static bool firstat(const Call&a,const Res&ea,const Call&b,const Res&eb,long at,long&done,string&o,string&why){ struct M{ int ok; long pre; char o[400],why[400]; }; int p[2]; if(pipe(p)) exit(2); pid_t q=fork(); if(q==0){ alarm(60); M m; memset(&m,0,sizeof m); string so,sw; HOT.clear(); startB(); m.ok=pair(a,ea,b,eb,at,at,1,so,sw); m.pre=preempts; snprintf(m.o,400,"%s",so.c_str()); snprintf(m.why,400,"%s",sw.c_str()); if(write(p[1],&m,sizeof m)!=sizeof m) _exit(1); _exit(0); }
  close(p[1]); M m; memset(&m,0,sizeof m); size_t n=0; while(n<sizeof m){ ssize_t k=read(p[0],(char*)&m+n,sizeof m-n); if(k<=0) break; n+=k; } close(p[0]); int st; waitpid(q,&st,0); if(n<sizeof m){ o="crash"; why="the process ended"; done=1; return false; } done=m.pre; o=m.o; why=m.why; return m.ok; }
// ---- C27: history ----------------------------------------------------------
static Res fresh(const Call&c){ // the call alone in a new process
  int p[2]; if(pipe(p)) exit(2); pid_t q=fork(); if(q==0){ Res r; doit(c,r); if(write(p[1],&r,sizeof r)!=sizeof r) _exit(1); _exit(0); } close(p[1]); Res r; memset(&r,0xee,sizeof r); size_t n=0; while(n<sizeof r){ ssize_t k=read(p[0],(char*)&r+n,sizeof r-n); if(k<=0) break; n+=k; } close(p[0]); int st; waitpid(q,&st,0); return r; }
static bool c27key(const string&k,string&o,string&why){ std::istringstream i(k); string t; i>>t; vector<int> q; while(i>>t){ int x=callid(t); if(x<0){ why="unparsable"; return true; } q.push_back(x); } if(q.empty()) return true; Res e=fresh(ALL[q.back()]), r; for(int x:q) doit(ALL[x],r); o=rstr(ALL[q.back()],r); if(!(r==e)){ why="alone it gives "+rstr(ALL[q.back()],e); return false; } return true; }

int main(int argc,char**argv){
  if(argc<2) return 2; PROP=argv[1]; Explorer x(PROP,argc-1,argv+1); Q=x.quick(); x.hang_s=120; x.oracle=oracle;
  std::function<void(Worker&)> body;
  x.assumptions={"glibc 2.39, gcc 13.3 on x86_64, software decimal arithmetic in binary-integer encoding","actions and operands outside the stated alphabets behave like those inside"};
  if(PROP=="C20"){ mkacts(true); size_t full=ACT.size(); x.runkey=c20key; 
    vector<int> core; { std::set<string> w; int seen=0; for(size_t i=0;i<full;i++){ const Act&a=ACT[i]; if(a.k!=3) core.push_back(i); else { const Call&c=C20C[a.v]; static const std::set<string> want={"div","quantize","exp","sin","pow","fmod","remainder","rint","ceil","tod32","round","printf","strtod","nexttoward","strfrom","fdim","hypot"}; if(want.count(c.name)&&(c.fmt==(seen++)%3)&&w.insert(c.name).second) core.push_back(i); } } }
    x.rule="All sequences over the core alphabet (fe_dec_setround of 5 valid and 10 invalid arguments, 4 binary directions, 4 fenv calls, "+std::to_string(core.size()-28)+" library calls, 5 threads that set their own direction) up to depth "+string(Q?"3":"4")+", and every setround followed by every one of the "+std::to_string(full-28)+" library calls; after each step the reported decimal and binary directions, at the end of each sequence the direction in force in arithmetic, quantize, rint, conversions, printf and strtod of all widths, are compared with the state machine. A state is a distinct (sequence position, directions); a transition is one action or probe; a trace is one sequence.";
    x.samples={"set(2) thread(3) sin","set(5) fesetround(up) printf","fesetenv(default) set(4) strtod"};
    body=[&,core](Worker&w){ auto go=[&](const vector<int>&q,bool p){ string k=seqkey(q),o,why; w.setcur(k); w.tr+=q.size()+(p?1:0); bool ok=runseq(q,o,why,p); w.state(hstr(k)); if(!ok) w.fail(k,o,why); w.trace(); };
      for(int m=0;m<5;m++) for(size_t i=0;i<full;i++){ if(!w.row()) continue; go({m,(int)i},true); }
      int D=Q?3:4; for(int a:core) for(int b:core){ if(!w.row()) continue; for(int c:core){ if(D==3) go({a,b,c},true); else for(int d:core) go({a,b,c,d},true); } } }; }
  else if(PROP=="C26"){ x.auxname={{0,"calls"},{1,"calls_without_shared_writes"},{2,"calls_writing_shared_data_only_when_first"}}; x.stop_after=10; if(!getenv("LD_BIND_NOW")){ setenv("LD_BIND_NOW","1",1); execv("/proc/self/exe",argv); } ALL=calls(3); x.nw=std::max(1,x.nw/2); x.runkey=c26key; if(!Q) CAP=12000;
    x.rule="For pairs of calls (every operation and width with itself on different operands and directions; a set of families crossed with each other"+string(Q?"":"; every operation with one of every other")+") the first call runs single-stepped and is preempted before every one of its first "+std::to_string(CAP)+" machine instructions by a complete run of the second call in another thread; every call is first run with the library's static data write-protected: where neither call of a pair writes any (see calls_without_shared_writes) all their interleavings are equivalent, otherwise the preemption window is ten times larger and includes the neighbourhood of each such write; both results, flags, errno and directions must equal those of the calls alone. A state is a distinct (pair, instruction); a transition is one preemption; a trace is one pair.";
    x.samples={"divd64 preempted by itself in another direction at each of its instructions","snprintf %.4De preempted by exp","strtod128 preempted by strtod32"};
    body=[&](Worker&w){ BEAT=&x.sh->w[w.id]; vector<Res> E(ALL.size()); std::map<int,First> FW; std::map<unsigned long,int> ipuse;
      for(size_t i=0;i<ALL.size();i++) if((int)(i%w.n)==w.id){ w.setcur("pair "+show(ALL[i])+" "+show(ALL[i])+" 1 0 1"); First f=firstw(ALL[i]); if(f.nw>0) FW[i]=f; } for(size_t i=0;i<ALL.size();i++){ w.setcur("pair "+show(ALL[i])+" "+show(ALL[i])+" 1 0 1"); doit(ALL[i],E[i]); doit(ALL[i],E[i]); }
      startB(); vector<vector<unsigned long>> WR(ALL.size()); for(size_t i=0;i<ALL.size();i++){ w.setcur("pair "+show(ALL[i])+" "+show(ALL[i])+" 1 0 1"); WR[i]=writers(ALL[i]); if(w.id==0){ x.sh->aux[0]++; if(WR[i].empty()) x.sh->aux[1]++; } }
      for(auto&e:FW){ // lazily initialised: explore the first call of a process near its first-only writes
        int a=e.first; bool lazy=false; for(int i=0;i<e.second.nw;i++) if(!std::binary_search(WR[a].begin(),WR[a].end(),e.second.ip[i])) lazy=true; if(!lazy) continue; x.sh->aux[2]++; bool fresh_=false; for(int i=0;i<e.second.nw;i++) if(ipuse[e.second.ip[i]]++<2) fresh_=true; if(!fresh_) continue;
        for(int b:{a,(int)((a+1)%ALL.size()),(int)((a+3)%ALL.size())}){ long N=Q?4000:20000; for(long at=1;at<=N;at++){ if(x.stop_after&&x.sh->live.load()>=x.stop_after) break; string k="first "+show(ALL[a])+" "+show(ALL[b])+" "+std::to_string(at)+" 0 1",o,why; w.setcur(k); long done=0; bool ok=firstat(ALL[a],E[a],ALL[b],E[b],at,done,o,why); if(!done) break; w.tr++; w.state(hstep(hstep(a+7777,b),at)); if(!ok){ w.fail(k,o,why); break; } } w.trace(); } }
      auto go=[&](int a,int b,bool deep){ if(!w.row()) return; bool dep=!WR[a].empty()||!WR[b].empty(); if(!dep&&!deep) return;
        HOT=WR[a]; string k="pair "+show(ALL[a])+" "+show(ALL[b])+" 1 "+std::to_string(dep?10*CAP:CAP)+" 1",o,why; w.setcur(k); bool ok=pair(ALL[a],E[a],ALL[b],E[b],1,dep?10*CAP:CAP,1,o,why); w.tr+=preempts; for(long i=0;i<preempts;i++) w.state(hstep(hstep(a,b),i)); w.trace(); if(!ok) w.fail(k,o,why); };
      // same operation, different rows
      std::map<string,vector<int>> by; for(size_t i=0;i<ALL.size();i++) by[ALL[i].name+"/"+std::to_string(ALL[i].fmt)].push_back(i);
      for(auto&e:by){ auto&v=e.second; if(v.size()>=2){ go(v[0],v[1],true); go(v[1],v[0],true); if(v.size()>2){ go(v[2],v[0],!Q); go(v[0],v[2],!Q); } } }
      vector<int> rep; for(auto&e:by){ static const std::set<string> want={"add","div","fma","quantize","exp","sin","pow","log","fmod","remainder","rint","nextafter","sqrt","toi128","fri128","tod32","ldexp","printf","strfrom","strtod","wcstod","decoded","tgamma","lround"}; if(want.count(ALL[e.second[0]].name)) rep.push_back(e.second[0]); }
      if(Q){ vector<int> r2; for(size_t i=0;i<rep.size();i++) if(ALL[rep[i]].fmt==(int)(i/3)%3) r2.push_back(rep[i]); rep=r2; }
      for(int a:rep) for(int b:rep) if(a!=b) go(a,b,true);
      if(!Q) for(auto&e:by) for(int b:rep) { go(e.second[0],b,true); go(b,e.second[0],true); }
      // width crossings of one operation
      for(size_t i=0;i<ALL.size();i++) if(ALL[i].fmt<2&&ALL[i].mode==2) for(size_t j=0;j<ALL.size();j++) if(ALL[j].name==ALL[i].name&&ALL[j].fmt==ALL[i].fmt+1&&ALL[j].mode==3) go(j,i,!Q); }; }
  else if(PROP=="C27"){ ALL=calls(Q?3:4); x.runkey=c27key;
    x.rule="Every ordered pair of calls from the list of all operations, widths and representative operand rows ("+std::to_string(ALL.size())+" calls) and every ordered triple within one operation and its widths: the last call must give the same result bits, text, errno and flags as it gives alone in a fresh process. A state is a distinct ordered pair; a transition is one call; a trace is one first call with all its successors.";
    x.samples={"strtod32 then powd128","tgamma then exp","printf %DDa then decoded32"};
    int n=ALL.size(); vector<Res>*E=new vector<Res>(n); bool normal=true; for(int i=1;i<argc;i++) if(string(argv[i])=="--one"||string(argv[i])=="--replay") normal=false;
    if(normal) for(int i=0;i<n;i++) (*E)[i]=fresh(ALL[i]);
    body=[&,E,n](Worker&w){ auto ck=[&](const vector<int>&q,const Res&r){ w.state(hstep(hstep(q[0],q.back()),q.size())); if(!(r==(*E)[q.back()])){ string k="hist"; for(int i:q) k+=" "+show(ALL[i]); w.fail(k,rstr(ALL[q.back()],r),"alone it gives "+rstr(ALL[q.back()],(*E)[q.back()])); } };
      Res r; for(int a=0;a<n;a++){ if(!w.row()) continue; w.setcur("hist "+show(ALL[a])); for(int b=0;b<n;b++){ doit(ALL[a],r); ck({a},r); w.sh_beat(); doit(ALL[b],r); ck({a,b},r); w.tr+=2; } w.trace(); }
      std::map<string,vector<int>> by; for(int i=0;i<n;i++) by[ALL[i].name].push_back(i); for(auto&e:by){ if(!w.row()) continue; auto&v=e.second; for(int a:v) for(int b:v) for(int c:v){ w.setcur("hist "+show(ALL[a])+" "+show(ALL[b])+" "+show(ALL[c])); doit(ALL[a],r); doit(ALL[b],r); doit(ALL[c],r); ck({a,b,c},r); w.tr+=3; } w.trace(); } }; }
  else { fprintf(stderr,"unknown property %s\n",PROP.c_str()); return 2; }
  return x.main(body);
}
