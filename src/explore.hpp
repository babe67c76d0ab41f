// Exhaustive explorer: runs every enumerated call of the real library under
// every rounding mode asked for, compares each step with the reference model,
// records states/transitions, replays failures in a fresh process.
#ifndef EXPLORE_HPP
#define EXPLORE_HPP
#include "shim.h"
#include "ref.hpp"
#include <functional>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <sstream>
#include <fstream>
#include <iostream>
#include <unordered_set>
#include <unordered_map>
#include <atomic>
#include <chrono>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <unistd.h>
#include <signal.h>
#include <cerrno>
#include <cstdio>
#include <cstdlib>

namespace xp {
using std::string; using std::vector;

struct Case { int op=0, fmt=0, mode=0; u128 in[3]={0,0,0}; long long iarg=0; };
inline string hx(u128 v){ char b[40]; if (v>>64) snprintf(b,40,"%llx%016llx",(unsigned long long)(v>>64),(unsigned long long)v); else snprintf(b,40,"%llx",(unsigned long long)v); return b; }
inline u128 unhx(const string&s){ u128 v=0; for(char c:s){ v=v*16+(c<='9'?c-'0':(c|32)-'a'+10);} return v; }
inline string key(const Case&c){ std::ostringstream o; o<<shim_ops[c.op].name<<' '<<(32<<c.fmt)<<' '<<c.mode<<' '<<hx(c.in[0])<<' '<<hx(c.in[1])<<' '<<hx(c.in[2])<<' '<<c.iarg; return o.str(); }
inline int opid(const string&n){ for(int i=0;i<shim_nops;i++) if(n==shim_ops[i].name) return i; fprintf(stderr,"no op %s\n",n.c_str()); exit(2); }
inline bool parse(const string&s,Case&c){ std::istringstream i(s); string n,a,b,d; int bits; if(!(i>>n>>bits>>c.mode>>a>>b>>d>>c.iarg)) return false; c.op=opid(n); c.fmt=bits==32?0:bits==64?1:2; c.in[0]=unhx(a); c.in[1]=unhx(b); c.in[2]=unhx(d); return true; }
inline string obs(const shim_out&o){ std::ostringstream s; s<<"d="<<hx(o.d)<<" i="<<hx(o.i)<<" d2="<<hx(o.d2)<<" errno="<<o.err<<" flags="<<o.flags<<" mode="<<o.mode; return s.str(); }

inline uint64_t mix(uint64_t h){ h^=h>>33; h*=0xff51afd7ed558ccdULL; h^=h>>33; h*=0xc4ceb9fe1a85ec53ULL; h^=h>>33; return h; }
inline uint64_t hstep(uint64_t h,uint64_t v){ return mix(h*0x9e3779b97f4a7c15ULL + v); }
inline uint64_t hstr(const string&s){ uint64_t h=1469598103934665603ULL; for(unsigned char c:s){h^=c;h*=1099511628211ULL;} return mix(h); }

static const size_t BMBITS = size_t(1)<<31;
struct Shared {
  std::atomic<uint64_t> transitions, traces, nontrivial, fails, aux[8], live, capped;
  struct W { char cur[8192]; int bin; std::atomic<uint64_t> beat; } w[64];
};

struct Explorer;
struct Worker {
  Explorer&x; int id,n; uint64_t row_=0; uint64_t tr=0, ntr=0, nt=0; FILE*ff; uint64_t nfail=0;
  Worker(Explorer&x_,int i,int n_,FILE*f):x(x_),id(i),n(n_),ff(f){}
  inline bool row();
  inline void state(uint64_t h);
  inline void setcur(const string&s);
  inline void fail(const string&k,const string&o,const string&why);
  inline shim_out exec(const Case&c);
  inline void trace(){ ntr++; }
  inline void sh_beat();
};

typedef std::function<bool(const Case&,const shim_out&,string&)> Oracle;

struct Known { std::unordered_map<string,std::pair<string,string>> exact; /* key -> (observed, finding id) */ std::map<string,string> text; };

struct Explorer {
  string prop, tier, root; string sub; bool safe=false; /* VP_SAFE: only crashes and hangs count; reported as C32 */ int nw; bool replay=false; string replayfile; string one; bool isone=false; uint64_t seed;
  Shared*sh; uint8_t*bm; Oracle oracle; 
  std::function<bool(const string&key,string&obs,string&why)> runkey;  // re-run a textual case; true = ok
  vector<string> samples; string rule; vector<string> assumptions; std::map<string,string> extra; std::map<int,string> auxname;
  std::chrono::steady_clock::time_point t0; string scratch; bool survey=false; int hang_s=60; uint64_t stop_after=0; double cap_s=760; // cap: only the quick tier
  vector<string> known_hit; 
  std::unordered_map<string,string> known;   // "key => obs" lines -> finding id
  std::map<string,string> kftext; std::map<string,uint64_t> kfhits;
  Explorer(const string&p,int argc,char**argv):prop(p){
    t0=std::chrono::steady_clock::now();
    tier = getenv("VERIF_TIER")?getenv("VERIF_TIER"):"quick"; seed = getenv("VERIF_SEED")?strtoull(getenv("VERIF_SEED"),0,10):1;
    nw = (int)sysconf(_SC_NPROCESSORS_ONLN); if(nw<1) nw=1; if(nw>32) nw=32;
    root = getenv("VP_ROOT")?getenv("VP_ROOT"):"/verif";
    for(int i=1;i<argc;i++){ string a=argv[i]; if(a=="--tier") tier=argv[++i]; else if(a=="--workers") nw=atoi(argv[++i]); else if(a=="--one") { isone=true; one=argv[++i]; }
      else if(a=="--replay") { replay=true; replayfile=argv[++i]; } else if(a=="--survey") survey=true; }
    if(getenv("VP_SAFE")){ safe=true; sub=prop; prop="C32"; if(getenv("VP_CAP")) cap_s=atof(getenv("VP_CAP")); }
    sh=(Shared*)mmap(0,sizeof(Shared),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0);
    bm=(uint8_t*)mmap(0,BMBITS/8,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS|MAP_NORESERVE,-1,0);
    if(sh==MAP_FAILED||bm==MAP_FAILED){perror("mmap");exit(2);}
    runkey=[this](const string&k,string&o,string&why){ Case c; if(!parse(k,c)){why="unparsable case";return true;} shim_out r; shim_call(shim_ops[c.op].fn[c.fmt],c.mode,c.in,c.iarg,&r); o=obs(r); return safe||oracle(c,r,why); };
    loadknown();
  }
  bool quick()const{return tier!="thorough";}
  void loadknown(){
    std::ifstream f(root+"/known_findings.txt"); string l;
    while(getline(f,l)){ if(l.empty()||l[0]=='#') continue;
      if (l.rfind("finding: ",0)==0) { // finding: property=C05 id=K1 <text>
        std::istringstream i(l.substr(9)); string p,id; i>>p>>id; string rest; getline(i,rest);
        if(p=="property="+prop) { kftext[id.substr(3)]=rest; loadcases(id.substr(3)); } }
    }
  }
  void loadcases(const string&id){ string p=root+"/known/"+id+".cases"; string cmd; 
    auto rd=[&](FILE*f){ char*line=0; size_t n=0; ssize_t k; while((k=getline(&line,&n,f))>0){ while(k&&(line[k-1]=='\n')) line[--k]=0; if(k) known[string(line,k)]=id; } free(line); };
    if (FILE*f=fopen(p.c_str(),"r")) { rd(f); fclose(f);} else if (access((p+".xz").c_str(),R_OK)==0) { FILE*f2=popen(("xz -dc "+p+".xz").c_str(),"r"); if(f2){rd(f2);pclose(f2);} } }
  string curkey(int i){ auto&w=sh->w[i]; if(w.bin){ Case c; memcpy(&c,w.cur,sizeof c); return key(c);} return string(w.cur); }
  int finish(const vector<std::array<string,3>>&F);
  void evidence(uint64_t viol);
  int main(std::function<void(Worker&)> body);
};
inline bool Worker::row(){ if((int)(row_++ % n)!=id) return false; auto*s=x.sh; if(s->capped.load(std::memory_order_relaxed)) return false;
  if(x.stop_after&&s->live.load()>=x.stop_after){ s->capped.store(2); return false; }
  if(x.quick()&&std::chrono::duration<double>(std::chrono::steady_clock::now()-x.t0).count()>x.cap_s){ s->capped.store(1); return false; } return true; }
inline void Worker::sh_beat(){ x.sh->w[id].beat.fetch_add(1,std::memory_order_relaxed); }
inline void Worker::state(uint64_t h){ size_t b=mix(h)&(BMBITS-1); x.bm[b>>3]|=1<<(b&7); }
inline void Worker::setcur(const string&s){ auto&w=x.sh->w[id]; size_t n=std::min(s.size(),sizeof(w.cur)-1); memcpy(w.cur,s.data(),n); w.cur[n]=0; w.bin=0; w.beat.fetch_add(1,std::memory_order_relaxed); }
inline void Worker::fail(const string&k,const string&o,const string&why){
  if(x.safe) return; nfail++; x.sh->live++; if (nfail<=(x.survey?2000000u:400000u)) fprintf(ff,"%s\t%s\t%s\n",k.c_str(),o.c_str(),why.c_str()); }
inline shim_out Worker::exec(const Case&c){
  auto&w=x.sh->w[id]; memcpy(w.cur,&c,sizeof c); w.bin=1; w.beat.store(w.beat.load(std::memory_order_relaxed)+1,std::memory_order_relaxed);
  shim_out o; shim_call(shim_ops[c.op].fn[c.fmt],c.mode,c.in,c.iarg,&o); tr++;
  uint64_t h=hstep(hstep(c.op*3+c.fmt,(uint64_t)o.d),(uint64_t)(o.d>>64)); h=hstep(hstep(h,(uint64_t)o.i),(uint64_t)o.d2); h=hstep(h,o.err*64+o.flags+(uint64_t)c.mode*1000003); state(h);
  string why; if(!x.safe&&!x.oracle(c,o,why)) fail(key(c),obs(o),why);
  return o; }

inline string jesc(const string&s){ string r; for(unsigned char c:s){ if(c=='"'||c=='\\'){r+='\\';r+=c;} else if(c<32||c>=127){char b[8];snprintf(b,8,"\\u%04x",c);r+=b;} else r+=c;} return r; }

inline int Explorer::main(std::function<void(Worker&)> body){
  if (isone) { string o,why; bool ok=runkey(one,o,why)||safe; printf("%s\t%s\t%s\n",ok?"OK":"FAIL",o.c_str(),why.c_str()); return ok?0:1; }
  if (replay) { std::ifstream f(replayfile); string l; bool bad=false; while(getline(f,l)) if(l.rfind("case: ",0)==0){ string o,why; bool ok=runkey(l.substr(6),o,why)||safe; printf("%s %s -> %s %s\n",ok?"holds":"VIOLATED",l.substr(6).c_str(),o.c_str(),why.c_str()); if(!ok) bad=true; }
    if(bad) printf("VIOLATION property=%s replay=%s\n",prop.c_str(),replayfile.c_str()); return bad?1:0; }
  char tmpl[]="/tmp/vpx.XXXXXX"; if(!mkdtemp(tmpl)){perror("mkdtemp");return 2;} scratch=tmpl;
  if(!survey&&known.empty()&&!stop_after) stop_after=2000; // enough violations: end at the next row
  fflush(stdout); vector<pid_t> pids(nw); 
  for(int i=0;i<nw;i++){ pids[i]=fork(); if(pids[i]<0){perror("fork");return 2;}
    if(pids[i]==0){ prctl(PR_SET_PDEATHSIG,SIGKILL); string fn=scratch+"/f"+std::to_string(i); FILE*ff=fopen(fn.c_str(),"w"); Worker w(*this,i,nw,ff); body(w); fclose(ff);
      sh->transitions+=w.tr; sh->traces+=w.ntr; sh->nontrivial+=w.nt; sh->fails+=w.nfail; _exit(0);} }
  vector<std::array<string,3>> F; int alive=nw; vector<uint64_t> lastb(nw,0); vector<int> still(nw,0); vector<bool> done(nw,false); bool broken=false;
  while(alive>0){ 
    for(int i=0;i<nw;i++) if(!done[i]){ int st; pid_t r=waitpid(pids[i],&st,WNOHANG); 
      if(r==pids[i]){ done[i]=true; alive--; if(!(WIFEXITED(st)&&WEXITSTATUS(st)==0)){ 
          string k=curkey(i); char b[100]; snprintf(b,100,"worker ended by %s %d",WIFSIGNALED(st)?"signal":"exit",WIFSIGNALED(st)?WTERMSIG(st):WEXITSTATUS(st)); F.push_back({k,string("crash"),b}); broken=true; if(!survey) sh->capped.store(2); } }
      else { uint64_t b=sh->w[i].beat.load(); if(b==lastb[i]) still[i]++; else {still[i]=0; lastb[i]=b;} 
        if(still[i]>hang_s*10){ kill(pids[i],SIGKILL); F.push_back({curkey(i),"hang","call does not return"}); still[i]=0; broken=true; if(!survey) sh->capped.store(2); } } }
    if(alive) usleep(alive==nw?20000:100000/1); }
  for(int i=0;i<nw;i++){ std::ifstream f(scratch+"/f"+std::to_string(i)); string l; while(getline(f,l)){ size_t a=l.find('\t'),b=l.find('\t',a+1); if(a==string::npos||b==string::npos) continue; F.push_back({l.substr(0,a),l.substr(a+1,b-a-1),l.substr(b+1)}); } }
  if(system(("rm -rf "+scratch).c_str())){}
  (void)broken; return finish(F);
}

inline void Explorer::evidence(uint64_t viol){
  uint64_t st=0; const uint64_t*q=(const uint64_t*)bm; for(size_t i=0;i<BMBITS/64;i++) st+=__builtin_popcountll(q[i]);
  double wall=std::chrono::duration<double>(std::chrono::steady_clock::now()-t0).count();
  string dir=root+"/evidence"; mkdir(dir.c_str(),0755); string fn=safe?string(getenv("VP_SAFE")):dir+"/"+prop+".json"; string tmp=fn+".tmp";
  FILE*f=fopen(tmp.c_str(),"w"); if(!f){perror("evidence");exit(2);}
  fprintf(f,"{\n \"property\": \"%s\", \"tier\": \"%s\", \"seed\": %llu, \"level\": \"model_checking\",\n \"coverage\": {\n",prop.c_str(),quick()?"quick":"thorough",(unsigned long long)seed);
  fprintf(f,"  \"states\": %llu,\n  \"transitions\": %llu,\n  \"traces_validated_against_impl\": %llu,\n",(unsigned long long)st,(unsigned long long)sh->transitions.load(),(unsigned long long)sh->traces.load());
  fprintf(f,"  \"exhaustive\": %s,\n  \"rule\": \"%s\",\n",sh->capped.load()?"false":"true",((sh->capped.load()==1?"STOPPED AT THE TIME CAP, only part of this was covered: ":sh->capped.load()?"Stopped after the first violations: ":"")+jesc(rule)).c_str());
  for(auto&e:auxname) fprintf(f,"  \"%s\": %llu,\n",e.second.c_str(),(unsigned long long)sh->aux[e.first].load());
  for(auto&e:extra) fprintf(f,"  \"%s\": %s,\n",e.first.c_str(),e.second.c_str());
  fprintf(f,"  \"known_finding_cases_seen\": {"); { bool c=false; for(auto&k:kfhits){ fprintf(f,"%s\"%s\": %llu",c?", ":"",k.first.c_str(),(unsigned long long)k.second); c=true; } } fprintf(f,"},\n");
  fprintf(f,"  \"samples\": ["); { bool c=false; for(auto&s:samples){ fprintf(f,"%s\"%s\"",c?", ":"",jesc(s).c_str()); c=true; } } fprintf(f,"]\n },\n \"assumptions\": [");
  { bool c=false; for(auto&s:assumptions){ fprintf(f,"%s\"%s\"",c?", ":"",jesc(s).c_str()); c=true; } }
  fprintf(f,"],\n \"wall_s\": %.2f,\n \"violations\": %llu\n}\n",wall,(unsigned long long)viol); fclose(f); rename(tmp.c_str(),fn.c_str());
  printf("%s %s: states=%llu transitions=%llu traces=%llu violations=%llu wall=%.1fs\n",prop.c_str(),tier.c_str(),(unsigned long long)st,(unsigned long long)sh->transitions.load(),(unsigned long long)sh->traces.load(),(unsigned long long)viol,wall);
}
inline string shq(const string&s){ string r="'"; for(char c:s){ if(c=='\'') r+="'\\''"; else r+=c;} return r+"'"; }
inline int Explorer::finish(const vector<std::array<string,3>>&F){
  vector<std::array<string,3>> unk; uint64_t total=sh->fails.load();
  for(auto&f:F){ auto it=known.find(f[0]+" => "+f[1]); if(it!=known.end()) kfhits[it->second]++; else unk.push_back(f); }
  for(auto&k:kfhits) printf("KNOWN-FINDING: property=%s %s:%s (%llu cases of this run)\n",prop.c_str(),k.first.c_str(),kftext[k.first].c_str(),(unsigned long long)k.second);
  if (survey) { std::map<string,std::pair<uint64_t,vector<string>>> g; for(auto&f:unk){ string op; int n=0; for(char c:f[0]){ if(c==' '&&++n==2) break; op+=c; } string w=f[2].substr(0,f[2].find(':')); auto&e=g[op+" ["+w+"]"]; e.first++; if(e.second.size()<1|| (e.first%997==0&&e.second.size()<2)) e.second.push_back(f[0]+" -> "+f[2]); }
    for(auto&e:g){ printf("%s  x%llu\n",e.first.c_str(),(unsigned long long)e.second.first); for(auto&s:e.second.second) printf("      %s\n",s.c_str()); } 
    if(getenv("VP_DUMP")){ FILE*f=fopen(getenv("VP_DUMP"),"w"); for(auto&u:unk) fprintf(f,"%s => %s\t%s\n",u[0].c_str(),u[1].c_str(),u[2].c_str()); fclose(f);} evidence(unk.size()); return unk.empty()?0:1; }
  (void)total;
  int reported=0; char self[4096]; ssize_t n=readlink("/proc/self/exe",self,sizeof self-1); self[n>0?n:0]=0;
  std::sort(unk.begin(),unk.end(),[](auto&a,auto&b){ if(a[0].size()!=b[0].size()) return a[0].size()<b[0].size(); return a[0]<b[0]; });
  string dir=root+"/replays"; mkdir(dir.c_str(),0755);
  for(auto&f:unk){ if(reported>=5) break;
    string cmd="timeout 120 "+shq(self)+" "+(safe?sub:prop)+" --one "+shq(f[0])+" 2>&1"; FILE*p=popen(cmd.c_str(),"r"); string out; char b[1024]; size_t k; while(p&&(k=fread(b,1,sizeof b,p))>0) out.append(b,k); int st=p?pclose(p):-1;
    bool again = !(WIFEXITED(st)&&WEXITSTATUS(st)==0);
    string fn=dir+"/"+prop+(safe?"-"+sub:string())+"-"+std::to_string(++reported)+".replay"; FILE*r=fopen(fn.c_str(),"w"); if(!r){perror("replay");return 2;}
    if(safe) fprintf(r,"program: %s\n",sub.c_str()); fprintf(r,"property: %s\ncase: %s\nobserved: %s\nwhy: %s\nfresh-process replay: %s\n%s\nhow: bash /verif/check.sh %s --replay <this file>\n",prop.c_str(),f[0].c_str(),f[1].c_str(),f[2].c_str(),again?"fails again":"does not fail alone: depends on the calls made before it in this exploration",out.c_str(),prop.c_str()); fclose(r);
    printf("  %s -> %s : %s%s\n",f[0].c_str(),f[1].c_str(),f[2].c_str(),again?"":" (history-dependent)");
    printf("VIOLATION property=%s replay=%s\n",prop.c_str(),fn.c_str()); }
  evidence(unk.size()); fflush(stdout); return unk.empty()?0:1;
}
}
#endif
