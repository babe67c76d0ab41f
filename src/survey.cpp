#include "explore.hpp"
#include "alphabet.hpp"
#include "oracle.hpp"
using namespace xp;
int main(int argc,char**argv){
  Explorer x("C00",argc,argv); x.survey=true; x.oracle=oracle;
  const char*ops=getenv("OPS"); std::istringstream is(ops?ops:""); vector<string> L; string s; while(is>>s) L.push_back(s);
  int cl=getenv("CL")?atoi(getenv("CL")):1, el=getenv("EL")?atoi(getenv("EL")):1; int modes=getenv("MODES")?atoi(getenv("MODES")):5; int f0=0,f1=2; if(getenv("F")) f0=f1=atoi(getenv("F"));
  return x.main([&](Worker&w){
    for(auto&n:L){ int op=opid(n); int ar=arity(n);
      for(int fi=f0;fi<=f1;fi++){ auto g=n.substr(0,2)=="fr"&&isdigit(n.back())?al::ints(cl): al::grid(fi,cl,el,1); 
        auto h = n=="nexttoward"? al::grid(2,cl,el,1): g; 
        if(ar==1) for(auto a:g){ if(!w.row()) continue; for(int m=0;m<modes;m++){ Case c; c.op=op;c.fmt=fi;c.mode=m;c.in[0]=a; w.exec(c);} w.trace(); }
        else if(ar==2) for(auto a:g){ if(!w.row()) continue; for(auto b:h) for(int m=0;m<modes;m++){ Case c; c.op=op;c.fmt=fi;c.mode=m;c.in[0]=a;c.in[1]=b; w.exec(c);} w.trace(); }
        else if(ar==3) for(auto a:g){ if(!w.row()) continue; for(auto b:g) for(auto d:g) for(int m=0;m<modes;m++){ Case c; c.op=op;c.fmt=fi;c.mode=m;c.in[0]=a;c.in[1]=b;c.in[2]=d; w.exec(c);} w.trace(); }
        else if(ar==4) for(auto a:g){ if(!w.row()) continue; for(long long k: {0,1,-1,2,-2,6,7,8,-6,-7,15,16,17,33,34,35,-34,90,96,97,98,-95,-101,-102,191,192,193,-200,369,384,385,-383,-398,-399,767,768,-800,6111,6144,6145,-6143,-6176,-6177,12287,12321,-12400,100000,-100000,2000000001,-2000000001,2147483647,-2147483647-1}) for(int m=0;m<modes;m++){ Case c; c.op=op;c.fmt=fi;c.mode=m;c.in[0]=a;c.iarg=k; w.exec(c);} w.trace(); }
      } } });
}
