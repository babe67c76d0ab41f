// Calls the C++ classes' stream operators of dfp/decimal/decimal.
#include <float.h>
#include <decimal/decimal>
#include <iomanip>
#include <sstream>
#include <cstring>
#include "cxshim.h"
typedef unsigned __int128 U;
template<class D> static D mk(U v){ D d; memcpy((void*)&d,&v,sizeof(D)); return d; }
template<class D> static U bits(const D&d){ U v=0; memcpy(&v,&d,sizeof(D)); return v; }
template<class D> static void put(const cx_fmt*f,int n,const U*v,const char*sep,std::string&out,int*st){
  std::ostringstream os; std::ios::fmtflags fl=std::ios::fmtflags(); if(f->fixed) fl|=std::ios::fixed; if(f->sci) fl|=std::ios::scientific; if(f->up) fl|=std::ios::uppercase; fl|= f->adj==1?std::ios::left:f->adj==2?std::ios::right:f->adj==3?std::ios::internal:std::ios::fmtflags(); os.flags(fl|std::ios::dec|std::ios::skipws);
  if(f->prec>=0) os.precision(f->prec); os.fill(f->fill);
  for(int i=0;i<n;i++){ os.width(f->width); os<<mk<D>(v[i]); os<<sep; } out=os.str(); *st=(int)os.rdstate(); }
extern "C" long cx_put(int fi,const cx_fmt*f,int n,const U*v,const char*sep,char*buf,long cap,int*st){
  std::string o; try { if(fi==0) put<decimal32>(f,n,v,sep,o,st); else if(fi==1) put<decimal64>(f,n,v,sep,o,st); else put<decimal128>(f,n,v,sep,o,st); } catch(...) { return -1; }
  if((long)o.size()<cap) memcpy(buf,o.c_str(),o.size()+1); return o.size(); }
template<class D> static int get(const char*s,const char*prog,cx_res*r){ std::istringstream is{std::string(s)}; int n=0;
  for(;*prog;prog++,n++){ r[n].c=0; if(*prog=='x'){ D d=mk<D>(0); U one= ~(U)0; memcpy((void*)&d,&one,sizeof d); is>>d; r[n].d=bits(d); } else if(*prog=='c'){ char ch='\1'; is>>ch; r[n].c=(unsigned char)ch; r[n].d=0; } else if(*prog=='k'){ is.clear(); r[n].d=0; } else if(*prog=='n'){ is>>std::noskipws; r[n].d=0; } else if(*prog=='r'){ std::string rest; std::getline(is,rest,'\0'); r[n].d=0; strncpy(r[n].rest,rest.c_str(),sizeof r[n].rest-1); r[n].rest[sizeof r[n].rest-1]=0; } r[n].st=(int)is.rdstate()&7; }
  return n; }
extern "C" int cx_get(int fi,const char*s,const char*prog,cx_res*r){ return fi==0?get<decimal32>(s,prog,r):fi==1?get<decimal64>(s,prog,r):get<decimal128>(s,prog,r); }
extern "C" void cx_bits(int*e,int*f,int*b){ *e=std::ios::eofbit; *f=std::ios::failbit; *b=std::ios::badbit; }
