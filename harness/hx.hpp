// small helpers shared by harnesses
#pragma once
#include "mc.hpp"
#include "LinearAlgebra/INCLUDE/matrix.hpp"
#include "LinearAlgebra/INCLUDE/vector.hpp"
#include <fstream>
#include <sstream>
#include <sys/stat.h>
#include <dirent.h>
namespace hx {
typedef std::vector<double> V; typedef std::vector<V> M;
inline bool eqd(double a,double b){ return a==b || (std::isnan(a)&&std::isnan(b)); }
inline bool same(const V&a,const V&b){ if(a.size()!=b.size()) return false; for(size_t i=0;i<a.size();i++) if(!eqd(a[i],b[i])) return false; return true; }
inline bool closed(double g,double w,double rel,double abs){ return eqd(g,w)||std::fabs(g-w)<=rel*std::fabs(w)+abs; }
inline bool close(const V& got,const V& want,double rel,double abs){ if(got.size()!=want.size()) return false; for(size_t i=0;i<got.size();i++) if(!closed(got[i],want[i],rel,abs)) return false; return true; }
inline std::string S(const V& v){ std::string s="("; for(double d: v) s+=mc::fmt(d)+" "; return s+")"; }
inline std::string S(const M& m){ std::string s="["; for(auto& r:m) s+=S(r); return s+"]"; }
inline V fromv(const Rodop::vec& v){ V r; for(unsigned i=0;i<v.getSize();i++) r.push_back(v(i)); return r; }
inline Rodop::vec tv(const V& a){ Rodop::vec v; v.resize(a.size()); for(size_t i=0;i<a.size();i++) v(i)=a[i]; return v; }
inline Rodop::mat tmat(const M& a){ Rodop::mat m; m.resize(a.size(),a.empty()?0:a[0].size()); for(size_t i=0;i<a.size();i++) for(size_t j=0;j<a[i].size();j++) m(i,j)=a[i][j]; return m; }
inline M fromm(const Rodop::mat& m){ M r(m.getNRows(),V(m.getNCols())); for(size_t i=0;i<r.size();i++) for(size_t j=0;j<r[i].size();j++) r[i][j]=m(i,j); return r; }
inline std::string slurp(const std::string& f){ std::ifstream i(f,std::ios::binary); std::stringstream s; s<<i.rdbuf(); return s.str(); }
inline bool exists(const std::string& f){ struct stat st; return stat(f.c_str(),&st)==0; }
inline void spit(const std::string& f,const std::string& t){ std::ofstream o(f,std::ios::binary); o<<t; }
inline void writeCSV(const std::string& f,const M& m){ std::string t; char b[64]; for(auto& r:m){ for(size_t j=0;j<r.size();j++){ snprintf(b,64,"%.17g",r[j]); t+=(j?",":"")+std::string(b); } t+="\n"; } spit(f,t); }
// strict own CSV reader: every line must consist of numbers; returns false otherwise
inline bool readCSV(const std::string& f,M& out,std::vector<std::string>* header=nullptr){ out.clear(); if(!exists(f)) return false; std::string t=slurp(f); std::istringstream is(t); std::string line; bool first=true;
  while(std::getline(is,line)){ std::vector<std::string> tok; std::string x; std::istringstream ls(line); while(std::getline(ls,x,',')) tok.push_back(x);
    if(first&&header){ *header=tok; first=false; continue; } first=false; V r; for(auto& s:tok){ char* e; double d=strtod(s.c_str(),&e); while(*e==' '||*e=='\r') e++; if(s.empty()||*e) return false; r.push_back(d); } if(r.empty()) return false; out.push_back(r); }
  if(!t.empty()&&t.back()!='\n') return false; return true; }
inline std::string item(const std::string& t,const std::string& tag){ auto a=t.find("<"+tag+">"),b=t.find("</"+tag+">"); if(a==std::string::npos||b==std::string::npos||t.find("<"+tag+">",a+1)!=std::string::npos) return "?"; return t.substr(a+tag.size()+2,b-a-tag.size()-2); }
inline bool items(const std::string& t,const std::string& tag,V& out){ out.clear(); std::string s=item(t,tag); if(s=="?") return false; size_t p=0; while((p=s.find("<item>",p))!=std::string::npos){ auto e=s.find("</item>",p); if(e==std::string::npos) return false; out.push_back(strtod(s.c_str()+p+6,nullptr)); p=e; } return true; }
inline void clearDir(const std::string& d){ if(d.rfind("/tmp/",0)!=0) return; DIR* D=opendir(d.c_str()); if(!D) return; std::vector<std::string> f; while(auto* e=readdir(D)) if(e->d_name[0]!='.'||(e->d_name[1]&&e->d_name[1]!='.')) f.push_back(e->d_name); closedir(D); for(auto& x:f) unlink((d+"/"+x).c_str()); }
}
