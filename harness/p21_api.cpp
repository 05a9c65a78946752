// P21: sequences of calls of the programming interface. A call may be rejected (then it changes nothing), an incomplete or
// contradictory set-up must be rejected by run(), every other one must carry out the study described by the last values.
#include "sys.hpp"
#include "API/INCLUDE/rodeo.h"
#include <unistd.h>
using namespace sy;
extern "C" void __real__ZN5Rodop9Optimizer34performEfficientGlobalOptimizationEv(Rodop::Optimizer*);
extern "C" void __wrap__ZN5Rodop9Optimizer34performEfficientGlobalOptimizationEv(Rodop::Optimizer* o){ o->setMaximumNumberOfInnerIterations(2); __real__ZN5Rodop9Optimizer34performEfficientGlobalOptimizationEv(o); } // a small search: the property does not depend on its length
extern "C" void __wrap__ZN5Rodop17ObjectiveFunction14trainSurrogateEv(Rodop::ObjectiveFunction*){} // training is P10's subject
extern "C" void __wrap__ZN5Rodop18ConstraintFunction14trainSurrogateEv(Rodop::ConstraintFunction*){}
struct Ev{ int fn; V x; double v; };
static std::vector<Ev> LOG; static int DIM=2, THROWAT=-1, CALLS=0;
static double value(int fn,const double* x,int d){ double y=x[0]*0.7+(d>1?x[1]*0.3:0); switch(fn){ case 0: return 0.123456789012*y*y+1.00000000012; case 1: return 7-y/3; case 2: return y*y-1.2345678; case 3: return y-3.5; default: return y*1e-3; } }
template<int F> double fn(const double* x){ if(CALLS++==THROWAT) throw std::runtime_error("evaluation failed"); double v=value(F,x,DIM); LOG.push_back({F,V(x,x+DIM),v}); return v; }
static ObjectiveFunctionPtr FN[]={fn<0>,fn<1>,fn<2>,fn<3>,fn<4>};
enum Op{ D2,B1,O1,C1,C2,E4,N2,W1, NAME,LHS,D1,B2,BBAD,O2,OBAD,ONULL,T,TBAD,CDUP,CBAD,C3,CNULL,E3,E0,N1,N0,W2,WBAD,SBAD,RND,RUN,CSAME,D2B,BEQ,WGONE,NOPS };
static const char* TXT[]={"setDimension(2)","setBoxConstraints({-1,3},{2,5})","setObjectiveFunction(f0,\"f0\",\"f0.csv\")","addConstraint(g2,\"g2 < 0.5\",\"g2.csv\")","addConstraint(g3,\" g3 > -2 \",\"g3.csv\")","setDoEOn(4)","setMaxNumberOfFunctionEvaluations(2)","setCurrentWorkingDirectory(\"w1\")","setName(\"other\")","setDoEStrategy(\"LHS\")","setDimension(1)","setBoxConstraints({0,3.5},{1,4.5})","setBoxConstraints({0,9},{1,8})","setObjectiveFunction(f1,\"f1\",\"f1.csv\")","setObjectiveFunction(f1,\"f1\",\"\")","setObjectiveFunction(null,\"f1\",\"f1.csv\")","setNameOfTrainingDataFile(\"t.csv\")","setNameOfTrainingDataFile(\"\")","addConstraint(g2,\"g2 > 0\",\"g4.csv\")","addConstraint(g3,\"g3 = 2\",\"g3.csv\")","addConstraint(g4,\"g4<1e9\",\"g4.csv\")","addConstraint(null,\"g4<1e9\",\"g4.csv\")","setDoEOn(3)","setDoEOn(0)","setMaxNumberOfFunctionEvaluations(1)","setMaxNumberOfFunctionEvaluations(0)","setCurrentWorkingDirectory(<absolute>/w2)","setCurrentWorkingDirectory(\"nowhere\")","setDoEStrategy(\"grid\")","setDoEStrategy(\"random\")","run()","addConstraint(g3,\"g3 < 1\",\"g3.csv\")","setDimension(2) again","setBoxConstraints({0,8},{1,8})","setCurrentWorkingDirectory(\"w3\"), which disappears"};
struct K{ int fn; char dir; double t; std::string name,file; };
struct Mod{ int dim=0,boxDim=0,N=0,n=-1,of=-1; V lb,ub; std::string oname,ofile,cwd; bool lhs=false; std::vector<K> k; };
static const std::vector<int> extra{NAME,LHS,D1,D2B,B2,BBAD,O2,OBAD,ONULL,T,TBAD,CDUP,CSAME,CBAD,C3,CNULL,E3,E0,N1,N0,W2,WBAD,SBAD,RND,RUN,BEQ,WGONE};
static M stale(int f,int w){ M m; static const double px[]={-0.5,1.5,0.25,0.75,0.9},py[]={3.75,4.25,3.625,4.125,3.875}; for(int i=0;i<3+w;i++){ V r{px[i],py[i]}; r.push_back(value(f,r.data(),2)); m.push_back(r); } return m; }
static M staleOf(const std::string& f,int w){ return stale(f=="t.csv"?0:f[1]-'0',w); }
struct H: mc::Harness {
  // family 0: permutations; 1: complete set-up with two further calls inserted anywhere (1a with, 1b without a design of experiments); 2: subsets with one further call; 3: outcomes of the draws; 4: failing evaluations
  uint64_t cases(bool t){ return (t?8*7:7*6)+2*27+256+ 4+ 15; }
  std::string describe(uint64_t i,bool t){ uint64_t a=t?56:42; if(i<a) return "permutation "+std::to_string(i); i-=a; if(i<54) return std::string(i/27?"without":"with")+" design of experiments, inserted: "+TXT[extra[i%27]]; i-=54; if(i<256) return "subset "+std::to_string(i); i-=256; if(i<4) return "draws "+std::to_string(i); return "evaluation "+std::to_string(i-4)+" fails"; }
  std::string root;
  void init(mc::Ctx&){ initDir(); char b[4096]; root=getcwd(b,4096)?b:"."; }
  void files(){ for(int w=1;w<=2;w++){ std::string d="w"+std::to_string(w); mkdir(d.c_str(),0755); for(const char* l:{"/optimizationHistory.csv","/globalOptimalDesign.xml"}) unlink((d+l).c_str()); for(const char* l:{"/optimization.log","/model.log","/objectives.log","/driver.log"}) if(!exists(d+l)&&symlink("/dev/null",(d+l).c_str())){} static const char* nm[]={"f0","f1","g2","g3","g4"}; for(int f=0;f<5;f++) writeCSV(d+"/"+nm[f]+".csv",stale(f,w)); writeCSV(d+"/t.csv",stale(0,w)); unlink((d+"/other").c_str()); unlink((d+"/OptimizationStudy").c_str()); } }
  void run(uint64_t i,mc::Ctx& c){ std::vector<int> q; std::string W=describe(i,c.thorough)+": "; uint64_t a=c.thorough?56:42; THROWAT=-1; LCG=4711; LCGMODE=0.25; DRAWS=nullptr;
    if(i<a){ std::vector<int> s{D2,B1,O1,C1,E4,N2,W1}; if(c.thorough) s.push_back(C2); int n=(int)s.size(); int f=(int)i/(n-1),g=(int)i%(n-1); q.push_back(s[f]); s.erase(s.begin()+f); q.push_back(s[g]); s.erase(s.begin()+g); while(!s.empty()){ int j=c.choose((int)s.size()); q.push_back(s[j]); s.erase(s.begin()+j); } }
    else if(i<a+54){ int k=(int)(i-a); q={D2,B1,O1,C1,C2,E4,N2,W1}; if(k/27) q={D2,O1,C1,B1,C2,N2,W1}; int at=c.choose((int)q.size()+1); q.insert(q.begin()+at,extra[k%27]); int more=c.choose(1+(int)extra.size()); if(more){ int b=at+1+c.choose((int)q.size()-at); q.insert(q.begin()+b,extra[more-1]); } if(c.thorough&&more&&c.flip()){ int b=1+c.choose((int)q.size()); q.insert(q.begin()+b,extra[c.choose((int)extra.size())]); } }
    else if(i<a+54+256){ int m=(int)(i-a-54); for(int o=0;o<8;o++) if(m>>o&1) q.push_back(o); int e=c.choose(1+(int)extra.size()); if(e) q.insert(q.begin()+c.choose((int)q.size()+1),extra[e-1]); }
    else { int k=(int)(i-a-54-256); q={D2,O1,C1,C2,B1,E4,N1,W1}; if(k<4){ if(k&1) q.push_back(LHS); if(k&2) q[4]=B2; DRAWS=&c; DRAWBUDGET=c.thorough?8:6; } else { THROWAT=k-4; } }
    q.push_back(RUN); files(); LOG.clear(); CALLS=0; if(chdir(root.c_str())){} std::string err;
    RobustDesignOptimizer* api=new RobustDesignOptimizer; std::unique_ptr<RobustDesignOptimizer> own(api); Mod m; bool lenient=false; double b1l[]={-1,3},b1u[]={2,5},b2l[]={0,3.5},b2u[]={1,4.5},bbl[]={0,9},bbu[]={1,8};
    struct Back{ std::string d; ~Back(){ if(chdir(d.c_str())){} DRAWS=nullptr; } } back{root};
    for(size_t s=0;s<q.size();s++){ int o=q[s]; c.op(TXT[o]); c.tick(); err.clear(); Mod w=m; bool bad=false; std::vector<std::string> before;
      switch(o){ case D2: case D2B: w.dim=2; if(m.dim==1&&(m.boxDim||m.of>=0||!m.k.empty())) lenient=true; break; case D1: w.dim=1; if(m.dim==2&&(m.of>=0||!m.k.empty()||m.boxDim)) lenient=true; break;
        case B1: w.lb=V(b1l,b1l+2); w.ub=V(b1u,b1u+2); w.boxDim=m.dim; if(!m.dim) bad=true; break; case B2: w.lb=V(b2l,b2l+2); w.ub=V(b2u,b2u+2); w.boxDim=m.dim; if(!m.dim) bad=true; break; case BEQ: bad=m.dim!=1; w.lb=V{0,8}; w.ub=V{1,8}; w.boxDim=m.dim; break; case BBAD: bad=m.dim!=1; w.lb=V(bbl,bbl+2); w.ub=V(bbu,bbu+2); w.boxDim=m.dim; break;
        case O1: w.of=0; w.oname="f0"; w.ofile="f0.csv"; lenient|=!m.dim; break; case O2: w.of=1; w.oname="f1"; w.ofile="f1.csv"; lenient|=!m.dim; break; case OBAD: case ONULL: case TBAD: case CBAD: case CNULL: case WBAD: case SBAD: bad=true; break;
        case T: w.ofile="t.csv"; if(m.of<0) lenient=true; break; case C1: w.k.push_back({2,'<',0.5,"g2","g2.csv"}); lenient|=!m.dim; break; case C2: w.k.push_back({3,'>',-2,"g3","g3.csv"}); lenient|=!m.dim; break; case CDUP: w.k.push_back({2,'>',0,"g2","g4.csv"}); lenient|=!m.dim; break; case CSAME: w.k.push_back({3,'<',1,"g3","g3.csv"}); lenient|=!m.dim; break; case C3: w.k.push_back({4,'<',1e9,"g4","g4.csv"}); lenient|=!m.dim; break;
        case E4: w.n=4; break; case E3: w.n=3; break; case E0: w.n=0; break; case N2: w.N=2; break; case N1: w.N=1; break; case N0: w.N=0; break; case W1: w.cwd=root+"/w1"; break; case WGONE: w.cwd=root+"/w3"; break; case W2: w.cwd=root+"/w2"; break; case LHS: w.lhs=true; break; case RND: w.lhs=false; break; }
      try{ switch(o){ case D2: case D2B: api->setDimension(2); break; case D1: api->setDimension(1); break; case B1: api->setBoxConstraints(b1l,b1u); break; case B2: api->setBoxConstraints(b2l,b2u); break; case BBAD: api->setBoxConstraints(bbl,bbu); break; case BEQ:{ double l[]={0,8},u[]={1,8}; api->setBoxConstraints(l,u); break; } case WGONE: mkdir((root+"/w3").c_str(),0755); try{ api->setCurrentWorkingDirectory("w3"); } catch(...){ rmdir((root+"/w3").c_str()); throw; } rmdir((root+"/w3").c_str()); break; case O1: api->setObjectiveFunction(FN[0],"f0","f0.csv"); break; case O2: api->setObjectiveFunction(FN[1],"f1","f1.csv"); break; case OBAD: api->setObjectiveFunction(FN[1],"f1",""); break; case ONULL: api->setObjectiveFunction(nullptr,"f1","f1.csv"); break; case T: api->setNameOfTrainingDataFile("t.csv"); break; case TBAD: api->setNameOfTrainingDataFile(""); break; case C1: api->addConstraint(FN[2],"g2 < 0.5","g2.csv"); break; case C2: api->addConstraint(FN[3]," g3 > -2 ","g3.csv"); break; case CDUP: api->addConstraint(FN[2],"g2 > 0","g4.csv"); break; case CSAME: api->addConstraint(FN[3],"g3 < 1","g3.csv"); break; case CBAD: api->addConstraint(FN[3],"g3 = 2","g3.csv"); break; case C3: api->addConstraint(FN[4],"g4<1e9","g4.csv"); break; case CNULL: api->addConstraint(nullptr,"g4<1e9","g4.csv"); break; case E4: api->setDoEOn(4); break; case E3: api->setDoEOn(3); break; case E0: api->setDoEOn(0); break; case N2: api->setMaxNumberOfFunctionEvaluations(2); break; case N1: api->setMaxNumberOfFunctionEvaluations(1); break; case N0: api->setMaxNumberOfFunctionEvaluations(0); break; case W1: api->setCurrentWorkingDirectory("w1"); break; case W2: api->setCurrentWorkingDirectory(root+"/w2"); break; case WBAD: api->setCurrentWorkingDirectory("nowhere"); break; case NAME: api->setName("other"); break; case LHS: api->setDoEStrategy("LHS"); break; case RND: api->setDoEStrategy("random"); break; case SBAD: api->setDoEStrategy("grid"); break; case RUN: DIM=m.dim?m.dim:2; LOG.clear(); CALLS=0; api->run(); break; } } catch(mc::Violation&){ throw; } catch(mc::Prune&){ throw; } catch(std::exception& e){ err=e.what(); if(err.empty()) err="?"; }
      if(o!=RUN){ bool dup=false; if(w.k.size()>m.k.size()) for(auto& z:m.k) dup|=z.name==w.k.back().name; 
        if(bad) c.check(!err.empty(),"P21-call-accepted",W+seq(q,s)+": accepted"); else if(err.empty()) m=w; else { if(o==E0||o==N0||dup) ; else c.check(lenient||(o==D2||o==D2B||o==D1),"P21-call-refused",W+seq(q,s)+": refused: "+err); if(o==D1||o==D2||o==D2B) lenient=true; } continue; }
      // run()
      bool must=m.cwd==root+"/w3"||m.N==0||m.dim==0||m.boxDim==0||m.of<0||m.boxDim!=m.dim||m.n==0; for(size_t x=0;x<m.k.size();x++) for(size_t y=0;y<x;y++) must|=m.k[x].name==m.k[y].name; bool may=lenient||m.cwd.empty()||m.dim==1; std::string Q=W+seq(q,s);
      if(THROWAT>=0&&THROWAT<15){ int total=(4+1)*3; if(THROWAT<total) must=true; }
      if(must){ c.check(!err.empty(),"P21-run-accepted",Q+": accepted"); if(m.dim==1) break; continue; }
      if(!err.empty()){ c.check(may,"P21-run-refused",Q+": refused: "+err); continue; }
      judge(c,m,Q); break; }
    c.state(mc::hashBytes(m.ofile.data(),m.ofile.size(),mc::mix(mc::mix(m.N,m.n+7*m.dim+100*m.of),mc::mix(LOG.size(),m.k.size())))); }
  static std::string seq(const std::vector<int>& q,size_t s){ std::string r; for(size_t j=0;j<=s;j++) r+=(j?"; ":"")+std::string(TXT[q[j]]); return r; }
  void judge(mc::Ctx& c,const Mod& m,const std::string& Q){ std::string dir=m.cwd.empty()? root: m.cwd; int d=m.dim; auto of=[&](int f){ std::vector<Ev> r; for(auto& e:LOG) if(e.fn==f) r.push_back(e); return r; }; std::vector<Ev> fo=of(m.of); int n=std::max(m.n,0);
    for(auto& e:LOG){ bool used=e.fn==m.of; for(auto& k:m.k) used|=k.fn==e.fn; c.check(used,"P21-function",Q+": function "+std::to_string(e.fn)+" is evaluated"); for(int j=0;j<d;j++) c.check(e.x[j]>=m.lb[j]&&e.x[j]<=m.ub[j],"P21-box",Q+": evaluated at "+S(e.x)); }
    c.check((int)fo.size()==n+m.N,"P21-evaluations",Q+": the objective is evaluated "+std::to_string(fo.size())+" times, not "+std::to_string(n)+"+"+std::to_string(m.N)); if(!m.k.empty()) for(size_t z=0;z<m.k.size();z++){ auto g=of(m.k[z].fn); c.check(g.size()==fo.size(),"P21-constraint-evaluations",Q+": constraint "+m.k[z].name+" is evaluated "+std::to_string(g.size())+" times, the objective "+std::to_string(fo.size())+" times"); for(size_t e=0;e<g.size();e++) c.check(hx::same(g[e].x,fo[e].x),"P21-constraint-design",Q+": evaluation "+std::to_string(e)+" of "+m.k[z].name+" at "+S(g[e].x)+", of the objective at "+S(fo[e].x)); }
    if(n&&m.lhs) for(int j=0;j<d;j++){ std::vector<int> hit(n,0); for(int e=0;e<n;e++){ int s=(int)std::floor((fo[e].x[j]-m.lb[j])/(m.ub[j]-m.lb[j])*n); if(s==n) s--; hit[s]++; } if(!DRAWS) for(int e=0;e<n;e++) c.check(hit[e]==1,"P21-lhs",Q+": parameter "+std::to_string(j)+" of the Latin hypercube has "+std::to_string(hit[e])+" samples in stratum "+std::to_string(e)); }
    std::vector<std::pair<int,std::string>> fs{{m.of,m.ofile}}; for(auto& k:m.k) fs.push_back({k.fn,k.file}); int ni=n;
    for(auto& f:fs){ M T; std::string p=dir+"/"+f.second; c.check(readCSV(p,T),"P21-file",Q+": "+f.second+" is missing or malformed: "+slurp(p)); auto ev=of(f.first); int w=dir.back()-'0'; M I=staleOf(f.second,w); M want; if(!n) { want=I; ni=(int)I.size(); } for(size_t e=0;e<ev.size();e++){ V r=ev[e].x; r.push_back(ev[e].v); bool dup=false; if((int)e>=n) for(auto& o:want){ bool eq=true; for(size_t j=0;j<r.size();j++) eq&=std::fabs(o[j]-r[j])<=1e-4; dup|=eq; } if(!dup) want.push_back(r); } bool ok=T.size()==want.size(); for(size_t r=0;ok&&r<T.size();r++) ok=close(T[r],want[r],1e-14,6e-13); c.check(ok,"P21-rows",Q+": "+f.second+" holds "+S(T)+" instead of "+S(want)); }
    static const char* nm[]={"f0","f1","g2","g3","g4","t"}; for(int w=1;w<=2;w++) for(int f=0;f<6;f++){ std::string fl=std::string(nm[f])+".csv"; bool used=false; std::string wd=root+"/w"+std::to_string(w); if(wd==dir) for(auto& x:fs) used|=x.second==fl; if(used) continue; M T; c.check(readCSV(wd+"/"+fl,T)&&T==stale(f==5?0:f,w),"P21-other-file",Q+": the unused file w"+std::to_string(w)+"/"+fl+" changes"); }
    for(const char* l:{"other","OptimizationStudy"}) c.check(!exists(dir+"/"+l),"P21-other-file",Q+": a file "+l+" appears");
    M h; std::vector<std::string> hd; c.check(readCSV(dir+"/optimizationHistory.csv",h,&hd),"P21-history",Q+": no history"); for(auto& s:hd) while(!s.empty()&&(s.back()==' '||s.back()=='\r')) s.pop_back(); size_t nc=m.k.size(); c.check(hd.size()==d+1+nc+2&&h.size()==(size_t)(ni+m.N),"P21-history",Q+": the history has "+std::to_string(h.size())+" rows and "+std::to_string(hd.size())+" columns");
    for(int e=0;e<ni+m.N;e++){ V x; double f; V g(nc); if(n){ x=fo[e].x; f=fo[e].v; } else if(e<ni){ M I=staleOf(m.ofile,dir.back()-'0'); x=V(I[e].begin(),I[e].begin()+d); f=I[e][d]; } else { x=fo[e-ni].x; f=fo[e-ni].v; } bool feas=true; for(int j=0;j<d;j++) feas&=x[j]>=m.lb[j]&&x[j]<=m.ub[j]; std::string R=Q+": history row "+std::to_string(e)+" "+S(h[e])+" for the sample "+S(x)+" with value "+fmt(f); c.check(close(V(h[e].begin(),h[e].begin()+d),x,1e-12,1e-6)&&closed(h[e][d],f,1e-12,1e-6),"P21-history-row",R); for(size_t z=0;z<nc;z++){ int col=-1; for(size_t y=0;y<hd.size();y++) if(hd[y]==m.k[z].name) col=(int)y; c.check(col>=0,"P21-history",Q+": no column "+m.k[z].name); double v=value(m.k[z].fn,x.data(),d); if(!n&&e<ni) v=staleOf(m.k[z].file,dir.back()-'0')[e][d]; c.check(closed(h[e][col],v,1e-12,1e-6),"P21-history-row",R+", constraint "+m.k[z].name+" = "+fmt(v)); feas&=m.k[z].dir=='<'? v<m.k[z].t: v>m.k[z].t; } c.check(h[e].back()==(feas?1.0:0.0),"P21-history-row",R+", feasible "+std::to_string(feas)); }
  }
};
MC_MAIN(H)
