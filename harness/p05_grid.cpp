// P05: every design handed to an evaluator is inside the box and on its grid, and is the rounding of a candidate the search examined;
// P27 lives in p27_window.cpp. Draws of the search in the last iteration(s) are enumerated.
#include "sys.hpp"
using namespace sy;
struct K{ Cfg g; int mode; };  // mode 0: constraint always violated, 1: satisfied
static std::vector<K> configs(bool t){ std::vector<K> r;
  std::vector<std::pair<double,double>> B{{-1,2},{-0.1,0.3},{0,0.3},{0.001,0.7},{-5,-0.2},{100,100.7},{-0.7,0.1}}; std::vector<double> D{0,0.1,0.25,0.3,1,0.01,7,1.0/3};
  auto mk=[&](int dim,std::vector<int> b,std::vector<std::pair<int,double>> disc,int inc,int mode){ Cfg g; g.dim=dim; for(int i=0;i<dim;i++){ g.lb.push_back(B[b[i]].first); g.ub.push_back(B[b[i]].second); }
    double fr[5][3]={{0.5,0.31,0.77},{0,0,0},{1,1,1},{0.25,1,0},{1.3,-0.2,0.5}}; double others[4][3]={{0.1,0.9,0.2},{0.9,0.15,0.6},{0.62,0.55,0.95},{0.33,0.7,0.05}};
    auto pt=[&](double* f){ V x; for(int i=0;i<dim;i++) x.push_back(f[i]==1? g.ub[i]: g.lb[i]+f[i]*(g.ub[i]-g.lb[i])); return x; };
    g.X.push_back(pt(others[0])); g.F.push_back(3); g.X.push_back(pt(fr[inc])); g.F.push_back(-1); for(int k=1;k<4;k++){ g.X.push_back(pt(others[k])); g.F.push_back(2+k); }
    g.disc=disc; g.cons.push_back(Con{'U',0,'<',0.0,"conU"}); g.conTable.push_back({}); g.budget=2; g.inner=1;
    g.what="box "+S(g.lb)+S(g.ub)+" incumbent "+S(g.X[1])+" discrete"; for(auto&d:disc) g.what+=" "+std::to_string(d.first)+":"+fmt(d.second); if(disc.empty()) g.what+=" none"; g.what+=mode? " feasible": " infeasible"; r.push_back({g,mode}); };
  for(size_t b=0;b<B.size();b++) for(double d:D) for(int inc=0;inc<5;inc++) for(int m=0;m<2;m++){ if(!t&&m!=(int)((b+inc)%2)) continue; mk(1,{(int)b},d? std::vector<std::pair<int,double>>{{0,d}}: std::vector<std::pair<int,double>>{},inc,m); }
  for(size_t b=0;b<B.size();b++) for(size_t d=1;d<D.size();d++) for(int sub=0;sub<4;sub++) for(int inc=0;inc<5;inc++){ if(!t&&(b+d+inc+sub)%4) continue; double d2=D[1+(d+2)%7]; std::vector<std::pair<int,double>> s; if(sub==0) s={{0,D[d]}}; if(sub==1) s={{1,D[d]}}; if(sub==2) s={{0,D[d]},{1,d2}}; if(sub==3) s={{1,D[d]},{0,d2}}; mk(2,{(int)b,(int)((b+1+d)%B.size())},s,inc,(int)((b+inc)%2)); }
  for(size_t b=0;b<B.size();b+=t?1:3) for(int sub=0;sub<4;sub++) for(int inc=0;inc<5;inc+=t?1:2){ std::vector<std::pair<int,double>> s; double d=D[1+(b+sub)%7]; if(sub==0) s={{2,d}}; if(sub==1) s={{0,d},{2,0.1}}; if(sub==2) s={{2,0.25},{1,d},{0,0.01}}; if(sub==3) s={{1,0.3}}; mk(3,{(int)b,(int)((b+2)%7),(int)((b+3)%7)},s,inc,(int)((b+sub)%2)); }
  return r; }
struct H: mc::Harness {
  std::vector<K> q,th; H(){ q=configs(false); th=configs(true); }
  uint64_t cases(bool t){ return (t?th:q).size(); }
  std::string describe(uint64_t i,bool t){ return (t?th:q)[i].g.what; }
  void init(mc::Ctx&){ initDir(); }
  bool snapshots(){ return true; }
  static V lattice(const Cfg& g,V x,int i){ double dx=-1; for(auto& d:g.disc) if(d.first==i) dx=d.second; double v=std::min(std::max(x[i],g.lb[i]),g.ub[i]); if(dx<0) return {v}; double n=std::floor((g.ub[i]-g.lb[i])/dx+1e-9); V r; double best=1e300; for(double k=0;k<=n;k++) best=std::min(best,std::fabs(g.lb[i]+k*dx-v)); for(double k=0;k<=n;k++){ double w=g.lb[i]+k*dx; if(std::fabs(w-v)<=best+1e-9*(1+std::fabs(v))) r.push_back(std::min(w,g.ub[i])); } return r; }
  void run(uint64_t i,mc::Ctx& c){ const K& k=(c.thorough?th:q)[i]; const Cfg& g=k.g; Run r; r.c=&c; r.cfg=&g; r.prop="P05"; int mode=k.mode;
    r.pickF=[&](int n){ DRAWS=&c; return n==0&&g.dim<2? (c.flip()?-7.0:4.0): 4.0-n; };
    r.pickC=[&](int,int){ return 0.0; }; r.udf=[&](int,const double* x){ return mode? -1.0: 1.0; };
    auto look=[&](int n){ const V& e=r.evalX[n]; bool hit=false; for(auto& s:r.seen){ bool eq=true; for(int d=0;d<g.dim&&eq;d++){ bool m=false; for(double w: lattice(g,s,d)) m|=closed(e[d],w,1e-12,1e-12); eq=m; } hit|=eq; } 
      r.chk("P05",!r.seen.empty()&&hit,"closest","evaluated design "+S(e)+" is not the grid point closest to any of the "+std::to_string(r.seen.size())+" candidates examined, e.g. "+(r.seen.empty()?std::string("none"):S(r.seen.back()))); c.state(e); };
    // candidates examined before an evaluation are in r.seen at that time; objCb clears them after the box and grid checks
    r.onIteration=[&](int n){ if(n>=0){ pending=n; seenCopy=r.seen; } };
    r.afterEval=[&](int n){ r.seen.swap(seenCopy); look(n); r.seen.clear(); };
    LCGMODE=0.25; DRAWS=nullptr; DRAWBUDGET=c.thorough? 9: (g.dim==1?6:g.dim==2?4:6); start(r); std::unique_ptr<Optimizer> o(makeOptimizer(g)); r.inRun=true; std::string err; try{ o->performEfficientGlobalOptimization(); } catch(std::exception& e){ err=e.what(); }
    DRAWS=nullptr; if(!err.empty()) throw mc::Violation{"exception",g.what+": the run ends with the error "+err};
    finish(r,*o); R=nullptr; }
  int pending=0; M seenCopy;
};
MC_MAIN(H)
