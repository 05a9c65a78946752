// P01/P02/P03/P04 on complete runs: every sequence of evaluator answers, for a family of problem set-ups.
#include "sys.hpp"
using namespace sy;
#ifndef PROP
#define PROP "P01"
#endif
static std::vector<Cfg> configs(bool t){ std::vector<Cfg> r;
  M X1{{-1},{0.25},{0.75},{2}}, X2{{-1,3},{0.25,3.5},{0.75,5},{2,4},{1.25,3.25}}; V F1{3,1,2,5}, F2{3,1,2,5,1};
  // constraint layouts: kind,dir per registration; ids possibly permuted
  struct L{ std::string kinds,dirs; std::vector<int> ids; };
  std::vector<L> ls{{"","",{}},{"C","<",{0}},{"C",">",{0}},{"U","<",{0}},{"CC","<>",{0,1}},{"UC","><",{0,1}},{"CU","<<",{0,1}},{"CC","><",{1,0}},{"CUC","<><",{0,1,2}},{"UCC",">><",{2,0,1}},{"CCCU","<>>>",{1,3,0,2}}};
  M X3; for(auto x:X2){ x.push_back(100+x[0]*x[1]); X3.push_back(x); }
  for(int dim=1;dim<=3;dim++) for(auto& l:ls) for(int doe=0;doe<4;doe++){ if((l.kinds.size()==4)!=(dim==3)||(!t&&l.kinds.size()>2&&doe!=2&&(dim!=2||doe))) continue; // doe 0: some feasible, 1: none feasible, 2: mixed, one sample outside the box, constraint files incomplete and in another order, 3: samples close to each other with different outcomes
    if(l.kinds.empty()&&(doe==1||doe==3)) continue;
    Cfg g; g.dim=dim; g.X=dim==1?X1:dim==2?X2:X3; g.F=dim==1?F1:F2; g.lb=dim==1?V{-1}:V{-1,3}; g.ub=dim==1?V{2}:V{2,5}; if(dim==3){ g.lb.push_back(90); g.ub.push_back(125); } if(doe==2){ g.ub[0]=1.5; g.trailingNewline=false; if(dim==2) g.pnames={"span","chord"}; }
    if(doe==3){ if(dim==1){ g.X={{-1},{0.25},{0.2504},{0.250401},{2}}; } else if(dim==3){ g.X={{-1,3,100},{0.25,3.5,101},{0.2504,3.5002,101.001},{0.250401,3.500201,101.001001},{2,4,120}}; } else { g.X={{-1,3},{0.25,3.5},{0.2504,3.5002},{0.250401,3.500201},{2,4}}; } g.F={3,1,2,0.5,5}; }
    for(size_t q=0;q<l.kinds.size();q++){ Con k{l.kinds[q],l.ids[q],l.dirs[q],q?-2.0:0.5,"con"+std::string(1,"ABC"[q])}; g.cons.push_back(k); M T; for(size_t i=0;i<g.X.size();i++){ V row=g.X[i]; double bad=k.dir=='<'?1:-1; double off=doe==3? ((i+q)%2? bad: -bad): (doe==1&&q==0)? bad: ((i+q)%3==0? bad: (i==1&&q==0&&doe==0? -bad: ((i+q)%3==1? -bad: 0*bad))); row.push_back(k.target+off*(1+0.125*i)); T.push_back(row); }
      if(doe==2){ std::reverse(T.begin(),T.end()); T.erase(T.begin()+1); } g.conTable.push_back(T); }
    int nC=0; for(char ch:l.kinds) nC+=ch=='C'; g.budget= nC==0? (t?5:4): nC==1? (t?4:3): (t?3:2); if(!t&&dim==2&&nC<2) g.budget--; if(doe==3) g.budget=t?2:1; if(l.kinds.size()>2) g.budget=l.kinds.size()>3||!t?1:2; g.inner=3; g.often=doe==2?2:100000;
    g.what="dim "+std::to_string(dim)+" constraints '"+l.kinds+"' "+l.dirs+(l.ids.size()>1&&l.ids[0]!=0?" ids permuted":"")+" doe "+std::to_string(doe); r.push_back(g); }
  // discrete parameters on coarse grids: designs come up again and again
  for(int dim=1;dim<=2;dim++) for(auto& l:ls) if(l.kinds.size()<2||(t&&l.kinds.size()<3)) for(int v=0;v<2;v++){ Cfg g; g.dim=dim; g.X=dim==1?X1:X2; g.F=dim==1?F1:F2; g.lb=dim==1?V{-1}:V{-1,3}; g.ub=dim==1?V{2}:V{2,5}; g.disc={{0,v?1.0:1.5}}; if(dim==2&&v) g.disc.push_back({1,1.0});
    for(size_t q=0;q<l.kinds.size();q++){ Con k{l.kinds[q],l.ids[q],l.dirs[q],0.5,"con"+std::string(1,"ABC"[q])}; g.cons.push_back(k); M T; for(size_t i=0;i<g.X.size();i++){ V row=g.X[i]; row.push_back(k.target+((i+q)%2?1:-1)*(1+0.125*i)); T.push_back(row); } g.conTable.push_back(T); }
    g.budget=t?4:3; g.inner=3; g.what="dim "+std::to_string(dim)+" discrete parameters, constraints '"+l.kinds+"' "+l.dirs+" increment "+fmt(g.disc[0].second); r.push_back(g); }
  // evaluators that answer NaN ("nan" in the description), long runs ("long")
  for(int dim=1;dim<=2;dim++) for(auto& l:ls) if(l.kinds.size()<3) for(int v=0;v<2;v++){ if(v&&(l.kinds.size()>1||dim>1)) continue; Cfg g; g.dim=dim; g.X=dim==1?X1:X2; g.F=dim==1?F1:F2; g.lb=dim==1?V{-1}:V{-1,3}; g.ub=dim==1?V{2}:V{2,5};
    for(size_t q=0;q<l.kinds.size();q++){ Con k{l.kinds[q],l.ids[q],l.dirs[q],0.5,"con"+std::string(1,"ABC"[q])}; g.cons.push_back(k); M T; for(size_t i=0;i<g.X.size();i++){ V row=g.X[i]; row.push_back(k.target+((i+q)%2?1:-1)*(1+0.125*i)); T.push_back(row); } g.conTable.push_back(T); }
    g.budget=v? 140: t?3:2; g.inner=3; g.what="dim "+std::to_string(dim)+(v?" long":" nan")+", constraints '"+l.kinds+"' "+l.dirs; r.push_back(g); }
  return r; }
struct H: mc::Harness {
  std::vector<Cfg> q,th; H(){ q=configs(false); th=configs(true); }
  uint64_t cases(bool t){ return (t?th:q).size()*4; }
  std::string describe(uint64_t i,bool t){ return (t?th:q)[i/4].what+", first objective answer "+std::to_string(i%4); }
  void init(mc::Ctx&){ initDir(); }
  bool snapshots(){ return true; }
  void run(uint64_t i,mc::Ctx& c){ const Cfg& g=(c.thorough?th:q)[i/4]; Run r; r.c=&c; r.cfg=&g; r.prop=PROP; int first=(int)(i%4);
    static const double fa[]={0.25,1,4,-7.5};
    r.pickF=[&](int k){ return k==0? fa[first]: fa[c.choose(4)]; };
    r.pickC=[&](int,int q){ auto& k=g.cons[q]; double s=k.dir=='<'?1:-1; static const double o[]={-1,1,0}; return k.target+s*o[c.choose(3)]; };
    r.udf=[&](int id,const double* x){ for(auto& k:g.cons) if(k.id==id) return k.target+(x[0]-0.5)*(id+1); return 0.0; };
    bool nan=g.what.find(" nan")!=std::string::npos, lng=g.what.find(" long")!=std::string::npos; int bad=-1; // evaluation with a NaN answer
    if(nan){ auto pf=r.pickF; r.pickF=[&,pf](int k){ if(bad<0&&c.choose(2)){ bad=k; return (double)NAN; } return pf(k); }; auto pc=r.pickC; r.pickC=[&,pc](int k,int q){ if(bad<0&&c.choose(2)){ bad=k; return (double)NAN; } return pc(k,q); }; }
    if(lng){ r.pickF=[&](int k){ return first==0? 10+0.0625*k: first==1? -1.0*k: first==2? (k%20==19? -1.0*k: 8+0.0625*k): (k<20? -1.0*k: 50+0.0625*k); }; r.pickC=[&](int k,int q){ auto& z=g.cons[q]; double s=z.dir=='<'?1:-1; return z.target+(k%3==2?s:-s)*(1+0.01*k); }; }
    LCGMODE=0.25; start(r); std::unique_ptr<Optimizer> o(makeOptimizer(g)); r.inRun=true; std::string err; try{ o->performEfficientGlobalOptimization(); } catch(std::exception& e){ err=e.what(); }
    if(bad>=0){ r.inRun=false; std::string w="evaluation "+std::to_string(bad)+" answers NaN"; r.chk("P0",!err.empty(),"nan-accepted",w+", but the run goes on"); r.chk("P01",(int)r.evalX.size()==bad+1,"nan-evaluations",w+", "+std::to_string(r.evalX.size())+" designs are evaluated"); judgeFiles(r,"after "+w); M h=fromm(o->getHistory()); r.chk("P01",h.size()==r.rows.size(),"nan-recorded",w+": the history has "+std::to_string(h.size())+" rows for "+std::to_string(r.rows.size())+" samples"); R=nullptr; return; }
    if(!err.empty()) throw mc::Violation{"exception",g.what+": the run ends with the error "+err};
    finish(r,*o); R=nullptr; }
};
MC_MAIN(H)
