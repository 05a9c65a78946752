// P04: the reported optimum is the best feasible design of the history: every small history table, growing row by row on one object.
#include "hx.hpp"
#include "Optimizers/INCLUDE/globalOptimalDesign.hpp"
#include "Optimizers/INCLUDE/optimization_history.hpp"
using namespace Rodop; using namespace hx; using mc::fmt;
struct H: mc::Harness {
  struct Cs{ int d,n,rows; };
  std::vector<Cs> cs(bool t){ std::vector<Cs> r; for(int d=1;d<=(t?3:2);d++) for(int n=0;n<=2;n++) r.push_back({d,n,t?5:4}); return r; }
  V alpha(bool t){ double mx=std::numeric_limits<double>::max(),inf=std::numeric_limits<double>::infinity(); return t? V{-1,0,1,2,mx,inf,-mx,-inf}:V{-2,0,3,mx,inf,-mx}; }
  uint64_t cases(bool t){ return cs(t).size()*alpha(t).size()*2; }
  std::string describe(uint64_t i,bool t){ auto a=alpha(t); auto k=cs(t)[i/(a.size()*2)]; return "dimension "+std::to_string(k.d)+" constraints "+std::to_string(k.n)+" first objective "+fmt(a[(i/2)%a.size()])+(i%2?" feasible":" infeasible"); }
  void run(uint64_t i,mc::Ctx& c){ auto a=alpha(c.thorough); auto k=cs(c.thorough)[i/(a.size()*2)];
    GlobalOptimalDesign G; G.setDimension(k.d); G.setNumberOfConstraints(k.n); V lb(k.d),ub(k.d); for(int j=0;j<k.d;j++){ lb[j]=-1-j; ub[j]=10+3*j; } G.setBoxConstraints(Bounds(tv(lb),tv(ub))); G.xmlFileName="best.xml";
    OptimizationHistory Hh; Hh.setDimension(k.d); for(int q=0;q<k.n;q++) Hh.addConstraintName("g"+std::to_string(q));
    M t; int best=-1,bestany=-1;
    for(int r=0;r<k.rows;r++){ double f=r==0? a[(i/2)%a.size()]: a[c.choose((int)a.size())]; bool fe=r==0? i%2: c.choose(2); 
      V row; for(int j=0;j<k.d;j++) row.push_back(lb[j]+0.5*r+0.25*j); row.push_back(f); for(int q=0;q<k.n;q++) row.push_back((q?-1:1)*(100.0*q+r+0.5)); row.push_back(r==0?0:0.125*r); row.push_back(fe?1:0); t.push_back(row);
      if(fe&&(best<0||f<t[best][k.d])) best=r; if(bestany<0||f<t[bestany][k.d]) bestany=r;
      int e=best>=0?best:bestany; bool ef=best>=0; const V& w=t[e]; std::string W="history of "+std::to_string(r+1)+" rows "+S(t);
      c.op("row f="+fmt(f)+(fe?" feasible":" infeasible")); G.setGlobalOptimalDesignFromHistoryFile(tmat(t)); c.state(mc::hashBytes(&e,4,mc::mix(mc::hashBytes(W.data(),W.size()),ef)));
      c.check(G.ID==e,"index",W+": reports row "+std::to_string(G.ID)+" expected "+std::to_string(e)); c.check(G.isDesignFeasible==ef,"feasibility",W+": reports feasibility "+std::to_string(G.isDesignFeasible)+" expected "+std::to_string(ef));
      c.check(eqd(G.trueValue,f==f?w[k.d]:0),"value",W+": reports value "+fmt(G.trueValue)); c.check(same(fromv(G.designParameters),V(w.begin(),w.begin()+k.d)),"parameters",W+": reports parameters "+S(fromv(G.designParameters)));
      c.check(same(fromv(G.constraintTrueValues),V(w.begin()+k.d+1,w.begin()+k.d+1+k.n)),"constraints",W+": reports constraint values "+S(fromv(G.constraintTrueValues))); c.check(eqd(G.improvementValue,w[w.size()-2]),"improvement",W+": improvement "+fmt(G.improvementValue));
      V nrm; for(int j=0;j<k.d;j++) nrm.push_back((w[j]-lb[j])/(ub[j]-lb[j])/k.d); c.check(close(fromv(G.designParametersNormalized),nrm,1e-12,1e-12),"normalized",W+": normalised parameters "+S(fromv(G.designParametersNormalized))+" expected "+S(nrm));
      G.saveToXMLFile(); std::string x=slurp("best.xml"); V g;
      c.check(item(x,"DesignID")==std::to_string(e)&&item(x,"Feasibility")==(ef?"YES":"NO")&&closed(strtod(item(x,"ObjectiveFunction").c_str(),nullptr),w[k.d],1e-15,1e-6)&&items(x,"DesignParameters",g)&&close(g,V(w.begin(),w.begin()+k.d),0,1e-6)&&(k.n? items(x,"ConstraintValues",g)&&close(g,V(w.begin()+k.d+1,w.begin()+k.d+1+k.n),0,1e-6): true),"xml",W+": XML file "+x);
      Hh.setData(tmat(t)); double iv=Hh.calculateInitialImprovementValue(); c.check(best>=0? iv==t[best][k.d]: iv<=-std::numeric_limits<double>::max(),"reference-value",W+": best feasible value of the history "+fmt(iv));
    } }
};
MC_MAIN(H)
