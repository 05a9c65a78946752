// P31: when the models are trained, and with which data: complete runs over every training interval, number of iterations,
// constraint mix and sequence of outcomes. Trainings are seen at the optimiser of the hyper-parameters.
#define private public
#define protected public
#include "SurrogateModels/INCLUDE/kriging_training.hpp"
#undef private
#undef protected
#include "sys.hpp"
using namespace sy;
struct T{ int iter; size_t seen; M data; };
static std::vector<T> TR; static bool BUSY=false;
extern "C" void __real__ZN5Rodop11EAOptimizer8optimizeEv(Rodop::EAOptimizer*);
extern "C" void __wrap__ZN5Rodop11EAOptimizer8optimizeEv(Rodop::EAOptimizer* o){ auto* k=static_cast<KrigingHyperParameterOptimizer*>(o); 
  TR.push_back({R? (int)R->evalX.size():-1,R&&!(!R->evalX.empty()&&R->evalSeen<R->evalX.size())? R->seen.size():0,fromm(k->KrigingModelForCalculations.getData().getRawData())});
  o->setInitialPopulationSize(6); o->setNumberOfNewIndividualsInAGeneration(4); o->setNumberOfDeathsInAGeneration(3); o->setNumberOfGenerations(1); __real__ZN5Rodop11EAOptimizer8optimizeEv(o); } // a short training: the property does not depend on its length
struct K{ int dim; std::string kinds; unsigned often; int budget; };
struct H: mc::Harness {
  std::vector<K> make(bool t){ std::vector<K> r; static const char* kk[]={"","C","U","CC","UC","CU","CUC"}; for(int d=1;d<=2;d++) for(const char* k:kk) for(unsigned n:{1u,2u,3u,4u,5u,7u,100000u,4294967295u}) for(int b=1;b<=(t?7:5);b++){ if(!t&&d==2&&(b<4||n==7)) continue; if(strlen(k)==3&&(!t&&b==5)) continue; r.push_back({d,k,n,b}); } for(int d=1;d<=2;d++) r.push_back({d,"C",0,2}); return r; }
  std::vector<K> q,th; H(){ q=make(false); th=make(true); }
  uint64_t cases(bool t){ return (t?th:q).size(); }
  std::string describe(uint64_t i,bool t){ auto& k=(t?th:q)[i]; return "dim "+std::to_string(k.dim)+" constraints '"+k.kinds+"', training every "+std::to_string(k.often)+" iterations, "+std::to_string(k.budget)+" evaluations"; }
  void init(mc::Ctx&){ initDir(); }
  bool snapshots(){ return true; }
  void run(uint64_t i,mc::Ctx& c){ const K& k=(c.thorough?th:q)[i]; Cfg g; g.what=describe(i,c.thorough); g.dim=k.dim; g.lb=k.dim==1? V{-1}: V{-1,3}; g.ub=k.dim==1? V{2}: V{2,4.5}; g.often=k.often; g.budget=k.budget; g.inner=3; g.train=1;
    if(k.dim==1) g.X={{-0.5},{0.4},{1.1},{1.9}}; else g.X={{-0.5,3.1},{0.4,3.9},{1.1,4.4},{1.9,3.4},{-0.9,4.2}}; for(size_t q=0;q<g.X.size();q++) g.F.push_back(3+0.1*((q*7)%5));
    for(size_t q=0;q<k.kinds.size();q++){ g.cons.push_back(Con{k.kinds[q],(int)q,q%2?'<':'>',0.0,"con"+std::string(1,"ABC"[q])}); M A=g.X; if(k.kinds[q]=='U') A.clear(); for(size_t j=0;j<A.size();j++) A[j].push_back((q%2?-1:1)*(1+0.01*j+0.001*q)); g.conTable.push_back(A); }
    if(k.often==0){ bool refused=false; try{ Optimizer o("x",1); o.setHowOftenTrainModels(0); } catch(std::exception&){ refused=true; } c.check(refused,"P31-zero",g.what+": an interval of zero iterations is accepted"); return; }
    TR.clear(); Run r; r.c=&c; r.cfg=&g; r.prop="none"; double flow=3; int ne=0; std::vector<int> at;
    // outcomes: improves / does not / violates a constraint
    int out=0; r.pickF=[&](int n){ out=c.choose(g.cons.empty()?2:3); flow-=0.25; ne++; return out==1? 20+0.125*n: flow; };
    r.pickC=[&](int n,int q){ double s=q%2?-1:1; return out==2? -s*(1+0.01*n): s*(1+0.015*n+0.001*q); }; r.udf=[&](int id,const double*){ return id%2? -1.0: 1.0; };
    r.onIteration=[&](int n){ judge(r,c,n); };
    start(r); std::unique_ptr<Optimizer> o(makeOptimizer(g)); r.inRun=true; std::string err; try{ o->performEfficientGlobalOptimization(); } catch(mc::Violation&){ throw; } catch(mc::Prune&){ throw; } catch(std::exception& e){ err=e.what(); }
    r.inRun=false; c.check(err.empty(),"P31-error",g.what+": the run ends with the error "+err); c.check((int)r.evalX.size()==g.budget,"P31-evaluations",g.what+": "+std::to_string(r.evalX.size())+" evaluations"); c.check(TR.empty(),"P31-after",g.what+": "+std::to_string(TR.size())+" trainings after the last evaluation"); R=nullptr; }
  // called when evaluation n begins: the trainings of this iteration are in TR
  void judge(Run& r,mc::Ctx& c,int n){ const Cfg& g=*r.cfg; bool due=n%g.often==0; std::vector<std::string> fs{"obj_train.csv"}; for(auto& k:g.cons) if(k.kind!='U') fs.push_back(conFile(k)); std::string W=g.what+", iteration "+std::to_string(n+1)+": ";
    c.check(TR.size()==(due?fs.size():0),"P31-count",W+std::to_string(TR.size())+" models are trained instead of "+std::to_string(due?fs.size():0)); std::vector<int> hit(fs.size(),0); 
    for(auto& t:TR){ c.tick(); bool any=false; for(size_t f=0;f<fs.size();f++){ M m; readCSV(fs[f],m); bool eq=m.size()==t.data.size(); for(size_t j=0;eq&&j<m.size();j++) eq=close(m[j],t.data[j],1e-11,1e-12); if(eq){ hit[f]++; any=true; } } c.check(any,"P31-data",W+"a model is trained with "+S(t.data)+" which is not the content of any training file"); c.check(t.seen==0,"P31-late",W+"a model is trained after "+std::to_string(t.seen)+" candidates have been examined"); }
    if(due) for(size_t f=0;f<fs.size();f++) c.check(hit[f]==1,"P31-model",W+"the model of "+fs[f]+" is trained "+std::to_string(hit[f])+" times"); c.state(mc::mix(n,mc::mix(TR.size(),(size_t)g.often))); TR.clear(); }
};
MC_MAIN(H)
