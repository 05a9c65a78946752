// P09: the acquisition search of a complete run under every interleaving of its worker threads (controlled scheduler, thr.hpp):
// candidate handed on = maximum of the candidates examined, fields of one candidate, no data race, no deadlock.
#include "sys.hpp"
#include "thr.hpp"
#include <dlfcn.h>
#include <cxxabi.h>
using namespace sy;
struct Cand{ int region,tid; V x; };
static std::vector<Cand> SEEN; static const ObjectiveFunction* OBJ; static bool REC; static mc::Ctx* CTX;
extern "C" __attribute__((weak)) void __real__ZNK5Rodop17ObjectiveFunction28calculateExpectedImprovementERNS_29DesignForBayesianOptimizationE(const ObjectiveFunction*,DesignForBayesianOptimization&);
extern "C" void __wrap__ZNK5Rodop17ObjectiveFunction28calculateExpectedImprovementERNS_29DesignForBayesianOptimizationE(const ObjectiveFunction* o,DesignForBayesianOptimization& d){ if(REC&&thr::inRegion()){ thr::Off off; OBJ=o; SEEN.push_back({thr::region(),thr::tid(),fromv(d.dv)}); } __real__ZNK5Rodop17ObjectiveFunction28calculateExpectedImprovementERNS_29DesignForBayesianOptimizationE(o,d); }
// hyper-parameters stay at their defaults: training has its own property (P10)
extern "C" void __wrap__ZN5Rodop17ObjectiveFunction14trainSurrogateEv(ObjectiveFunction*){} extern "C" void __wrap__ZN5Rodop18ConstraintFunction14trainSurrogateEv(ConstraintFunction*){}
static std::vector<int> PAT; static int DRAWN[4]; static int DIM,ATREGION;
// the schedules of one region are explored at a time: regions are separated by the end of the team and hand on nothing but the best candidate
static int chooser(int n){ return thr::region()==ATREGION? CTX->choose(n): 0; }
static int lastRegion; static int PERTHREAD;
static const double FR[]={0.12,0.46,0.81,0.3};
// draws inside the search regions: candidate k of thread t of the explored region gets the value the explorer has chosen for it; the other region draws its lower corner
static double draw(double a,double b){ if(!(a<b)) return a; double p=std::nextafter(b,a); if(!thr::inRegion()){ double t=a+(b-a)*lcg(); return t<b?t:p; } thr::Off off; if(thr::region()!=lastRegion){ lastRegion=thr::region(); memset(DRAWN,0,sizeof DRAWN); } int t=thr::tid(),k=DRAWN[t]++/DIM; if(thr::region()!=ATREGION) return a; size_t j=(size_t)t*PERTHREAD+k; double f=FR[j<PAT.size()?PAT[j]:3]; f+=0.01*((DRAWN[t]-1)%DIM); double r=a+(b-a)*f; return r<b?r:p; }
static std::string sym(const void* p){ Dl_info i; if(!p||!dladdr(p,&i)||!i.dli_sname) return "code of the repository"; int st; char* d=abi::__cxa_demangle(i.dli_sname,0,0,&st); std::string s=d?d:i.dli_sname; free(d); return s; }
struct H: mc::Harness {
  struct K{ int dim; std::string kinds; int threads,inner,region,budget; };
  std::vector<K> make(bool t){ std::vector<K> r; for(int dim=1;dim<=(t?2:2);dim++) for(const char* k:{"","C","U","CU"}) for(int th=1;th<=(t?4:3);th++) for(int in=1;in<=(t?6:4);in++) for(int reg=1;reg<=2;reg++) for(int b=1;b<=(t?2:1);b++){ if(th>in+1) continue; if(!t&&dim==2&&(strlen(k)==1||in==3)) continue; if(th==1&&in>3) continue; if(th==4&&in>4) continue; if(in==6&&(th==3||dim==2)) continue; r.push_back({dim,k,th,in,reg,b}); } return r; }
  uint64_t cases(bool t){ return make(t).size(); }
  std::string describe(uint64_t i,bool t){ K k=make(t)[i]; return "dim "+std::to_string(k.dim)+" constraints '"+k.kinds+"', "+std::to_string(k.threads)+" threads, "+std::to_string(k.inner)+" candidates per search, draws of the "+(k.region==1?"global":"local")+" search explored, "+std::to_string(k.budget)+" evaluations"; }
  void init(mc::Ctx&){ initDir(); OptimizationLogger::getInstance();  }
  void run(uint64_t i,mc::Ctx& c){ K k=make(c.thorough)[i]; CTX=&c; Cfg g; g.what=describe(i,c.thorough); g.dim=k.dim; g.lb=V{-1,3}; g.ub=V{2,5}; g.lb.resize(k.dim); g.ub.resize(k.dim); g.X=k.dim==1? M{{-1},{0.25},{0.75},{2}}: M{{-1,3},{0.25,3.5},{0.75,5},{2,4},{1.25,3.25}}; g.F={3,1,2,5,1.5}; g.F.resize(g.X.size()); g.budget=k.budget; g.inner=k.inner; g.threads=k.threads; g.train=1;
    for(size_t q=0;q<k.kinds.size();q++){ Con a{k.kinds[q],(int)q,q?'>':'<',q?-0.6:1.1,"con"+std::string(1,"ABC"[q])}; M T=g.X; for(size_t j=0;j<T.size();j++) T[j].push_back(std::sin(2.0*j+q)+0.4*j); g.cons.push_back(a); g.conTable.push_back(T); }
    Run r; r.c=&c; r.cfg=&g; r.prop="none"; r.pickF=[&](int n){ return n%2? 4.0: 0.5; }; r.pickC=[&](int,int q){ return 0.3+0.1*q; }; r.udf=[&](int,const double* x){ thr::Off off; return 0.7*x[0]-0.1; };
    DIM=k.dim; ATREGION=k.region+2*(k.budget-1); PERTHREAD=(k.inner+k.threads-1)/k.threads; lastRegion=0; PAT.assign(PERTHREAD*k.threads,0); int nv=k.inner<=(c.thorough?4:2)&&!(k.dim==2&&!c.thorough)?3:2; for(auto& p:PAT) p=nv==3?c.choose(3):2*c.choose(2);
    start(r); SEEN.clear(); OBJ=nullptr; DRAWFN=draw; REC=true; std::unique_ptr<Optimizer> o(makeOptimizer(g)); r.inRun=false;
    // judged when the last evaluation is called: the surrogates, the incumbent and the exploration factor are still those of the search
    struct J{ bool any=false,member=false; V x,bx; double v=0,best=-1e300; DesignForBayesianOptimization d,own; J(int n,unsigned m):d(n,m),own(n,m){} } j(k.dim,(unsigned)g.cons.size());
    r.afterEval=[&](int n){ if(n+1<k.budget){ SEEN.clear(); return; } thr::Off off; REC=false; j.d=o->getDesignWithMaxExpectedImprovement(); j.v=j.d.valueAcquisitionFunction; j.x=fromv(j.d.dv); if(SEEN.empty()||!OBJ) return; j.any=true;
      for(auto& s:SEEN){ DesignForBayesianOptimization q(k.dim,(unsigned)g.cons.size()); q.dv=tv(s.x); OBJ->calculateExpectedImprovement(q); o->addPenaltyToAcqusitionFunctionForConstraints(q); if(q.valueAcquisitionFunction>j.best){ j.best=q.valueAcquisitionFunction; j.bx=s.x; } if(hx::same(s.x,j.x)){ j.member=true; j.own=q; } } };
    std::string err; int bound=k.threads<=2?(k.inner<=(c.thorough?4:3)?1000:3):(c.thorough?k.threads==3?3:2:1); thr::enable(chooser,bound); try{ o->performEfficientGlobalOptimization(); } catch(std::exception& e){ err=e.what(); } thr::disable(); DRAWFN=nullptr; REC=false; R=nullptr; c.check(err.empty(),"P09-run",g.what+": the run ends with the error "+err);
    std::string W=g.what+", candidates"; for(auto& s:SEEN) W+=" "+std::to_string(s.region)+":"+std::to_string(s.tid)+S(s.x); auto& rc=thr::race();
    c.tick(thr::stats().points);
    if(rc.found) c.fail("P09-race",W+": data race between thread "+std::to_string(rc.t1)+" ("+(rc.w1?"write":"read")+" in "+sym(rc.pc1)+") and thread "+std::to_string(rc.t2)+" ("+(rc.w2?"write":"read")+" in "+sym(rc.pc2)+")");
    W+=": handed on "+S(j.x)+" with acquisition value "+fmt(j.v);
    if(k.budget==1&&k.threads>1) c.check(thr::stats().maxTeam==k.threads,"P09-team",W+": the search ran with "+std::to_string(thr::stats().maxTeam)+" threads");
    if(!j.any) return; // the search does not use the interface function the recorder is attached to
    c.state(mc::hashBytes(j.x.data(),8*j.x.size(),mc::hashBytes(&j.v,8,mc::hashBytes(PAT.data(),4*PAT.size(),i))));
    c.check(j.member,"P09-member",W+", which is none of the candidates");
    c.check(closed(j.own.valueAcquisitionFunction,j.v,1e-9,1e-14),"P09-own",W+", but this candidate's own acquisition value is "+fmt(j.own.valueAcquisitionFunction));
    c.check(closed(j.own.objectiveFunctionValue,j.d.objectiveFunctionValue,1e-9,1e-12)&&closed(j.own.sigma,j.d.sigma,1e-9,1e-12)&&close(fromv(j.own.constraintValues),fromv(j.d.constraintValues),1e-9,1e-12),"P09-mixed",W+": its estimates "+fmt(j.d.objectiveFunctionValue)+" "+fmt(j.d.sigma)+S(fromv(j.d.constraintValues))+" are those of another candidate");
    c.check(j.v>=j.best-1e-9*std::fabs(j.best)-1e-14,"P09-max",W+", but candidate "+S(j.bx)+" has "+fmt(j.best)); }
};
MC_MAIN(H)
