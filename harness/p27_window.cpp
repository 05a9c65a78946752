// P27: the window the acquisition search draws from, reconstructed from the candidates it examined (seen by a built-in constraint),
// equals the one of the reference automaton after every sequence of outcomes.
#include "sys.hpp"
using namespace sy;
struct K{ int dim; int kind; bool fea0; std::vector<int> pre; };     // kind 0: all short outcome sequences, 1: segments (S^a F^b), 2: long shrink to the floor then growth
struct H: mc::Harness {
  // outcomes: 0 improves (feasible), 1 worse, 2 better but infeasible, 3 equal to the best feasible
  std::vector<K> make(bool t){ std::vector<K> r; for(int dim=1;dim<=2;dim++) for(int f=0;f<2;f++){ for(int a=0;a<4;a++) for(int b=0;b<4;b++) r.push_back({dim,0,f==0,{a,b}}); for(int a=0;a<5;a++) for(int b=0;b<6;b++) r.push_back({dim,1,f==0,{a,b}}); }
    for(int dim=1;dim<=(t?2:1);dim++) for(int k:{3,8,9,10}) for(int s:{1,2,9,10}) r.push_back({dim,2,true,{k,s}}); return r; }
  std::vector<K> q,th; H(){ q=make(false); th=make(true); }
  uint64_t cases(bool t){ return (t?th:q).size(); }
  std::string describe(uint64_t i,bool t){ auto& k=(t?th:q)[i]; return "dim "+std::to_string(k.dim)+" kind "+std::to_string(k.kind)+" prefix "+std::to_string(k.pre[0])+","+std::to_string(k.pre[1])+(k.fea0?"":" no feasible initial sample"); }
  void init(mc::Ctx&){ initDir(); }
  bool snapshots(){ return true; }
  double execTimeout(){ return 200; }
  void run(uint64_t i,mc::Ctx& c){ const K& k=(c.thorough?th:q)[i]; Cfg g; g.dim=k.dim; g.lb=k.dim==1? V{-1}: V{-1,3}; g.ub=k.dim==1? V{2}: V{2,4.5}; 
    if(k.dim==1) g.X={{-0.5},{0.4},{1.1},{1.9}}; else g.X={{-0.5,3.1},{0.4,3.9},{1.1,4.4},{1.9,3.4},{-0.9,4.2}}; for(size_t q=0;q<g.X.size();q++) g.F.push_back(3+0.1*((q*7)%5)); 
    g.cons.push_back(Con{'U',0,'<',0.0,"conU"}); g.cons.push_back(Con{'C',1,'>',0.0,"conC"}); M T=g.X; for(size_t q=0;q<T.size();q++) T[q].push_back((k.fea0&&q!=2)? 1+0.01*q: -1-0.01*q); g.conTable={{},T}; g.inner=30; g.what=describe(i,c.thorough);
    // the outcome of evaluation n is decided when the objective is called
    static const int A[]={0,1,2,3,4}, B[]={0,1,14,15,16,30}; std::vector<int> plan; size_t at=0; 
    if(k.kind==0){ plan=k.pre; g.budget=c.thorough?7:6; }
    else if(k.kind==1){ int a=A[k.pre[0]],b=B[k.pre[1]]; plan.assign(a,0); for(int q=0;q<b;q++) plan.push_back(b%2? 1: 1+q%3); g.budget=1000; }
    else { plan.assign(15*k.pre[0],1); for(int q=0;q<3*k.pre[1];q++) plan.push_back(0); plan.push_back(1); g.budget=(int)plan.size(); }
    int segs=k.kind==1? (c.thorough?3:2): 0, seg=1; 
    Run r; r.c=&c; r.cfg=&g; r.prop="P27"; int cur=0; double fbest=NAN; for(size_t q=0;q<g.F.size();q++) if(k.fea0&&q!=2&&!(g.F[q]>=fbest)) fbest=g.F[q]; double flow=3;
    double tr=0.8; int su=0,fa=0; int count=0; bool any=k.fea0;
    if(k.kind==1) g.budget=0; // grows as segments are chosen
    std::function<int(int)> outcome=[&](int n){ if((size_t)n<plan.size()) return plan[n]; if(k.kind==0){ int o=c.choose(4); plan.push_back(o); return o; } return 1; };
    (void)at;
    r.onIteration=[&](int n){ bool ef; int b=bestRow(r.rows,ef); V lo(g.dim,1e300),hi(g.dim,-1e300); for(auto& s:r.seen) for(int d=0;d<g.dim;d++){ double z=(s[d]-g.lb[d])/(g.ub[d]-g.lb[d])/g.dim; lo[d]=std::min(lo[d],z); hi[d]=std::max(hi[d],z); }
      for(int d=0;d<g.dim;d++){ double ctr=(r.rows[b].x[d]-g.lb[d])/(g.ub[d]-g.lb[d])/g.dim; double el=std::max(0.0,ctr-tr/g.dim),eh=std::min(1.0/g.dim,ctr+tr/g.dim); 
        if(!(closed(lo[d],el,1e-6,1e-6)&&closed(hi[d],eh,1e-6,1e-6))) throw mc::Violation{"P27-window",g.what+": before evaluation "+std::to_string(n)+" the candidates of parameter "+std::to_string(d)+" fill ["+fmt(lo[d])+", "+fmt(hi[d])+"] of [0, "+fmt(1.0/g.dim)+"] but the window should be ["+fmt(el)+", "+fmt(eh)+"] (incumbent "+fmt(ctr)+", relative size "+fmt(tr)+")"}; }
      c.tick(r.seen.size()); c.state(mc::mix(mc::hashBytes(lo.data(),8*lo.size()),mc::hashBytes(&tr,8))); };
    r.pickF=[&](int n){ int o=outcome(n); cur=o; bool succ=false; double f; flow-=0.25;
      if(o==0){ f=flow; succ=true; any=true; fbest=f; } else if(o==1){ f=20+0.125*(n%7); if(!any){ f=20; } } else if(o==2){ f=flow-100; flow-=0; } else { f=any? fbest: 20; }
      if(o==1&&!any) cur=2; if(o==3&&!any) cur=2;                    // without a feasible design "worse" and "equal" are infeasible
      if(succ){ su++; fa=0; if(su==3){ tr=std::min(1.0,tr*2); su=0; } } else { fa++; su=0; if(fa==15){ tr=std::max(std::pow(0.5,8),tr/2); fa=0; } }
      count++; 
      if(k.kind==1&&(size_t)count==plan.size()&&seg<segs){ int a=A[c.choose(5)],b=B[c.choose(6)]; seg++; for(int q=0;q<a;q++) plan.push_back(0); for(int q=0;q<b;q++) plan.push_back(b%2? 1: 1+q%3); }
      return f; };
    r.pickC=[&](int,int){ return cur==2? -1.0-0.001*count: 1.0+0.001*(count%5); }; r.udf=[&](int,const double* x){ return -1.0; };
    // the budget must be known in advance: kind 1 chooses all its segments first
    if(k.kind==1){ while(seg<segs){ int a=A[c.choose(5)],b=B[c.choose(6)]; seg++; for(int q=0;q<a;q++) plan.push_back(0); for(int q=0;q<b;q++) plan.push_back(b%2? 1: 1+q%3); } plan.push_back(1); g.budget=(int)plan.size(); }
    LCGMODE=0.47; start(r); std::unique_ptr<Optimizer> o(makeOptimizer(g)); r.inRun=true; std::string err; try{ o->performEfficientGlobalOptimization(); } catch(std::exception& e){ err=e.what(); }
    if(!err.empty()) throw mc::Violation{"exception",g.what+": the run ends with the error "+err};
    finish(r,*o); R=nullptr; }
};
MC_MAIN(H)
