// P29: gradient refinement of the chosen candidate, on the real optimizer with real models: every start, window, constraint mix,
// exploration factor, incumbent and iteration limit.
#define private public
#define protected public
#include "Optimizers/INCLUDE/optimization.hpp"
#undef private
#undef protected
#include "sys.hpp"
using namespace sy;
struct L{ std::string kinds,dirs; };
static const L LS[]={{"",""},{"C","<"},{"C",">"},{"U","<"},{"U",">"},{"CC","<>"},{"UC",">>"},{"CUC","<<>"}};
struct D{ int dim; M X; V F; };
static std::vector<D> data(bool t){ std::vector<D> r{ {1,{{-1},{0.25},{0.75},{2}},{3,1,2,5}}, {1,{{-1},{0},{1},{2}},{1e-6,-2e-6,3e-6,1e-7}}, {1,{{-1},{-0.5},{0.5},{1.5}},{1e6,-2e6,3e6,1e5}}, {2,{{-1,3},{0.25,3.5},{0.75,5},{2,4},{1.25,3.25}},{3,1,2,5,1.5}}, {2,{{-1,3},{2,5},{0.5,4},{-1,5},{2,3}},{-3,-1,-2,-5,-1.5}} };
  if(t){ M X; V F; for(int i=0;i<3;i++) for(int j=0;j<3;j++) for(int k=0;k<2;k++){ X.push_back({-1+1.5*i,3+1.0*j,k*1.0}); F.push_back(std::sin(1.0*i)+j*j-0.3*k*i); } r.push_back({3,X,F}); } return r; }
struct H: mc::Harness {
  std::vector<D> q,th; H(){ q=data(false); th=data(true); }
  uint64_t cases(bool t){ return (t?th:q).size()*8*3; }
  std::string describe(uint64_t i,bool t){ auto& l=LS[i/3%8]; static const char* w[]={"whole box","window around the best sample","window in a corner"}; (void)t; return "data set "+std::to_string(i/24)+" constraints '"+l.kinds+"' "+l.dirs+", "+w[i%3]; }
  void init(mc::Ctx&){ initDir(); LCGMODE=0.02; }
  void run(uint64_t i,mc::Ctx& c){ const D& d=(c.thorough?th:q)[i/24]; auto& l=LS[i/3%8]; int win=(int)(i%3); Cfg g; g.dim=d.dim; g.lb=V{-1,3,0}; g.ub=V{2,5,1}; g.lb.resize(d.dim); g.ub.resize(d.dim); g.X=d.X; g.F=d.F; g.budget=1; g.what=describe(i,c.thorough); int n=(int)l.kinds.size();
    double amp=0; for(double f:d.F) amp=std::max(amp,std::fabs(f)); for(int k=0;k<n;k++){ double sc=k==1? 1e-5: 1; Con a{l.kinds[k],k,l.dirs[k],l.kinds[k]=='U'? 0.3: 0.1*sc,"con"+std::string(1,"ABC"[k])}; M T=d.X; for(size_t p=0;p<T.size();p++) T[p].push_back(sc*std::sin(2.0*p+k)); g.cons.push_back(a); g.conTable.push_back(T); }
    Run r; r.c=&c; r.cfg=&g; r.prop="none"; r.udf=[&](int id,const double* x){ return (id+1)*(x[0]-0.2); }; start(r); std::unique_ptr<Optimizer> po(makeOptimizer(g)); Optimizer& o=*po; LCG=4711; std::string err;
    try{ o.initializeOptimizerSettings(); o.initializeSurrogates(); o.initializeCurrentBestDesign(); o.initializeOptimizationHistory(); o.trainSurrogates(); } catch(std::exception& e){ err=e.what(); } c.check(err.empty(),"P29-setup",g.what+": "+err);
    V lo(d.dim,0),hi(d.dim,1.0/d.dim); if(win==1){ V z=fromv(o.globalOptimalDesign.designParametersNormalized); for(int j=0;j<d.dim;j++){ lo[j]=std::max(0.0,z[j]-0.05/d.dim); hi[j]=std::min(1.0/d.dim,z[j]+0.1/d.dim); } } if(win==2) for(int j=0;j<d.dim;j++){ if(j%2) lo[j]=hi[j]-0.01/d.dim; else hi[j]=0.01/d.dim; }
    o.lowerBoundsForAcqusitionFunctionMaximization=tv(lo); o.upperBoundsForAcqusitionFunctionMaximization=tv(hi);
    auto value=[&](const V& x){ DesignForBayesianOptimization b(d.dim,n); b.dv=tv(x); o.objFun.calculateExpectedImprovement(b); o.addPenaltyToAcqusitionFunctionForConstraints(b); return b; };
    auto ei=[&](const V& x){ DesignForBayesianOptimization b(d.dim,n); b.dv=tv(x); o.objFun.calculateExpectedImprovement(b); return b.valueAcquisitionFunction; };
    int N=d.dim==1?9:d.dim==2?4:3; M starts; std::vector<int> k(d.dim,0); for(;;){ V x; for(int j=0;j<d.dim;j++) x.push_back(std::min(hi[j],lo[j]+(hi[j]-lo[j])*k[j]/(N-1.0))); starts.push_back(x); int j=0; while(j<d.dim&&++k[j]==N) k[j++]=0; if(j==d.dim) break; }
    for(auto& x:d.X){ V z; bool in=true; for(int j=0;j<d.dim;j++){ z.push_back((x[j]-g.lb[j])/(g.ub[j]-g.lb[j])/d.dim); in&=z[j]>=lo[j]&&z[j]<=hi[j]; } if(in) starts.push_back(z); }
    V mins{1e15}; mins.push_back(*std::min_element(d.F.begin(),d.F.end())); mins.push_back(mins[1]-amp);
    for(double fmin:mins) for(double fac:{1.0,5.0,100.0}){ o.objFun.setFeasibleMinimum(fmin); o.objFun.setSigmaFactor(fac); for(unsigned it:{1u,3u,100u}) { if(it==100&&d.dim>1&&!c.thorough&&fac==5.0) continue; o.iterGradientEILoop=it; for(auto& x:starts){ c.tick(); DesignForBayesianOptimization s=value(x); double f0=s.valueAcquisitionFunction; if(c.thorough||(it+starts.size())%2) s.valueAcquisitionFunction=-1; // the value handed over is not used
        DesignForBayesianOptimization b=o.maximizeAcqusitionFunctionGradientBased(s); V y=fromv(b.dv); std::string W=g.what+": incumbent "+fmt(fmin)+" factor "+fmt(fac)+" "+std::to_string(it)+" iterations from "+S(x)+" with acquisition value "+fmt(f0)+" to "+S(y)+": "; double v=b.valueAcquisitionFunction;
        c.check((int)y.size()==d.dim,"P29-size",W+"wrong size"); for(int j=0;j<d.dim;j++) c.check(y[j]>=lo[j]&&y[j]<=hi[j],"P29-window",W+"outside of the window "+S(lo)+S(hi));
        DesignForBayesianOptimization t=value(y); c.check(eqd(v,t.valueAcquisitionFunction),"P29-value",W+"value "+fmt(v)+" reported, "+fmt(t.valueAcquisitionFunction)+" calculated"); c.check(v>=f0,"P29-worse",W+"the value falls to "+fmt(v)); c.check(v>f0||hx::same(x,y),"P29-moved",W+"moved without an improvement");
        c.check(eqd(b.objectiveFunctionValue,t.objectiveFunctionValue)&&eqd(b.sigma,t.sigma)&&hx::same(fromv(b.constraintValues),fromv(t.constraintValues))&&hx::same(fromv(b.constraintSigmas),fromv(t.constraintSigmas))&&hx::same(fromv(b.constraintFeasibilityProbabilities),fromv(t.constraintFeasibilityProbabilities)),"P29-record",W+"estimates "+fmt(b.objectiveFunctionValue)+" "+fmt(b.sigma)+" "+S(fromv(b.constraintValues))+" are those of another point");
        c.state(mc::hashBytes(&v,8));
        // an ascent along the gradient is used
        if(v==f0){ V gr(d.dim); bool smooth=f0>0; double nn=0; std::vector<V> es; for(double e:{1e-8,1e-7,1e-6,1e-5}){ V q(d.dim); for(int j=0;j<d.dim;j++){ V a=x,z=x; a[j]+=e; z[j]-=e; q[j]=(ei(a)-ei(z))/(2*e); } es.push_back(q); } gr=es[1]; for(double u:gr) nn=std::max(nn,std::fabs(u)); for(auto& q:es) for(int j=0;j<d.dim;j++) if(!(std::fabs(q[j]-gr[j])<=0.05*nn)) smooth=false; /* only where differences with any sensible step agree */ if(!smooth) continue; double best=f0,at=0; for(double st=0.001;st>1e-9;st*=0.5){ V z=x; for(int j=0;j<d.dim;j++) z[j]=std::min(hi[j],std::max(lo[j],x[j]+st*gr[j])); double w=value(z).valueAcquisitionFunction; if(w>best){ best=w; at=st; } } c.check(!(best>f0*(1+1e-4)+1e-300),"P29-ascent",W+"nothing gained although a step of "+fmt(at)+" along the gradient "+S(gr)+" gives "+fmt(best)); }
        } } }
    R=nullptr; }
};
MC_MAIN(H)
