// P23: expected improvement against the textbook formula (PART 1, one model, every query / incumbent / exploration factor),
// its product with the constraint probabilities (PART 2, every mix of constraints) and inside runs (PART 3).
#define private public
#define protected public
#include "Optimizers/INCLUDE/optimization.hpp"
#undef private
#undef protected
#include "sys.hpp"
using namespace sy;
#ifndef PART
#define PART 1
#endif
typedef long double LD;
static LD Phi(LD z){ return 0.5L*erfcl(-z/sqrtl(2.0L)); }
static LD phi(LD z){ return expl(-0.5L*z*z)/sqrtl(2*acosl(-1.0L)); }
static LD EI(LD fmin,LD f,LD s){ if(!(s>1e-13L)) return 0; LD z=(fmin-f)/s; if(z<-37) return 0; return (fmin-f)*Phi(z)+s*phi(z); }
static LD prob(char dir,LD target,LD mu,LD s){ LD z=(target-mu)/s; if(s<1e-12L) return dir=='<'? (mu<target?1:0): (mu>target?1:0); return dir=='<'? Phi(z): Phi(-z); }
static bool near(LD a,LD b,LD scale){ return fabsl(a-b)<=1e-9L*fabsl(b)+1e-15L*scale; }
static const double CS[]={1,1e-7,1e6,1,1e-10}; // output scales of the constraints
// the estimates of the model behind a function (their own correctness is P11)
template<class T> static std::pair<double,double> estimate(const T& o,const V& x){ double f=0,v=0; o.surrogate->interpolateWithVariance(tv(x),&f,&v); return {f,std::sqrt(v)}; }
struct Data{ int dim; M X; V F; };
static std::vector<Data> datasets(bool t){ std::vector<Data> r{ {1,{{-1},{0.25},{0.75},{2}},{3,1,2,5}}, {1,{{-0.5},{1.5}},{0,1}}, {1,{{-1},{0},{1},{2}},{1e6,-2e6,3e6,1e5}}, {1,{{-1},{0},{1},{2}},{1e-6,-2e-6,3e-6,1e-7}}, {2,{{-1,3},{0.25,3.5},{0.75,5},{2,4},{1.25,3.25}},{3,1,2,5,1.5}}, {2,{{-1,3},{2,5},{0.5,4},{-1,5},{2,3}},{-3,-1,-2,-5,-1.5}}, {1,{{-1},{0.25},{0.2500001},{2}},{3,1,1.0000001,5}} };
  if(t){ M X; V F; for(int i=0;i<3;i++) for(int j=0;j<3;j++) for(int k=0;k<2;k++){ X.push_back({-1+1.5*i,3+1.0*j,k*1.0}); F.push_back(std::sin(1.0*i)+j*j-0.3*k*i); } r.push_back({3,X,F}); r.push_back({1,{{-1},{-0.9},{0},{0.1},{1},{1.1},{2}},{1,2,1,2,1,2,1}}); } return r; }
static void box(int dim,V& lb,V& ub){ lb=V{-1,3,0}; ub=V{2,5,1}; lb.resize(dim); ub.resize(dim); }
// normalised query points: grid of the unit box divided by the dimension, and the training points themselves
static M queries(const Data& d){ V lb,ub; box(d.dim,lb,ub); M r; int n=d.dim==1?9:d.dim==2?4:3; std::vector<int> k(d.dim,0); for(;;){ V q; for(int i=0;i<d.dim;i++) q.push_back((k[i]/(n-1.0))/d.dim); r.push_back(q); int i=0; while(i<d.dim&&++k[i]==n) k[i++]=0; if(i==d.dim) break; }
  for(auto& x:d.X){ V q; for(int i=0;i<d.dim;i++) q.push_back((x[i]-lb[i])/(ub[i]-lb[i])/d.dim); r.push_back(q); } return r; }
template<class T> static void model(T& o,const Data& d,const std::string& file,bool universal,int train){ V lb,ub; box(d.dim,lb,ub); M m=d.X; for(size_t i=0;i<m.size();i++) m[i].push_back(d.F[i]); writeCSV(file,m); ObjectiveFunctionDefinition f; f.name=file; f.nameHighFidelityTrainingData=file; f.modelHiFi=universal?UNIVERSAL_KRIGING:ORDINARY_KRIGING; o.setParametersByDefinition(f); o.setDimension(d.dim); o.setParameterBounds(Bounds(tv(lb),tv(ub))); o.setNumberOfTrainingIterationsForSurrogateModel(train); o.initializeSurrogate(); o.trainSurrogate(); }
struct H: mc::Harness {
  std::vector<Data> q,th; H(){ q=datasets(false); th=datasets(true); }
  void init(mc::Ctx&){ initDir(); LCGMODE=0.02; }
#if PART==1
  uint64_t cases(bool t){ return (t?th:q).size()*2; }
  std::string describe(uint64_t i,bool t){ return "data set "+std::to_string(i/2)+(i%2?" universal":" ordinary")+" Kriging"; }
  void run(uint64_t i,mc::Ctx& c){ const Data& d=(c.thorough?th:q)[i/2]; LCG=4711; ObjectiveFunction o; model(o,d,"ei.csv",i%2,60); static const double zs[]={-40,-20,-10,-9,-8.3,-8.2,-8,-7,-6,-5,-3,-1,-1e-3,-1e-9,0,1e-9,1e-3,1,3,6,8.2,20,40}; 
    for(auto& x:queries(d)){ std::pair<double,double> p=estimate(o,x),p2=o.interpolateWithVariance(tv(x)); double f=p.first,s=p.second; c.check(eqd(p2.first,f)&&closed(p2.second,s,1e-12,0),"P23-estimate",describe(i,c.thorough)+": at "+S(x)+" prediction "+fmt(p2.first)+" and error estimate "+fmt(p2.second)+", but the model gives "+fmt(f)+" and "+fmt(s)); c.check(s>=0,"P23-sigma",describe(i,c.thorough)+": error estimate "+fmt(s)+" at "+S(x)); V mins; for(double z:zs) mins.push_back(f+z*(s>0?s:1e-3)); for(double m:d.F) mins.push_back(m); mins.push_back(1e15); mins.push_back(-1e15); mins.push_back(f);
      for(double fmin:mins){ double last=-1; bool mono=f>=fmin; for(double fac:{0.01,0.5,1.0,1.01,2.0,10.0,100.0}){ c.tick(); DesignForBayesianOptimization b(d.dim,0); b.dv=tv(x); o.setFeasibleMinimum(fmin); o.setSigmaFactor(fac); o.calculateExpectedImprovement(b); double v=b.valueAcquisitionFunction; std::string W=describe(i,c.thorough)+": at "+S(x)+" prediction "+fmt(f)+" error estimate "+fmt(s)+" incumbent "+fmt(fmin)+" factor "+fmt(fac)+": expected improvement "+fmt(v);
          LD w=EI(fmin,f,(LD)s*fac); c.check(near(v,w,s*fac),"P23-formula",W+" instead of "+fmt((double)w)); c.check(v>=0,"P23-negative",W); c.check(eqd(b.objectiveFunctionValue,f)&&closed(b.sigma,s,1e-12,0),"P23-record",W+": the candidate carries prediction "+fmt(b.objectiveFunctionValue)+" and error "+fmt(b.sigma)); c.check(hx::same(fromv(b.dv),x),"P23-record",W+": the candidate was moved");
          if(mono){ c.check(v>=last*(1-1e-9),"P23-monotone",W+" is smaller than "+fmt(last)+" for a smaller factor"); last=v; } c.state(mc::hashBytes(&v,8)); } } } }
#elif PART==2
  // constraints: kinds C (Kriging model) / U (built-in function), directions, ids permuted; products for every query
  struct K{ int data; std::string kinds,dirs; std::vector<int> ids; };
  std::vector<K> make(bool t){ std::vector<K> r; auto& D=t?th:q; for(size_t d=0;d<D.size();d++) for(int n=0;n<=(t?4:3);n++){ std::vector<int> id(n); for(int j=0;j<n;j++) id[j]=j; do for(int m=0;m<(1<<n);m++) for(int e=0;e<(1<<n);e++){ bool ident=std::is_sorted(id.begin(),id.end()); if(!ident&&(m+e+id[0])%4) continue; if(n==4&&(m*16+e)%7) continue; std::string a,b; for(int j=0;j<n;j++){ a+=(m>>j&1)?'U':'C'; b+=(e>>j&1)?'>':'<'; } r.push_back({(int)d,a,b,id}); } while(std::next_permutation(id.begin(),id.end())); } return r; }
  uint64_t cases(bool t){ return make(t).size(); }
  std::string describe(uint64_t i,bool t){ static std::vector<K> kq=make(false),kt=make(true); auto& k=(t?kt:kq)[i]; std::string s="data set "+std::to_string(k.data)+" constraints '"+k.kinds+"' "+k.dirs+" ids"; for(int x:k.ids) s+=" "+std::to_string(x); return s; }
  void run(uint64_t i,mc::Ctx& c){ static std::vector<K> kq=make(false),kt=make(true); const K& k=(c.thorough?kt:kq)[i]; const Data& d=(c.thorough?th:q)[k.data]; LCG=4711; int n=(int)k.kinds.size(); ObjectiveFunction ob; model(ob,d,"ei.csv",false,40); V lb,ub; box(d.dim,lb,ub);
    Run r; Cfg g; g.dim=d.dim; r.cfg=&g; r.c=&c; R=&r; r.udf=[&](int id,const double* x){ return (id+1)*(x[0]-0.4)+0.25*(d.dim>1?x[1]-4:0); };
    std::vector<std::unique_ptr<ConstraintFunction>> cf; V tg; for(int j=0;j<n;j++){ cf.emplace_back(new ConstraintFunction()); Data dc=d; double lo=1e300,hi=-1e300; for(size_t p=0;p<dc.F.size();p++){ dc.F[p]=(std::sin(3.0*p+j)*(1+j)+0.1*j)*CS[(i/3+2*j)%5]; lo=std::min(lo,dc.F[p]); hi=std::max(hi,dc.F[p]); } ConstraintDefinition cd; cd.constraintName="con"+std::to_string(j); cd.ID=k.ids[j]; cd.inequalityType=std::string(1,k.dirs[j]); cd.value=k.kinds[j]=='U'? 0.0625: lo+(0.3+0.2*j)*(hi-lo); tg.push_back(cd.value);
      if(k.kinds[j]=='C') model(*cf[j],dc,"con"+std::to_string(j)+".csv",false,40); else { ObjectiveFunctionDefinition f; f.name=cd.constraintName; cf[j]->setParametersByDefinition(f); cf[j]->setDimension(d.dim); } cf[j]->setConstraintDefinition(cd); if(k.kinds[j]=='U') cf[j]->setUseExplicitFunctionOn(); }
    Optimizer o("p23",d.dim); o.addObjectFunction(ob); for(auto& p:cf) o.addConstraint(*p); o.setBoxConstraints(Bounds(tv(lb),tv(ub)));
    double best=*std::min_element(d.F.begin(),d.F.end()); ob.setFeasibleMinimum(best); ob.setSigmaFactor(1);
    for(auto& x:queries(d)){ c.tick(); DesignForBayesianOptimization b(d.dim,n); b.dv=tv(x); ob.calculateExpectedImprovement(b); double ei=b.valueAcquisitionFunction; o.addPenaltyToAcqusitionFunctionForConstraints(b); V xn; for(int t=0;t<d.dim;t++) xn.push_back(x[t]*d.dim*(ub[t]-lb[t])+lb[t]); LD w=ei; V pr(n),mu(n),sg(n); bool edge=false; 
      for(int j=0;j<n;j++){ if(k.kinds[j]=='U'){ mu[j]=r.udf(k.ids[j],xn.data()); sg[j]=0; edge|=std::fabs(mu[j]-tg[j])<1e-9; pr[j]=(double)prob(k.dirs[j],tg[j],mu[j],0); } else { auto p=estimate(*cf[j],x); mu[j]=p.first; sg[j]=p.second; pr[j]=(double)prob(k.dirs[j],tg[j],mu[j],sg[j]); } w*=pr[j]; }
      if(edge) continue; std::string W=describe(i,c.thorough)+": at "+S(x)+" expected improvement "+fmt(ei)+" constraint estimates "+S(mu)+" errors "+S(sg)+" targets "+S(tg)+": acquisition value "; double v=b.valueAcquisitionFunction; c.check(fabsl(v-w)<=1e-9L*fabsl(w)+1e-14L*ei,"P23-product",W+fmt(v)+" instead of "+fmt((double)w)+", probabilities "+S(pr)); c.check(v>=0,"P23-negative",W+fmt(v)); c.check(hx::same(fromv(b.dv),x),"P23-record",W+": the candidate was moved"); c.state(mc::hashBytes(&v,8)); }
    R=nullptr; }
#else
  // after (part of) a run: the candidate handed on carries the acquisition value of the textbook for the best feasible objective so far
  struct K{ int dim; std::string kinds; int doe; int ans; int n; };
  std::vector<K> make(bool t){ std::vector<K> r; for(int dim=1;dim<=2;dim++) for(const char* k:{"","C","U","CC","UC"}) for(int doe=0;doe<2;doe++) for(int a=0;a<4;a++) for(int n=1;n<=(t?4:2);n++){ if(!*k&&(doe==1||a==2)) continue; r.push_back({dim,k,doe,a,n}); } return r; }
  uint64_t cases(bool t){ return make(t).size(); }
  std::string describe(uint64_t i,bool t){ auto k=make(t)[i]; static const char* w[]={"worse","better","better but infeasible","mixed"}; return "dim "+std::to_string(k.dim)+" constraints '"+k.kinds+"'"+(k.doe?" no feasible initial sample":"")+", "+std::to_string(k.n)+" evaluations, answers "+w[k.ans]; }
  bool snapshots(){ return true; }
  void run(uint64_t i,mc::Ctx& c){ K k=make(c.thorough)[i]; Cfg g; g.dim=k.dim; box(k.dim,g.lb,g.ub); g.X=k.dim==1? M{{-1},{0.25},{0.75},{2}}: M{{-1,3},{0.25,3.5},{0.75,5},{2,4},{1.25,3.25}}; g.F={3,1,2,5,1.5}; g.F.resize(g.X.size()); g.budget=k.n; g.inner=3; g.what=describe(i,c.thorough);
    for(size_t q=0;q<k.kinds.size();q++){ Con a{k.kinds[q],(int)q,q?'<':'>',q?2.0:-0.5,"con"+std::string(1,"ABC"[q])}; if(a.kind=='U') a.target=k.doe? 1.75: 0.0; g.cons.push_back(a); M T=g.X; for(size_t j=0;j<T.size();j++){ bool good=!(k.doe&&q==k.kinds.size()-1&&k.kinds[0]!='U')&&(j+q)%3!=1; T[j].push_back(a.target+(a.dir=='<'?-1:1)*(good?1:-1)*(0.5+0.2*j)); } g.conTable.push_back(T); }
    Run r; r.c=&c; r.cfg=&g; r.prop="none"; r.pickF=[&](int n){ return k.ans==0? 4+0.3*n: k.ans==3? (n%2? 0.5-n: 4.0+n): 0.5-0.25*n; }; r.pickC=[&](int n,int q){ auto& a=g.cons[q]; bool good=k.ans==2? n%2==1&&q==0: k.ans==3? n%3!=0: true; return a.target+(a.dir=='<'?-1:1)*(good?1:-1)*(0.6+0.1*n); }; r.udf=[&](int,const double* x){ return x[0]; };
    LCGMODE=c.flip()?0.25:0.02; int seed=c.choose(c.thorough?6:3); start(r); LCG=12345+seed*77; std::unique_ptr<Optimizer> o(makeOptimizer(g)); r.inRun=true; std::string err; try{ o->performEfficientGlobalOptimization(); } catch(std::exception& e){ err=e.what(); } c.check(err.empty(),"P23-run",g.what+": the run ends with the error "+err); r.inRun=false;
    // the candidate of the last iteration; r.rows holds the samples known when it was chosen
    bool ef; int b=bestRow(r.rows,ef); double fmin=ef? r.rows[b].f: 1e15; double lo=1,hi=k.n==1? 1: 100; DesignForBayesianOptimization d=o->getDesignWithMaxExpectedImprovement();
    double v=d.valueAcquisitionFunction,f=d.objectiveFunctionValue,s=d.sigma; LD pp=1; V pr,mu=fromv(d.constraintValues),sg=fromv(d.constraintSigmas); bool edge=false; for(size_t q=0;q<g.cons.size();q++){ auto& a=g.cons[q]; LD p; if(a.kind=='U'){ double x0=d.dv(0)*g.dim*(g.ub[0]-g.lb[0])+g.lb[0]; edge|=std::fabs(x0-a.target)<1e-9; p=prob(a.dir,a.target,x0,0); } else p=prob(a.dir,a.target,mu[a.id],sg[a.id]); pp*=p; pr.push_back((double)p); }
    std::string W=g.what+": candidate "+S(fromv(d.dv))+" prediction "+fmt(f)+" error "+fmt(s)+" constraint estimates "+S(mu)+" errors "+S(sg)+" probabilities "+S(pr)+", best feasible objective "+fmt(fmin)+": acquisition value "+fmt(v); c.op(W);
    c.check(v>=0,"P23-negative",W); LD a0=EI(fmin,f,(LD)s*lo)*pp,a1=EI(fmin,f,(LD)s*hi)*pp; LD tol=1e-9L*std::max(fabsl(a0),fabsl(a1))+1e-14L; tol+=1e-15L*g.cons.size()*a1/std::max((LD)1e-300,pp); if(fmin>1e14) tol=1e-9L*1e15L*pp+1e-15L*1e15L; if(!edge) c.check(v>=std::min(a0,a1)-tol&&v<=std::max(a0,a1)+tol,"P23-run-value",W+", but the textbook gives "+fmt((double)a0)+(k.n==1?"":" .. "+fmt((double)a1)+" for the exploration factors 1 .. 100"));
    c.state(mc::hashBytes(&lo,8,mc::hashBytes(&hi,8))); R=nullptr; }
#endif
};
MC_MAIN(H)
