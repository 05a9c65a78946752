// System-level driver: one complete optimisation run of the real Optimizer with evaluators owned by the explorer,
// judged step by step against a reference model of the run (used by P01, P02, P03, P04, P05, P27).
#pragma once
#include "hx.hpp"
#include "Optimizers/INCLUDE/optimization.hpp"
namespace sy {
using namespace Rodop; using namespace hx; using mc::fmt;
struct Con{ char kind; int id; char dir; double target; std::string name; };   // kind 'C' callback, 'U' built-in explicit function, 'E' external program
struct Cfg{ std::string what; int dim=1; V lb,ub; M X; V F; std::vector<Con> cons; std::vector<M> conTable; int budget=2; std::vector<std::pair<int,double>> disc; int inner=4; int train=60; std::vector<std::string> pnames; bool trailingNewline=true; unsigned often=100000; int threads=1; };
struct Row{ V x; double f; V c; double impr; bool feas; };          // c by constraint id
struct Run{
  mc::Ctx* c=nullptr; const Cfg* cfg=nullptr; std::string prop; std::vector<Row> rows; int n0=0; double bestInit=NAN;   // NAN: no feasible one yet
  std::vector<V> evalX; V evalF; std::vector<V> evalC; std::vector<int> calls; // per evaluation
  std::vector<std::string> initText; std::vector<V> seen; int skip=0; size_t evalSeen=0; bool finished=false; bool inRun=false;
  std::function<double(int)> pickF; std::function<double(int,int)> pickC; std::function<double(int,const double*)> udf; std::function<void(int)> onIteration,afterEval;
  void chk(const char* p,bool ok,const char* key,const std::string& msg){ if(!ok && prop.find(p)!=std::string::npos) throw mc::Violation{std::string(p)+"-"+key,cfg->what+": "+msg}; }
};
static Run* R=nullptr;
static double LCGMODE=0.25; static uint64_t LCG=1;
static double (*DRAWFN)(double,double)=nullptr; // replaces every draw while set
static mc::Ctx* DRAWS=nullptr; static int DRAWBUDGET=0; // while set, draws are explored choices (at most DRAWBUDGET of them)
inline double lcg(){ LCG=LCG*6364136223846793005ull+1442695040888963407ull; return (double)(LCG>>11)/9007199254740992.0; }
inline bool feasible(const Cfg& g,const V& c){ for(auto& k:g.cons){ double v=c[k.id]; if(!(k.dir=='<'? v<k.target: v>k.target)) return false; } return true; }
inline bool inbox(const Cfg& g,const V& x){ for(int i=0;i<g.dim;i++) if(!(x[i]>=g.lb[i]&&x[i]<=g.ub[i])) return false; return true; }
inline int bestRow(const std::vector<Row>& r,bool& feas){ int b=-1; for(size_t i=0;i<r.size();i++) if(r[i].feas&&(b<0||r[i].f<r[b].f)) b=(int)i; feas=b>=0; if(b<0) for(size_t i=0;i<r.size();i++) if(b<0||r[i].f<r[b].f) b=(int)i; return b; }
inline std::string conFile(const Con& k){ return k.name+"_train.csv"; }
// the files must describe exactly the samples known so far
inline void judgeFiles(Run& r,const std::string& when){ const Cfg& g=*r.cfg; M t; std::vector<std::string> h; r.c->tick(1);
  int nc=(int)g.cons.size();
  if(r.prop.find("P02")!=std::string::npos){
    bool ok=readCSV("optimizationHistory.csv",t,&h); r.chk("P02",ok,"history-file",when+": history file missing or malformed");
    std::vector<std::string> want; for(int i=0;i<g.dim;i++) want.push_back(g.pnames.empty()? "x"+std::to_string(i+1): g.pnames[i]);
    for(auto&s:h) while(!s.empty()&&(s.back()=='\r'||s.back()==' ')) s.pop_back();
    r.chk("P02",(int)h.size()==g.dim+1+nc+2,"header",when+": history header has "+std::to_string(h.size())+" columns");
    for(int i=0;i<g.dim;i++) r.chk("P02",h[i]==want[i],"header",when+": column "+std::to_string(i)+" is "+h[i]+" expected "+want[i]);
    r.chk("P02",t.size()==r.rows.size(),"history-rows",when+": history has "+std::to_string(t.size())+" rows, "+std::to_string(r.rows.size())+" samples are known");
    for(size_t i=0;i<t.size();i++){ auto& w=r.rows[i]; std::string W=when+": history row "+std::to_string(i)+" "+S(t[i])+" but sample x="+S(w.x)+" f="+fmt(w.f)+" c="+S(w.c)+" improvement="+fmt(w.impr)+" feasible="+std::to_string(w.feas);
      r.chk("P02",(int)t[i].size()==g.dim+1+nc+2,"history-row",W); for(int d=0;d<g.dim;d++) r.chk("P02",closed(t[i][d],w.x[d],1e-12,1e-6),"history-x",W); r.chk("P02",closed(t[i][g.dim],w.f,1e-12,1e-6),"history-f",W);
      for(auto& k:g.cons){ int col=-1; for(size_t q=0;q<h.size();q++) if(h[q]==k.name) col=(int)q; r.chk("P02",col>=0,"header",when+": no column "+k.name); r.chk("P02",closed(t[i][col],w.c[k.id],1e-12,1e-6),"history-constraint",W+", column "+k.name+" of constraint id "+std::to_string(k.id)); }
      r.chk("P02",closed(t[i][t[i].size()-2],w.impr,1e-12,1e-6),"history-improvement",W); r.chk("P02",t[i].back()==(w.feas?1.0:0.0),"history-feasibility",W); }
  }
  if(r.prop.find("P04")!=std::string::npos){ bool ef; int b=bestRow(r.rows,ef); auto& w=r.rows[b]; std::string x=slurp("globalOptimalDesign.xml"); V gx,gc; bool ok=items(x,"DesignParameters",gx);
    r.chk("P04",ok&&item(x,"DesignID")==std::to_string(b)&&item(x,"Feasibility")==(ef?"YES":"NO")&&closed(strtod(item(x,"ObjectiveFunction").c_str(),nullptr),w.f,1e-12,1e-6)&&close(gx,w.x,1e-12,1e-6),"run-xml",when+": XML reports "+x+" but the best known row is "+std::to_string(b)+" f="+fmt(w.f)+" x="+S(w.x)+(ef?" feasible":" infeasible"));
    if(nc){ V wc; for(auto& k:g.cons) (void)k; items(x,"ConstraintValues",gc); V a=gc,bb=w.c; std::sort(a.begin(),a.end()); std::sort(bb.begin(),bb.end()); r.chk("P04",close(a,bb,1e-12,1e-6),"run-xml",when+": XML constraint values "+S(gc)+" expected "+S(w.c)); } }
  if(r.prop.find("P03")!=std::string::npos){ 
    for(int q=-1;q<nc;q++){ if(q>=0&&g.cons[q].kind=='U') { r.chk("P03",!exists(conFile(g.cons[q])),"explicit-rows",when+": a training file for an explicit function appears"); continue; }
      std::string f=q<0? "obj_train.csv": conFile(g.cons[q]); std::string txt=slurp(f); const std::string& init=r.initText[q+1]; r.chk("P03",txt.compare(0,init.size(),init)==0,"initial-rows",when+": initial rows of "+f+" changed");
      M T; bool ok=readCSV(f,T); M I; { hx::spit("init.tmp",init); std::string z=init; if(z.back()!='\n') hx::spit("init.tmp",z+"\n"); readCSV("init.tmp",I); } size_t ni=I.size(); size_t ne=r.rows.size()-r.n0;
      if(ne==0&&!g.trailingNewline) ok=true; else r.chk("P03",ok,"file",when+": "+f+" malformed: "+txt.substr(0,400)); if(ne==0) continue;
      size_t at=ni; // a sample closer than 1e-4 in every entry to an existing row is discarded (documented)
      for(size_t i=0;i<ne;i++){ auto& w=r.rows[r.n0+i]; V want=w.x; want.push_back(q<0? w.f: w.c[g.cons[q].id]); bool dup=false; for(size_t j=0;j<at&&!dup;j++){ bool e=true; for(size_t d=0;d<want.size();d++) e&=std::fabs(T[j][d]-want[d])<=1e-4; dup=e; } if(dup) continue;
        r.chk("P03",at<T.size(),"rows",when+": "+f+" has "+std::to_string(T.size())+" rows, the row of evaluation "+std::to_string(i)+" "+S(want)+" is missing");
        r.chk("P03",close(T[at],want,1e-14,6e-13),"row",when+": "+f+" row "+std::to_string(at)+" "+S(T[at])+" expected "+S(want)); at++; }
      r.chk("P03",T.size()==at,"rows",when+": "+f+" has "+std::to_string(T.size())+" rows expected "+std::to_string(at)); }
  }
}
inline void finishIteration(){ Run& r=*R; const Cfg& g=*r.cfg; // the last evaluation is complete: put it into the reference history
  if(r.evalX.size()==r.rows.size()-r.n0) return; size_t k=r.evalX.size()-1; Row w; w.x=r.evalX[k]; w.f=r.evalF[k]; w.c=r.evalC[k]; 
  for(size_t q=0;q<g.cons.size();q++) if(g.cons[q].kind=='E'){ auto& k=g.cons[q]; V sd; std::istringstream is(slurp(k.name+".seen")); for(double z;is>>z;) sd.push_back(z); r.chk("P01",slurp(k.name+".calls").size()==2*r.evalX.size()&&close(sd,w.x,1e-12,0),"program-calls","after evaluation "+std::to_string(k.id)+" of the design "+S(w.x)+" the program of "+k.name+" ran "+std::to_string(slurp(k.name+".calls").size()/2)+" times and saw "+S(sd)); }
  else if(g.cons[q].kind=='C') r.chk("P01",r.calls[q]==1,"constraint-calls","constraint "+g.cons[q].name+" called "+std::to_string(r.calls[q])+" times for evaluation "+std::to_string(k));
  w.feas=feasible(g,w.c)&&inbox(g,w.x); w.impr=0;
  if(w.feas){ if(std::isnan(r.bestInit)){ r.bestInit=w.f; w.impr=std::numeric_limits<double>::epsilon(); } else if(w.f<r.bestInit) w.impr=r.bestInit-w.f; }
  r.rows.push_back(w); r.c->state(mc::mix(mc::hashBytes(w.x.data(),w.x.size()*8,mc::hashBytes(&w.f,8)),mc::hashBytes(w.c.data(),w.c.size()*8,r.rows.size()))); }
inline double objCb(const double* x){ Run& r=*R; const Cfg& g=*r.cfg; 
  if(!r.evalX.empty()){ finishIteration(); }
  judgeFiles(r,"before evaluation "+std::to_string(r.evalX.size()));
  r.chk("P01",(int)r.evalX.size()<g.budget,"budget","the objective is called more than "+std::to_string(g.budget)+" times");
  if(r.onIteration) r.onIteration((int)r.evalX.size());
  V v(x,x+g.dim); r.evalX.push_back(v); V cv(g.cons.size(),NAN); r.calls.assign(g.cons.size(),0);
  for(auto&k:g.cons) if(k.kind=='U') cv[k.id]=r.udf(k.id,x); r.evalC.push_back(cv); double f=r.pickF((int)r.evalX.size()-1);
  for(size_t q=0;q<g.cons.size();q++) if(g.cons[q].kind=='E'){ auto& k=g.cons[q]; double z=r.pickC((int)r.evalX.size()-1,(int)q); r.evalC.back()[k.id]=z; spit(k.name+".ans",fmt(z)+"\n"); r.c->op(k.name+" (program) = "+fmt(z)); } r.evalF.push_back(f); r.c->op("objective("+S(v)+")="+fmt(f)); 
  for(int i=0;i<g.dim;i++) r.chk("P05",v[i]>=g.lb[i]&&v[i]<=g.ub[i],"box","evaluated design "+S(v)+" outside the box "+S(g.lb)+S(g.ub));
  for(auto& d:g.disc){ int i=d.first; double k=std::round((v[i]-g.lb[i])/d.second); double w=g.lb[i]+k*d.second; r.chk("P05",k>=0&&std::fabs(w-v[i])<=1e-12*(1+std::fabs(w)),"grid","evaluated design "+S(v)+": parameter "+std::to_string(i)+" is not on the grid "+fmt(g.lb[i])+"+k*"+fmt(d.second)); }
  if(r.afterEval) r.afterEval((int)r.evalX.size()-1);
  r.seen.clear(); return f; }
template<int Q> double conCb(const double* x){ Run& r=*R; const Cfg& g=*r.cfg; V v(x,x+g.dim); const Con& k=g.cons[Q];
  r.chk("P01",!r.evalX.empty()&&hx::same(v,r.evalX.back()),"constraint-design","constraint "+k.name+" evaluated at "+S(v)+" but the objective at "+(r.evalX.empty()?std::string("nothing"):S(r.evalX.back())));
  r.calls[Q]++; r.chk("P01",r.calls[Q]==1,"constraint-calls","constraint "+k.name+" called twice for evaluation "+std::to_string(r.evalX.size()-1));
  double f=r.pickC((int)r.evalX.size()-1,Q); r.evalC.back()[k.id]=f; r.c->op(k.name+"="+fmt(f)); return f; }
inline double udfCall(int id,double* x){ Run& r=*R; if(!R) return 0; if(r.inRun){ V v(x,x+r.cfg->dim); if(r.skip<(int)r.cfg->X.size()&&hx::same(v,r.cfg->X[r.skip])) r.skip++; else if(!r.evalX.empty()&&r.evalSeen<r.evalX.size()&&hx::same(v,r.evalX.back())) r.evalSeen=r.evalX.size(); else r.seen.push_back(v); } return r.udf(id,x); }
inline Optimizer* makeOptimizer(const Cfg& g){ Optimizer* o=new Optimizer("study",g.dim); o->setAPIUseOn();
  ObjectiveFunction ob; ob.setDimension(g.dim); ob.setFunctionPtr(objCb); ObjectiveFunctionDefinition d; d.name="obj"; d.nameHighFidelityTrainingData="obj_train.csv"; ob.setParametersByDefinition(d); ob.setNumberOfTrainingIterationsForSurrogateModel(g.train); o->addObjectFunction(ob);
  static ObjectiveFunctionPtr cb[]={conCb<0>,conCb<1>,conCb<2>,conCb<3>};
  for(size_t q=0;q<g.cons.size();q++){ auto& k=g.cons[q]; ConstraintFunction cf; ConstraintDefinition cd; cd.constraintName=k.name; cd.ID=k.id; cd.inequalityType=std::string(1,k.dir); cd.value=k.target; ObjectiveFunctionDefinition dd; dd.name=k.name;
    if(k.kind=='C'){ cf.setFunctionPtr(cb[q]); dd.nameHighFidelityTrainingData=conFile(k); }
    if(k.kind=='E'){ dd.nameHighFidelityTrainingData=conFile(k); dd.designVectorFilename="dv_"+k.name; dd.outputFilename=k.name+".out"; dd.executableName="prog_"+k.name; } cf.setParametersByDefinition(dd); cf.setConstraintDefinition(cd); cf.setDimension(g.dim); cf.setNumberOfTrainingIterationsForSurrogateModel(g.train); if(k.kind=='U') cf.setUseExplicitFunctionOn(); o->addConstraint(cf); }
  o->setBoxConstraints(Bounds(tv(g.lb),tv(g.ub))); o->setMaximumNumberOfIterations(g.budget); o->setMaximumNumberOfInnerIterations(g.inner); o->setNumberOfThreads(g.threads); o->setHowOftenTrainModels(g.often); for(auto& p:g.disc) o->setParameterToDiscrete(p.first,p.second); if(!g.pnames.empty()) o->setParameterNames(g.pnames); return o; }
// writes the initial files, builds the reference history of the initial samples
inline void start(Run& r){ const Cfg& g=*r.cfg; R=&r; LCG=12345; r.initText.clear(); for(const char* f:{"optimizationHistory.csv","globalOptimalDesign.xml"}) unlink(f);
  auto wr=[&](const std::string& f,const M& m){ writeCSV(f,m); std::string t=slurp(f); if(!g.trailingNewline){ t.pop_back(); spit(f,t); } r.initText.push_back(t); };
  for(auto& k:g.cons) if(k.kind=='E'){ spit("prog_"+k.name,"#!/bin/sh\necho x >> "+k.name+".calls\nread a < dv_"+k.name+"\nwhile read l; do echo $l; done < dv_"+k.name+" > "+k.name+".seen\nread a < "+k.name+".ans\necho $a > "+k.name+".out\n"); chmod(("prog_"+k.name).c_str(),0755); spit(k.name+".calls",""); unlink((k.name+".out").c_str()); }
  M o=g.X; for(size_t i=0;i<o.size();i++) o[i].push_back(g.F[i]); wr("obj_train.csv",o);
  for(size_t q=0;q<g.cons.size();q++) if(g.cons[q].kind!='U') wr(conFile(g.cons[q]),g.conTable[q]); else { unlink(conFile(g.cons[q]).c_str()); r.initText.push_back(""); }
  r.rows.clear(); for(size_t i=0;i<g.X.size();i++){ Row w; w.x=g.X[i]; w.f=g.F[i]; w.c.assign(g.cons.size(),NAN); w.impr=0;
    for(size_t q=0;q<g.cons.size();q++){ auto& k=g.cons[q]; if(k.kind=='U') w.c[k.id]=r.udf(k.id,w.x.data()); else { w.c[k.id]=k.dir=='>'? -1e15:1e15; for(auto& t:g.conTable[q]){ bool eq=true; for(int d=0;d<g.dim;d++) eq&=std::fabs(t[d]-w.x[d])<=1e-8; if(eq){ w.c[k.id]=t[g.dim]; break; } } } }
    w.feas=feasible(g,w.c)&&inbox(g,w.x); r.rows.push_back(w); }
  r.n0=(int)r.rows.size(); r.bestInit=NAN; for(auto& w:r.rows) if(w.feas&&!(w.f>=r.bestInit)) r.bestInit=w.f; }
inline void finish(Run& r,Optimizer& o){ const Cfg& g=*r.cfg; finishIteration(); r.inRun=false; r.c->op("end of run");
  r.chk("P01",(int)r.evalX.size()==g.budget,"budget","the objective was called "+std::to_string(r.evalX.size())+" times, the budget is "+std::to_string(g.budget));
  judgeFiles(r,"after the run");
  if(r.prop.find("P01")!=std::string::npos){ M h=fromm(o.getHistory()); r.chk("P01",h.size()==r.rows.size(),"history-length","history has "+std::to_string(h.size())+" rows, expected "+std::to_string(r.rows.size()));
    for(size_t i=0;i<h.size();i++){ auto& w=r.rows[i]; r.chk("P01",hx::same(V(h[i].begin(),h[i].begin()+g.dim),w.x)&&eqd(h[i][g.dim],w.f),"history","history row "+std::to_string(i)+" "+S(h[i])+" expected x="+S(w.x)+" f="+fmt(w.f)); V a(h[i].begin()+g.dim+1,h[i].begin()+g.dim+1+g.cons.size()),b=w.c; std::sort(a.begin(),a.end()); std::sort(b.begin(),b.end()); r.chk("P01",hx::same(a,b),"history","history row "+std::to_string(i)+" "+S(h[i])+" constraint values expected "+S(w.c)); } } }
inline void initDir(){ for(const char* l:{"optimization.log","model.log","objectives.log","driver.log"}){ unlink(l); if(symlink("/dev/null",l)){} } }
}
double rodeo_mc_real(double a,double b){ if(sy::DRAWFN) return sy::DRAWFN(a,b); if(sy::DRAWS&&sy::DRAWBUDGET>0&&a<b){ sy::DRAWBUDGET--; int k=sy::DRAWS->choose(3); double p=std::nextafter(b,a); double t=k==0? a: k==1? p: a+0.37*(b-a); return t<b?t:p; } double u=sy::lcg(); double p=std::nextafter(b,a); if(!(a<b)) return a; if(u<sy::LCGMODE) return a; if(u>1-sy::LCGMODE) return p; double t=a+(b-a)*sy::lcg(); return t<b?t:p; }
double rodeo_mc_normal(double m,double s){ double u=0; for(int i=0;i<12;i++) u+=sy::lcg(); return m+s*(u-6); }
long rodeo_mc_int(long a,long b){ return a+(long)(sy::lcg()*(double)(b-a+1)); }
int rodeo_mc_rand(){ return (int)(sy::lcg()*2147483647.0); }
double constraintFunction0(double* x){ return sy::udfCall(0,x); }
double constraintFunction1(double* x){ return sy::udfCall(1,x); }
double constraintFunction2(double* x){ return sy::udfCall(2,x); }
double constraintFunction3(double* x){ return sy::udfCall(3,x); }
