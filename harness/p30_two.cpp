// P30: two studies (PART 1) or two surrogate models (PART 2) in one process, every interleaving of their operations against each one alone.
#include "sys.hpp"
#include "SurrogateModels/INCLUDE/kriging_training.hpp"
#include "SurrogateModels/INCLUDE/linear_regression.hpp"
#include <dirent.h>
using namespace sy;
#ifndef PART
#define PART 1
#endif
static std::string here(){ char b[4096]; return getcwd(b,sizeof b)? b: ""; }
static std::map<std::string,std::string> files(){ std::map<std::string,std::string> r; DIR* d=opendir("."); while(dirent* e=readdir(d)){ std::string n=e->d_name; if(n=="."||n==".."||n.find(".log")!=std::string::npos||n.find("core")==0) continue; r[n]=slurp(n); } closedir(d); return r; }
static std::string names(const std::map<std::string,std::string>& m){ std::string s; for(auto& p:m) s+=p.first+" "; return s; }
static void dir(const std::string& d){ mkdir(d.c_str(),0755); if(chdir(d.c_str())){} }
// every order of n steps of A (0) and m steps of B (1)
static std::vector<std::string> orders(int n,int m){ std::vector<std::string> r; std::string s(n,'0'); s+=std::string(m,'1'); do r.push_back(s); while(std::next_permutation(s.begin(),s.end())); return r; }
#if PART==1
struct Study{ Cfg g; Run r; std::unique_ptr<Optimizer> o; int done=0; std::vector<V> ex; V ef; std::vector<V> ec; M hist; std::map<std::string,std::string> out; std::string err; double k=1; std::function<void(int)> between;
  double val(int i){ return k*(3-0.5*((i*7)%5)+0.1*i); }
  void begin(mc::Ctx& c){ r=Run(); o.reset(); done=0; err.clear(); r.c=&c; r.cfg=&g; r.prop="none"; r.pickF=[this](int i){ if(between) between(i); R=&r; return val(i); }; r.pickC=[this](int i,int q){ return k*(((i+q)%3)-1.0); }; r.udf=[this](int id,const double* x){ return k*(id+1)*(x[0]-0.2); }; sy::start(r); R=nullptr; }
  static const int STEPS=6;
  void step(){ R=&r; int s=done++; try{
    if(s==0){ o.reset(new Optimizer("study",g.dim)); o->setAPIUseOn(); }
    else if(s==1){ ObjectiveFunction ob; ob.setDimension(g.dim); ob.setFunctionPtr(objCb); ObjectiveFunctionDefinition d; d.name="obj"; d.nameHighFidelityTrainingData="obj_train.csv"; ob.setParametersByDefinition(d); ob.setNumberOfTrainingIterationsForSurrogateModel(g.train); o->addObjectFunction(ob); }
    else if(s==2){ static ObjectiveFunctionPtr cb[]={conCb<0>,conCb<1>,conCb<2>}; for(size_t q=0;q<g.cons.size();q++){ auto& c=g.cons[q]; ConstraintFunction cf; ConstraintDefinition cd; cd.constraintName=c.name; cd.ID=c.id; cd.inequalityType=std::string(1,c.dir); cd.value=c.target; ObjectiveFunctionDefinition dd; dd.name=c.name; if(c.kind=='C'){ cf.setFunctionPtr(cb[q]); dd.nameHighFidelityTrainingData=conFile(c); } cf.setParametersByDefinition(dd); cf.setConstraintDefinition(cd); cf.setDimension(g.dim); cf.setNumberOfTrainingIterationsForSurrogateModel(g.train); if(c.kind=='U') cf.setUseExplicitFunctionOn(); o->addConstraint(cf); } }
    else if(s==3){ o->setBoxConstraints(Bounds(tv(g.lb),tv(g.ub))); for(auto& p:g.disc) o->setParameterToDiscrete(p.first,p.second); if(!g.pnames.empty()) o->setParameterNames(g.pnames); }
    else if(s==4){ o->setMaximumNumberOfIterations(g.budget); o->setMaximumNumberOfInnerIterations(g.inner); o->setNumberOfThreads(1); o->setHowOftenTrainModels(g.often); }
    else { uint64_t was=LCG; LCG=777; o->performEfficientGlobalOptimization(); LCG=was; finishIteration(); ex=r.evalX; ef=r.evalF; ec=r.evalC; hist=fromm(o->getHistory()); out=files(); } } catch(std::exception& e){ err=e.what(); } R=nullptr; }
};
static std::vector<Cfg> studies(){ std::vector<Cfg> r; auto mk=[&](std::string w,int dim,M X,V F,std::vector<Con> cons){ Cfg g; g.what=w; g.dim=dim; g.lb=V{-1,3,0}; g.ub=V{2,5,1}; g.lb.resize(dim); g.ub.resize(dim); g.X=X; g.F=F; g.cons=cons; g.budget=3; g.train=20; for(size_t q=0;q<cons.size();q++){ M t=X; for(size_t p=0;p<t.size();p++) t[p].push_back(std::sin(2.0*p+q)); g.conTable.push_back(t); } r.push_back(g); };
  M X1{{-1},{0.25},{1},{2}},X2{{-1,3},{0.25,3.5},{0.75,5},{2,4}}; V F{3,1,2,5};
  mk("1 parameter",1,X1,F,{}); mk("2 parameters",2,X2,F,{}); mk("1 parameter, constraint",1,X1,F,{{'C',0,'<',0.4,"con"}}); mk("2 parameters, two constraints",2,X2,F,{{'C',1,'>',-0.4,"con"},{'C',0,'<',0.6,"other"}}); mk("explicit constraint",1,X1,V{-3,-1,-2,-5},{{'U',0,'>',0,"con"}}); mk("discrete, large",1,X1,V{3e5,1e5,2e5,5e5},{}); r.back().disc={{0,0.25}}; r.back().lb={-10}; r.back().ub={50}; r.back().pnames={"thickness"}; return r; }
struct H: mc::Harness {
  double execTimeout(){ return 600; }
  std::vector<Cfg> S_=studies(); struct K{ int a,b,mode; }; std::vector<K> ks(bool t){ std::vector<K> r; for(int a=0;a<6;a++) for(int b=0;b<6;b++){ if(a<=b&&(t||(a+b)%2||a==b)) r.push_back({a,b,0}); r.push_back({a,b,1}); } return r; }
  uint64_t cases(bool t){ return ks(t).size()*SH; } static const int SH=6; // every case in shares, for balance
  std::string describe(uint64_t i,bool t){ K k=ks(t)[i/SH]; return "study with "+S_[k.a].what+(k.mode?", within its evaluations the whole of a study with ":" next to a study with ")+S_[k.b].what; }
  void init(mc::Ctx&){ LCGMODE=0.25; }
  void run(uint64_t i,mc::Ctx& c){ K k=ks(c.thorough)[i/SH]; std::string top=here(),W=describe(i,c.thorough)+": "; Study ref[2],s[2]; ref[0].g=s[0].g=S_[k.a]; ref[1].g=s[1].g=S_[k.b]; ref[1].k=s[1].k=1.5;
    auto go=[&](const std::string& d){ if(chdir(top.c_str())){} dir(d); }; auto fresh=[&](Study& u,const std::string& d){ std::string was=here(); go(d); for(auto& f:files()) unlink(f.first.c_str()); initDir(); u.begin(c); if(chdir(was.c_str())){} };
    for(int q=0;q<2;q++){ std::string d=q?"rb":"ra"; fresh(ref[q],d); go(d); for(int j=0;j<Study::STEPS;j++) ref[q].step(); c.check(ref[q].err.empty()&&(int)ref[q].ex.size()==ref[q].g.budget,"P30-alone",W+"alone: "+ref[q].err); }
    auto judge=[&](int q,const std::string& how){ Study& u=s[q]; Study& a=ref[q]; std::string w=W+how+": the "+(q?"second":"first")+" study "; c.tick(); c.check(u.err.empty(),"P30-error",w+"ends with "+u.err); c.check(u.ex.size()==a.ex.size(),"P30-evaluations",w+"makes "+std::to_string(u.ex.size())+" evaluations");
      for(size_t e=0;e<u.ex.size();e++) c.check(hx::same(u.ex[e],a.ex[e])&&hx::same(u.ec[e],a.ec[e])&&eqd(u.ef[e],a.ef[e]),"P30-evaluations",w+"evaluates "+S(u.ex[e])+" instead of "+S(a.ex[e]));
      c.check(u.hist.size()==a.hist.size(),"P30-history",w+"has another history"); for(size_t e=0;e<u.hist.size();e++) c.check(hx::same(u.hist[e],a.hist[e]),"P30-history",w+"has another history: row "+S(u.hist[e])+" instead of "+S(a.hist[e]));
      c.check(names(u.out)==names(a.out),"P30-files",w+"leaves the files "+names(u.out)+"instead of "+names(a.out)); for(auto& f:u.out) c.check(a.out[f.first]==f.second,"P30-files",w+"leaves in "+f.first+" "+f.second.substr(0,300)+" instead of "+a.out[f.first].substr(0,300)); for(auto& x:u.ex) c.state(mc::hashBytes(x.data(),x.size()*8,q)); };
    if(k.mode==0){ auto os=orders(6,6); for(size_t n=0;n<os.size();n++){ auto& w=os[n]; if(k.a==k.b&&w[0]=='1') continue; if((int)(n%SH)!=(int)(i%SH)) continue; if(!c.thorough&&n/SH%4!=(size_t)(k.a+k.b)%4&&w.substr(0,4)!="0101") continue; fresh(s[0],"a"); fresh(s[1],"b"); for(char x:w){ go(x=='1'?"b":"a"); s[x-'0'].step(); } c.op(w); judge(0,"order "+w); judge(1,"order "+w); s[0].o.reset(); s[1].o.reset(); } }
    else for(int at=0;at<s[0].g.budget;at++) for(int pre=0;pre<=5;pre++) if(pre==(int)(i%SH)){ // the second study is set up (pre steps) before, and carried out within, evaluation at of the first
      fresh(s[0],"a"); fresh(s[1],"b"); go("b"); for(int j=0;j<pre;j++) s[1].step(); s[0].between=[&](int e){ if(e!=at) return; Run* was=R; go("b"); while(s[1].done<Study::STEPS) s[1].step(); go("a"); R=was; };
      go("a"); for(int j=0;j<Study::STEPS;j++) s[0].step(); std::string how="the second one, prepared by "+std::to_string(pre)+" steps before, during evaluation "+std::to_string(at); c.op(how); s[0].between=nullptr; judge(0,how); judge(1,how); }
    if(chdir(top.c_str())){} }
};
#else
// models: operations of one model
struct Mod{ char kind; int dim; int set; std::unique_ptr<KrigingModel> k; std::unique_ptr<LinearModel> l; int done=0; V out; std::string err; std::string name;
  M data(int which){ M m; int n=dim==1?5:7; for(int i=0;i<n;i++){ V x; for(int d=0;d<dim;d++) x.push_back(-1+3.0*((i*(d==0?1:3)+d)%n)/(n-1)); x.push_back((set+1)*std::sin(1.3*i+set+which)+(kind=='U'?2*x[0]:0)); m.push_back(x); } return m; }
  static const int STEPS=6; SurrogateModel& m(){ return kind=='L'? (SurrogateModel&)*l: (SurrogateModel&)*k; }
  void step(){ int s=done++; try{
    if(s==0){ if(kind=='L') l.reset(new LinearModel()); else k.reset(new KrigingModel()); out.clear(); err.clear(); writeCSV(name+".csv",data(0)); }
    else if(s==1){ m().setDimension(dim); m().setName(name); m().setNameOfInputFile(name+".csv"); if(kind=='U') k->setLinearRegressionOn(); m().setBoxConstraints(Bounds(tv(V(dim,-1.0)),tv(V(dim,2.0)))); }
    else if(s==2){ m().readData(); m().normalizeData(); m().initializeSurrogateModel(); }
    else if(s==3){ uint64_t was=LCG; LCG=99; m().setNumberOfTrainingIterations(30); m().setNumberOfThreads(1); m().train(); LCG=was; query(); }
    else if(s==4){ if(kind!='L'){ V row; for(int d=0;d<dim;d++) row.push_back(0.37+0.2*d); row.push_back(0.5); m().addNewSampleToData(tv(row)); } query(); }
    else { writeCSV(name+".csv",data(3)); m().updateModelWithNewData(); query(); } } catch(std::exception& e){ err=e.what(); } }
  void query(){ for(int q=0;q<5;q++){ V z; for(int d=0;d<dim;d++) z.push_back((0.1+0.2*((q+d)%5))/dim); out.push_back(m().interpolate(tv(z))); if(kind!='L'){ double f=0,v=0; m().interpolateWithVariance(tv(z),&f,&v); out.push_back(f); out.push_back(v); } } }
};
struct H: mc::Harness {
  double execTimeout(){ return 600; }
  struct T{ char k; int d; }; static const T* ts(){ static const T t[]={{'K',1},{'K',2},{'U',1},{'U',2},{'L',1},{'L',2},{'K',3}}; return t; }
  std::vector<std::pair<int,int>> ks(bool t){ std::vector<std::pair<int,int>> r; for(int a=0;a<(t?7:6);a++) for(int b=a;b<(t?7:6);b++) if(t||(a*5+b*3)%7<3) r.push_back({a,b}); return r; }
  uint64_t cases(bool t){ return ks(t).size()*SH; } static const int SH=6; // every case in shares, for balance
  std::string describe(uint64_t i,bool t){ auto p=ks(t)[i/SH]; return std::string("models ")+ts()[p.first].k+std::to_string(ts()[p.first].d)+" and "+ts()[p.second].k+std::to_string(ts()[p.second].d); }
  void init(mc::Ctx&){ initDir(); }
  void run(uint64_t i,mc::Ctx& c){ auto p=ks(c.thorough)[i/SH]; Mod ref[2],s[2]; std::string W=describe(i,c.thorough)+": "; for(int q=0;q<2;q++) for(Mod* m:{&ref[q],&s[q]}){ T t=ts()[q?p.second:p.first]; m->kind=t.k; m->dim=t.d; m->set=q; m->name=q?"second":"first"; }
    for(int q=0;q<2;q++){ for(int j=0;j<Mod::STEPS;j++) ref[q].step(); c.check(ref[q].err.empty(),"P30-alone",W+"alone: "+ref[q].err); }
    auto os=orders(Mod::STEPS,Mod::STEPS); for(size_t n=0;n<os.size();n++){ auto& w=os[n]; if((int)(n%SH)!=(int)(i%SH)) continue; if(p.first==p.second&&w[0]=='1') continue; for(int q=0;q<2;q++) s[q].done=0; for(char x:w) s[x-'0'].step(); c.tick(); c.op(w);
      for(int q=0;q<2;q++){ c.check(s[q].err.empty(),"P30-error",W+"order "+w+": "+s[q].err); c.check(hx::same(s[q].out,ref[q].out),"P30-model",W+"order "+w+": model "+std::to_string(q)+" predicts "+S(s[q].out)+" instead of "+S(ref[q].out)); } c.state(mc::hashBytes(w.data(),w.size(),i)); } }
};
#endif
MC_MAIN(H)
