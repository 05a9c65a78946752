// P10: training of a Kriging model with several threads. PART 1: every interleaving (up to a preemption bound) of the training threads at
// their synchronisation operations, with the race detector of thr.hpp; PART 2: every sequence of train / settings / new sample.
#include "hx.hpp"
#include "thr.hpp"
#include "SurrogateModels/INCLUDE/kriging_training.hpp"
#include "SurrogateModels/INCLUDE/model_logger.hpp"
#include <dlfcn.h>
#include <cxxabi.h>
#include <unistd.h>
using namespace Rodop; using namespace hx; using mc::fmt;
#ifndef PART
#define PART 1
#endif
struct Try{ int tid; V h; };
static std::vector<Try> TRIED; static mc::Ctx* CTX; static uint64_t SEED[5];
extern "C" void __real__ZN5Rodop30ExponentialCorrelationFunction18setHyperParametersERKNS_3vecE(ExponentialCorrelationFunction*,const vec*);
extern "C" void __wrap__ZN5Rodop30ExponentialCorrelationFunction18setHyperParametersERKNS_3vecE(ExponentialCorrelationFunction* o,const vec* v){ if(thr::inRegion()){ thr::Off off; TRIED.push_back({thr::tid(),fromv(*v)}); } __real__ZN5Rodop30ExponentialCorrelationFunction18setHyperParametersERKNS_3vecE(o,v); }
static double lcg(){ int t=thr::inRegion()?1+thr::tid():0; SEED[t]=SEED[t]*6364136223846793005ull+1442695040888963407ull; return (double)(SEED[t]>>11)/9007199254740992.0; }
double rodeo_mc_real(double a,double b){ thr::Off off; double r=a+(b-a)*lcg(); return r<b||!(a<b)?r:std::nextafter(b,a); }
double rodeo_mc_normal(double m,double s){ thr::Off off; double u=0; for(int i=0;i<12;i++) u+=lcg(); return m+s*(u-6); }
long rodeo_mc_int(long a,long b){ thr::Off off; return a+(long)(lcg()*(double)(b-a+1)); }
int rodeo_mc_rand(){ thr::Off off; return (int)(lcg()*2147483647.0); }
static std::string sym(const void* p){ Dl_info i; if(!p||!dladdr(p,&i)||!i.dli_sname) return "code of the repository"; int st; char* d=abi::__cxa_demangle(i.dli_sname,0,0,&st); std::string s=d?d:i.dli_sname; free(d); return s; }
// data sets
struct D{ int dim; M rows; V lb,ub; };
static D dataset(int d,int k){ D r; r.dim=d; r.lb=V{-1,2}; r.ub=V{3,2.5}; r.lb.resize(d); r.ub.resize(d); int n=d==1?4:5; if(k==3){ for(int j=0;j<6;j++){ V x; for(int q=0;q<d;q++) x.push_back(r.lb[q]+(r.ub[q]-r.lb[q])*(j/2==0?0.1:j/2==1?0.55:0.9)+(j%2)*1e-8*(r.ub[q]-r.lb[q])); x.push_back(j/2==0?-1:j/2==1?2:0.5); r.rows.push_back(x); } return r; } for(int j=0;j<n;j++){ V x; double u=(j+0.5)/n,w=((j*3)%n+0.25)/n; x.push_back(r.lb[0]+(r.ub[0]-r.lb[0])*u); if(d==2) x.push_back(r.lb[1]+(r.ub[1]-r.lb[1])*w); double y=k==0? std::sin(5*u)+2*w: k==1? 0.0: k==4? 3.0: 1e4*(u-0.3)*(u-0.3)+w; x.push_back(y); r.rows.push_back(x); } return r; }
static void make(KrigingModel& m,const D& d,bool lin,double val,int iters,int threads,bool noNugget=false){ if(noNugget) m.setEpsilon(0); writeCSV("k.csv",d.rows); m.setDimension(d.dim); m.setName("kri"); m.setNameOfInputFile("k.csv"); if(lin) m.setLinearRegressionOn(); m.setBoxConstraints(Bounds(tv(d.lb),tv(d.ub))); if(val>0) m.setRatioValidationSamples(val); m.setNumberOfTrainingIterations(iters); m.setNumberOfThreads(threads); m.readData(); m.normalizeData(); m.initializeSurrogateModel(); }
static void seeds(uint64_t s){ for(int i=0;i<5;i++) SEED[i]=s*77+i*1000003+17; }
static std::map<uint64_t,double> VAL;
// value of the training criterion (smaller is better) on a copy of the model as it was before the training
static double crit(const KrigingModel& before,bool val,const V& h,uint64_t id){ uint64_t k=mc::hashBytes(h.data(),8*h.size(),id); auto it=VAL.find(k); if(it!=VAL.end()) return it->second; static thread_local KrigingModel* m=nullptr; static uint64_t of=0; if(!m||of!=id){ delete m; m=new KrigingModel(before); of=id; } double v=val? m->calculateValidationErrorForGivenHyperparameters(tv(h)): -m->calculateLikelihoodFunction(tv(h)); if(VAL.size()>200000) VAL.clear(); return VAL[k]=v; }
// judges one training: the installed hyper-parameters against everything tried
static void judge(const KrigingModel& before,const KrigingModel& after,bool val,uint64_t id,const D& d,mc::Ctx& c,const std::string& W){
  V h=fromv(after.getHyperParameters()); c.check((int)h.size()==2*d.dim,"P10-size",W+": "+std::to_string(h.size())+" hyper-parameters installed"); double own=crit(before,val,h,id); bool member=false; double best=1e308; V bh; int bt=-1;
  for(auto& t:TRIED){ double v=crit(before,val,t.h,id); member|=same(t.h,h); if(v<best||bt<0){ best=v; bh=t.h; bt=t.tid; } for(int i=0;i<2*d.dim;i++) c.check(i<d.dim? t.h[i]>=0&&t.h[i]<=20: t.h[i]>=1&&t.h[i]<=2,"P10-bounds",W+": hyper-parameters "+S(t.h)+" tried"); }
  c.tick(TRIED.size()); c.state(mc::hashBytes(h.data(),8*h.size(),TRIED.size()));
  if(TRIED.empty()) return;
  c.check(member,"P10-member",W+": the installed hyper-parameters "+S(h)+" were never tried"); c.check(own<=best+1e-9*std::fabs(best),"P10-best",W+": installed "+S(h)+" with criterion "+fmt(own)+", but thread "+std::to_string(bt)+" tried "+S(bh)+" with "+fmt(best)); }
static double predict(KrigingModel& m,const D& d,double u){ V z(d.dim,u/d.dim); return m.interpolate(tv(z)); }
// the trained model reproduces its samples (data sets without contradictory samples) when any of the hyper-parameters tried allowed it
static void usable(const KrigingModel& before,const KrigingModel& after,const D& d,mc::Ctx& c,const std::string& W){ V h=fromv(after.getHyperParameters()); KrigingModel m(before); bool some=false; double scale=0; for(auto& r:d.rows) scale=std::max(scale,std::fabs(r[d.dim]));
  auto dev=[&](KrigingModel& k){ double e=0; for(auto& r:d.rows){ V z; for(int i=0;i<d.dim;i++) z.push_back((r[i]-d.lb[i])/(d.ub[i]-d.lb[i])/d.dim); e=std::max(e,std::fabs(k.interpolate(tv(z))-r[d.dim])); } return e; };
  KrigingModel a(after); double e=dev(a); if(e<=1e-3*scale+1e-12) return; for(size_t i=0;i<TRIED.size()&&!some;i+=7){ KrigingModel k(a); k.setHyperParameters(tv(TRIED[i].h)); k.updateAuxilliaryFields(); some=dev(k)<=1e-3*scale+1e-12; }
  c.check(!some,"P10-usable",W+": the hyper-parameters "+S(h)+" installed leave the correlation matrix without factorisation: the model misses its samples by "+fmt(e)); }
struct H: mc::Harness {
  void init(mc::Ctx&){ ModelLogger::getInstance().setLogLevel(CRITICAL); int fd=open("/dev/null",O_WRONLY); if(getenv("MC_KEEP")==nullptr) dup2(fd,1); }
  double execTimeout(){ return 120; }
#if PART==1
  struct K{ int dim,data,threads,bound; bool lin; double val; int log; };
  std::vector<K> make_(bool t){ std::vector<K> r; for(int dim=1;dim<=(t?2:1);dim++) for(int data=0;data<5;data++) for(int th=2;th<=(t?4:3);th++) for(int lin=0;lin<2;lin++) for(double v:{0.0,0.3}) for(int log=0;log<2;log++){ if(log&&(data||lin)) continue; if((data==1||data==4)&&v>0) continue; if(!t&&data&&(lin||th>2)) continue; if(data==3&&lin) continue; r.push_back({dim,data,th,t?2:1,(bool)lin,v,log}); } return r; }
  uint64_t cases(bool t){ return make_(t).size(); }
  std::string describe(uint64_t i,bool t){ K k=make_(t)[i]; return std::to_string(k.dim)+"-D data set "+std::to_string(k.data)+(k.lin?", universal":", ordinary")+(k.val>0?", validation error":", likelihood")+", "+std::to_string(k.threads)+" threads, at most "+std::to_string(k.bound)+" preemptions"+(k.log?", full logging":""); }
  static int chooser(int n){ return CTX->choose(n); }
  void run(uint64_t i,mc::Ctx& c){ K k=make_(c.thorough)[i]; CTX=&c; D d=dataset(k.dim,k.data); seeds(7); std::string W=describe(i,c.thorough); KrigingModel m; make(m,d,k.lin,k.val,200,k.threads,k.data==3); KrigingModel before(m); TRIED.clear(); if(k.log){ unlink("model.log"); if(symlink("/dev/null","model.log")){} ModelLogger::getInstance().setLogLevel(INFO); } seeds(3);
    std::string err; thr::enable(chooser,k.bound); try{ m.train(); } catch(std::exception& e){ err=e.what(); } thr::disable(); ModelLogger::getInstance().setLogLevel(CRITICAL); c.tick(thr::stats().points);
    auto& rc=thr::race(); if(rc.found) c.fail("P10-race",W+": data race between training thread "+std::to_string(rc.t1)+" ("+(rc.w1?"write":"read")+" in "+sym(rc.pc1)+") and thread "+std::to_string(rc.t2)+" ("+(rc.w2?"write":"read")+" in "+sym(rc.pc2)+")");
    c.check(err.empty(),"P10-run",W+": training ends with the error "+err); c.check(thr::stats().maxTeam==k.threads,"P10-team",W+": training ran with "+std::to_string(thr::stats().maxTeam)+" threads"); judge(before,m,k.val>0,i+1,d,c,W); usable(before,m,d,c,W); }
#else
  // every sequence of settings, new samples, re-reads and trainings; the regions run their threads one after the other
  struct K{ int dim; bool lin; double val; };
  std::vector<K> make_(bool t){ std::vector<K> r; for(int dim=1;dim<=(t?2:1);dim++) for(int l=0;l<2;l++) for(double v:{0.0,0.3,0.1}){ if(!t&&l&&v!=0.3) continue; r.push_back({dim,(bool)l,v}); } return r; }
  uint64_t cases(bool t){ return make_(t).size(); }
  bool snapshots(){ return true; }
  std::string describe(uint64_t i,bool t){ K k=make_(t)[i]; return std::to_string(k.dim)+"-D"+(k.lin?", universal":", ordinary")+(k.val>0?", validation ratio "+fmt(k.val):", likelihood")+", call sequences of length "+std::to_string(t?5:4); }
  static int first(int){ return 0; }
  static std::string trainOnce(KrigingModel& m){ TRIED.clear(); std::string e; thr::enable(first,0); try{ m.train(); } catch(std::exception& x){ e=x.what(); } thr::disable(); return e; }
  static int validation(const KrigingModel& m){ return (int)m.getData().getNumberOfSamplesValidation(); }
  void run(uint64_t i,mc::Ctx& c){ K k=make_(c.thorough)[i]; CTX=&c; D d=dataset(k.dim,0); seeds(7); std::string W=describe(i,c.thorough)+":"; int iters=200,threads=1; KrigingModel m; make(m,d,k.lin,k.val,iters,threads); uint64_t id=i*1000; int added=0; std::map<std::pair<int,int>,int> spent;
    for(int s=0;s<(c.thorough?5:4);s++){ static const int OPS[]={0,1,2,4,5,6,3,7,8}; int a=OPS[c.choose(c.thorough?9:6)]; std::string op;
      if(a==0){ op="train"; KrigingModel before(m); bool val=k.val>0&&validation(before)>0; uint64_t sd=SEED[0]; seeds(100+s); std::string e=trainOnce(m); c.check(e.empty(),"P10-again",W+" train ends with the error "+e); std::vector<Try> all=TRIED; W+=" train"; c.op("train"); id=mc::mix(id,s+1); judge(before,m,val,id,d,c,W); usable(before,m,d,c,W);
        std::map<int,int> per; for(auto& t:all) per[t.tid]++; c.check((int)per.size()==threads,"P10-threads",W+": "+std::to_string(per.size())+" threads took part instead of "+std::to_string(threads)); int fresh=0; for(auto& p:per) fresh+=p.second-200*k.dim; c.check(std::abs(fresh-iters)<=200*k.dim*threads,"P10-iterations",W+": "+std::to_string(fresh)+" training iterations instead of "+std::to_string(iters));
        c.check(validation(m)==0,"P10-full",W+": the trained model still leaves out "+std::to_string(validation(m))+" samples"); c.check(m.getNumberOfSamples()==d.rows.size(),"P10-full",W+": the trained model holds "+std::to_string(m.getNumberOfSamples())+" of "+std::to_string(d.rows.size())+" samples");
        // the predictions are those of the installed hyper-parameters
        KrigingModel f; make(f,d,k.lin,0,200,1); f.setHyperParameters(m.getHyperParameters()); f.updateAuxilliaryFields(); double sc=1; for(auto& r:d.rows) sc=std::max(sc,std::fabs(r[k.dim])); for(double u:{0.0,0.13,0.5,0.77,1.0}){ double x=predict(m,d,u),y=predict(f,d,u); c.check(std::fabs(x-y)<=1e-5*sc,"P10-predicts",W+": prediction "+fmt(x)+" at "+fmt(u)+", but "+fmt(y)+" with the same samples and hyper-parameters in a fresh model"); } SEED[0]=sd; int& sp=spent[{iters,threads}]; if(sp) c.check(sp==fresh,"P10-repeat",W+": "+std::to_string(fresh)+" training iterations, but "+std::to_string(sp)+" in an earlier training with the same settings"); sp=fresh; }
      else if(a<=3){ threads=a; op=" threads="+std::to_string(a); m.setNumberOfThreads(a); W+=op; }
      else if(a==4){ iters=iters==200?1000:200; op=" iterations="+std::to_string(iters); m.setNumberOfTrainingIterations(iters); W+=op; }
      else if(a==5){ V x; for(int q=0;q<k.dim;q++) x.push_back(d.lb[q]+(d.ub[q]-d.lb[q])*(added?0.97:0.41)); x.push_back(added?1.5:-0.5); if(added>1) throw mc::Prune(); added++; op=" add "+S(x); W+=op; m.addNewSampleToData(tv(x)); d.rows.push_back(x); }
      else if(a==6){ op=" re-read"; W+=op; m.updateModelWithNewData(); }
      else if(a==7){ iters=2; op=" iterations=2"; W+=op; m.setNumberOfTrainingIterations(2); }
      else { op=" copy"; W+=op; KrigingModel q(m); m=q; }
      c.op(op); } }
#endif
};
MC_MAIN(H)
