// P11: Kriging predictions and error estimates against the generalised-least-squares predictor in extended precision.
// PART 1: every sample subset of a grid x output pattern x hyper-parameter setting x query; PART 2: every sequence of add / set / re-read.
#include "hx.hpp"
#include "krig_ref.hpp"
#include "SurrogateModels/INCLUDE/kriging_training.hpp"
#include <unistd.h>
using namespace Rodop; using namespace hx; using mc::fmt;
#ifndef PART
#define PART 1
#endif
static int GB; static V LB,UB;
static void box(int d,int b){ static const double l[4][2]={{0,0},{-2,3},{100,-1e-2},{0,0}}, u[4][2]={{1,1},{6,3.5},{1100,1e-2},{1,1}}; LB.assign(l[b],l[b]+d); UB.assign(u[b],u[b]+d); GB=b; }
static std::vector<V> grid(int d,int per){ std::vector<V> r; if(GB==3&&per<=6){ static const double cl[]={0.3,0.3001,0.3007,0.9,0.9002,0.2999}; if(d==1){ for(int i=0;i<per;i++) r.push_back({cl[i]}); } else for(int i=0;i<per;i++) for(int j=0;j<per;j++) r.push_back({cl[i],cl[j]}); return r; } // box 3: clustered samples
  if(d==1) for(int i=0;i<per;i++) r.push_back({LB[0]+(UB[0]-LB[0])*i/(per-1)}); else for(int i=0;i<per;i++) for(int j=0;j<per;j++) r.push_back({LB[0]+(UB[0]-LB[0])*i/(per-1),LB[1]+(UB[1]-LB[1])*j/(per-1)}); return r; }
static std::vector<V> hypers(int d,bool t){ std::vector<V> r; V th=t?V{0.05,0.5,3,9,20,300}:V{0.3,3,20}, ga=t?V{1,1.3,1.7,2}:V{1,1.7,2}; if(d==1){ for(double a:th) for(double g:ga) r.push_back({a,g}); } else for(size_t a=0;a<th.size();a++) for(size_t b=0;b<th.size();b++) for(size_t g=0;g<ga.size();g++) r.push_back({th[a],th[b],ga[g],ga[(g+a+b)%ga.size()]}); for(double a:{0.0,1e-6,1e-3}){ V h(2*d,a); for(int i=d;i<2*d;i++) h[i]=2; r.push_back(h); } return r; }
static void judge(KrigingModel& k,Ref& r,mc::Ctx& c,const std::string& W,int nq,bool quick=false){
  // the negative-estimate rule holds however badly conditioned the sample set is
  bool good=r.ok&&r.cond<1e11L; if(!good&&!r.ok) return; LD amp=r.cond*EPS*200+1e-12L, Sc=r.scale+fabsl(r.b), dv=r.inv*(2*sqrtl(r.s2)*r.delta+r.delta*r.delta)*(LD)r.X.size(); 
  std::vector<V> qs=grid(r.d,nq); for(auto& x:r.X) qs.push_back(x);
  for(size_t i=0;i<qs.size();i++){ bool tr=i>=qs.size()-r.X.size(); LV z=r.nz(qs[i]); V zd; for(auto v:z) zd.push_back((double)v); double f=k.interpolate(tv(zd)),f2=0,s=0; k.interpolateWithVariance(tv(zd),&f2,&s); c.tick(); c.state(mc::hashBytes(&f,8,mc::hashBytes(&s,8)));
    std::string w=W+" at "+S(qs[i])+": prediction "+fmt(f)+", error estimate "+fmt(s); 
    c.check(s>=0,"P11-negative",w+" is negative or not a number"); c.check(eqd(f,f2),"P11-same",w+", but interpolateWithVariance predicts "+fmt(f2));
    if(!good) continue; LD rf,rm; r.at(z,rf,rm); Sc=r.mp; LD am=amp*r.mm;
    c.check(fabsl(f-rf)<=amp*Sc+r.delta*(1+r.cond*1e-2L),"P11-value",w+" instead of "+fmt((double)rf)); c.check(fabsl(s-rm)<=r.s2*(am+2.2e-9L)+amp*amp*Sc*Sc+dv*r.mm+1e-30L*Sc*Sc*r.inv,"P11-mse",w+" instead of "+fmt((double)rm)+" (error estimate)");
    if(tr&&r.nug<=1e-12L){ double y=r.F[i-(qs.size()-r.X.size())]; c.check(fabsl(f-y)<=amp*Sc+r.inv*r.nug*Sc*4+r.delta*(1+r.cond*1e-2L),"P11-interpolates",w+" does not reproduce the sample "+fmt(y)); c.check(s<=r.s2*(am+r.inv*r.nug*4+2.2e-9L)+dv+1e-30L*Sc*Sc*r.inv,"P11-vanish",w+" does not vanish at a sample"); } }
  { LV z=r.nz(qs[0]); V zd; for(auto v:z) zd.push_back((double)v); k.interpolate(tv(zd)); double m; k.interpolateWithVariance(tv(zd),&m,&m); } // the next judgement begins where this one ends
}
// the criterion of the training at two settings of the hyper-parameters differs by the difference of the log-likelihoods
static void likelihood(KrigingModel& k,Ref& r,mc::Ctx& c,const std::string& W,double& off){ double l=k.calculateLikelihoodFunction(tv(r.hyp)); c.tick(); LD n=(LD)r.X.size(),ref=r.ok? -n/2*logl(r.s2)-0.5L*r.logdet: 0; LD e=r.cond*EPS*200; if(!r.ok||r.s2<=1e-24L*r.scale*r.scale*r.inv||e>1e-3L||r.delta>0&&r.delta*r.delta*r.inv*r.X.size()>1e-6L*r.s2) return; LD tol=n*(e*(1+r.scale*r.scale*r.inv/(r.s2*n))+1e-9L)+(r.delta>0? n*sqrtl(r.delta*r.delta*r.inv*n/r.s2)*4:0); if(tol>0.01L) return; if(std::isnan(off)){ off=(double)(l-ref); return; } c.check(fabsl(l-off-ref)<=2*tol+1e-7L*(fabsl(ref)+1),"P11-likelihood",W+": the training criterion is "+fmt(l)+", with the log-likelihood of the data and the constant found before it would be "+fmt((double)(ref+off))); }
struct H: mc::Harness {
  void init(mc::Ctx&){ ModelLogger_off(); }
  static void ModelLogger_off();
  static M rows(const Ref& r){ M m=r.X; for(size_t i=0;i<m.size();i++) m[i].push_back(r.F[i]); return m; }
  static void setup(KrigingModel& k,const Ref& r,const std::string& f){ k.setDimension(r.d); k.setName("kri"); k.setNameOfInputFile(f); if(r.lin) k.setLinearRegressionOn(); k.setBoxConstraints(Bounds(tv(r.lb),tv(r.ub))); k.readData(); k.normalizeData(); k.initializeSurrogateModel(); }
#if PART==1
  struct K{ int d,box,mask; bool lin; };
  std::vector<K> make(bool t){ std::vector<K> r; for(int d=1;d<=2;d++) for(int b=0;b<4;b++) if(t||b!=2) for(int m=1;m<(d==1?(1<<(t?6:5)):512);m++){ int n=__builtin_popcount(m); if(n<2||n>(d==1?(t?5:4):(t?5:4))) continue; for(int l=0;l<2;l++){ if(l&&n<d+2) continue; r.push_back({d,b,m,(bool)l}); } } return r; }
  uint64_t cases(bool t){ return make(t).size(); }
  K at(uint64_t i,bool t){ static std::vector<K> a=make(false),b=make(true); return (t?b:a)[i]; }
  std::string describe(uint64_t i,bool t){ K k=at(i,t); return std::to_string(k.d)+"-D box "+std::to_string(k.box)+" samples "+std::to_string(k.mask)+(k.lin?" universal":" ordinary"); }
  void run(uint64_t i,mc::Ctx& c){ K k=at(i,c.thorough); box(k.d,k.box); auto g=grid(k.d,k.d==1?(c.thorough?6:5):3); Ref r; r.d=k.d; r.lb=LB; r.ub=UB; r.lin=k.lin; r.nug=1e-12L; for(size_t j=0;j<g.size();j++) if(k.mask>>j&1) r.X.push_back(g[j]); int n=(int)r.X.size(); auto hs=hypers(k.d,c.thorough);
    static const double al[3]={-1,0,2}; int np=1; for(int j=0;j<n;j++) np*=3; std::vector<V> pats; for(int p=0;p<np;p++){ V f; int q=p; for(int j=0;j<n;j++){ f.push_back(al[q%3]); q/=3; } if(n>3&&!c.thorough&&p%4!=1&&k.d==1) continue; if(k.d==2&&p%(c.thorough?5:9)!=1) continue; pats.push_back(f); }
    { V f; for(int j=0;j<n;j++) f.push_back(1e6+j*j*(j%2?-3:2)); pats.push_back(f); for(auto& v:f) v=(v-1e6)*1e-7; pats.push_back(f); for(auto& v:f) v*=1e13; pats.push_back(f); }
    for(auto& f:pats){ r.F=f; M m=rows(r); // permuted file order
      for(int perm=0;perm<2;perm++){ std::reverse(m.begin(),m.end()); if(perm&&m.size()>2) std::swap(m[0],m[1]); writeCSV("k.csv",m); KrigingModel kr; setup(kr,r,"k.csv"); c.op(describe(i,c.thorough)+" outputs "+S(f));
        double off=NAN; if(perm==0) for(auto& h:hs){ r.hyp=h; r.nug=1e-12L; kr.setEpsilon(1e-12); kr.setHyperParameters(tv(h)); kr.updateAuxilliaryFields(); r.fit(); judge(kr,r,c,describe(i,c.thorough)+" outputs "+S(f)+" hyper-parameters "+S(h),k.d==1?7:4); likelihood(kr,r,c,describe(i,c.thorough)+" outputs "+S(f)+" hyper-parameters "+S(h),off); }
        if(perm==0){ kr.setEpsilon(0); double l=kr.calculateLikelihoodFunction(tv(V(2*k.d,0.0))); c.check(l<-1e300,"P11-likelihood",describe(i,c.thorough)+" outputs "+S(f)+": the training criterion of a singular correlation matrix is "+fmt(l)); }
        else { size_t j=i%hs.size(); r.hyp=hs[j]; r.nug=1e-3L; kr.setEpsilon(1e-3); kr.setHyperParameters(tv(r.hyp)); kr.updateAuxilliaryFields(); r.fit(); judge(kr,r,c,describe(i,c.thorough)+" outputs "+S(f)+" nugget 1e-3, hyper-parameters "+S(r.hyp),k.d==1?7:4); } } } }
#else
  // every sequence of: add a grid point / set hyper-parameters and update / re-read the file
  uint64_t cases(bool t){ return t?2*2*3:2*2*2; }
  std::string describe(uint64_t i,bool t){ return std::to_string(1+i%2)+"-D "+((i/2)%2?"universal":"ordinary")+" model, box "+std::to_string(t?i/4:i/4*2)+", call sequences of length "+std::to_string(t?5:4); }
  bool snapshots(){ return true; }
  void run(uint64_t i,mc::Ctx& c){ int d=1+(int)(i%2); bool lin=(i/2)%2; box(d,c.thorough?(int)(i/4):(int)(i/4)*2); auto g=grid(d,d==1?6:3); if(d==2) g.resize(7); Ref r; r.d=d; r.lb=LB; r.ub=UB; r.lin=lin; r.nug=1e-12L; static const double out[]={2,-1,0.5,7,-3,1,4}; auto hs=hypers(d,false); std::vector<V> hh{hs[hs.size()/3],hs[hs.size()-2],hs[1]};
    std::vector<char> in(g.size(),0); for(int j:{0,(int)g.size()-1,2}){ r.X.push_back(g[j]); r.F.push_back(out[j]); in[j]=1; }
    writeCSV("k.csv",rows(r)); KrigingModel k; setup(k,r,"k.csv"); r.hyp=hh[0]; k.setHyperParameters(tv(r.hyp)); k.updateAuxilliaryFields(); std::string W=describe(i,c.thorough)+": "; 
    for(int s=0;s<(c.thorough?5:4);s++){ std::vector<int> cand; bool one=false; for(int j=0;j<(int)g.size();j++){ if(in[j]&&!c.thorough){ if(one) continue; one=true; } cand.push_back(j); } // quick: one representative of the samples already in the file
      int n=(int)cand.size(); int a=c.choose(n+7); int pt=a<n? cand[a]:0; 
      if(a>=n+5){ for(size_t j=0;j<r.F.size();j++) r.F[j]=a==n+5? 3-0.5*r.F[j]+(double)j: r.F[j]*4; writeCSV("k.csv",rows(r)); c.op(a==n+5?"file replaced by other outputs, read again":"file replaced by scaled outputs, update"); W+="new file "; if(a==n+5){ k.readData(); k.normalizeData(); k.initializeSurrogateModel(); k.setHyperParameters(tv(r.hyp)); k.updateAuxilliaryFields(); } else k.updateModelWithNewData(); }
      else if(a<n){ V row=g[pt]; double y=out[pt]; for(size_t j=0;j<r.X.size();j++) if(in[pt]&&r.X[j]==g[pt]) y=r.F[j]; row.push_back(y); c.op("add sample "+S(row)); W+="add "+S(row)+" "; k.addNewSampleToData(tv(row)); if(!in[pt]){ r.X.push_back(g[pt]); r.F.push_back(out[pt]); in[pt]=1; } }
      else if(a<n+3){ r.hyp=hh[a-n]; c.op("hyper-parameters "+S(r.hyp)); W+="set "+S(r.hyp)+" "; k.setHyperParameters(tv(r.hyp)); k.updateAuxilliaryFields(); }
      else if(a==n+3){ c.op("re-read"); W+="re-read "; k.updateModelWithNewData(); }
      else { c.op("copy"); W+="copy "; KrigingModel other(k); V h=hh[0]; h[0]*=2; other.setHyperParameters(tv(h)); other.updateAuxilliaryFields(); KrigingModel third; third=k; k=third; }
      r.fit(); judge(k,r,c,W,d==1?7:4); c.check(k.getNumberOfSamples()==r.X.size(),"P11-samples",W+": the model holds "+std::to_string(k.getNumberOfSamples())+" samples instead of "+std::to_string(r.X.size())); } }
#endif
};
#include "SurrogateModels/INCLUDE/model_logger.hpp"
void H::ModelLogger_off(){ ModelLogger::getInstance().setLogLevel(CRITICAL); }
MC_MAIN(H)
