// P24: the surrogate test mode: every sequence of tests on one SurrogateModelTester, each with its own model type, training file,
// test file, output choice and hyper-parameters (from a file or trained); results judged against the closed form in extended precision.
#include "hx.hpp"
#include "krig_ref.hpp"
#include "SurrogateModels/INCLUDE/model_logger.hpp"
#define private public
#define protected public
#include "SurrogateModels/INCLUDE/surrogate_model_tester.hpp"
#undef private
#undef protected
#include <unistd.h>
#include <fcntl.h>
#include <map>
using namespace Rodop; using mc::fmt;
static uint64_t LCG=1;
static double lcg(){ LCG=LCG*6364136223846793005ull+1442695040888963407ull; return (double)(LCG>>11)/9007199254740992.0; }
double rodeo_mc_real(double a,double b){ if(!(a<b)) return a; double t=a+(b-a)*lcg(); return t<b?t:std::nextafter(b,a); }
double rodeo_mc_normal(double m,double s){ double u=0; for(int i=0;i<12;i++) u+=lcg(); return m+s*(u-6); }
long rodeo_mc_int(long a,long b){ return a+(long)(lcg()*(double)(b-a+1)); }
int rodeo_mc_rand(){ return (int)(lcg()*2147483647.0); }
struct File{ std::string name; M x; V f; bool val=true; };
struct Box{ V lb,ub; };
static std::vector<Box> boxes(int d){ if(d==1) return {{{-1},{3}},{{0},{1000}}}; return {{{-1,3},{3,3.5}},{{0,-2e-2},{10,2e-2}}}; }
static M pts(const Box& b,const std::vector<V>& u){ M r; for(auto& q:u){ V x; for(size_t i=0;i<b.lb.size();i++) x.push_back(b.lb[i]+(b.ub[i]-b.lb[i])*q[i%q.size()]*(i?1-0.3*q[0]:1)); r.push_back(x); } return r; }
static V outs(const M& x,const Box& b,int k){ V f; for(auto& p:x){ double s=0; for(size_t i=0;i<p.size();i++){ double u=(p[i]-b.lb[i])/(b.ub[i]-b.lb[i]); s+=k==0? std::sin(5*u+i)+u: k==1? 40-30*u*u*(i+1): 1e-3*u+std::cos(9*u); } f.push_back(s); } return f; }
static std::vector<File> trains(const Box& b){ std::vector<V> ua{{0,0.1},{0.3,0.9},{0.55,0.3},{0.8,0.75},{1,0.45}},ub{{0.05,1},{0.2,0.2},{0.4,0.6},{0.6,0.05},{0.7,0.95},{0.85,0.4},{0.97,0.8}}; std::vector<File> r; r.push_back({"trainA.csv",pts(b,ua),{}}); r.push_back({"trainB.csv",pts(b,ub),{}}); r.push_back({"trainC.csv",pts(b,ua),{}}); for(int k=0;k<3;k++) r[k].f=outs(r[k].x,b,k); std::reverse(r[2].x.begin(),r[2].x.end()); std::reverse(r[2].f.begin(),r[2].f.end()); r[2].f[1]=7; return r; }
static std::vector<File> tests(const Box& b){ std::vector<V> ut{{0.9,0.15},{0.1,0.55},{0.55,0.3}},uu{{0.33,0.7},{0,0.1},{0.62,0.5},{1,1}},uw{{0.2,0.2},{0.77,0.88},{0.45,0.1},{1.25,-0.1}}; std::vector<File> r; r.push_back({"testT.csv",pts(b,ut),{},true}); r.push_back({"testU.csv",pts(b,uu),{},false}); r.push_back({"testW.csv",pts(b,uw),{},true}); r.push_back({"testO.csv",{r[0].x[1]},{},true}); for(int k:{0,2,3}){ r[k].f=outs(r[k].x,b,k==2?1:0); for(auto& v:r[k].f) v+=0.25; } return r; }
static void put(const File& f,bool val){ M m=f.x; if(val) for(size_t i=0;i<m.size();i++) m[i].push_back(f.f[i]); writeCSV(f.name,m); }
struct Test{ int type,train,test,hyp; bool var,same; }; // hyp 0,1: file; 2: trained. same: the files of the previous test are overwritten instead of new names being set
struct H: mc::Harness {
  int LOGFD=-1; // the log stays one file for all forked explorers of a worker
  void init(mc::Ctx&){ ModelLogger::getInstance().setLogLevel(INFO); LOGFD=open("model.log",O_RDWR); }
  std::string logText(){ std::string t; char b[65536]; off_t at=0; for(ssize_t n;(n=pread(LOGFD,b,sizeof b,at))>0;at+=n) t.append(b,(size_t)n); return t; }
  // case: dimension, box, first test (type,train,test)
  uint64_t cases(bool){ return 2*2*3*3*4; }
  std::string describe(uint64_t i,bool){ static const char* ty[]={"linear","ordinary Kriging","universal Kriging"}; return std::to_string(1+i%2)+"-D box "+std::to_string(i/2%2)+", first test: "+ty[i/4%3]+", training file "+"ABC"[i/12%3]+", test file "+"TUWO"[i/36]; }
  void run(uint64_t i,mc::Ctx& c){ int d=1+(int)(i%2); Box b=boxes(d)[i/2%2]; auto tr=trains(b); auto te=tests(b); for(auto& f:tr) put(f,true); for(auto& f:te) put(f,f.val); LCG=99; unlink("surrogateTestResults.csv");
    V h[2]; for(int j=0;j<2;j++){ for(int k=0;k<d;k++) h[j].push_back(j?25.5+k:3.25); for(int k=0;k<d;k++) h[j].push_back(j?1.25:2); }
    SurrogateModelTester T; T.setName("mod"); T.setDimension(d); T.setBoxConstraints(Bounds(tv(b.lb),tv(b.ub))); T.setNumberOfTrainingIterations(10);
    std::string W=describe(i,c.thorough)+": "; std::string trN,teN; int steps=c.thorough?3:2; Test last{};
    for(int s=0;s<steps;s++){ Test t; t.type=s? c.choose(3): (int)(i/4%3); t.train=s? c.choose(3): (int)(i/12%3); t.test=s? c.choose(4): (int)(i/36); if(s==2&&t.test==3) throw mc::Prune(); t.var=c.flip(); t.same=s&&(c.thorough||t.var==last.var)&&c.flip(); t.hyp=0; if(t.type){ bool tr=!t.var&&!t.same&&(s==0? t.test==1: s==1); t.hyp=s==0&&!c.thorough? (tr&&c.flip()?2:0): c.choose(tr?3:2); } 
      static const char* ty[]={"linear","ordinary","universal"}; std::string w=std::string("[")+ty[t.type]+", "+tr[t.train].name+", "+te[t.test].name+(t.var?", with error estimates":"")+(t.type? t.hyp==2? ", trained": ", parameters from file "+std::to_string(t.hyp):"")+(t.same?", files overwritten":"")+"] "; W+=w; c.op(w);
      T.setSurrogateModel(t.type==0?LINEAR_REGRESSION:t.type==1?ORDINARY_KRIGING:UNIVERSAL_KRIGING); T.bindSurrogateModels(); T.ifVariancesShouldBeComputedInTest=t.var; T.ifReadWarmStart=t.hyp<2&&t.type;
      const File& A=tr[t.train]; const File& B=te[t.test]; if(t.type&&t.hyp<2) { M hm; for(double v:h[t.hyp]) hm.push_back({v}); writeCSV("mod_hyperparameters.csv",hm); } 
      if(t.same){ File a=A,z=B; a.name=trN; z.name=teN; put(a,true); put(z,z.val); } else { put(A,true); put(B,B.val); T.setFileNameTrainingData(A.name); T.setFileNameTestData(B.name); trN=A.name; teN=B.name; }
      if(ftruncate(LOGFD,0)){} std::ostringstream so; auto* old=std::cout.rdbuf(so.rdbuf()); std::string err; uint64_t LCG0=LCG; try{ T.performSurrogateModelTest(); } catch(std::exception& e){ err=e.what(); } std::cout.rdbuf(old); c.tick();
      if(t.type==0&&t.var){ c.check(!err.empty(),"P24-variance",W+"a linear model is tested with error estimates without an error"); continue; }
      c.check(err.empty(),"P24-error",W+"the test fails: "+err);
      Ref r; r.d=d; r.lb=b.lb; r.ub=b.ub; r.X=A.x; r.F=A.f; r.nug=1e-12L; r.lin=t.type!=1; if(t.type){ r.hyp=fromv(T.krigingModel.getHyperParameters()); if(t.hyp<2) c.check(close(r.hyp,h[t.hyp],1e-12,0),"P24-parameters",W+"the model has the parameters "+S(r.hyp)+" instead of those of the file "+S(h[t.hyp])); else { for(int k=0;k<d;k++) c.check(r.hyp[k]>=0&&r.hyp[k]<=20&&r.hyp[d+k]>=1&&r.hyp[d+k]<=2,"P24-trained",W+"the model was not trained: parameters "+S(r.hyp));
          { // the same training done by hand on the same random numbers, with the number of iterations the tester was given
            static std::map<std::string,V> seen; std::string key=std::to_string(i)+" "+std::to_string(t.type)+" "+std::to_string(LCG0)+" "+std::to_string(t.train); V q=seen[key]; if(q.empty()){ uint64_t LCG1=LCG; LCG=LCG0; KrigingModel K; if(t.type==2) K.setLinearRegressionOn(); K.setDimension(d); K.setName("hand"); K.setNameOfInputFile(trN); K.setBoxConstraints(Bounds(tv(b.lb),tv(b.ub))); K.readData(); K.normalizeData(); K.setNumberOfTrainingIterations(10); K.initializeSurrogateModel(); K.train(); q=fromv(K.getHyperParameters()); LCG=LCG1; seen[key]=q; }
            c.check(close(r.hyp,q,1e-9,1e-9),"P24-training",W+"the model tested has the parameters "+S(r.hyp)+"; training with the 10 iterations asked for gives "+S(q)); } } } else { r.hyp=V(2*d,1); }
      r.fit(); LD tol=1e-9L; bool good=t.type==0||(r.ok&&r.cond<1e9L); if(t.type) tol=r.cond*1e-13L+1e-9L;
      auto pred=[&](const V& x,LD& f,LD& m){ LV z=r.nz(x); if(t.type==0){ f=r.line(z); m=0; } else r.at(z,f,m); };
      SurrogateModel& sm=*T.surrogateModel; c.check(&sm==(t.type?(SurrogateModel*)&T.krigingModel:(SurrogateModel*)&T.linearModel),"P24-bound",W+"another model is bound");
      // results file
      std::vector<std::string> hd,wh; for(int k=0;k<d;k++) wh.push_back("x"+std::to_string(k+1)); wh.push_back("Estimated value"); if(B.val){ wh.push_back("True value"); wh.push_back("Squared Error"); } if(t.var) wh.push_back("Variance");
      M res; bool ok=readCSV("surrogateTestResults.csv",res,&hd); c.check(ok&&hd==wh,"P24-header",W+"results file malformed or with another header: "+slurp("surrogateTestResults.csv").substr(0,300)); c.check(res.size()==B.x.size(),"P24-rows",W+"results file has "+std::to_string(res.size())+" rows instead of "+std::to_string(B.x.size())); M full=fromm(sm.testResults); c.check(full.size()==B.x.size(),"P24-rows",W+"the results have another number of rows");
      LD mse=0; for(size_t k=0;k<B.x.size();k++){ LD f,m; pred(B.x[k],f,m); V w=B.x[k]; w.push_back((double)f); if(B.val){ w.push_back(B.f[k]); LD e=(f-B.f[k])*(f-B.f[k]); w.push_back((double)e); mse+=e; } if(t.var) w.push_back((double)m); LD sc=r.scale+1; std::string M1=W+"row "+std::to_string(k)+" of the results "+S(full[k])+" in the file "+S(res[k])+", expected "+S(w);
        c.check(full[k].size()==w.size()&&res[k].size()==w.size(),"P24-row",M1); for(size_t j=0;j<w.size();j++){ c.check(closed(res[k][j],full[k][j],1e-12,6e-7),"P24-file",M1); if((int)j<d) c.check(full[k][j]==w[j],"P24-points",M1); else if(good) c.check(fabsl(full[k][j]-w[j])<=tol*sc*sc,"P24-prediction",M1); if(B.val&&(int)j==d+1) c.check(full[k][j]==w[j],"P24-given",M1); }
        if(B.val) c.check(closed(full[k][d+2],(full[k][d]-B.f[k])*(full[k][d]-B.f[k]),1e-12,1e-300),"P24-square",M1); c.state(mc::hashBytes(full[k].data(),full[k].size()*8)); }
      // reported errors
      std::string out=so.str(), lg=logText(); std::string key="Generalization error (MSE) : "; size_t p=out.rfind(key);
      if(B.val){ double own=0; for(auto& q:full) own+=q[d+2]; own/=full.size(); c.check(p!=std::string::npos&&closed(strtod(out.c_str()+p+key.size(),nullptr),own,1e-9,6e-9),"P24-out-error",W+"printed '"+out+"', the mean squared error of the predictions in the results is "+fmt(own)); c.check(closed(sm.generalizationError,own,1e-12,0),"P24-out-error",W+"generalisation error "+fmt(sm.generalizationError)+" instead of "+fmt(own)); V sq; for(auto& q:full) sq.push_back(q[d+2]);
        double oe=sm.calculateOutSampleError(); c.check(closed(oe,own,1e-9,1e-15),"P24-out-error",W+"calculateOutSampleError "+fmt(oe)+" instead of "+fmt(own)); }
      else c.check(p==std::string::npos||!strpbrk(out.c_str()+p+key.size(),"0123456789"),"P24-no-values",W+"the test data have no values, but an error is reported: "+out);
      LD ise=0; for(size_t k=0;k<A.x.size();k++){ LD f,m; pred(A.x[k],f,m); ise+=(f-A.f[k])*(f-A.f[k]); } ise/=A.x.size(); double is=sm.calculateInSampleError(); LD sc=r.scale+1; if(good) c.check(fabsl(is-ise)<=tol*sc*sc,"P24-in-error",W+"in-sample error "+fmt(is)+" instead of "+fmt((double)ise));
      key="Training error (MSE): "; p=lg.rfind(key); c.check(p!=std::string::npos&&closed(strtod(lg.c_str()+p+key.size(),nullptr),is,1e-9,6e-7),"P24-in-error",W+"the log does not report the in-sample error "+fmt(is)); 
      last=t; } }
};
MC_MAIN(H)
