// P12: splitting the data of a model into training and validation samples: every call sequence, every outcome of the random split.
#include "hx.hpp"
#include "SurrogateModels/INCLUDE/kriging_training.hpp"
#include "SurrogateModels/INCLUDE/linear_regression.hpp"
#include "SurrogateModels/INCLUDE/model_logger.hpp"
#include <unistd.h>
using namespace Rodop; using namespace hx; using mc::fmt;
#ifndef PART
#define PART 1
#endif
static mc::Ctx* CTX; static bool TRAIN=false; static uint64_t LCG=1; static double lcg(){ LCG=LCG*6364136223846793005ull+1442695040888963407ull; return (double)(LCG>>11)/9007199254740992.0; } // draws of the training: one fixed sequence
double rodeo_mc_real(double a,double b){ return a+(b-a)*(TRAIN?lcg():0.37); }
double rodeo_mc_normal(double m,double s){ return TRAIN? m+s*(lcg()-0.5): m; }
// every outcome of a random permutation / index
long rodeo_mc_int(long a,long b){ return TRAIN? a+(long)(lcg()*(double)(b-a+1)): CTX&&b>a? a+CTX->choose((int)(b-a+1)): a; }
int rodeo_mc_rand(){ return TRAIN? (int)(lcg()*2147483647.0): CTX? CTX->choose(4): 0; }
static bool closeRow(const V& a,const V& b){ return close(a,b,1e-12,1e-13); }
static std::string srt(M m){ std::sort(m.begin(),m.end()); return S(m); }
struct H: mc::Harness {
  void init(mc::Ctx&){ ModelLogger::getInstance().setLogLevel(CRITICAL); int fd=open("/dev/null",O_WRONLY); dup2(fd,1); dup2(fd,2); }
#if PART==1
  // kind 0: values only, 1: with gradients, 2: with directional derivatives
  uint64_t cases(bool){ return 2*3; }
  std::string describe(uint64_t i,bool t){ return std::to_string(1+i%2)+"-D data "+(i/2==0?"without":i/2==1?"with gradients":"with directional derivatives")+(i/2==0?" derivatives":"")+", call sequences of length "+std::to_string(t?5:4); }
  static V lb,ub;
  static V nrm(const V& x,int d){ V z; for(int i=0;i<d;i++) z.push_back((x[i]-lb[i])/(ub[i]-lb[i])/d); return z; }
  // one sample is compared with everything that belongs to it: inputs, output, derivatives
  void run(uint64_t i,mc::Ctx& c){ CTX=&c; int d=1+(int)(i%2),kind=(int)(i/2); lb=V{-2,10}; ub=V{6,12}; lb.resize(d); ub.resize(d); int cols=d+1+(kind==1?d:kind==2?1+d:0); M fA,fB; auto mk=[&](int n,int s){ M m; for(int r=0;r<n;r++){ V x; for(int q=0;q<cols;q++) x.push_back(q<d? lb[q]+(ub[q]-lb[q])*((r*(q+2)+s)%7)/7.0: 10*s+r+0.1*q); m.push_back(x); } return m; }; fA=mk(c.thorough?4:3,1); fB=mk(2,3); writeCSV("A.csv",fA); writeCSV("B.csv",fB); M tA=mk(3,5),tB=mk(2,6),tC; for(auto& r:tA) r.resize(d+1); for(auto& r:tB) r.resize(d); writeCSV("TA.csv",tA); writeCSV("TB.csv",tB);
    SurrogateModelData D; D.setDimension(d); D.setBoxConstraints(Bounds(tv(lb),tv(ub))); if(kind==1) D.setGradientsOn(); if(kind==2) D.setDirectionalDerivativesOn(); double ratio=0,rNow=0; const M* file=nullptr; bool norm=false,split=false,tnorm=false; const M* test=nullptr; std::string W=describe(i,c.thorough)+":";
    static const double RT[]={0,0.3,0.5,0.75};
    for(int s=0;s<(c.thorough?5:4);s++){ int a=c.choose(11); std::string op;
      try {
        if(a<2){ op=a?" read B":" read A"; c.op(op); W+=op; file=nullptr; D.readData(a?"B.csv":"A.csv"); file=a?&fB:&fA; norm=false; rNow=ratio; split=(int)(ratio*file->size())>0; }
        else if(a<6){ if(ratio==RT[a-2]) throw mc::Prune(); ratio=RT[a-2]; op=" ratio "+fmt(ratio); W+=op; D.setValidationRatio(ratio); }
        else if(a==6){ if(!file) throw mc::Prune(); op=" normalize"; W+=op; D.normalize(); norm=true; }
        else if(a==7){ if(!file) throw mc::Prune(); op=" revert"; W+=op; D.revertBackToFullData(); split=false; norm=true; }
        else if(a==8||a==9){ op=a==8?" read test data with values":" read test data without values"; W+=op; D.readDataTest(a==8?"TA.csv":"TB.csv"); test=a==8?&tA:&tB; tnorm=false; }
        else { if(!test) throw mc::Prune(); op=" normalize test data"; W+=op; D.normalizeSampleInputMatrixTest(); tnorm=true; } }
      catch(std::exception& e){ c.fail("P12-rejected",W+" ends with the error "+e.what()); }
      c.op(op); c.tick();
      if(file){ int N=(int)file->size(),k=split?(int)(rNow*N):0; M X=fromm(D.getInputMatrix()),XV=k?fromm(D.getInputMatrixValidation()):M(); V y=fromv(D.getOutputVector()),yv=k?fromv(D.getOutputVectorValidation()):V();
        c.check((int)D.getNumberOfSamplesValidation()==k&&(int)XV.size()==k&&(int)yv.size()==k,"P12-size",W+": "+std::to_string(D.getNumberOfSamplesValidation())+" validation samples (matrix "+std::to_string(XV.size())+", outputs "+std::to_string(yv.size())+") instead of "+std::to_string(k));
        c.check((int)D.getNumberOfSamples()==N-k&&(int)X.size()==N-k&&(int)y.size()==N-k,"P12-size",W+": "+std::to_string(D.getNumberOfSamples())+" training samples (matrix "+std::to_string(X.size())+", outputs "+std::to_string(y.size())+") instead of "+std::to_string(N-k));
        c.check(fromm(D.getRawData())==*file,"P12-raw",W+": the raw data are "+S(fromm(D.getRawData()))+" instead of "+S(*file));
        std::vector<int> used(N,0); auto find=[&](double out){ for(int r=0;r<N;r++) if((*file)[r][d]==out) return r; return -1; }; int last=-1; bool order=true;
        for(int r=0;r<N-k;r++){ int q=find(y[r]); c.check(q>=0,"P12-output",W+": output "+fmt(y[r])+" of training sample "+std::to_string(r)+" is not in the file"); used[q]++; order&=q>last; last=q; V x((*file)[q].begin(),(*file)[q].begin()+d),z=norm?nrm(x,d):x; c.check(closeRow(X[r],z),"P12-row",W+": training sample "+std::to_string(r)+" with output "+fmt(y[r])+" has the inputs "+S(X[r])+" instead of "+S(z)); c.check(same(fromv(D.getRowX(r)),X[r]),"P12-row",W+": getRowX differs from the input matrix"); c.check(same(fromv(D.getRowXRaw(r)),x),"P12-rawrow",W+": training sample "+std::to_string(r)+" with output "+fmt(y[r])+" has the raw inputs "+S(fromv(D.getRowXRaw(r)))+" instead of "+S(x));
          if(kind==1){ V g; for(int j=0;j<d;j++) g.push_back((*file)[q][d+1+j]*(norm?(ub[j]-lb[j])*d:1)); c.check(closeRow(fromv(D.getRowGradient(r)),g),"P12-gradient",W+": gradient of the training sample with output "+fmt(y[r])+" is "+S(fromv(D.getRowGradient(r)))+" instead of "+S(g)); }
          if(kind==2){ double w=(*file)[q][d+1]*(norm?(ub[0]-lb[0])*d:1); V t((*file)[q].begin()+d+2,(*file)[q].begin()+2*d+2); c.check(closed(fromv(D.getDirectionalDerivativesVector())[r],w,1e-12,1e-13),"P12-directional",W+": directional derivative of the training sample with output "+fmt(y[r])+" is "+fmt(fromv(D.getDirectionalDerivativesVector())[r])+" instead of "+fmt(w)); c.check(same(fromv(D.getRowDifferentiationDirection(r)),t),"P12-direction",W+": differentiation direction of the training sample with output "+fmt(y[r])+" is "+S(fromv(D.getRowDifferentiationDirection(r)))+" instead of "+S(t)); } }
        for(int r=0;r<k;r++){ int q=find(yv[r]); c.check(q>=0,"P12-output",W+": output "+fmt(yv[r])+" of validation sample "+std::to_string(r)+" is not in the file"); used[q]++; V x((*file)[q].begin(),(*file)[q].begin()+d),z=norm?nrm(x,d):x; c.check(closeRow(XV[r],z),"P12-row",W+": validation sample "+std::to_string(r)+" with output "+fmt(yv[r])+" has the inputs "+S(XV[r])+" instead of "+S(z)); }
        for(int q=0;q<N;q++) c.check(used[q]==1,"P12-partition",W+": sample "+S((*file)[q])+" is in "+std::to_string(used[q])+" of the training and validation samples"); if(k==0) c.check(order,"P12-order",W+": the complete data are not in the order of the file");
        c.check(D.isDataNormalized()||!norm,"P12-flag",W+": normalised data are not flagged as such"); c.state(mc::hashBytes(y.data(),8*y.size(),mc::hashBytes(X.data()->data(),8*d,norm))); }
      if(test){ int n=(int)test->size(); M X=fromm(D.getInputMatrixTest()); c.check((int)D.getNumberOfSamplesTest()==n&&(int)X.size()==n,"P12-test",W+": "+std::to_string(D.getNumberOfSamplesTest())+" test samples instead of "+std::to_string(n)); c.check(D.ifTestDataHasFunctionValues==(test==&tA),"P12-testvalues",W+": test data "+(test==&tA?"with":"without")+" function values are taken for the opposite"); V y=test==&tA?fromv(D.getOutputVectorTest()):V();
        for(int r=0;r<n;r++){ V x((*test)[r].begin(),(*test)[r].begin()+d),z=tnorm?nrm(x,d):x; c.check(closeRow(X[r],z)&&closeRow(fromv(D.getRowXTest(r)),z),"P12-testrow",W+": test sample "+std::to_string(r)+" has the inputs "+S(X[r])+" instead of "+S(z)); V w=fromv(D.getRowXRawTest(r)); w.resize(d); c.check(same(w,x),"P12-testrow",W+": raw test sample "+std::to_string(r)+" is "+S(w)+" instead of "+S(x)); if(test==&tA) c.check(y[r]==(*test)[r][d],"P12-testrow",W+": test sample "+std::to_string(r)+" has the value "+fmt(y[r])+" instead of "+fmt((*test)[r][d])); } } } }
#else
  // the models on split data: every sequence of re-reading, adding samples, changing the ratio, training (linear model)
  uint64_t cases(bool t){ return 3*2; }
  std::string describe(uint64_t i,bool t){ return std::string(i%3==0?"Kriging":i%3==1?"universal Kriging":"linear")+" model in "+std::to_string(1+i/3)+" dimension(s), call sequences of length "+std::to_string(t?4:3); }
  void run(uint64_t i,mc::Ctx& c){ CTX=nullptr; int d=1+(int)(i/3),kind=(int)(i%3); V lb{-1,3},ub{3,4}; lb.resize(d); ub.resize(d); M rows; int n=3; for(int r=0;r<n;r++){ V x; for(int q=0;q<d;q++) x.push_back(lb[q]+(ub[q]-lb[q])*((r*(q+2)+1)%7)/7.0); x.push_back(r*r-3.0*r+0.5); rows.push_back(x); } writeCSV("k.csv",rows);
    std::unique_ptr<SurrogateModel> m; KrigingModel* kr=nullptr; if(kind<2){ kr=new KrigingModel; m.reset(kr); if(kind==1) kr->setLinearRegressionOn(); } else m.reset(new LinearModel); m->setDimension(d); m->setName("mod"); m->setNameOfInputFile("k.csv"); m->setBoxConstraints(Bounds(tv(lb),tv(ub))); double ratio=0; CTX=&c; m->readData(); m->normalizeData(); m->initializeSurrogateModel(); std::string W=describe(i,c.thorough)+":"; int k=0; bool fitted=true,trained=false; auto update=[&]{ if(kind<2) m->updateModelWithNewData(); else { m->readData(); m->normalizeData(); m->initializeSurrogateModel(); } k=(int)(ratio*rows.size()); };
    for(int s=0;s<(c.thorough?4:3);s++){ int a=c.choose(7); std::string op;
      if(a<3){ static const double RT[]={0,0.3,0.5}; if(RT[a]==ratio&&s) throw mc::Prune(); ratio=RT[a]; op=" ratio "+fmt(ratio); W+=op; m->setRatioValidationSamples(ratio); update(); }
      else if(a==3){ op=" re-read"; W+=op; update(); }
      else if(a==4){ if(rows.size()>4) throw mc::Prune(); V x; for(int q=0;q<d;q++) x.push_back(lb[q]+(ub[q]-lb[q])*(0.03+0.4*(rows.size()-3))); x.push_back(7.5+rows.size()); op=" add "+S(x); W+=op; rows.push_back(x); if(kind<2){ m->addNewSampleToData(tv(x)); k=(int)(ratio*rows.size()); } else { writeCSV("k.csv",rows); update(); } }
      else if(a==5){ op=" train"; W+=op; if(kind<2){ if(s+1<(c.thorough?4:3)) throw mc::Prune(); TRAIN=true; LCG=11; m->setNumberOfThreads(1); m->setNumberOfTrainingIterations(1); m->train(); TRAIN=false; k=0; trained=true; } else m->train(); }   // Kriging: training ends the split

      else { op=" copy"; W+=op; if(kr){ KrigingModel* q=new KrigingModel(*kr); m.reset(q); kr=q; } else { LinearModel* q=new LinearModel(*(LinearModel*)m.get()); m.reset(q); } }
      c.op(op); c.tick(); int N=(int)rows.size(); auto D=m->getData();
      c.check((int)D.getNumberOfSamplesValidation()==k&&(int)m->getNumberOfSamples()==N-k,"P12-model",W+": the model has "+std::to_string(m->getNumberOfSamples())+" training and "+std::to_string(D.getNumberOfSamplesValidation())+" validation samples instead of "+std::to_string(N-k)+" and "+std::to_string(k));
      // which samples of the file are training samples, by their raw inputs
      std::vector<int> tr,va; for(int q=0;q<N-k;q++){ V x=fromv(D.getRowXRaw(q)); for(int r=0;r<N;r++) if(close(x,V(rows[r].begin(),rows[r].begin()+d),1e-9,1e-9)) tr.push_back(r); } for(int r=0;r<N;r++) if(std::find(tr.begin(),tr.end(),r)==tr.end()) va.push_back(r);
      c.check((int)tr.size()==N-k,"P12-model",W+": the training samples of the model are not samples of the file"); c.state(mc::hashBytes(tr.data(),4*tr.size(),i)); if(!fitted) continue;
      auto pred=[&](int r){ V z; for(int q=0;q<d;q++) z.push_back((rows[r][q]-lb[q])/(ub[q]-lb[q])/d); return m->interpolate(tv(z)); };
      if(trained) for(int r=0;r<N;r++) c.check(closed(pred(r),rows[r][d],1e-5,1e-5),"P12-trained",W+": the trained model predicts "+fmt(pred(r))+" at the sample "+S(rows[r])); double e=0; for(int r:tr){ double q=pred(r)-rows[r][d]; e+=q*q; } e/=tr.size(); double g=m->calculateInSampleError(); c.check(closed(g,e,1e-6,1e-12),"P12-insample",W+": the in-sample error is "+fmt(g)+" instead of "+fmt(e));
      if(k){ double v=0; for(int r:va) v+=std::fabs(pred(r)-rows[r][d]); v/=va.size(); double w=m->calculateValidationError(); c.check(closed(w,v,1e-6,1e-12),"P12-validation",W+": the validation error is "+fmt(w)+" instead of "+fmt(v)); } } }
#endif
};
#if PART==1
V H::lb,H::ub;
#endif
MC_MAIN(H)
