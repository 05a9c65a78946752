// P26: saved hyper-parameters (PART 1) and populations (PART 2): save, damage in every way, load; judged against an own reading of the file.
#include "hx.hpp"
#include "SurrogateModels/INCLUDE/model_logger.hpp"
#include "SurrogateModels/INCLUDE/kriging_training.hpp"
#include "InternalOptimizers/INCLUDE/ea_optimizer.hpp"
#include <unistd.h>
using namespace Rodop; using namespace hx; using mc::fmt;
#ifndef PART
#define PART 1
#endif
static bool number(const std::string& t,double& v){ if(t.empty()) return false; char* e; v=strtod(t.c_str(),&e); while(*e==' '||*e=='\r'||*e=='\t') e++; return e!=t.c_str()&&!*e&&!isspace((unsigned char)t[0]); }
static std::vector<std::string> split(const std::string& t,char ch){ std::vector<std::string> r; std::string x; for(char q:t) if(q==ch){ r.push_back(x); x.clear(); } else x+=q; r.push_back(x); return r; }
#if PART==1
// the file as a list of numbers, one per line; false if a line is not a number
static bool parse(const std::string& t,V& v){ v.clear(); auto l=split(t,'\n'); if(!l.empty()&&l.back().empty()) l.pop_back(); for(auto& s:l){ double d; if(!number(s,d)) return false; v.push_back(d); } return true; }
struct H: mc::Harness {
  struct K{ int d,type,vals; }; // type 0 linear, 1 ordinary, 2 universal
  static std::vector<V> hyp(int d){ static const double th[]={0,1e-7,0.3333333333333333,3,12.3456789012,19.99999999,20,123456.789}, ga[]={1,1.7,2,1.23456789}; std::vector<V> r; for(int a=0;a<8;a++) for(int b=0;b<4;b++){ V h; for(int k=0;k<d;k++) h.push_back(th[(a+3*k)%8]); for(int k=0;k<d;k++) h.push_back(ga[(b+k)%4]); r.push_back(h); } return r; }
  static std::vector<V> wts(int d){ static const double w[]={0,-1,1e-9,12345678.9,3.14159265358979,-1e7}; std::vector<V> r; for(int a=0;a<6;a++) for(int b=0;b<6;b++){ V h; for(int k=0;k<=d;k++) h.push_back(w[(a+k*b)%6]); r.push_back(h); } return r; }
  std::vector<K> make(bool t){ std::vector<K> r; for(int d=1;d<=3;d++) for(int ty=0;ty<3;ty++){ int n=(int)(ty?hyp(d):wts(d)).size(); for(int v=0;v<n;v+=t?1:d==3?11:3) r.push_back({d,ty,v}); } return r; }
  uint64_t cases(bool t){ return make(t).size(); }
  std::string describe(uint64_t i,bool t){ K k=make(t)[i]; static const char* n[]={"linear model, weights ","ordinary Kriging, hyper-parameters ","universal Kriging, hyper-parameters "}; return std::to_string(k.d)+"-D "+n[k.type]+S((k.type?hyp(k.d):wts(k.d))[k.vals]); }
  void init(mc::Ctx&){ ModelLogger::getInstance().setLogLevel(CRITICAL); }
  static SurrogateModel* mk(const K& k){ V lb(k.d,-1),ub(k.d,3); M m; for(int i=0;i<5+k.d;i++){ V r; for(int j=0;j<k.d;j++) r.push_back(-1+4*std::fmod(0.37*(i+1)*(j+1)+0.11*j,1.0)); r.push_back(std::sin(1.3*i)*2+i); m.push_back(r); } if(!exists("t.csv")) writeCSV("t.csv",m); SurrogateModel* s; if(k.type==0) s=new LinearModel(); else { auto* q=new KrigingModel(); if(k.type==2) q->setLinearRegressionOn(); s=q; } s->setDimension(k.d); s->setName("mod"); s->setNameOfInputFile("t.csv"); s->setBoxConstraints(Bounds(tv(lb),tv(ub))); s->readData(); s->normalizeData(); s->initializeSurrogateModel(); return s; }
  static V get(const K& k,SurrogateModel* s){ return k.type? fromv(((KrigingModel*)s)->getHyperParameters()): fromv(((LinearModel*)s)->getWeights()); }
  static void set(const K& k,SurrogateModel* s,const V& v){ if(k.type){ ((KrigingModel*)s)->setHyperParameters(tv(v)); s->updateAuxilliaryFields(); } else ((LinearModel*)s)->setWeights(tv(v)); }
  static V pred(const K& k,SurrogateModel* s){ V r; for(int q=0;q<4;q++){ V x; for(int j=0;j<k.d;j++) x.push_back((0.1+0.27*q+0.05*j)/k.d); r.push_back(s->interpolate(tv(x))); if(k.type){ double f,e; s->interpolateWithVariance(tv(x),&f,&e); r.push_back(e); } } return r; }
  void run(uint64_t i,mc::Ctx& c){ K k=make(c.thorough)[i]; unlink("t.csv"); unlink("mod_hyperparameters.csv"); V h=(k.type?hyp(k.d):wts(k.d))[k.vals]; std::string W=describe(i,c.thorough)+": "; std::unique_ptr<SurrogateModel> a(mk(k)),b(mk(k)),r(mk(k)); set(k,a.get(),h); a->saveHyperParameters(); std::string txt=slurp("mod_hyperparameters.csv"); V w; c.check(parse(txt,w)&&w.size()==h.size(),"P26-file",W+"the file saved is '"+txt+"'"); for(size_t j=0;j<w.size();j++) c.check(closed(w[j],h[j],6e-6,1e-300),"P26-written",W+"value "+std::to_string(j)+" is written as "+fmt(w[j]));
    // other hyper-parameters before the file is loaded
    V before(h.size(),1.5); set(k,b.get(),before); int steps=2; V now=before; 
    for(int s=0;s<steps;s++){ std::vector<std::string> L=split(txt,'\n'); int nl=(int)L.size(); static const int later[]={0,2,5}; int kind=!s? c.choose(7): c.thorough? c.choose(6): later[c.choose(3)]; std::string t=txt,w2; bool miss=false; switch(kind){ case 0: w2="as saved"; break; case 1: t=txt+"\n"; w2="with a final newline"; break; case 2: { t.clear(); int j=s&&!c.thorough? 1: c.choose(nl+1); for(int q=0;q<j;q++) t+=L[q]+"\n"; w2="cut after "+std::to_string(j)+" lines"; break; } case 3: t=txt+"\n1.5"; w2="with an additional line"; if(c.flip()) t+="\n1.25\n1.75"; break; case 4: { int j=c.choose(nl); static const char* bad[]={"","abc","1.5x","1,5","--1"," "}; L[j]=bad[c.choose(6)]; t.clear(); for(int q=0;q<nl;q++) t+=L[q]+(q<nl-1?"\n":""); w2="damaged in line "+std::to_string(j)+": '"+L[j]+"'"; break; } case 5: miss=true; w2="missing"; break; default: { int j=c.choose((int)txt.size()); t=txt.substr(0,j); w2="cut after "+std::to_string(j)+" bytes"; } }
      if(miss) unlink("mod_hyperparameters.csv"); else spit("mod_hyperparameters.csv",t); bool viaTrain=k.type&&c.flip(); c.op("load the file "+w2+(viaTrain?" (warm start)":"")); W+="file "+w2+(viaTrain?" (warm start)":"")+": "; c.tick(); V z; bool ok=!miss&&parse(t,z)&&z.size()==h.size(); bool damaged=false; std::string err; V pb=pred(k,b.get());
      try{ if(viaTrain){ b->setReadWarmStartFileFlag(true); b->train(); } else { b->loadHyperParameters(); } } catch(std::exception& e){ err=e.what(); }
      (void)damaged; V g=get(k,b.get()); if(ok){ c.check(err.empty(),"P26-refused",W+"a complete file is refused: "+err); now=z; c.check(hx::same(g,z),"P26-loaded",W+"loaded "+S(g)+" instead of "+S(z)); } else { c.check(hx::same(g,now),"P26-kept",W+"the parameters are "+S(g)+" instead of the previous "+S(now)+(err.empty()?"":", error "+err)); V pa=pred(k,b.get()); c.check(hx::same(pa,pb),"P26-predictions",W+"the predictions change: "+S(pb)+" to "+S(pa)); }
      if(k.type&&!viaTrain) b->updateAuxilliaryFields(); set(k,r.get(),now); V p1=pred(k,b.get()),p2=pred(k,r.get()); c.check(hx::same(p1,p2),"P26-predictions",W+"predictions "+S(p1)+" instead of those of the same model with the loaded parameters "+S(p2)); c.state(mc::hashBytes(p1.data(),p1.size()*8,mc::hashBytes(t.data(),t.size()))); } }
};
#else
struct R0{ unsigned id; double f,fit,rp,dp; V g; };
static bool operator==(const R0&a,const R0&b){ return a.id==b.id&&eqd(a.f,b.f)&&eqd(a.fit,b.fit)&&eqd(a.rp,b.rp)&&eqd(a.dp,b.dp)&&hx::same(a.g,b.g); }
static std::vector<R0> get(const EAPopulation& p){ std::vector<R0> r; for(unsigned i=0;i<p.getSize();i++){ unsigned id=p.getIndividualIdInPopulationByOrder(i); EAIndividual q=p.getIndividual(id); r.push_back({q.getId(),q.getObjectiveFunctionValue(),q.getFitnessValue(),q.getReproductionProbability(),q.getDeathProbability(),fromv(q.getGenes())}); } return r; }
static std::string T(const std::vector<R0>& r){ std::string s; for(auto& q:r) s+="["+std::to_string(q.id)+" "+fmt(q.f)+" "+fmt(q.fit)+" "+fmt(q.rp)+" "+fmt(q.dp)+" "+S(q.g)+"]"; return s; }
struct H: mc::Harness {
  uint64_t cases(bool t){ return 3*4*(t?5:4)*2; }
  std::string describe(uint64_t i,bool t){ (void)t; return "population of "+std::to_string(2+i/12%(t?5:4))+" individuals with "+std::to_string(1+i%3)+" genes, values from set "+std::to_string(i/3%4)+(i/12/(t?5:4)?", read into a filled population":", read into a fresh population"); }
  void run(uint64_t i,mc::Ctx& c){ unsigned d=1+i%3; int al=i/3%4; int n=2+(int)(i/12%(c.thorough?5:4)); bool filled=i/12/(c.thorough?5:4); std::string W=describe(i,c.thorough)+": "; static const double mx=std::numeric_limits<double>::max(); static const double A[4][4]={{0,1,-1,2},{1.0/3,-2e-17,1e-300,3},{mx,-1,mx,0.1},{5e-324,-0.0,1e300,-1e300}};
    EAPopulation p; p.setDimension(d); static const unsigned ids[]={1,7,2147483647u,4294967295u,2147483648u,12}; for(int q=0;q<n;q++){ EAIndividual v(d); v.setId(ids[(q+al)%6]); V g; for(unsigned j=0;j<d;j++) g.push_back(A[(al+1+q)%4][(q+j)%4]); v.initializeGenes(tv(g)); v.setObjectiveFunctionValue(A[al][q%4]+(q>3?q:0)); p.addIndividual(v); }
    if(al!=3) p.updatePopulationProperties(); else for(int q=0;q<1;q++){ p.updatePopulationProperties(); } std::vector<R0> want=get(p); p.writeToCSV("pop.csv"); std::string txt=slurp("pop.csv"); 
    EAPopulation b; b.setDimension(d); std::vector<R0> now; unsigned bestNow=0; if(filled){ for(int q=0;q<3;q++){ EAIndividual v(d); v.setId(40+q); v.initializeGenes(tv(V(d,q))); v.setObjectiveFunctionValue(5-q); b.addIndividual(v); } b.updatePopulationProperties(); now=get(b); bestNow=42; }
    for(int s=0;s<2;s++){ auto L=split(txt,'\n'); std::string t=txt,w; bool bad=true,miss=false; static const int later[]={0,1,4}; int kind=!s? c.choose(8): c.thorough? c.choose(7): later[c.choose(3)]; switch(kind){ case 0: w="as saved"; bad=false; break; case 1: miss=true; w="missing"; break; case 2: { int r=1+c.choose(n); auto F=split(L[r],','); int j=c.choose((int)F.size()); static const char* x[]={"","abc","1.5x","1;5","1e","-"}; F[j]=x[c.choose(6)]; L[r].clear(); for(size_t q=0;q<F.size();q++) L[r]+=F[q]+(q+1<F.size()?",":""); t.clear(); for(size_t q=0;q<L.size();q++) t+=L[q]+(q+1<L.size()?"\n":""); w="with the value '"+F[j]+"' in row "+std::to_string(r)+" column "+std::to_string(j); break; }
        case 3: { int r=1+c.choose(n); L[r]+=c.flip()?",1.5":","; if(L[r].back()==','){ } t.clear(); for(size_t q=0;q<L.size();q++) t+=L[q]+(q+1<L.size()?"\n":""); w="with an additional value in row "+std::to_string(r); if(L[r].back()==',') throw mc::Prune(); break; }
        case 4: { int r=1+c.choose(n); L[r]=L[r].substr(0,L[r].rfind(',')); t.clear(); for(size_t q=0;q<L.size();q++) t+=L[q]+(q+1<L.size()?"\n":""); w="with a value missing in row "+std::to_string(r); break; }
        case 5: t=""; w="empty"; break;
        case 6: { EAPopulation o; o.setDimension(d+1); for(int q=0;q<2;q++){ EAIndividual v(d+1); v.setId(90+q); v.initializeGenes(tv(V(d+1,q))); v.setObjectiveFunctionValue(q); o.addIndividual(v); } o.updatePopulationProperties(); o.writeToCSV("o.csv"); t=slurp("o.csv"); w="of a population with another dimension"; break; }
        default: { // every cut within the rows (quick: rows sampled at every byte of the last two rows and of the header)
          size_t len=txt.size(); size_t from=L[0].size(); size_t at; if(c.thorough||len-from<260) at=from+1+c.choose((int)(len-from-1)); else at=len-1-c.choose(250); t=txt.substr(0,at); if(t.back()=='\n'||t.size()<=L[0].size()+1) throw mc::Prune(); w="cut after "+std::to_string(at)+" bytes"; } }
      if(miss) unlink("pop.csv"); else spit("pop.csv",t); c.op("read the file "+w); W+="file "+w+": "; c.tick(); std::string err; try{ b.readFromCSV("pop.csv"); } catch(std::exception& e){ err=e.what(); }
      auto g=get(b); if(!bad){ c.check(err.empty(),"P26-population-refused",W+"refused: "+err); now=want; c.check(g==want,"P26-population",W+"restored "+T(g)+" instead of "+T(want)); double m=want[0].f; for(auto& q:want) m=std::min(m,q.f); c.check(eqd(b.getTheBestIndividual().getObjectiveFunctionValue(),m)||b.getTheBestIndividual().getObjectiveFunctionValue()==m,"P26-population-best",W+"the best individual of the restored population has the value "+fmt(b.getTheBestIndividual().getObjectiveFunctionValue())+" instead of "+fmt(m)); bestNow=0; EAPopulation e; e.setDimension(d); spit("again.csv",""); b.writeToCSV("again.csv"); c.check(slurp("again.csv")==txt,"P26-population-again",W+"saving the restored population gives another file"); }
      else { c.check(!err.empty(),"P26-population-accepted",W+"accepted"); c.check(g==now,"P26-population-kept",W+"the population is "+T(g)+" instead of the previous "+T(now)); if(bestNow) c.check(b.getTheBestIndividual().getId()==bestNow,"P26-population-kept",W+"another best individual than before"); }
      c.state(mc::hashBytes(t.data(),t.size(),g.size())); } }
};
#endif
MC_MAIN(H)
