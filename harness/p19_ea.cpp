// P19 (and the population part of P26): the evolutionary optimiser under every outcome of its draws and every sequence of objective values.
#include "hx.hpp"
#include <iostream>
#include <sstream>
#define private public
#define protected public
#include "InternalOptimizers/INCLUDE/ea_optimizer.hpp"
#undef private
#undef protected
using namespace Rodop; using namespace hx; using mc::fmt;
#ifndef PART
#define PART 1
#endif
static mc::Ctx* C=nullptr; static uint64_t LCG=1; static int BUD=0,ABUD=0; static int MODE=0; // MODE 0: objective values and deaths explored; 1: parents, genes, mutations explored
static bool DEATH=false; static int NEWLEFT=0; static unsigned NNEW=0; static unsigned N0=0,NEV=0; static bool INIT=true;
static double lcg(){ LCG=LCG*6364136223846793005ull+1442695040888963407ull; return (double)(LCG>>11)/9007199254740992.0; }
static const double PK[]={0,0.26,0.51,0.76,0.99999999999999989};
double rodeo_mc_real(double a,double b){ if(!(a<b)) return a; double p=std::nextafter(b,a); bool unit=a==0&&b==1; 
  if(unit&&DEATH&&MODE==0&&BUD>0){ BUD--; return PK[C->choose(5)]; }
  if(unit&&!DEATH&&MODE==1&&BUD>0&&!INIT){ BUD--; return PK[C->choose(5)]; }
  if(!unit&&MODE==1&&BUD>0&&!INIT){ BUD--; int k=C->choose(3); return k==0?a:k==1?p:a+0.37*(b-a); }
  double t=a+(b-a)*lcg(); return t<b?t:p; }
double rodeo_mc_normal(double m,double s){ if(MODE==1&&BUD>0){ BUD--; int k=C->choose(3); return k==0? m-8*s: k==1? m+8*s: m+0.3*s; } double u=0; for(int i=0;i<12;i++) u+=lcg(); return m+s*(u-6); }
long rodeo_mc_int(long a,long b){ return a+(long)(lcg()*(double)(b-a+1)); }
int rodeo_mc_rand(){ return (int)(lcg()*2147483647.0); }
struct Ev{ V x; double f; }; static std::vector<Ev> EV; static V LB,UB; static const double* AL=nullptr; static int NA=0; static int SHAPE=0; static std::string W; static int PAT=0;
static const double BIG=std::numeric_limits<double>::max();
static const double A0[]={0,1,-1},A1[]={1e-17,0,1,BIG},A2[]={1e15,1e15+0.125,-7},A3[]={-3,BIG,-3.5},A4[]={5,5,5},A5[]={0,0,0};
static const double* AA[]={A0,A1,A2,A3,A4,A5}; static const int AN[]={3,4,3,3,1,1};
static double obj(double* x){ int d=(int)LB.size(); V v(x,x+d); for(int i=0;i<d;i++) C->check(v[i]>=LB[i]&&v[i]<=UB[i],"P19-bounds",W+"evaluated candidate "+S(v)+" outside the bounds "+S(LB)+" "+S(UB)); C->tick();
  double f; if(SHAPE==0) f=ABUD>0? (ABUD--,AL[C->choose(NA)]): AL[(int)(lcg()*NA)%NA]; else if(SHAPE==1){ f=0; for(double q:v) f+=(q-0.3)*(q-0.3); } else if(SHAPE==2) f=std::floor(v[0]*2); else if(SHAPE==3) f=v[0]>0.5? BIG: -v[0]; else f=AL[((int)NEV*(1+PAT%3)+PAT/3)%NA]; 
  EV.push_back({v,f}); NEV++; if(INIT&&NEV>=N0){ INIT=false; DEATH=false; NEWLEFT=(int)NNEW; } else if(!INIT){ if(--NEWLEFT==0){ DEATH=true; NEWLEFT=(int)NNEW; } } return f; }
static void judge(EAOptimizer& o,size_t from,const V& loaded,unsigned size,const std::string& w){ double m=std::numeric_limits<double>::infinity(); for(size_t i=from;i<EV.size();i++) m=std::min(m,EV[i].f); for(double l:loaded) m=std::min(m,l);
  double b=o.getBestObjectiveFunctionValue(); C->check(b==m,"P19-best",w+": the best value reported is "+fmt(b)+", the smallest value seen is "+fmt(m)); V x=fromv(o.getBestDesignVector()); bool f=false; for(auto& e:EV) f|=e.f==b&&hx::same(e.x,x); if(loaded.empty()) C->check(f,"P19-solution",w+": the reported point "+S(x)+" was not evaluated with the reported value "+fmt(b));
  C->check(o.getPopulationSize()==size,"P19-size",w+": population size "+std::to_string(o.getPopulationSize())+" instead of "+std::to_string(size)); C->check(!o.population.hasRepeatedIDs(),"P19-ids",w+": the population has repeated IDs"); { size_t want=EV.size()-(loaded.empty()?0:from); C->check(o.history.population.size()==want||(!loaded.empty()&&o.history.population.size()==want+loaded.size()),"P19-births",w+": "+std::to_string(o.history.population.size())+" individuals on record, "+std::to_string(want)+" were evaluated"); } std::set<unsigned> ids; for(auto& i:o.history.population) C->check(ids.insert(i.getId()).second,"P19-ids",w+": two evaluated individuals have the ID "+std::to_string(i.getId()));
  uint64_t st=size; for(auto& i:o.population.population){ bool ok=!loaded.empty(); V g=fromv(i.getGenes()); for(auto& e:EV) ok|=e.f==i.getObjectiveFunctionValue()&&hx::same(e.x,g); C->check(ok,"P19-individual",w+": individual "+std::to_string(i.getId())+" carries the value "+fmt(i.getObjectiveFunctionValue())+" which its genes "+S(g)+" never had"); double f2=i.getObjectiveFunctionValue(); st=mc::hashBytes(&f2,8,st); } C->state(st); }
struct K{ int d,n0,nw,de,G,mx,sh,al,mode,kind; };
struct H: mc::Harness {
  void init(mc::Ctx&){ }
  std::vector<K> make(bool t){ std::vector<K> r; 
    for(int kind=0;kind<4;kind++) for(int n0=2;n0<=(t?5:4);n0++) for(int nw=1;nw<=3;nw++) for(int de=0;de<n0+nw&&de<=4;de++) for(int G=1;G<=2;G++){ if(n0+G*(nw-de)<2||(G==2&&n0+nw-de<2)) continue; 
      for(int al=0;al<6;al++){ if(kind>=2&&(al==2||al==5)) continue; if(!t&&((al!=0&&al!=1&&al!=3&&n0!=3)||(kind>0&&nw==3))) continue; r.push_back({1,n0,nw,de,G,1000,0,al,0,kind}); }   // values and deaths explored
      if(kind==0||t) for(int sh=1;sh<=3;sh++) for(int d=1;d<=2;d++) r.push_back({d,n0,nw,de,G,1000,sh,0,1,kind}); }      // parents, genes and mutations explored
    // larger populations: ties around the protected tenth
    for(int n0=9;n0<=(t?24:13);n0++) for(int nw:{2,5}) for(int de:{1,3,n0}) for(int al=0;al<4;al++) for(int p=0;p<9;p++) r.push_back({1,n0,nw,de,1,1000,4,al,0,p});
    // budget: maximum number of evaluations against generations
    for(int mx=1;mx<=16;mx++) for(int G=1;G<=4;G++) for(int nw=1;nw<=3;nw++) for(int kind=0;kind<3;kind++) r.push_back({1,4,nw,1,G,mx,1,0,0,kind});
    return r; }
  const std::vector<K>& all(bool t){ static std::vector<K> a=make(false),b=make(true); return t?b:a; }
  uint64_t cases(bool t){ return all(t).size(); }
  std::string describe(uint64_t i,bool t){ auto& k=all(t)[i]; static const char* kn[]={"one run","two runs of one object","warm start in a new object","step by step"}; return std::to_string(k.d)+"-D, initial population "+std::to_string(k.n0)+", "+std::to_string(k.nw)+" new, "+std::to_string(k.de)+" deaths, "+std::to_string(k.G)+" generations, maximum "+std::to_string(k.mx)+", objective "+(k.sh==0?"values explored from set "+std::to_string(k.al): k.sh==4?"pattern "+std::to_string(k.kind)+" over set "+std::to_string(k.al): "shape "+std::to_string(k.sh))+", "+(k.sh==4?"one run":kn[k.kind]); }
  static void conf(EAOptimizer& o,const K& k){ o.setDimension(k.d); o.setBounds(tv(LB),tv(UB)); o.setObjectiveFunction(obj); o.setInitialPopulationSize(k.n0); o.setNumberOfNewIndividualsInAGeneration(k.nw); o.setNumberOfDeathsInAGeneration(k.de); o.setNumberOfGenerations(k.G); o.setMutationProbability(0.3); o.setMaximumNumberOfGeneratedIndividuals(k.mx); o.setFilenameWarmStart("warm.csv"); }
  static void reset(const K& k,bool initial){ NEV=0; N0=k.n0; NNEW=k.nw; NEWLEFT=k.nw; INIT=initial; DEATH=false; }
  void run(uint64_t i,mc::Ctx& c){ K k=all(c.thorough)[i]; C=&c; EV.clear(); LCG=31+i; LB.clear(); UB.clear(); for(int j=0;j<k.d;j++){ LB.push_back(j?3:-1); UB.push_back(j?5:2); } MODE=k.mode; SHAPE=k.sh; AL=AA[k.al]; NA=AN[k.al]; W=describe(i,c.thorough)+": "; PAT=k.kind; 
    int kind=k.sh==4?0:k.kind; ABUD=c.thorough? (kind==0?8:7): kind==0||kind==3?5:4; BUD=k.mode? (c.thorough?6:5): k.sh==4? 3: (c.thorough?4:2); if(kind==1||kind==2) ABUD=std::min(ABUD,c.thorough?7:4); if(NA==4) ABUD--;
    EAOptimizer o; conf(o,k); int g=0; unsigned tot=(unsigned)k.n0; do{ g++; tot+=k.nw; } while(g<k.G&&tot<(unsigned)k.mx); unsigned size=k.n0+g*(k.nw-k.de);
    try{
      if(kind==3){ reset(k,true); o.initializePopulation(); C->check(EV.size()==(size_t)k.n0,"P19-count",W+"initial population: "+std::to_string(EV.size())+" evaluations"); judge(o,0,{},k.n0,W+"initial population"); double last=o.getBestObjectiveFunctionValue(); for(int q=0;q<k.G;q++){ DEATH=false; o.generateANewGeneration(); judge(o,0,{},k.n0+(q+1)*(k.nw-k.de),W+"after generation "+std::to_string(q)); c.check(o.getBestObjectiveFunctionValue()<=last,"P19-worse",W+"the best value gets worse"); last=o.getBestObjectiveFunctionValue(); } }
      else{ reset(k,true); o.optimize(); c.check(EV.size()==tot,"P19-count",W+std::to_string(EV.size())+" evaluations instead of "+std::to_string(tot)); judge(o,0,{},size,W+"after the run");
        if(kind==1){ size_t at=EV.size(); reset(k,true); DEATH=false; o.optimize(); c.check(EV.size()-at==tot,"P19-count",W+"second run: "+std::to_string(EV.size()-at)+" evaluations instead of "+std::to_string(tot)); judge(o,at,{},size,W+"after the second run"); }
        if(kind==2){ o.writeWarmRestartFile(); V l; for(auto& q:o.population.population) l.push_back(q.getObjectiveFunctionValue()); size_t at=EV.size(); double b=o.getBestObjectiveFunctionValue(); { std::string t=slurp("warm.csv"); std::vector<std::string> ls; std::istringstream is(t); for(std::string q;std::getline(is,q);) ls.push_back(q); int h=ls.empty()||ls[0].find_first_of("xXgGiIoO")==std::string::npos?0:1; int ord=c.choose(3); if(ord==1) std::reverse(ls.begin()+h,ls.end()); if(ord==2&&(int)ls.size()>h+1) std::rotate(ls.begin()+h,ls.begin()+h+1,ls.end()); if(ord){ std::string z; for(auto& q:ls) z+=q+"\n"; spit("warm.csv",z); c.op("rows of the restart file in another order"); } } EAOptimizer p; conf(p,k); p.setWarmStartOn(); reset(k,false); unsigned cap=size; bool can=true; for(int q=0;q<k.G;q++){ can&=cap>=2; cap+=k.nw; can&=cap>=(unsigned)k.de+2; cap-=k.de; } if(!can) throw mc::Prune(); p.optimize(); unsigned w=0,gg=0; do{ gg++; w+=k.nw; } while((int)gg<k.G&&w<(unsigned)k.mx); c.check(EV.size()-at==w,"P19-count",W+"warm-started run: "+std::to_string(EV.size()-at)+" evaluations instead of "+std::to_string(w)); 
          for(auto& v:l){ (void)v; } (void)b; judge(p,at,l,size+gg*(k.nw-k.de),W+"after the warm-started run"); } }
    } catch(mc::Violation&){ throw; } catch(mc::Prune&){ throw; } catch(std::exception& e){ throw mc::Violation{"P19-error",W+"ends with the error "+e.what()}; } }
};
MC_MAIN(H)
