// P20: configuration documents. Every document obtained from base documents by one or two changes is handed to the real
// driver; an own reading of the document says whether it must be rejected, and otherwise which study has to be carried out.
#include <bits/stdc++.h>
#include <sys/stat.h>
#include <unistd.h>
#include <dirent.h>
#define private public
#define protected public
#include "Driver/INCLUDE/driver_xml.hpp"
#undef private
#undef protected
#include "hx.hpp"
using namespace Rodop; using namespace hx; using mc::fmt;
static uint64_t LCG; static double lcg(){ LCG=LCG*6364136223846793005ull+1442695040888963407ull; return (double)(LCG>>11)/9007199254740992.0; }
double rodeo_mc_real(double a,double b){ return a+lcg()*(b-a); }
double rodeo_mc_normal(double m,double s){ double u=0; for(int i=0;i<12;i++) u+=lcg(); return m+s*(u-6); }
long rodeo_mc_int(long a,long b){ return a+(long)(lcg()*(double)(b-a+1)); }
int rodeo_mc_rand(){ return (int)(lcg()*2147483647.0); }
static double udf(int id,const double* x){ return x[0]*(id+1)-0.25*id; }
double constraintFunction0(double* x){ return udf(0,x); }
double constraintFunction1(double* x){ return udf(1,x); }
double constraintFunction2(double* x){ return udf(2,x); }
double constraintFunction3(double* x){ return udf(3,x); }
static Optimizer* HANDED; static std::unique_ptr<Optimizer> COPY; // the optimizer as the run has left it
int rodeo_main(int,char**); // the program itself
 static unsigned INNER,THREADS; static std::vector<std::pair<std::string,unsigned>> TRAINED;
extern "C" void __real__ZN5Rodop9Optimizer34performEfficientGlobalOptimizationEv(Optimizer*);
extern "C" void __wrap__ZN5Rodop9Optimizer34performEfficientGlobalOptimizationEv(Optimizer* o){ INNER=o->iterMaxAcquisitionFunction; THREADS=o->numberOfThreads; o->setMaximumNumberOfInnerIterations(2); o->setNumberOfThreads(1); __real__ZN5Rodop9Optimizer34performEfficientGlobalOptimizationEv(o); COPY.reset(new Optimizer(*o)); HANDED=COPY.get(); }
extern "C" void __wrap__ZN5Rodop17ObjectiveFunction14trainSurrogateEv(ObjectiveFunction* f){ TRAINED.push_back({f->definition.name,f->numberOfIterationsForSurrogateTraining}); }
extern "C" void __wrap__ZN5Rodop18ConstraintFunction14trainSurrogateEv(ConstraintFunction* f){ TRAINED.push_back({f->definition.name,f->numberOfIterationsForSurrogateTraining}); }
struct En{ std::string k,v; int rep=1; std::string v2; bool open=false; }; // rep 0 removed, 2 twice (second value v2)
struct Sec{ std::string tag; std::vector<En> e; int rep=1; bool open=false; };
struct Doc{ Sec gen,par,obj; std::vector<Sec> p,c; int order=0; };
static En e(const std::string& k,const std::string& v){ return {k,v,1,"",false}; }
static Sec con(int q,bool u){ std::string n=std::string(1,"abc"[q]); Sec s{"constraint_function",{}}; s.e={e("name","con"+n),e("constraint_type",q%2?"gt":"lt"),e("constraint_value",q==0?"0.5":q==1?"-2":"1e1")}; if(u) s.e.push_back(e("user_defined_function","yes")); else { s.e.push_back(e("executable_filename","con"+n+".sh")); s.e.push_back(e("output_filename","con"+n+".dat")); s.e.push_back(e("training_data_filename","con"+n+".csv")); s.e.push_back(e("design_vector_filename","dv"+n+".dat")); s.e.push_back(e("surrogate_model_type",q?"universal_kriging":"ordinary_kriging")); s.e.push_back(e("number_of_training_iterations",std::to_string(300+q))); } return s; }
static Doc base(int b){ if(b==3){ Doc d=base(0); d.gen.e[2].v="3"; d.p[0].e[1].v="INT"; d.p[0].e.push_back(e("increment","0.7")); d.p.push_back({"parameter",{e("name","Y"),e("type","DISCRETE"),e("lower_bound","-2"),e("upper_bound","6"),e("increment","1.6")}}); d.p[1]={"parameter",{e("name","x2"),e("type","discrete"),e("lower_bound","1"),e("upper_bound","4"),e("increment","0.25")}}; d.obj.e={e("name","Obj"),e("executable_filename","Obj.sh"),e("output_filename","objOUT.dat"),e("training_data_filename","Obj.csv"),e("design_vector_filename","dV.dat")}; d.c.push_back(con(0,false)); for(auto& x:d.c[0].e) if(x.k.find("filename")!=std::string::npos) x.v[0]=(char)toupper(x.v[0]); return d; } Doc d; d.gen={"general_settings",{e("name","Study"),e("type","Optimization"),e("dimension","2"),e("number_of_function_evaluations","1"),e("display","ON"),e("max_number_of_inner_iterations","77"),e("number_of_threads","2")}}; d.par={"optimization_parameters",{}}; d.p={{"parameter",{e("name","x1"),e("type","REAL"),e("lower_bound","-1.5"),e("upper_bound","2.0")}},{"parameter",{e("name","x2"),e("type",b?"INT":"continuous"),e("lower_bound","1"),e("upper_bound","4"),e("increment","0.5")}}}; d.obj={"objective_function",{e("name","obj"),e("executable_filename","obj.sh"),e("output_filename","obj.dat"),e("training_data_filename","obj.csv"),e("design_vector_filename","dv.dat"),e("surrogate_model_type","ordinary_kriging"),e("number_of_training_iterations","200")}};
  if(b>=1){ d.c.push_back(con(0,false)); d.c.push_back(con(1,b==2)); } if(b==2) d.c.push_back(con(2,false)); return d; }
// values tried for an entry: good ones have to be carried out, bad ones rejected
static void values(const Sec& s,const En& x,std::vector<std::string>& out){ auto is=[&](const char* k){ return x.k==k; }; std::string g=s.tag;
  if(is("dimension")) out={"","abc","0","-2","2.5","2x","1","3","2 2","0x2","02"}; else if(is("number_of_function_evaluations")) out={"2","","0","-1","1.5","2x","99999999999","1 1","three","+2"}; else if(is("max_number_of_inner_iterations")||is("number_of_threads")||is("number_of_training_iterations")) out={"3","","0","-1","1.5","2x","99999999999","1 1","-5000000"};
  else if(is("type")&&g=="general_settings") out={"optimization","OPTIMIZATION","","optimise","opti mization"}; else if(is("type")) out={"real","continuous","DISCRETE","int","","float","in t","Real"}; else if(is("lower_bound")) out={"-1e-1","1.25","1.2500000333","4.0","5","","abc","1,5","1.0.0","3x","nan","1e999","1 0","--1"}; else if(is("upper_bound")) out={"2.75","1e1","-1.5","1","","abc","9,5","3x","nan","1e999","1 0"}; else if(is("increment")) out={"1","0.75","3","","0","-1","3.5","x","0.5y"};
  else if(is("surrogate_model_type")) out={"Kriging","universal_kriging","ordinary_kriging","default","","gradient_enhanced","tangent_enhanced","linear","ordinary kriging"}; else if(is("constraint_type")) out={"lt","GT","","le","<","TT","g t"}; else if(is("constraint_value")) out={"0","-0.75","1e-3","0.3333333333","","abc","1,5","3x","nan","1 0","1e999"}; else if(is("user_defined_function")) out={"no","ON","off","","y","True","enable","enabled","n","false","disabled"};
  else if(is("name")) out={"","other","two words"}; else if(is("executable_filename")) out={"","alt.sh","nothere.sh"}; else if(is("output_filename")) out={"","alt.dat","my out.dat"}; else if(is("training_data_filename")) out={"","alt.csv","nothere.csv","one.csv"}; else if(is("design_vector_filename")) out={"","dvalt.dat","dv.dat"}; else if(is("display")) out={"OFF",""}; 
  out.erase(std::remove(out.begin(),out.end(),x.v),out.end()); }
struct Mu{ int sec,ent,kind; std::string v; }; // sec 0 gen 1 par 2 obj 3.. parameters then constraints
static std::vector<Sec*> secs(Doc& d){ std::vector<Sec*> r{&d.gen,&d.par,&d.obj}; for(auto& p:d.p) r.push_back(&p); for(auto& c:d.c) r.push_back(&c); return r; }
enum{ REMOVE,TWICE,TWICE2,OPEN,VALUE,SWAP,SREMOVE,STWICE,SOPEN,SSWAP,ORDER };
static std::vector<Mu> muts(int b){ Doc d=base(b); std::vector<Mu> r; auto S=secs(d); for(size_t s=0;s<S.size();s++){ for(size_t q=0;q<S[s]->e.size();q++){ for(int k:{REMOVE,TWICE,TWICE2,OPEN}) r.push_back({(int)s,(int)q,k,""}); std::vector<std::string> v; values(*S[s],S[s]->e[q],v); for(auto& t:v) r.push_back({(int)s,(int)q,VALUE,t}); if(q) r.push_back({(int)s,(int)q,SWAP,""}); } for(int k:{SREMOVE,STWICE,SOPEN}) r.push_back({(int)s,0,k,""}); } r.push_back({3,4,SSWAP,""}); int np=(int)d.p.size(); for(size_t c=1;c<d.c.size();c++) r.push_back({2+np+(int)c,3+np+(int)c,SSWAP,""}); if(np==3) r.push_back({4,5,SSWAP,""}); for(int o=1;o<6;o++) r.push_back({o,0,ORDER,""}); return r; }
static std::string text(int b,const Mu& m){ Doc d=base(b); auto S=secs(d); if(m.kind==ORDER) return "order of sections "+std::to_string(m.sec); static const char* n[]={"entry removed: ","entry given twice: ","entry given twice with different values: ","closing tag missing: ","value of ","entries swapped: ","section removed","section given twice","closing tag of the section missing","sections swapped"}; std::string w=S[m.sec]->tag+" "+std::to_string(m.sec); return w+": "+n[m.kind]+(m.kind<=SWAP? S[m.sec]->e[m.ent].k:"")+(m.kind==VALUE?" = '"+m.v+"'":""); }
static void change(Doc& d,const Mu& m){ auto S=secs(d); switch(m.kind){ case ORDER: d.order=m.sec; return; case SREMOVE: S[m.sec]->rep=0; return; case STWICE: S[m.sec]->rep=2; return; case SOPEN: S[m.sec]->open=true; return; case SSWAP: std::swap(*S[m.sec],*S[m.ent]); return; case REMOVE: S[m.sec]->e[m.ent].rep=0; return; case TWICE: S[m.sec]->e[m.ent].rep=2; S[m.sec]->e[m.ent].v2=S[m.sec]->e[m.ent].v; return; case TWICE2: S[m.sec]->e[m.ent].rep=2; S[m.sec]->e[m.ent].v2="1"; return; case OPEN: S[m.sec]->e[m.ent].open=true; return; case VALUE: S[m.sec]->e[m.ent].v=m.v; return; case SWAP: std::swap(S[m.sec]->e[m.ent],S[m.sec]->e[m.ent-1]); return; } }
static std::string render(const Doc& d,int style){ std::string nl=style==1?"":style==2?"\r\n":"\n", in=style==2?"\t\t":"", sp=style==0?" ":style==2?"\r\n\t ":""; auto ent=[&](const En& x){ std::string r; for(int k=0;k<x.rep;k++){ if(style==3) r+="<!-- <"+x.k+">9</"+x.k+"> -->"+nl; r+=in+"<"+x.k+">"+sp+(k?x.v2:x.v)+sp+(x.open?"":"</"+x.k+">")+nl; } return r; }; auto sec=[&](const Sec& s,const std::string& inner){ std::string r; for(int k=0;k<s.rep;k++){ if(style==3) r+="<!--"+nl+"<"+s.tag+">"+nl+"</"+s.tag+">"+nl+"-->"+nl; r+="<"+s.tag+">"+nl; for(auto& x:s.e) r+=ent(x); r+=inner+(s.open?"":"</"+s.tag+">")+nl; } return r; };
  std::string P; for(auto& p:d.p) P+=sec(p,""); std::string t[4]={sec(d.gen,""),sec(d.par,P),sec(d.obj,""),""}; for(auto& c:d.c) t[3]+=sec(c,""); static const int o[6][4]={{0,1,2,3},{3,2,1,0},{1,0,3,2},{2,3,0,1},{3,0,1,2},{0,3,2,1}}; std::string r="<optimization_study>"+nl; for(int k:o[d.order]) r+=t[k]; return r+"</optimization_study>"+nl; }
// own reading of the document
struct F{ std::string name,exe,out,train,dv; int model=0,iter=10000; char dir='<'; double target=0; bool udf=false; };
struct St{ std::string name="OptimizationStudy"; int dim=0,N=0,inner=-1,threads=1; std::vector<std::string> pn; V lb,ub,inc; F o; std::vector<F> c; };
struct Bad{ std::string why; };
static const std::string* get(const Sec& s,const char* k){ const std::string* r=nullptr; for(auto& x:s.e) if(x.rep&&x.k==k){ r=&x.v; } return r&&!r->empty()? r: nullptr; }
static std::string need(const Sec& s,const char* k){ auto* p=get(s,k); if(!p) throw Bad{s.tag+" has no "+k}; return *p; }
static double num(const std::string& t){ char* q; double v=strtod(t.c_str(),&q); if(*q||q==t.c_str()||std::isnan(v)||std::isinf(v)) throw Bad{"'"+t+"' is not a number"}; return v; }
static int inum(const std::string& t,long lo){ size_t i=t[0]=='+'||t[0]=='-'; if(i==t.size()) throw Bad{"not an integer"}; for(size_t j=i;j<t.size();j++) if(!isdigit((unsigned char)t[j])) throw Bad{"'"+t+"' is not an integer"}; long v=atol(t.c_str()); if(v<lo||v>2147483647L) throw Bad{"'"+t+"' is out of range"}; return (int)v; }
static std::string low(std::string s){ for(auto& c:s) c=(char)tolower(c); return s; }
static int model(const Sec& s){ auto* p=get(s,"surrogate_model_type"); if(!p) return 0; std::string t=low(*p); if(t=="kriging"||t=="ordinary_kriging"||t=="default") return 0; if(t=="universal_kriging") return 1; throw Bad{"surrogate model "+*p}; }
static int DIM=2; static int columns(const std::string& f){ return f=="one.csv"?1:DIM; }
static St expected(const Doc& d){ for(auto* s:{&d.gen,&d.par,&d.obj}) if(s->rep!=1||s->open) throw Bad{"section "+s->tag}; auto clean=[](const Sec& s){ if(s.open) throw Bad{"section not closed"}; for(auto& x:s.e) if(x.rep==2||(x.rep&&x.open)) throw Bad{x.k+" given twice or not closed"}; }; clean(d.gen); clean(d.obj); St r; if(auto* p=get(d.gen,"name")) r.name=*p; if(low(need(d.gen,"type"))!="optimization") throw Bad{"type"}; r.dim=inum(need(d.gen,"dimension"),1); r.N=inum(need(d.gen,"number_of_function_evaluations"),1); 
  auto opt=[&](const Sec& s,const char* k,int def){ for(auto& x:s.e) if(x.rep&&x.k==k) return inum(x.v.empty()?"-":x.v,1); return def; }; r.inner=opt(d.gen,"max_number_of_inner_iterations",-1); r.threads=opt(d.gen,"number_of_threads",1);
  for(auto& p:d.p) for(int k=0;k<p.rep;k++){ clean(p); r.pn.push_back(need(p,"name")); for(size_t z=0;z+1<r.pn.size();z++) if(r.pn[z]==r.pn.back()) throw Bad{"two parameters of one name"}; std::string t=low(need(p,"type")); if(t!="real"&&t!="continuous"&&t!="int"&&t!="discrete") throw Bad{"type of parameter"}; double l=num(need(p,"lower_bound")),u=num(need(p,"upper_bound")); if(!(l<u)) throw Bad{"bounds"}; double inc=0; if(t=="int"||t=="discrete"){ inc=num(need(p,"increment")); if(!(inc>0&&inc<=u-l)) throw Bad{"increment"}; } r.lb.push_back(l); r.ub.push_back(u); r.inc.push_back(inc); } if((int)r.lb.size()!=r.dim) throw Bad{"number of parameters"}; 
  auto files=[&](const Sec& s,F& f){ f.exe=need(s,"executable_filename"); f.out=need(s,"output_filename"); f.train=need(s,"training_data_filename"); f.dv=need(s,"design_vector_filename"); f.model=model(s); if(f.exe=="nothere.sh") throw Bad{"no such program"}; if(f.train=="nothere.csv") throw Bad{"no such training data"}; if(r.dim!=columns(f.train)) throw Bad{"training data of another number of parameters"}; };
  r.o.name=need(d.obj,"name"); files(d.obj,r.o); r.o.iter=opt(d.obj,"number_of_training_iterations",10000);
  for(auto& s:d.c) for(int k=0;k<s.rep;k++){ clean(s); F f; f.name=need(s,"name"); for(auto& g:r.c) if(g.name==f.name) throw Bad{"two constraints of one name"}; std::string t=low(need(s,"constraint_type")); if(t!="lt"&&t!="gt") throw Bad{"constraint type"}; f.dir=t=="lt"?'<':'>'; f.target=num(need(s,"constraint_value")); auto* u=get(s,"user_defined_function"); if(u) for(const char* w:{"yes","y","on","true","enable","enabled"}) f.udf|=low(*u)==w; if(!f.udf) files(s,f); f.iter=opt(s,"number_of_training_iterations",10000); r.c.push_back(f); } return r; }
static bool lenient(const Doc& d){ // documents about which nothing is claimed: an optional number left empty, an increment of a continuous parameter that is not a number
  Doc q=d; auto S=secs(q); for(auto* s:S) if(s->rep) for(auto& x:s->e){ if(!x.rep) continue; if(x.v.empty()&&(x.k=="display")) return true; if(x.k=="increment"){ auto* t=get(*s,"type"); std::string l=t?low(*t):""; if(l=="real"||l=="continuous"){ try{ num(x.v); } catch(Bad&){ return true; } } } } return false; }
static V cvals(int f,int n){ V r; for(int i=0;i<n;i++) r.push_back(f<0? 3.0-0.5*i: (f%2? -2.5+0.4*i: 0.2+0.25*i)); return r; }
static M X0; static void world(int b){ DIM=b==3?3:2; X0=M{{-1,1},{0.5,2.5},{1.75,4},{-0.25,3}}; if(b==3){ X0=M{{-1.5,1,-2},{-0.1,2.5,4.4},{1.3,4,-0.4},{0.6,3,2.8}}; } }
struct H: mc::Harness {
  std::vector<std::vector<Mu>> L; H(){ for(int b=0;b<4;b++) L.push_back(muts(b)); }
  // one change in four layouts; two changes (quick: the first document with two constraints, pairs of changes that keep it well formed or touch the same section; thorough: all)
  uint64_t single() const { return (L[0].size()+L[1].size()+L[2].size()+L[3].size()+4); }
  bool harmless(int b,const Mu& m) const { world(b); Doc d=base(b); change(d,m); try{ expected(d); } catch(Bad&){ return false; } return !lenient(d); }
  uint64_t cases(bool t){ return 1+single()+(t?L[0].size():0)+L[1].size()+(t?L[2].size()+L[3].size():0); }
  void decode(uint64_t i,bool t,int& b,int& a,bool& two){ two=i>=single(); if(!two){ for(b=0;;b++){ if(i<L[b].size()+1) break; i-=L[b].size()+1; } a=(int)i-1; return; } i-=single(); for(b=t?0:1;;b++){ if(i<L[b].size()) break; i-=L[b].size(); } a=(int)i; }
  std::string describe(uint64_t i,bool t){ if(i--==0) return "command line"; int b,a; bool two; decode(i,t,b,a,two); return "document "+std::to_string(b)+(two?", two changes, ":", ")+(a<0?"unchanged":text(b,L[b][a])); }
  static En S_(int b,const Mu& m){ if(m.kind>SWAP) return En{}; Doc d=base(b); return secs(d)[m.sec]->e[m.ent]; }
  void init(mc::Ctx&){ for(const char* l:{"optimization.log","model.log","objectives.log","driver.log"}){ unlink(l); if(symlink("/dev/null",l)){} } }
  static void prog(const std::string& exe,const std::string& dv,const std::string& out,int base){ spit(exe,"#!/bin/sh\necho x >> "+exe+".calls\nwhile read l; do echo $l; done < '"+dv+"' > "+exe+".seen\nn=0\nwhile read l; do n=$((n+1)); done < "+exe+".calls\necho "+std::to_string(base)+".$n > '"+out+"'\n"); chmod(exe.c_str(),0755); }
  void run(uint64_t i,mc::Ctx& c){ if(i--==0){ line(c); return; } int b,a; bool two; decode(i,c.thorough,b,a,two); world(b); Doc d=base(b); std::string W="document "+std::to_string(b); int style=0; bool quietPair=false;
    if(a>=0){ change(d,L[b][a]); W+=", "+text(b,L[b][a]); } if(two){ int k=a+1; int rest=(int)L[b].size()-k; if(rest<=0) throw mc::Prune(); int n=k+c.choose(rest); const Mu &m=L[b][a],&q=L[b][n]; bool hm=harmless(b,m),hq=harmless(b,q); bool cross=S_(b,m).k=="dimension"&&q.v=="one.csv"&&q.sec==2; if(!c.thorough&&!cross&&!((hm&&hq)||(m.sec==q.sec&&m.kind<=SWAP&&q.kind<=SWAP&&(hm||hq)))) throw mc::Prune(); if(m.kind>=SREMOVE&&q.kind<=SSWAP&&m.sec==q.sec) throw mc::Prune(); if(m.kind==SSWAP||q.kind==SSWAP){ } change(d,q); W+=" and "+text(b,q); (void)quietPair; } else style=c.choose(4);
    static const char* SN[]={"","one line","DOS line ends","comments"}; if(style) W+=" ("+std::string(SN[style])+")"; W+=": "; bool reject=false,may=lenient(d); std::string why; St s; try{ s=expected(d); } catch(Bad& x){ reject=true; why=x.why; }
    for(auto* q:secs(d)) for(auto& x:q->e) if(x.rep&&x.v.find(' ')!=std::string::npos) may=true; // a name with blanks may be refused
    c.op(W); c.tick();
    // the world: programs and data
    { std::vector<std::string> rm; DIR* D=opendir("."); while(auto* q=readdir(D)){ std::string f=q->d_name; if(f!="."&&f!=".."&&f.find(".log")==std::string::npos) rm.push_back(f); } closedir(D); for(auto& f:rm) unlink(f.c_str()); }
    auto data=[&](const std::string& f,int k){ M m=X0; V v=cvals(k,4); for(int q=0;q<4;q++) m[q].push_back(v[q]); if(!exists(f)) writeCSV(f,m); };
    if(!reject){ bool clash=false; std::set<std::string> used; auto chk=[&](const std::string& f){ if(!used.insert(f).second) clash=true; }; chk(s.o.exe); chk(s.o.train); for(auto& f:s.c) if(!f.udf){ chk(f.exe); chk(f.train); } if(clash) throw mc::Prune(); prog(s.o.exe,s.o.dv,s.o.out,1); data(s.o.train,-1); int k=0; for(auto& f:s.c){ if(!f.udf){ prog(f.exe,f.dv,f.out,10*(k+1)); data(f.train,k); } k++; } }
    else { std::vector<std::string> outs{"obj.dat","objOUT.dat","alt.dat","cona.dat","conb.dat","conc.dat","Cona.dat","1"}; for(const char* p:{"obj.sh","Obj.sh","cona.sh","Cona.sh","conb.sh","conc.sh","alt.sh"}){ std::string t="#!/bin/sh\n"; for(auto& o:outs) t+="echo 1.5 > '"+o+"'\n"; spit(p,t); chmod(p,0755); } if(!exists("one.csv")){ M m{{-1},{0.5},{1.75},{-0.25}}; V v=cvals(-1,4); for(int q=0;q<4;q++) m[q].push_back(v[q]); writeCSV("one.csv",m); } for(const char* p:{"obj.csv","Obj.csv","Cona.csv","cona.csv","conb.csv","conc.csv","alt.csv"}) data(p,0); }
    spit("study.xml",render(d,style)); HANDED=nullptr; TRAINED.clear(); LCG=99; std::string err; { int rc=program({"study.xml"},err); if(rc==0) err.clear(); else if(err.empty()) err="exit status "+std::to_string(rc);
      c.state(mc::hashBytes(err.data(),err.size(),mc::hashBytes(W.data(),W.size())));
      if(reject){ if(!may) c.check(!err.empty(),"P20-accepted",W+"accepted although "+why); return; } if(!err.empty()){ c.check(may,"P20-refused",W+"refused: "+err); return; }
      judge(c,s,W); } }
  static int program(std::vector<std::string> args,std::string& err){ args.insert(args.begin(),"rodeo"); std::vector<char*> v; for(auto& t:args) v.push_back(&t[0]); std::ostringstream os; auto* old=std::cerr.rdbuf(os.rdbuf()); int rc=-1; try{ rc=rodeo_main((int)v.size(),v.data()); } catch(std::exception& x){ std::cerr.rdbuf(old); throw mc::Violation{"P20-uncaught",std::string("the program ends with an uncaught exception: ")+x.what()}; } std::cerr.rdbuf(old); err=os.str(); return rc; }
  // the command line: the file has to exist and to be called .xml (in any case)
  void line(mc::Ctx& c){ world(0); static const char* N[]={"study.xml","STUDY.XML","a.b.Xml",".xml","nothere.xml","study.txt","xml","studyxml","",nullptr}; int n=c.choose(10); Doc d=base(0); St s=expected(d); prog(s.o.exe,s.o.dv,s.o.out,1); unlink(s.o.train.c_str()); M m=X0; V v=cvals(-1,4); for(int q=0;q<4;q++) m[q].push_back(v[q]); writeCSV(s.o.train,m); unlink((s.o.exe+".calls").c_str()); unlink("optimizationHistory.csv"); std::string f=N[n]?N[n]:""; if(!f.empty()&&n!=4) spit(f,render(d,0)); LCG=99; std::string err; TRAINED.clear(); HANDED=nullptr; std::string W="command line '"+f+"'"+(N[n]?": ":" (none): "); c.op(W); c.tick(); int rc=program(N[n]? std::vector<std::string>{f}: std::vector<std::string>{},err); bool good=n<4; if(!f.empty()) unlink(f.c_str());
    c.check((rc==0)==good,"P20-exit-status",W+"exit status "+std::to_string(rc)+" "+err); c.check(slurp(s.o.exe+".calls").size()==(good?2u:0u),"P20-exit-runs",W+"the objective is run "+std::to_string(slurp(s.o.exe+".calls").size()/2)+" times"); if(!good) c.check(!err.empty(),"P20-silent",W+"no message"); }
  void judge(mc::Ctx& c,const St& s,const std::string& W){ Optimizer& o=*HANDED; c.check(o.name==s.name,"P20-name",W+"the study is called "+o.name+" instead of "+s.name); c.check(s.inner<0||(int)INNER==s.inner,"P20-inner",W+"inner iterations "+std::to_string(INNER)); c.check((int)THREADS==s.threads,"P20-threads",W+"threads "+std::to_string(THREADS));
    for(auto& t:TRAINED){ int w=-1; if(t.first==s.o.name) w=s.o.iter; for(auto& f:s.c) if(f.name==t.first&&!f.udf) w=f.iter; c.check(w<0||(int)t.second==w||t.first==s.o.name&&w!=(int)t.second&&dupName(s),"P20-iterations",W+"training iterations of "+t.first+" are "+std::to_string(t.second)+" instead of "+std::to_string(w)); }
    auto mod=[&](int m){ return m? UNIVERSAL_KRIGING: ORDINARY_KRIGING; }; c.check(o.objFun.definition.modelHiFi==mod(s.o.model),"P20-model",W+"surrogate model of the objective"); c.check(o.constraintFunctions.size()==s.c.size(),"P20-constraints",W+std::to_string(o.constraintFunctions.size())+" constraints"); for(size_t k=0;k<s.c.size();k++){ double t=s.c[k].target,h=1e-12*(1+std::fabs(t)); bool lt=s.c[k].dir=='<'; auto& f=o.constraintFunctions[k]; c.check(f.checkFeasibility(t-h)==lt&&f.checkFeasibility(t+h)==!lt,"P20-target",W+"the target of "+s.c[k].name+" is "+fmt(f.getInequalityTargetValue())+" instead of "+fmt(t)); }
    for(size_t k=0;k<s.c.size();k++) if(!s.c[k].udf) c.check(o.constraintFunctions[k].definition.modelHiFi==mod(s.c[k].model),"P20-model",W+"surrogate model of "+s.c[k].name);
    // what was run
    std::vector<const F*> fs{&s.o}; for(auto& f:s.c) fs.push_back(&f); M H; std::vector<std::string> hd; c.check(readCSV("optimizationHistory.csv",H,&hd),"P20-history",W+"no history"); for(auto& h:hd) while(!h.empty()&&(h.back()==' '||h.back()=='\r')) h.pop_back(); size_t nc=s.c.size(); c.check(hd.size()==s.dim+1+nc+2&&(int)H.size()==4+s.N,"P20-history",W+"history with "+std::to_string(H.size())+" rows and "+std::to_string(hd.size())+" columns"); for(int j=0;j<s.dim;j++) c.check(hd[j]==s.pn[j],"P20-parameter-names",W+"column "+hd[j]+" instead of "+s.pn[j]);
    M T; c.check(readCSV(s.o.train,T)&&(int)T.size()==4+s.N,"P20-training",W+s.o.train+" is "+slurp(s.o.train)); M X; for(int e=0;e<s.N;e++) X.push_back(V(T[4+e].begin(),T[4+e].begin()+s.dim));
    for(int e=0;e<s.N;e++) for(int j=0;j<s.dim;j++){ double x=X[e][j]; c.check(x>=s.lb[j]-1e-12&&x<=s.ub[j]+1e-12,"P20-box",W+"evaluated at "+S(X[e])); if(s.inc[j]>0){ double k=std::round((x-s.lb[j])/s.inc[j]); c.check(std::fabs(s.lb[j]+k*s.inc[j]-x)<1e-9,"P20-grid",W+"evaluated at "+S(X[e])); } }
    for(size_t q=0;q<fs.size();q++){ const F& f=*fs[q]; int col=s.dim; if(q){ col=-1; for(size_t h=s.dim+1;h<hd.size();h++) if(hd[h]==f.name) col=(int)h; c.check(col>=0,"P20-constraint-name",W+"no column "+f.name); } V v;
      if(!f.udf){ std::string cs=slurp(f.exe+".calls"); c.check((int)cs.size()==2*s.N,"P20-runs",W+f.exe+" is run "+std::to_string(cs.size()/2)+" times"); V seen; std::istringstream is(slurp(f.exe+".seen")); for(double z;is>>z;) seen.push_back(z); c.check(close(seen,X.back(),1e-8,1e-9),"P20-design-file",W+f.exe+" reads "+S(seen)+" from "+f.dv+" instead of "+S(X.back())); M R; c.check(readCSV(f.train,R)&&(int)R.size()==4+s.N,"P20-training",W+f.train+" is "+slurp(f.train)); for(int e=0;e<s.N;e++){ V w=X[e]; w.push_back(num(std::to_string(q?10*(int)q:1)+"."+std::to_string(e+1))); c.check(close(R[4+e],w,1e-12,1e-9),"P20-row",W+f.train+" holds "+S(R[4+e])+" instead of "+S(w)); v.push_back(w.back()); } }
      for(int e=0;e<4+s.N;e++){ double w; if(f.udf){ V x=e<4?X0[e]:X[e-4]; w=udf((int)q-1,x.data()); } else w=e<4? cvals((int)q-1,4)[e]: v[e-4]; c.check(closed(H[e][col],w,1e-9,2e-6),"P20-history-value",W+"history row "+std::to_string(e)+" gives "+fmt(H[e][col])+" for "+f.name+" instead of "+fmt(w)); } }
    for(int e=0;e<4+s.N;e++){ bool ok=true,near=false; for(int j=0;j<s.dim;j++) ok&=H[e][j]>=s.lb[j]-1e-6&&H[e][j]<=s.ub[j]+1e-6; for(auto& f:s.c){ double v=0; for(size_t h=s.dim+1;h<hd.size();h++) if(hd[h]==f.name) v=H[e][h]; near|=std::fabs(v-f.target)<2e-6; ok&=f.dir=='<'? v<f.target: v>f.target; } if(!near) c.check(H[e].back()==(ok?1.0:0.0),"P20-feasible",W+"history row "+S(H[e])+" should be marked "+(ok?"feasible":"infeasible")); } }
  static bool dupName(const St& s){ for(auto& f:s.c) if(f.name==s.o.name) return true; return false; }
};
MC_MAIN(H)
