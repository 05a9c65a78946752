// P28: a design record reproduces what was evaluated: samples, texts, files, NaN detection, copies; all small dimensions,
// every placement of an unusual value, and all sequences of set-up operations.
#include "mc.hpp"
#include "Design/INCLUDE/design.hpp"
#include "Optimizers/INCLUDE/globalOptimalDesign.hpp"
#include <fstream>
#include <sstream>
using namespace Rodop; using mc::fmt;
static const double INF=std::numeric_limits<double>::infinity();
static bool eqd(double a,double b){ return a==b || (std::isnan(a)&&std::isnan(b)); }
typedef std::vector<double> V;
static std::string S(const V& v){ std::string s="("; for(double d: v) s+=fmt(d)+" "; return s+")"; }
static V fromv(const vec& v){ V r; for(unsigned i=0;i<v.getSize();i++) r.push_back(v(i)); return r; }
static bool same(const V&a,const V&b){ if(a.size()!=b.size()) return false; for(size_t i=0;i<a.size();i++) if(!eqd(a[i],b[i])) return false; return true; }
static std::string slurp(const std::string& f){ std::ifstream i(f); std::stringstream s; s<<i.rdbuf(); return s.str(); }
// everything a design holds, in the model
struct M{ unsigned d,n; V x,g,gl,t; double f,fl,tv,tvl; V c,cl,ct,ctl; std::vector<V> cg,cgl,cd,cdl;
  std::vector<double*> all(){ std::vector<double*> r; for(V* v:{&x,&g,&gl,&t,&c,&cl,&ct,&ctl}) for(double& a:*v) r.push_back(&a); for(auto* vv:{&cg,&cgl,&cd,&cdl}) for(V& v:*vv) for(double& a:v) r.push_back(&a); for(double* p:{&f,&fl,&tv,&tvl}) r.push_back(p); return r; } };
static M mk(unsigned d,unsigned n){ M m; m.d=d; m.n=n; for(V* v:{&m.x,&m.g,&m.gl,&m.t}) v->resize(d); for(V* v:{&m.c,&m.cl,&m.ct,&m.ctl}) v->resize(n); for(auto* vv:{&m.cg,&m.cgl,&m.cd,&m.cdl}) vv->assign(n,V(d));
  int k=0; for(double* p: m.all()){ k++; *p=(k%2?1:-1)*(k+k/128.0); } return m; }
static void put(Design& D,const M& m){
  for(unsigned i=0;i<m.d;i++){ D.designParameters(i)=m.x[i]; D.gradient(i)=m.g[i]; D.gradientLowFidelity(i)=m.gl[i]; }
  D.tangentDirection.resize(m.d); for(unsigned i=0;i<m.d;i++) D.tangentDirection(i)=m.t[i];
  D.trueValue=m.f; D.trueValueLowFidelity=m.fl; D.tangentValue=m.tv; D.tangentValueLowFidelity=m.tvl;
  for(unsigned k=0;k<m.n;k++){ D.constraintTrueValues(k)=m.c[k]; D.constraintTrueValuesLowFidelity(k)=m.cl[k]; D.constraintTangent(k)=m.ct[k]; D.constraintTangentLowFidelity(k)=m.ctl[k];
    for(unsigned i=0;i<m.d;i++){ D.constraintGradientsMatrix(k,i)=m.cg[k][i]; D.constraintGradientsMatrixLowFi(k,i)=m.cgl[k][i]; D.constraintDifferentiationDirectionsMatrix(k,i)=m.cd[k][i]; D.constraintDifferentiationDirectionsMatrixLowFi(k,i)=m.cdl[k][i]; } }
}
static V cat(V a,std::initializer_list<double> s,const V& b={}){ for(double d:s) a.push_back(d); for(double d:b) a.push_back(d); return a; }
static void samples(mc::Ctx& c,const Design& D,const M& m,const std::string& w){
  auto eq=[&](const char* nm,const vec& got,const V& want){ c.tick(1); c.check(same(fromv(got),want),std::string("sample-")+nm,w+" "+nm+" gives "+S(fromv(got))+" expected "+S(want)); };
  eq("objective",D.constructSampleObjectiveFunction(),cat(m.x,{m.f})); eq("objectiveLowFi",D.constructSampleObjectiveFunctionLowFi(),cat(m.x,{m.fl}));
  eq("objectiveGradient",D.constructSampleObjectiveFunctionWithGradient(),cat(m.x,{m.f},m.g)); eq("objectiveZeroGradient",D.constructSampleObjectiveFunctionWithZeroGradient(),cat(m.x,{m.f},V(m.d,0.0)));
  eq("objectiveGradientLowFi",D.constructSampleObjectiveFunctionWithGradientLowFi(),cat(m.x,{m.fl},m.gl));
  eq("objectiveTangent",D.constructSampleObjectiveFunctionWithTangent(),cat(m.x,{m.f,m.tv},m.t)); eq("objectiveTangentLowFi",D.constructSampleObjectiveFunctionWithTangentLowFi(),cat(m.x,{m.fl,m.tvl},m.t));
  for(unsigned k=0;k<m.n;k++){
    eq("constraint",D.constructSampleConstraint(k),cat(m.x,{m.c[k]})); eq("constraintLowFi",D.constructSampleConstraintLowFi(k),cat(m.x,{m.cl[k]}));
    eq("constraintTangent",D.constructSampleConstraintWithTangent(k),cat(m.x,{m.c[k],m.ct[k]},m.cd[k])); eq("constraintTangentLowFi",D.constructSampleConstraintWithTangentLowFi(k),cat(m.x,{m.cl[k],m.ctl[k]},m.cdl[k]));
    eq("constraintGradient",D.constructSampleConstraintWithGradient(k),cat(m.x,{m.c[k]},m.cg[k])); eq("constraintGradientLowFi",D.constructSampleConstraintWithGradientLowFi(k),cat(m.x,{m.cl[k]},m.cgl[k])); }
  // a constraint that does not exist is refused
  int th=0; for(int q=0;q<6;q++) try{ if(q==0) D.constructSampleConstraint(m.n); if(q==1) D.constructSampleConstraintLowFi(m.n); if(q==2) D.constructSampleConstraintWithTangent(m.n); if(q==3) D.constructSampleConstraintWithTangentLowFi(m.n); if(q==4) D.constructSampleConstraintWithGradient(m.n); if(q==5) D.constructSampleConstraintWithGradientLowFi(m.n); } catch(std::exception&){ th++; }
  c.check(th==6,"sample-missing-constraint",w+": a sample of constraint "+std::to_string(m.n)+" of "+std::to_string(m.n)+" is handed out");
}
// numbers following a label in a text (until something that is not a number)
static bool numsAfter(const std::string& t,const std::string& label,V& out){ out.clear(); auto p=t.find(label); if(p==std::string::npos) return false; std::string r=t.substr(p+label.size());
  for(char& ch:r) if(ch==','||ch=='='||ch==':') ch=' '; std::istringstream is(r); std::string tok; while(is>>tok){ char* e; double d=strtod(tok.c_str(),&e); if(*e) break; out.push_back(d); } return true; }
static bool close(const V& got,const V& want,double rel,double abs){ if(got.size()!=want.size()) return false; for(size_t i=0;i<got.size();i++){ if(eqd(got[i],want[i])) continue; if(!(std::fabs(got[i]-want[i])<=rel*std::fabs(want[i])+abs)) return false; } return true; }
static void texts(mc::Ctx& c,Design& D,const M& m,const std::string& w){
  auto eq=[&](const char* key,const std::string& t,const std::string& label,const V& want,double rel,double abs){ V got; bool f=numsAfter(t,label,got); c.tick(1);
    c.check(f&&close(got,want,rel,abs),key,w+": "+(f?"printed "+S(got):std::string("label missing"))+" after '"+label+"', expected "+S(want)); };
  double R=1.1e-5;
  for(int feas=0;feas<2;feas++){ D.isDesignFeasible=feas; std::string fs=std::string("Feasibility = ")+(feas?"YES":"NO");
    std::string t=D.toString(); eq("toString-x",t,"Design parameters",m.x,R,0); eq("toString-f",t,"Function value =",{m.f},R,0); 
    bool anyg=false; for(double g: m.g) if(std::fabs(g)>1e-6) anyg=true; if(anyg) eq("toString-gradient",t,"Gradient vector = ",m.g,R,0);
    if(m.n) eq("toString-c",t,"Constraint values",m.c,R,0); c.check(t.find(fs+"\n")!=std::string::npos,"toString-feasibility",w+": "+fs+" missing");
    t=D.generateOutputString(); eq("output-x",t,"Design parameters",m.x,1e-15,1e-6); eq("output-f",t,"Objective function value",{m.f},1e-15,1e-6); if(m.n) eq("output-c",t,"Constraint values",m.c,1e-15,1e-6);
    D.saveToAFile("d.txt"); t=slurp("d.txt"); eq("file-x",t,"Design parameters vector:",m.x,R,1e-6); eq("file-f",t,"Objective function =",{m.f},1e-15,1e-6); if(m.n) eq("file-c",t,"Constraint values vector:",m.c,1e-15,1e-6); c.check(t.find(fs)!=std::string::npos,"file-feasibility",w+": "+fs+" missing");
  }
  D.saveDesignVector("d.dat"); eq("dv-file","@ "+slurp("d.dat"),"@",m.x,1e-9,0);
  D.saveDesignVectorAsCSVFile("d.csv"); { std::string t=slurp("d.csv"); c.check(std::count(t.begin(),t.end(),',')==(long)m.d-1,"dv-csv",w+": CSV "+t); eq("dv-csv","@ "+t,"@",m.x,1e-9,0); }
}
static std::string item(const std::string& t,const std::string& tag){ auto a=t.find("<"+tag+">"),b=t.find("</"+tag+">"); if(a==std::string::npos||b==std::string::npos||t.find("<"+tag+">",a+1)!=std::string::npos) return "?"; return t.substr(a+tag.size()+2,b-a-tag.size()-2); }
static bool items(const std::string& t,const std::string& tag,V& out){ out.clear(); std::string s=item(t,tag); if(s=="?") return false; size_t p=0; while((p=s.find("<item>",p))!=std::string::npos){ auto e=s.find("</item>",p); if(e==std::string::npos) return false; out.push_back(strtod(s.c_str()+p+6,nullptr)); p=e; } return true; }
static void xml(mc::Ctx& c,const M& m,const std::string& w){
  GlobalOptimalDesign G; G.setDimension(m.d); G.setNumberOfConstraints(m.n); put(G,m); V got;
  for(int feas=0;feas<2;feas++) for(int id: {0,7}){ G.ID=id; G.isDesignFeasible=feas; G.xmlFileName="g.xml"; std::string t=G.generateXmlString(); G.saveToXMLFile(); c.check(slurp("g.xml")==t,"xml-file",w+": XML file differs from XML text");
    c.check(item(t,"DesignID")==std::to_string(id),"xml-id",w+": id "+item(t,"DesignID")); c.check(close({strtod(item(t,"ObjectiveFunction").c_str(),nullptr)},{m.f},1e-15,1e-6),"xml-f",w+": objective "+item(t,"ObjectiveFunction")+" expected "+fmt(m.f));
    c.check(items(t,"DesignParameters",got)&&close(got,m.x,1e-15,1e-6),"xml-x",w+": parameters "+S(got)+" expected "+S(m.x));
    if(m.n) c.check(items(t,"ConstraintValues",got)&&close(got,m.c,1e-15,1e-6),"xml-c",w+": constraint values "+S(got)+" expected "+S(m.c)); else c.check(!items(t,"ConstraintValues",got)||got.empty(),"xml-c",w+": constraint values although there are none");
    c.check(item(t,"Feasibility")==(feas?"YES":"NO"),"xml-feasibility",w+": feasibility "+item(t,"Feasibility")); c.tick(1); }
}
static std::vector<double> odd(){ return {NAN,INF,-INF,0.0,-0.0,1e300,-1e-300,123456789.0,0.1234567890123,1e-7}; }
struct H: mc::Harness {
#ifndef SEQ
  std::vector<std::pair<int,int>> dn(bool t){ std::vector<std::pair<int,int>> r; for(int d=1;d<=(t?5:4);d++) for(int n=0;n<=(t?5:4);n++) r.push_back({d,n}); return r; }
  uint64_t cases(bool t){ return dn(t).size(); }
  std::string describe(uint64_t i,bool t){ auto p=dn(t)[i]; return "dimension "+std::to_string(p.first)+" constraints "+std::to_string(p.second); }
  void run(uint64_t i,mc::Ctx& c){ auto p=dn(c.thorough)[i]; M m=mk(p.first,p.second); auto A=m.all();
    // one or two components take unusual values
    auto O=odd(); int pos=c.choose((int)A.size()); bool big=p.first>(c.thorough?4:3)||p.second>(c.thorough?4:3); if(big) O={NAN,123456789.0}; double v=O[c.choose((int)O.size())]; *A[pos]=v;
    std::string w="component "+std::to_string(pos)+"="+fmt(v);
    if(m.d+m.n<=(c.thorough?2u:1u)){ int p2=c.choose((int)A.size()); if(p2>pos){ double v2=O[c.choose((int)O.size())]; *A[p2]=v2; w+=" component "+std::to_string(p2)+"="+fmt(v2); } else if(p2!=pos) throw mc::Prune(); }
    c.op(w); Design D=c.choose(2)? Design((int)m.d): Design(vec(m.d)); D.setNumberOfConstraints(m.n); put(D,m); c.state(mc::hashBytes(w.data(),w.size(),i));
    samples(c,D,m,w); texts(c,D,m,w); xml(c,m,w);
    bool nan=std::isnan(m.f); for(double g: m.g) nan|=std::isnan(g); for(double g: m.c) nan|=std::isnan(g);
    c.check(D.checkIfHasNan()==nan || (!nan && D.checkIfHasNan() && hasnan(m)),"nan-detection",w+": checkIfHasNan gives "+std::to_string(D.checkIfHasNan())+" expected "+std::to_string(nan));
    Design E(D); Design F; F=D; M z=mk(m.d,m.n); for(double* q: z.all()) *q+=1000; put(D,z); samples(c,E,m,w+" (copy)"); samples(c,F,m,w+" (assigned)"); samples(c,D,z,w+" (original)");
    D.reset(); for(double q: fromv(D.designParameters)) c.check(q==0,"reset",w+": parameters after reset"); c.check(D.trueValue==0,"reset",w+": value after reset"); samples(c,E,m,w+" (copy after reset)");
  }
  static bool hasnan(M m){ for(double* p: m.all()) if(std::isnan(*p)) return true; return false; }
#else
  // sequences of set-up operations on two designs, then everything the (last) sizes promise
  uint64_t cases(bool t){ return 12; }
  std::string describe(uint64_t i,bool){ return "first operation "+std::to_string(i); }
  void run(uint64_t i,mc::Ctx& c){ Design A[2]; M m[2]; bool val[2]={false,false}; unsigned d[2]={0,0}; long n[2]={-1,-1}; int L=c.thorough?5:4;
    // n==-1: the sizes of constraint data are not defined for the current dimension
    for(int s=0;s<L;s++){ int o=s==0?(int)i:c.choose(12); int k=o%2; o/=2; std::string w="design "+std::to_string(k)+" "; bool th=false,want=false;
      try{
        if(o==0){ int q=c.choose(3); w+="setDimension "+std::to_string(q); c.op(w); want=q==0; A[k].setDimension(q); if(q!=(int)d[k]){ n[k]=-1; } d[k]=q; val[k]=false; }
        else if(o==1){ int q=c.choose(3); w+="setNumberOfConstraints "+std::to_string(q); c.op(w); want=d[k]==0; A[k].setNumberOfConstraints(q); n[k]=q; val[k]=false; }
        else if(o==2){ w+="put"; if(d[k]==0||n[k]<0) throw mc::Prune(); c.op(w); M x=mk(d[k],n[k]); for(double* p:x.all()) *p+=s; put(A[k],x); m[k]=x; val[k]=true; }
        else if(o==3){ w+="= other"; c.op(w); A[k]=A[1-k]; m[k]=m[1-k]; val[k]=val[1-k]; d[k]=d[1-k]; n[k]=n[1-k]; }
        else if(o==4){ w+="= Design(dim)"; int q=c.choose(3); c.op(w+std::to_string(q)); want=q==0; A[k]=Design(q); d[k]=q; n[k]=0; val[k]=false; n[k]=-1; }
        else { w+="= Design(vec)"; int q=1+c.choose(2); c.op(w+std::to_string(q)); vec x(q); A[k]=Design(x); d[k]=q; n[k]=-1; val[k]=false; }
      } catch(mc::Prune&){ throw; } catch(std::exception&){ th=true; }
      c.check(th==want,"setup",w+(th?" is rejected":" is accepted"));
      for(int q=0;q<2;q++) if(val[q]) samples(c,A[q],m[q],w+", then design "+std::to_string(q));
      for(int q=0;q<2;q++) if(d[q]){ c.check(A[q].dimension==d[q],"setup-dimension",w+": dimension"); if(n[q]>=0) c.check(A[q].numberOfConstraints==(unsigned)n[q],"setup-constraints",w+": number of constraints"); }
      c.state(mc::mix(mc::mix(mc::mix(d[0],d[1]),mc::mix(n[0],n[1])),val[0]*2+val[1]+10*s));
    } }
#endif
};
MC_MAIN(H)
