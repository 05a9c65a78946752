// P07: external evaluations: every sequence of program behaviours (well-behaved and faulty), at the level of one evaluation
// object (PART 1) and of complete runs (PART 2). The program is a shell script whose behaviour is prepared by the explorer.
#include "sys.hpp"
using namespace sy;
#ifndef PART
#define PART 1
#endif
struct B{ std::string what,script; bool ok; double value; };   // what the program does; ok: the value must be recorded, otherwise an error must be raised
static std::vector<B> behaviours(const std::string& out){ auto w=[&](std::string t){ return "printf -- '"+t+"' > "+out+"\n"; }; std::vector<B> r{
  {"1.25",w("1.25\\n"),true,1.25},{"no newline",w("-7.5"),true,-7.5},{"blanks",w("  -3e-7 \\n"),true,-3e-7},{"more numbers",w("2.25\\n9.5\\n"),true,2.25},{"leading blank lines",w("\\n\\n4.5\\n"),true,4.5},{"CRLF",w("6.5\\r\\n"),true,6.5},{"17 digits",w("0.12345678901234566\\n"),true,0.12345678901234566},{"zero",w("0\\n"),true,0},{"plus sign",w("+8.5\\n"),true,8.5},{"huge",w("1e300\\n"),true,1e300},
  {"writes, exit 3",w("1.5\\n")+"exit 3\n",false,0},{"exit 1",std::string("exit 1\n"),false,0},{"writes, exit 255",w("1.5\\n")+"exit 255\n",false,0},{"writes, SIGKILL",w("1.5\\n")+"kill -9 $$\n",false,0},{"writes, SIGSEGV",w("1.5\\n")+"kill -11 $$\n",false,0},{"SIGTERM","kill -15 $$\n",false,0},{"writes half, SIGKILL",w("1.")+"kill -9 $$\n",false,0},
  {"writes nothing","exit 0\n",false,0},{"empty output",w(""),false,0},{"blank output",w(" \\n"),false,0},{"text",w("abc\\n"),false,0},{"number and text",w("1.25abc\\n"),false,0},{"two dots",w("1.2.3\\n"),false,0},{"cut exponent",w("1.5e\\n"),false,0},{"cut exponent sign",w("1.5e-"),false,0},{"minus only",w("-\\n"),false,0},{"nan",w("nan\\n"),false,0},{"inf",w("inf\\n"),false,0},{"overflow",w("1e999\\n"),false,0},{"hexadecimal",w("0x10\\n"),false,0},{"comma",w("1,5\\n"),false,0},{"text first",w("f= 1.5\\n"),false,0},{"removes output","rm -f "+out+"\n",false,0},{"output is a directory","rm -f "+out+"; mkdir "+out+"\n",false,0} };
  r.push_back({"not executable","@chmod",false,0}); r.push_back({"no program configured","@noexe",false,0}); r.push_back({"program missing","@missing",false,0}); r.push_back({"bad interpreter","@interp",false,0}); r.push_back({"empty program file","@empty",false,0}); r.push_back({"design file cannot be written","@dv",false,0}); r.push_back({"design file cannot be written completely","@full",false,0}); return r; }
static void reset(const std::string& f){ struct stat st; if(lstat(f.c_str(),&st)==0){ if(S_ISDIR(st.st_mode)) rmdir(f.c_str()); else unlink(f.c_str()); } }
// puts the program with the given behaviour in place
static void install(const B& b,const std::string& prog,const std::string& dv,const std::string& tag){
  reset(dv); reset(prog); std::string head="#!/bin/sh\npwd >> "+tag+".calls\ncat "+dv+" > "+tag+".seen\n";
  if(b.script=="@missing") return; if(b.script=="@dv"){ mkdir(dv.c_str(),0755); spit(prog,head+"echo 1.5 > "+tag+".out\n"); chmod(prog.c_str(),0755); return; } if(b.script=="@full"){ if(symlink("/dev/full",dv.c_str())){} spit(prog,"#!/bin/sh\npwd >> "+tag+".calls\necho 1.5 > "+tag+".out\n"); chmod(prog.c_str(),0755); return; }
  if(b.script=="@interp") spit(prog,"#!/nonexistent/interpreter\n"); else if(b.script=="@empty") spit(prog,""); else spit(prog,head+(b.script[0]=='@'? "echo 1.5 > "+tag+".out\n": b.script));
  chmod(prog.c_str(),b.script=="@chmod"?0644:0755); }
static V lines(const std::string& f,bool& ok){ V r; ok=true; std::istringstream is(slurp(f)); std::string l; while(std::getline(is,l)){ char* e; double z=strtod(l.c_str(),&e); ok&=!l.empty()&&*e==0; r.push_back(z); } return r; }
static int count(const std::string& f,const std::string& cwd){ std::istringstream is(slurp(f)); std::string l; int n=0; while(std::getline(is,l)) n+= l==cwd? 1: 1000; return n; }
static std::string cwd(){ char b[4096]; return getcwd(b,4096); }
struct H: mc::Harness {
  double execTimeout(){ return 60; }
#if PART==1
  // case: function kind (objective/constraint) x way of naming the program x number of the first behaviour
  std::vector<B> bs; H(){ bs=behaviours("f.out"); }
  uint64_t cases(bool t){ return 2*4*bs.size(); }
  std::string describe(uint64_t i,bool){ static const char* w[]={"prog","./prog","absolute path","prog.py"}; return std::string(i%2?"constraint":"objective")+" named '"+w[i/2%4]+"', first behaviour '"+bs[i/8].what+"'"; }
  void init(mc::Ctx& c){ initDir(); mkdir("bin",0755); spit("bin/python","#!/bin/sh\nexec /bin/sh \"$@\"\n"); chmod("bin/python",0755); setenv("PATH",(cwd()+"/bin:/usr/bin:/bin").c_str(),1); }
  void run(uint64_t i,mc::Ctx& c){ bool con=i%2; int way=(int)(i/2%4); int nmax=c.thorough?3:2; for(const char* f:{"f.out","f.calls","f.seen","dv.dat","prog","prog.py"}) reset(f);
    int dim=2; ConstraintFunction cf; ObjectiveFunction ob; ObjectiveFunctionDefinition d; d.name="f"; d.designVectorFilename="dv.dat"; d.outputFilename="f.out"; d.nameHighFidelityTrainingData="f.csv"; std::string prog=way==3?"prog.py":"prog"; d.executableName=way==0? "prog": way==1? "./prog": way==2? cwd()+"/prog": "prog.py";
    if(con){ ConstraintDefinition cd; cd.constraintName="f"; cd.ID=1; cd.inequalityType="<"; cd.value=0; cf.setParametersByDefinition(d); cf.setConstraintDefinition(cd); cf.setDimension(dim); } else { ob.setParametersByDefinition(d); ob.setDimension(dim); }
    if(c.thorough? c.flip(): true) spit("f.out","77.5\n");                                  // output of some earlier session
    static const V xs[]={{1,2},{0.1,-1e-7},{1.0/3,123456.789012345},{-0.0,1e300}};
    for(int k=0;k<nmax;k++){ const B& b=k? bs[c.choose((int)bs.size())]: bs[i/8]; if(way==3&&(b.script=="@chmod"||b.script=="@interp"||b.script=="@empty")) throw mc::Prune();   // an interpreter ignores these
      V x=k? xs[(k+1)%4]: xs[c.thorough? c.choose(4): (i+2*c.choose(2))%4]; reset("f.calls"); reset("f.seen"); struct stat st; if(lstat("f.out",&st)==0&&S_ISDIR(st.st_mode)) reset("f.out"); install(b,prog,"dv.dat","f"); c.op("evaluation at "+S(x)+", program: "+b.what);
      Design D(dim); D.designParameters=tv(x); D.constraintTrueValues.resize(3); for(int j=0;j<3;j++) D.constraintTrueValues(j)=40+j; D.trueValue=39; std::string err; { std::string e=b.script=="@noexe"? "": d.executableName; ObjectiveFunctionDefinition d2=d; d2.executableName=e; cf.setParametersByDefinition(d2); ob.setParametersByDefinition(d2); }
      try{ if(con) cf.evaluateDesign(D); else ob.evaluateDesign(D); } catch(std::exception& e){ err=e.what(); if(err.empty()) err="?"; }
      double got=con? D.constraintTrueValues(1): D.trueValue; std::string W=describe(i,c.thorough)+", evaluation "+std::to_string(k)+" at "+S(x)+", program behaviour '"+b.what+"': ";
      if(b.ok){ c.check(err.empty(),"P07-refused",W+"error "+err); c.check(eqd(got,b.value),"P07-value",W+"recorded "+fmt(got)+" instead of "+fmt(b.value)); }
      else c.check(!err.empty(),"P07-accepted",W+"no error is raised, recorded value "+fmt(got));
      if(con) c.check(D.constraintTrueValues(0)==40&&D.constraintTrueValues(2)==42&&D.trueValue==39,"P07-other",W+"values of other functions changed"); else for(int j=0;j<3;j++) c.check(D.constraintTrueValues(j)==40+j,"P07-other",W+"values of other functions changed");
      bool starts=!(b.script[0]=='@'); if(starts){ int n=count("f.calls",cwd()); c.check(n==1,"P07-calls",W+(n>=1000?"the program ran in another directory":"the program ran "+std::to_string(n)+" times")); bool ok; V s=lines("f.seen",ok); c.check(ok&&hx::same(s,x),"P07-design",W+"the program saw "+slurp("f.seen")); }
      c.state(mc::hashBytes(&got,8,mc::hashBytes(b.what.data(),b.what.size(),k*8+way))); }
    reset("f.out"); reset("dv.dat"); }
#else
  // complete runs: objective and one constraint are programs; one fault (or none) at one evaluation of one of them
  struct K{ int n; int fun; int beh; int at; int conFirstKind; }; std::vector<K> ks; std::vector<B> bs;
  H(){ bs=behaviours("obj.out"); for(int con=0;con<3;con++){ ks.push_back({3,0,0,-1,con}); for(int at=0;at<3;at++) for(int fun=0;fun<(con?2:1);fun++){ if(fun==1&&con==2) continue; for(size_t b=0;b<bs.size();b++) ks.push_back({3,fun,(int)b,at,con}); } } }
  uint64_t cases(bool){ return ks.size(); }
  std::string describe(uint64_t i,bool){ auto& k=ks[i]; static const char* w[]={"objective only","objective and constraint programs","objective program, callback constraint"}; return std::string(w[k.conFirstKind])+(k.at<0?"":", "+std::string(k.fun?"constraint":"objective")+" behaves '"+bs[k.beh].what+"' at evaluation "+std::to_string(k.at)); }
  void init(mc::Ctx&){ initDir(); }
  static double conValue(const double* x){ return 1+x[0]; }
  void run(uint64_t i,mc::Ctx& c){ const K& k=ks[i]; for(const char* f:{"obj.out","con.out","obj.calls","con.calls","obj.seen","con.seen","dv.dat","prog_obj","prog_con","obj.n","con.n","obj.log","con.log","optimizationHistory.csv","globalOptimalDesign.xml"}) reset(f);
    M X{{-0.5},{0.4},{1.1},{1.9}}; V F{3,1,2,5}; M o=X,q=X; for(size_t j=0;j<X.size();j++){ o[j].push_back(F[j]); q[j].push_back(1+X[j][0]); } writeCSV("obj_train.csv",o); writeCSV("con_train.csv",q); std::string oi=slurp("obj_train.csv"),ci=slurp("con_train.csv");
    // each program counts its calls and behaves unusually at call number 'at'
    auto prog=[&](const std::string& tag,bool faulty,bool dots){ const auto B_=behaviours(tag+".out"); std::string s="#!/bin/sh\nn=0\n[ -f "+tag+".n ] && read n < "+tag+".n\necho $((n+1)) > "+tag+".n\npwd >> "+tag+".calls\nread x < dv.dat\necho $x >> "+tag+".log\n"; 
      if(faulty){ const B& b=B_[k.beh]; s+="if [ $n -eq "+std::to_string(k.at)+" ]; then\n"+(b.script[0]=='@'?"exit 9\n":b.script+"exit 0\n")+"fi\n"; }
      s+="echo "+std::string(dots?"0.5":"2.5")+"${n}25 > "+tag+".out\n"; 
      if(faulty&&B_[k.beh].script[0]=='@'){ std::string a=B_[k.beh].script, then; if(a=="@chmod") then="chmod 644 prog_"+tag; if(a=="@missing") then="rm prog_"+tag; if(a=="@interp") then="echo '#!/nonexistent/x' > prog_"+tag+".t; chmod 755 prog_"+tag+".t; mv prog_"+tag+".t prog_"+tag; if(a=="@empty") then=": > prog_"+tag+".t; chmod 755 prog_"+tag+".t; mv prog_"+tag+".t prog_"+tag; if(a=="@dv") then="rm -f dv.dat; mkdir dv.dat"; if(a=="@full") then="rm -f dv.dat; ln -s /dev/full dv.dat"; s+="if [ $n -eq "+std::to_string(k.at-1)+" ]; then "+then+"; fi\n"; }
      spit("prog_"+tag,s); chmod(("prog_"+tag).c_str(),0755); };
    bool at=bs[k.beh].script[0]=='@'; if(bs[k.beh].script=="@noexe"||(k.at==0&&at)) throw mc::Prune();                 // covered by part 1
    if(bs[k.beh].what=="huge") throw mc::Prune();                       // the model cannot place further candidates; equal samples are then dropped as documented
    if(at&&k.conFirstKind==1&&(bs[k.beh].script=="@dv"||bs[k.beh].script=="@full")) throw mc::Prune();   // would already stop the constraint of the evaluation before
    prog("obj",k.at>=0&&k.fun==0,true); prog("con",k.at>=0&&k.fun==1,false);
    LCG=12345; LCGMODE=0.25; Optimizer op("study",1); op.setAPIUseOn(); { ObjectiveFunction ob; ob.setDimension(1); ObjectiveFunctionDefinition d; d.name="obj"; d.nameHighFidelityTrainingData="obj_train.csv"; d.designVectorFilename="dv.dat"; d.outputFilename="obj.out"; d.executableName="prog_obj"; ob.setParametersByDefinition(d); ob.setNumberOfTrainingIterationsForSurrogateModel(60); op.addObjectFunction(ob); }
    if(k.conFirstKind){ ConstraintFunction cf; ConstraintDefinition cd; cd.constraintName="con"; cd.ID=0; cd.inequalityType=">"; cd.value=0; ObjectiveFunctionDefinition d; d.name="con"; d.nameHighFidelityTrainingData="con_train.csv"; if(k.conFirstKind==1){ d.designVectorFilename="dv.dat"; d.outputFilename="con.out"; d.executableName="prog_con"; } else cf.setFunctionPtr(conValue); cf.setParametersByDefinition(d); cf.setConstraintDefinition(cd); cf.setDimension(1); cf.setNumberOfTrainingIterationsForSurrogateModel(60); op.addConstraint(cf); }
    op.setBoxConstraints(Bounds(tv({-1}),tv({2}))); op.setMaximumNumberOfIterations(k.n); op.setMaximumNumberOfInnerIterations(3); op.setNumberOfThreads(1); op.setHowOftenTrainModels(100000);
    std::string err; try{ op.performEfficientGlobalOptimization(); } catch(std::exception& e){ err=e.what(); if(err.empty()) err="?"; }
    bool bad=k.at>=0&&!bs[k.beh].ok; int done=bad? k.at: k.n; std::string W=describe(i,c.thorough)+": "; c.op(W+(err.empty()?"completes":"ends with "+err));
    c.check(bad!=err.empty(),bad?"P07-accepted":"P07-refused",W+(bad?"the run ends normally":"the run ends with the error "+err));
    auto judge=[&](const std::string& tag,const std::string& init,int f){ std::string t=slurp(tag+"_train.csv"); c.check(t.compare(0,init.size(),init)==0,"P07-rows",W+"initial rows of the "+tag+" training file changed"); M T; readCSV(tag+"_train.csv",T); c.check((int)T.size()==4+done,"P07-rows",W+"the "+tag+" training file holds "+std::to_string((int)T.size()-4)+" new rows, "+std::to_string(done)+" evaluations succeeded"); 
      std::vector<double> xs; { std::istringstream is(slurp(tag+".log")); for(double z;is>>z;) xs.push_back(z); }
      if(tag=="obj"||k.conFirstKind==1) for(int e=0;e<done;e++){ double want= (k.at==e&&k.fun==f)? bs[k.beh].value: strtod(((f?"2.5":"0.5")+std::to_string(e)+"25").c_str(),nullptr); c.check(e<(int)xs.size()&&closed(T[4+e][0],xs[e],1e-11,1e-12)&&closed(T[4+e][1],want,1e-11,1e-12),"P07-value",W+"row of evaluation "+std::to_string(e)+" of "+tag+" is "+S(T[4+e])+" but the program saw "+(e<(int)xs.size()?fmt(xs[e]):"nothing")+" and wrote "+fmt(want)); } };
    judge("obj",oi,0); if(k.conFirstKind) judge("con",ci,1);
    int calls=count("obj.calls",cwd()); int wantObj= !bad? k.n: (k.fun==0? k.at+(at?0:1): k.at+1); c.check(calls==wantObj,"P07-calls",W+"the objective program ran "+std::to_string(calls)+" times instead of "+std::to_string(wantObj)); c.state(mc::hashBytes(W.data(),W.size()));
    reset("dv.dat"); reset("obj.out"); reset("con.out"); }
#endif
};
MC_MAIN(H)
