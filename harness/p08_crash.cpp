// P08: the process dies at every file-system operation (and inside every evaluation) of a run; the files it leaves are judged
// and a new run is started from them (thorough: which dies as well, and is resumed again).
#include "sys.hpp"
#include <dlfcn.h>
#include <sys/uio.h>
#include <stdarg.h>
using namespace sy;
// ---- crash injector: every file-system call of the repository's code comes through here
struct Log{ long ops; long at; int on; int died; int nEval; int nDone; char what[256]; double rec[64][12]; };   // shared with the parent; rec: x..., f, c by registration
static Log* LG=nullptr;
template<class F> static F real(const char* n){ static F f=nullptr; if(!f) f=(F)dlsym(RTLD_NEXT,n); return f; }
static void point(const char* what,const char* arg){ if(!LG||!LG->on) return; if(arg&&(strstr(arg,".log")||!strncmp(arg,"/dev/",5)||!strncmp(arg,"/sys/",5)||!strncmp(arg,"/proc/",6))) return; long k=LG->ops++; if(k==LG->at){ LG->died=1; snprintf(LG->what,sizeof LG->what,"%s %s",what,arg?arg:""); _exit(77); } }
static bool quiet(int fd){ if(!LG||!LG->on||fd<=2) return true; struct stat st; return fstat(fd,&st)!=0||!S_ISREG(st.st_mode); }
static std::string fdname(int fd){ char a[64],b[512]; snprintf(a,64,"/proc/self/fd/%d",fd); ssize_t n=readlink(a,b,511); if(n<0) return "?"; b[n]=0; const char* s=strrchr(b,'/'); return s?s+1:b; }
extern "C" {
FILE* fopen(const char* p,const char* m){ point("before opening",p); return real<FILE*(*)(const char*,const char*)>("fopen")(p,m); }
FILE* fopen64(const char* p,const char* m){ point("before opening",p); return real<FILE*(*)(const char*,const char*)>("fopen64")(p,m); }
int open(const char* p,int f,...){ mode_t m=0; if(f&O_CREAT){ va_list a; va_start(a,f); m=va_arg(a,int); va_end(a);} point("before opening",p); return real<int(*)(const char*,int,...)>("open")(p,f,m); }
int open64(const char* p,int f,...){ mode_t m=0; if(f&O_CREAT){ va_list a; va_start(a,f); m=va_arg(a,int); va_end(a);} point("before opening",p); return real<int(*)(const char*,int,...)>("open64")(p,f,m); }
ssize_t write(int fd,const void* b,size_t n){ if(!quiet(fd)) point("before writing to",fdname(fd).c_str()); return real<ssize_t(*)(int,const void*,size_t)>("write")(fd,b,n); }
ssize_t writev(int fd,const struct iovec* v,int n){ if(!quiet(fd)) point("before writing to",fdname(fd).c_str()); return real<ssize_t(*)(int,const struct iovec*,int)>("writev")(fd,v,n); }
int fclose(FILE* f){ int fd=fileno(f); if(!quiet(fd)) point("before closing",fdname(fd).c_str()); return real<int(*)(FILE*)>("fclose")(f); }
int rename(const char* a,const char* b){ point("before renaming",a); return real<int(*)(const char*,const char*)>("rename")(a,b); }
int remove(const char* a){ point("before removing",a); return real<int(*)(const char*)>("remove")(a); }
int unlink(const char* a){ point("before removing",a); return real<int(*)(const char*)>("unlink")(a); }
int truncate(const char* a,off_t n){ point("before truncating",a); return real<int(*)(const char*,off_t)>("truncate")(a,n); }
int ftruncate(int fd,off_t n){ if(!quiet(fd)) point("before truncating",fdname(fd).c_str()); return real<int(*)(int,off_t)>("ftruncate")(fd,n); }
}
struct K{ int dim; std::string kinds; int pattern; bool nl; int budget; };
struct H: mc::Harness {
  std::vector<K> make(bool t){ std::vector<K> r; for(int dim=1;dim<=(t?2:2);dim++) for(const char* k:{"","C","CC","E","UC"}) for(int p=0;p<3;p++) for(int nl=0;nl<2;nl++){ if(dim==2&&nl==0&&!t) continue; r.push_back({dim,k,p,nl==1,t?3:2}); } return r; }
  std::vector<K> q,th; H(){ q=make(false); th=make(true); }
  uint64_t cases(bool t){ return (t?th:q).size(); }
  std::string describe(uint64_t i,bool t){ auto& k=(t?th:q)[i]; return "dim "+std::to_string(k.dim)+" constraints '"+k.kinds+"' answer pattern "+std::to_string(k.pattern)+(k.nl?"":" training files without final newline"); }
  std::map<uint64_t,long> counted;
  void init(mc::Ctx& c){ LG=(Log*)mmap(0,sizeof(Log),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0); }
  double execTimeout(){ return 120; }
  Cfg base(const K& k,const std::string& what){ Cfg g; g.dim=k.dim; g.lb=k.dim==1? V{-1}:V{-1,3}; g.ub=k.dim==1? V{2}:V{2,5}; g.X=k.dim==1? M{{-1},{0.25},{0.75},{2}}: M{{-1,3},{0.25,3.5},{0.75,5},{2,4},{1.25,3.25}}; g.F={3,1,2,5,1.5}; g.F.resize(g.X.size()); g.budget=k.budget; g.inner=2; g.trailingNewline=k.nl; g.what=what;
    for(size_t q=0;q<k.kinds.size();q++){ Con a{k.kinds[q],(int)q,q%2?'>':'<',q?-2.0:0.5,"con"+std::string(1,"ABC"[q])}; g.cons.push_back(a); M T=g.X; for(size_t i=0;i<T.size();i++) T[i].push_back(a.target+(a.dir=='<'?-1:1)*((i+q)%3?1:-1)*(1+0.125*i)); g.conTable.push_back(T); } return g; }
  // one run in a child process; returns its exit code (0 fine, 77 died on purpose, 1 violation in F)
  int child(mc::Ctx& c,const Cfg& g,const K& k,long at,bool fresh,int round,mc::Found& F){ LG->ops=0; LG->at=at; LG->on=0; LG->died=0; LG->nEval=0; LG->nDone=0; LG->what[0]=0; int pip[2]; if(pipe(pip)) _exit(96); pid_t p=fork();
    if(p==0){ ::close(pip[0]); Run r; r.c=&c; r.cfg=&g; r.prop= fresh? "P01": "P01,P02,P03,P04"; std::string key,msg;
      auto rec=[&](int q,double v){ if(LG->nEval-1<64&&LG->nEval>0) LG->rec[LG->nEval-1][g.dim+1+q]=v; };
      r.pickF=[&](int n){ static const double pat[3][4]={{0.25,0.125,-3,-4},{9,8,7.5,7},{0.5,4,-7.5,1}}; double f=pat[k.pattern][n%4]+0.01*round; LG->nEval=n+1; for(int d=0;d<g.dim;d++) LG->rec[n][d]=r.evalX[n][d]; LG->rec[n][g.dim]=f; point("inside the objective evaluation",""); return f; };
      r.pickC=[&](int n,int q){ auto& a=g.cons[q]; double v=a.target+(a.dir=='<'?-1:1)*((n+q+k.pattern)%3==1?-1:1)*(1+0.25*n+0.01*round); rec(q,v); if(a.kind=='C') point("inside a constraint evaluation",""); return v; };
      r.udf=[&](int id,const double* x){ return g.cons[id].target+(x[0]-0.5)*(id+1); };
      try{ LCGMODE=0.25; if(fresh) start(r); else resume(r); LCG=777+round; { LG->on=1; std::unique_ptr<Optimizer> o(makeOptimizer(g)); r.inRun=true; o->performEfficientGlobalOptimization(); LG->on=0; finish(r,*o); } }
      catch(mc::Violation& v){ key=v.key; msg=v.msg; } catch(std::exception& e){ key="P08-error"; msg=g.what+": the "+std::string(fresh?"first":"resumed")+" run ends with the error "+e.what(); }
      if(!key.empty()){ LG->on=0; std::string t=key+"\n"+msg; if(real<ssize_t(*)(int,const void*,size_t)>("write")(pip[1],t.data(),t.size())){} _exit(1); } _exit(0); }
    ::close(pip[1]); std::string t; char b[4096]; ssize_t n; while((n=read(pip[0],b,4096))>0) t.append(b,n); ::close(pip[0]); int st; while(waitpid(p,&st,0)<0){} size_t nl=t.find('\n'); if(nl!=std::string::npos){ F.key=t.substr(0,nl); F.msg=t.substr(nl+1); } if(!WIFEXITED(st)) { F.key="crash"; F.msg=g.what+": killed by signal "+std::to_string(WTERMSIG(st)); return 1; } return WEXITSTATUS(st); }
  // like sy::start, but from the files as they are
  static void resume(Run& r){ const Cfg& g=*r.cfg; R=&r; LCG=12345; r.initText.clear(); for(auto& k:g.cons) if(k.kind=='E') spit(k.name+".calls",""); r.initText.push_back(slurp("obj_train.csv")); for(auto& k:g.cons) r.initText.push_back(k.kind=='U'?"":slurp(conFile(k))); r.rows.clear();
    for(size_t i=0;i<g.X.size();i++){ Row w; w.x=g.X[i]; w.f=g.F[i]; w.c.assign(g.cons.size(),NAN); w.impr=0; for(size_t q=0;q<g.cons.size();q++){ auto& k=g.cons[q]; if(k.kind=='U') w.c[k.id]=r.udf(k.id,w.x.data()); else { w.c[k.id]=k.dir=='>'? -1e15:1e15; for(auto& t:g.conTable[q]){ bool eq=true; for(int d=0;d<g.dim;d++) eq&=std::fabs(t[d]-w.x[d])<=1e-8; if(eq){ w.c[k.id]=t[g.dim]; break; } } } } w.feas=feasible(g,w.c)&&inbox(g,w.x); r.rows.push_back(w); }
    r.n0=(int)r.rows.size(); r.bestInit=NAN; for(auto& w:r.rows) if(w.feas&&!(w.f>=r.bestInit)) r.bestInit=w.f; }
  // the file holds the rows it started with, in order, then a prefix of the evaluated samples; returns the number of those, or throws
  int judge(const std::string& f,const M& init,int dim,int col,int evals,const std::string& W,M& T){ std::string t=slurp(f); if(!t.empty()&&t.back()!='\n'){ spit("judge.tmp",t+"\n"); } else spit("judge.tmp",t); bool ok=readCSV("judge.tmp",T); real<int(*)(const char*)>("unlink")("judge.tmp");
    if(!ok) throw mc::Violation{"P08-file",W+": "+f+" is malformed: "+t.substr(0,500)}; if(T.size()<init.size()) throw mc::Violation{"P08-initial",W+": "+f+" has lost initial rows, "+std::to_string(T.size())+" rows left"};
    for(size_t i=0;i<T.size();i++){ V w; if(i<init.size()) w=init[i]; else { int e=(int)(i-init.size()); if(e>=evals) throw mc::Violation{"P08-extra",W+": "+f+" has more rows than samples evaluated, row "+std::to_string(i)+" is "+S(T[i])}; w.assign(LG->rec[e],LG->rec[e]+dim); w.push_back(LG->rec[e][col]); }
      if(!close(T[i],w,1e-14,6e-13)) throw mc::Violation{"P08-row",W+": row "+std::to_string(i)+" of "+f+" is "+S(T[i])+" instead of "+S(w)}; }
    return (int)(T.size()-init.size()); }
  void run(uint64_t i,mc::Ctx& c){ const K& k=(c.thorough?th:q)[i]; initDir(); Cfg g=base(k,describe(i,c.thorough)); mc::Found F;
    int rounds=c.thorough?2:1; M IO=g.X; for(size_t j=0;j<IO.size();j++) IO[j].push_back(g.F[j]); std::vector<M> IC=g.conTable;
    long N; 
    for(int rd=0;rd<=rounds;rd++){ bool last=rd==rounds; std::string before; 
      if(rd==0){ for(const char* f:{"obj_train.csv","conA_train.csv","conB_train.csv"}) unlink(f); }
      long at=-1; if(!last&&rd==0&&counted.count(i)){ N=counted[i]; at=c.choose((int)N+1); }
      else if(!last){ // number of operations of the undisturbed run, found out in a copy of the directory
        std::string cp=c.scratch+"/cnt"; mc::dropDir(cp); mc::copyDir(c.scratch,cp); if(chdir(cp.c_str())) _exit(96); int rc=child(c,g,k,-1,rd==0,rd,F); N=LG->ops; if(chdir(c.scratch.c_str())) _exit(96); mc::dropDir(cp); if(rc!=0) throw mc::Violation{F.key,F.msg+" (undisturbed)"};
        if(rd==0) counted[i]=N; at=c.choose((int)N+1); }
      int rc=child(c,g,k,at,rd==0,rd,F); if(rc==1) throw mc::Violation{F.key,F.msg}; 
      if(last) { c.op("resumed run completes"); break; }
      std::string W=g.what+", "+(rd?"second":"first")+" run dies "+(rc==77? LG->what: "after its end")+" (operation "+std::to_string(at)+" of "+std::to_string(N)+", evaluation "+std::to_string(LG->nEval)+")"; c.op(W); c.check(rc==77||at==N,"P08-internal",W+": exit code "+std::to_string(rc));
      int ev=LG->nEval; M TO; int n=judge("obj_train.csv",IO,k.dim,k.dim,ev,W,TO); c.check(n>=ev-1,"P08-lost","" +W+": obj_train.csv holds only "+std::to_string(n)+" of the "+std::to_string(ev)+" evaluated samples"); if(rc==0) c.check(n==ev,"P08-lost",W+": obj_train.csv holds only "+std::to_string(n)+" of the "+std::to_string(ev)+" evaluated samples");
      std::vector<M> TC(g.cons.size()); for(size_t q=0;q<g.cons.size();q++) if(g.cons[q].kind!='U'){ int m=judge(conFile(g.cons[q]),IC[q],k.dim,k.dim+1+(int)q,ev,W,TC[q]); c.check(m>=ev-1&&(rc||m==ev),"P08-lost",W+": "+conFile(g.cons[q])+" holds only "+std::to_string(m)+" of the "+std::to_string(ev)+" evaluated samples"); }
      c.state(mc::hashBytes(W.data(),W.size()));
      IO=TO; IC=TC; g.X.clear(); g.F.clear(); for(auto& r:TO){ g.F.push_back(r.back()); g.X.push_back(V(r.begin(),r.end()-1)); } g.conTable=TC; g.trailingNewline=slurp("obj_train.csv").back()=='\n'; for(auto& a:g.cons) if(a.kind!='U'&&slurp(conFile(a)).back()!='\n') g.trailingNewline=false; g.what=W+", then resumed"; }
  }
};
MC_MAIN(H)
