// Small stateless model-checking kernel: a harness describes a finite tree of behaviours (cases x choices), the kernel
// executes every leaf of that tree on the real code, in forked workers, and reports the first violating leaves.
#ifndef MC_HPP
#define MC_HPP
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <set>
#include <map>
#include <unordered_set>
#include <sstream>
#include <fstream>
#include <functional>
#include <cmath>
#include <limits>
#include <algorithm>
#include <exception>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <unistd.h>
#include <signal.h>
#include <time.h>
#include <fcntl.h>
#include <errno.h>
#include <dirent.h>

namespace mc {

struct Violation { std::string key, msg; };
struct Prune {};                       // the execution is not part of the space (impossible branch)

inline double now(){ struct timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return t.tv_sec+1e-9*t.tv_nsec; }
inline uint64_t mix(uint64_t h,uint64_t v){ h^=v+0x9e3779b97f4a7c15ull+(h<<6)+(h>>2); h*=0xff51afd7ed558ccdull; h^=h>>33; return h; }
inline uint64_t hashBytes(const void* p,size_t n,uint64_t h=1469598103934665603ull){ const unsigned char*c=(const unsigned char*)p; for(size_t i=0;i<n;i++){h^=c[i];h*=1099511628211ull;} return mix(h,n); }

const size_t MAXPATH=1u<<16;
struct Shared {
  volatile uint64_t caseIndex; volatile uint32_t len; volatile double start; volatile int busy;
  volatile uint64_t execs, trans, prunes, casesDone, knownHits, truncated;
  int path[MAXPATH]; 
  char trace[16384]; volatile uint32_t tlen;
};
struct Global { volatile uint64_t next; volatile uint64_t stop; };

class Ctx {
public:
  bool thorough=false; uint64_t seed=1;
  bool replay=false;
  std::string scratch;                 // private scratch directory (cwd) of this worker
  Shared* sh=nullptr;
  std::vector<int> path, arity; size_t pos=0;
  std::vector<int> forced; bool useForced=false;
  std::unordered_set<uint64_t>* states=nullptr;
  size_t stateCap=4000000;
  std::string trace;
  std::function<int(int)> snap;        // snapshot mode: splits the process at a choice
  // exhaustive choice 0..n-1
  int choose(int n){
    if(n<=0) throw Prune();
    if(n==1) { return 0; }
    int c;
    if(snap && pos>=path.size()){ sh->trans=sh->trans+1; arity.push_back(n); path.push_back(0); if(pos<MAXPATH) sh->len=pos+1; c=snap(n); path[pos]=c; if(pos<MAXPATH) { sh->path[pos]=c; sh->len=pos+1; } pos++; return c; }
    if(pos<path.size()){ c=path[pos]; if(pos<arity.size()) { if(arity[pos]!=n){ arity[pos]=n; if(c>=n) c=path[pos]=n-1; } } else arity.push_back(n); if(c>=n) c=n-1; }
    else { c=0; path.push_back(0); arity.push_back(n); }
    if(pos<MAXPATH){ sh->path[pos]=c; sh->len=pos+1; }
    pos++; sh->trans=sh->trans+1;
    return c;
  }
  template<class T> const T& pick(const std::vector<T>& v){ return v[choose((int)v.size())]; }
  bool flip(){ return choose(2)==1; }
  void op(const std::string& s){ sh->trans=sh->trans+1; note(s); }
  void tick(uint64_t n=1){ sh->trans=sh->trans+n; }
  void note(const std::string& s){
    if(sh->tlen+s.size()+2<sizeof(sh->trace)){ memcpy(sh->trace+sh->tlen,s.data(),s.size()); sh->trace[sh->tlen+s.size()]='\n'; sh->tlen+=s.size()+1; sh->trace[sh->tlen]=0; }
  }
  void state(uint64_t h){ if(states && states->size()<stateCap) states->insert(h); }
  void state(const std::string& s){ state(hashBytes(s.data(),s.size())); }
  void state(const std::vector<double>& v){ state(hashBytes(v.data(),v.size()*8)); }
  [[noreturn]] void fail(const std::string& key,const std::string& msg){ throw Violation{key,msg}; }
  void check(bool ok,const std::string& key,const std::string& msg){ if(!ok) fail(key,msg); }
};

struct Harness {
  virtual ~Harness(){}
  virtual uint64_t cases(bool thorough)=0;              // number of independent sub-trees
  virtual std::string describe(uint64_t i,bool thorough){ return "case "+std::to_string(i); }
  virtual void init(Ctx&){}                              // once per worker
  virtual void run(uint64_t i,Ctx& c)=0;                 // one execution
  virtual double execTimeout(){ return 60; }             // seconds before an execution counts as hung
  virtual bool isolate(){ return false; }                // fork every execution
  virtual bool snapshots(){ return false; }              // explore choices by forking the running process (and copying its directory) instead of re-executing the prefix
  virtual uint64_t maxExecsPerCase(){ return ~0ull; }
};

struct Found { std::string key,msg,trace; uint64_t caseIndex; std::vector<int> path; std::string kind, worker; };

inline std::string jsonEsc(const std::string& s){ std::string r; for(unsigned char c: s){ if(c=='"'||c=='\\'){r+='\\';r+=c;} else if(c=='\n') r+="\\n"; else if(c<32||c>=127){ char b[8]; snprintf(b,8,"\\u%04x",c); r+=b;} else r+=c; } return r; }

inline std::string pathStr(const std::vector<int>& p){ std::string s; for(size_t i=0;i<p.size();i++){ if(i) s+=","; s+=std::to_string(p[i]); } return s; }

// one execution; returns 0 ok, 1 violation (filled), 2 prune
inline int execOne(Harness& H,uint64_t ci,Ctx& C,Found& F){
  C.pos=0; C.sh->caseIndex=ci; C.sh->len=0; C.sh->tlen=0; C.sh->trace[0]=0; C.sh->start=now(); C.sh->busy=1;
  int rc=0;
  try{ H.run(ci,C); }
  catch(Prune&){ rc=2; }
  catch(Violation& v){ F.key=v.key; F.msg=v.msg; rc=1; }
  catch(std::exception& e){ F.key="exception"; F.msg=std::string("unexpected exception: ")+e.what(); rc=1; }
  catch(...){ F.key="exception"; F.msg="unexpected exception of unknown type"; rc=1; }
  C.sh->busy=0;
  if(rc==1){ F.trace=C.sh->trace; F.caseIndex=ci; F.path.assign(C.path.begin(),C.path.begin()+std::min(C.pos,C.path.size())); F.kind="assertion"; }
  return rc;
}

inline std::string readAll(const std::string& f){ std::ifstream i(f,std::ios::binary); std::stringstream s; s<<i.rdbuf(); return s.str(); }
inline void rmTree(const std::string& d){ if(d.size()<6||d.substr(0,5)!="/tmp/") return; std::string c="rm -rf '"+d+"'"; if(system(c.c_str())){} }

struct Options { bool thorough=false; std::string out, scratch, replayOut; int workers=8; double deadline=500; bool replay=false; uint64_t rcase=0; std::vector<int> rpath; std::set<std::string> known; uint64_t seed=1; bool verbose=false; std::string only; std::vector<uint64_t> order; };

inline void writeFound(FILE* f,const Found& F){
  fprintf(f,"{\"key\":\"%s\",\"kind\":\"%s\",\"msg\":\"%s\",\"case\":%llu,\"path\":[%s],\"trace\":\"%s\"}",jsonEsc(F.key).c_str(),F.kind.c_str(),jsonEsc(F.msg).c_str(),(unsigned long long)F.caseIndex,pathStr(F.path).c_str(),jsonEsc(F.trace).c_str());
}

inline bool isKnown(const Options& O,const std::string& key){ return O.known.count(key)>0; }

inline void copyDir(const std::string& a,const std::string& b){ // one level: regular files and symbolic links
  mkdir(b.c_str(),0755); DIR* d=opendir(a.c_str()); if(!d) _exit(96);
  while(dirent* e=readdir(d)){ std::string n=e->d_name,f=a+"/"+n,g=b+"/"+n; struct stat st; if(lstat(f.c_str(),&st)) continue;
    if(S_ISLNK(st.st_mode)){ char t[4096]; ssize_t k=readlink(f.c_str(),t,4095); if(k>0){ t[k]=0; if(symlink(t,g.c_str())) _exit(96);} }
    else if(S_ISREG(st.st_mode)){ int i=open(f.c_str(),O_RDONLY),o=open(g.c_str(),O_WRONLY|O_CREAT|O_TRUNC,st.st_mode&0777); if(i<0||o<0) _exit(96); char buf[65536]; ssize_t k; while((k=read(i,buf,sizeof buf))>0) if(write(o,buf,k)!=k) _exit(96); ::close(i); ::close(o); } }
  closedir(d); }
inline void dropDir(const std::string& a){ DIR* d=opendir(a.c_str()); if(!d) return; while(dirent* e=readdir(d)) if(strcmp(e->d_name,".")&&strcmp(e->d_name,"..")) unlink((a+"/"+e->d_name).c_str()); closedir(d); rmdir(a.c_str()); }

// worker process body. resumes at (case,path) if given
inline void workerLoop(Harness& H,const Options& O,Global* G,Shared* S,int w,const std::string& dir,double tEnd,bool resume,uint64_t rc,std::vector<int> rp){
  mkdir(dir.c_str(),0755); if(chdir(dir.c_str())!=0) _exit(97);
  if(!O.verbose){ int fd=open("/dev/null",O_WRONLY); dup2(fd,1); dup2(fd,2);} 
  Ctx C; C.thorough=O.thorough; C.seed=O.seed; C.scratch=dir; C.sh=S; std::unordered_set<uint64_t> st; C.states=&st;
  H.init(C);
  uint64_t n=H.cases(O.thorough);
  std::string vf=dir+".violations"; 
  auto flush=[&](){ std::ofstream o(dir+".states",std::ios::binary|std::ios::app); for(auto h: st) o.write((const char*)&h,8); o.close(); };
  std::map<std::string,uint64_t> knownHits;
  auto flushKnown=[&](){ std::ofstream o(dir+".known",std::ios::app); for(auto&k: knownHits) o<<k.first<<"\t"<<k.second<<"\n"; };
  for(;;){
    uint64_t ci;
    C.path.clear(); C.arity.clear();
    if(resume){ ci=rc; resume=false; C.path=rp; }
    else { ci=__sync_fetch_and_add(&G->next,1); if(!O.order.empty()) ci= ci<O.order.size()? O.order[ci]: n; }
    if(ci>=n||G->stop) break;
    { std::ofstream o(dir+".order",std::ios::app); o<<ci<<"\n"; }
    uint64_t execs=0; bool finished=true;
    if(H.snapshots()){
      uint64_t tr=S->truncated; auto crashed=[&](int status){ Found F; F.caseIndex=ci; F.path.assign(S->path,S->path+std::min<size_t>(S->len,MAXPATH)); F.trace=(const char*)S->trace; F.kind=F.key="crash"; F.msg=WIFSIGNALED(status)? "process killed by signal "+std::to_string(WTERMSIG(status)) : "process exited with code "+std::to_string(WEXITSTATUS(status))+" in the middle of an execution";
        FILE* f=fopen(vf.c_str(),"a"); writeFound(f,F); fprintf(f,"\n"); fclose(f); __sync_fetch_and_add(&G->stop,1); };
      std::string cur=dir+"/s0";
      pid_t p=fork(); int status=0;
      if(p==0){
        copyDir(dir,cur); if(chdir(cur.c_str())) _exit(96); C.scratch=cur; int depth=0; st.clear();
        C.snap=[&](int m)->int{
          uint32_t tl=S->tlen;
          for(int k=0;k+1<m;k++){
            if(now()>tEnd) S->truncated=S->truncated+1; if(now()>tEnd||G->stop){ flush(); flushKnown(); _exit(0); }
            std::string nd=dir+"/s"+std::to_string(depth+1)+"_"+std::to_string(k); copyDir(cur,nd);
            pid_t q=fork();
            if(q==0){ cur=nd; depth++; st.clear(); knownHits.clear(); if(chdir(cur.c_str())) _exit(96); C.scratch=cur; S->start=now(); return k; }
            int s2=0; while(waitpid(q,&s2,0)<0&&errno==EINTR){} dropDir(nd); S->start=now();
            if(!(WIFEXITED(s2)&&WEXITSTATUS(s2)==0)){ if(WIFEXITED(s2)&&WEXITSTATUS(s2)==77) _exit(77); crashed(s2); _exit(77); }
            S->tlen=tl; S->trace[tl]=0; for(size_t i=0;i<C.path.size()&&i<MAXPATH;i++) S->path[i]=C.path[i]; S->len=C.pos;
          }
          if(G->stop){ flush(); flushKnown(); _exit(0); }
          return m-1; };
        Found F; int r=execOne(H,ci,C,F); S->busy=1;
        if(r==1){ if(isKnown(O,F.key)) knownHits[F.key]++; else { FILE* f=fopen(vf.c_str(),"a"); writeFound(f,F); fprintf(f,"\n"); fclose(f); __sync_fetch_and_add(&G->stop,1); } }
        if(r==2) S->prunes=S->prunes+1; else S->execs=S->execs+1;
        flush(); flushKnown(); _exit(0);
      }
      while(waitpid(p,&status,0)<0&&errno==EINTR){} dropDir(cur); S->busy=0;
      if(!(WIFEXITED(status)&&(WEXITSTATUS(status)==0||WEXITSTATUS(status)==77))) crashed(status);
      st.clear(); if(S->truncated==tr&&!G->stop) S->casesDone=S->casesDone+1;
      if(now()>tEnd){ S->truncated=S->truncated+1; break; }
      continue;
    }
    for(;;){
      if(now()>tEnd||G->stop){ finished=false; S->truncated=1; break; }
      Found F; int r;
      if(H.isolate()){
        // fork every execution: choices are read back from shared memory
        pid_t p=fork();
        if(p==0){ int rr=execOne(H,ci,C,F); if(rr==1){ FILE* f=fopen((dir+"/mc_found").c_str(),"w"); writeFound(f,F); fprintf(f,"\n%s\n",F.key.c_str()); fclose(f);} 
          { std::ofstream o(dir+".states",std::ios::binary|std::ios::app); for(auto h: st) o.write((const char*)&h,8); }
          { FILE* f=fopen((dir+"/mc_path").c_str(),"wb"); uint32_t l=C.path.size(); fwrite(&l,4,1,f); fwrite(C.path.data(),4,l,f); uint32_t l2=C.arity.size(); fwrite(&l2,4,1,f); fwrite(C.arity.data(),4,l2,f); fclose(f);} 
          _exit(rr); }
        int status; double t0=now(); bool hung=false;
        for(;;){ pid_t q=waitpid(p,&status,WNOHANG); if(q==p) break; if(now()-t0>H.execTimeout()){ hung=true; kill(p,SIGKILL); waitpid(p,&status,0); break;} usleep(200); }
        if(hung||!WIFEXITED(status)||WEXITSTATUS(status)>2){ if(hung) S->start=now()-1e6; S->busy=hung?3:2; _exit(99); }
        r=WEXITSTATUS(status);
        FILE* f=fopen((dir+"/mc_path").c_str(),"rb"); uint32_t l=0; if(fread(&l,4,1,f)!=1) _exit(98); C.path.resize(l); if(fread(C.path.data(),4,l,f)!=l) _exit(98); if(fread(&l,4,1,f)!=1) _exit(98); C.arity.resize(l); if(fread(C.arity.data(),4,l,f)!=l) _exit(98); fclose(f);
        C.pos=C.path.size(); S->busy=0; st.clear();
        if(r==1){ std::string t=readAll(dir+"/mc_found"); size_t nl=t.find('\n'); std::string key=t.substr(nl+1); key=key.substr(0,key.find('\n')); F.key=key; 
          if(isKnown(O,key)) knownHits[key]++; else { std::ofstream o(vf,std::ios::app); o<<t.substr(0,nl)<<"\n"; __sync_fetch_and_add(&G->stop,1); } }
      } else {
        r=execOne(H,ci,C,F);
        if(r==1){ if(isKnown(O,F.key)) knownHits[F.key]++; else { FILE* f=fopen(vf.c_str(),"a"); writeFound(f,F); fprintf(f,"\n"); fclose(f); __sync_fetch_and_add(&G->stop,1); } }
      }
      if(r==2) S->prunes=S->prunes+1; else S->execs=S->execs+1;
      execs++;
      // next path
      C.path.resize(std::min(C.path.size(),C.pos)); C.arity.resize(C.path.size());
      while(!C.path.empty() && C.path.back()+1>=C.arity.back()){ C.path.pop_back(); C.arity.pop_back(); }
      if(C.path.empty()) break;
      C.path.back()++;
      if(execs>=H.maxExecsPerCase()){ finished=false; S->truncated=1; break; }
    }
    if(finished) S->casesDone=S->casesDone+1;
  }
  flush(); flushKnown();
  _exit(0);
}

inline std::string fmt(double v){ char b[40]; snprintf(b,40,"%.17g",v); return b; }

inline int harnessMain(int argc,char** argv,Harness& H){
  Options O; O.workers=8;
  for(int i=1;i<argc;i++){
    std::string a=argv[i]; auto val=[&](){ return std::string(argv[++i]); };
    if(a=="--tier") O.thorough=(val()=="thorough");
    else if(a=="--out") O.out=val(); else if(a=="--scratch") O.scratch=val();
    else if(a=="--workers") O.workers=atoi(val().c_str()); else if(a=="--deadline") O.deadline=atof(val().c_str());
    else if(a=="--seed") O.seed=strtoull(val().c_str(),0,10);
    else if(a=="--known"){ std::string v=val(); if(!v.empty()) O.known.insert(v); }
    else if(a=="--replay-case"){ O.replay=true; O.rcase=strtoull(val().c_str(),0,10); }
    else if(a=="--replay-path"){ std::stringstream s(val()); std::string t; while(std::getline(s,t,',')) if(!t.empty()) O.rpath.push_back(atoi(t.c_str())); }
    else if(a=="--verbose") O.verbose=true;
    else if(a=="--sequence"){ std::ifstream s(val()); uint64_t z; while(s>>z) O.order.push_back(z); O.workers=1; }   // explore exactly these cases, in this order, in one process
    else { fprintf(stderr,"unknown option %s\n",a.c_str()); return 2; }
  }
  setenv("OPENBLAS_NUM_THREADS","1",1);
  if(O.scratch.empty()){ char t[]="/tmp/mcXXXXXX"; O.scratch=mkdtemp(t); }
  double t0=now();
  size_t gsz=sizeof(Global)+sizeof(Shared)*(O.workers+1);
  char* mem=(char*)mmap(0,gsz,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0);
  Global* G=(Global*)mem; Shared* S=(Shared*)(mem+sizeof(Global));
  if(O.replay){
    pid_t p=fork();
    std::string dir=O.scratch+"/replay";
    if(p==0){
      setpgid(0,0);
      mkdir(dir.c_str(),0755); if(chdir(dir.c_str())!=0) _exit(97);
      int keep=dup(1); if(!O.verbose){ int fd=open("/dev/null",O_WRONLY); dup2(fd,1); dup2(fd,2);} 
      Ctx C; C.thorough=O.thorough; C.seed=O.seed; C.scratch=dir; C.sh=&S[0]; C.path=O.rpath; C.replay=true; std::unordered_set<uint64_t> st; C.states=&st; H.init(C);
      Found F; int r=execOne(H,O.rcase,C,F);
      FILE* f=fdopen(keep,"w"); if(r==1){ fprintf(f,"REPRODUCED key=%s msg=%s\n%s",F.key.c_str(),F.msg.c_str(),F.trace.c_str()); } else fprintf(f,"NOT REPRODUCED (rc=%d)\n%s",r,S[0].trace); fflush(f);
      _exit(r==1?1:0);
    }
    int status; double ts=now(); bool hung=false;
    for(;;){ pid_t q=waitpid(p,&status,WNOHANG); if(q==p) break; if(now()-ts>2*H.execTimeout()){ hung=true; kill(-p,SIGKILL); kill(p,SIGKILL); waitpid(p,&status,0); break; } usleep(1000);} 
    if(hung){ printf("REPRODUCED key=hang msg=execution does not terminate\n%s",S[0].trace); return 1; }
    if(WIFSIGNALED(status)){ printf("REPRODUCED key=crash msg=killed by signal %d\n%s",WTERMSIG(status),S[0].trace); return 1; }
    if(WEXITSTATUS(status)!=0 && WEXITSTATUS(status)!=1){ printf("REPRODUCED key=crash msg=exited with code %d\n%s",WEXITSTATUS(status),S[0].trace); return 1; }
    return WEXITSTATUS(status);
  }
  uint64_t n=H.cases(O.thorough);
  double tEnd=t0+O.deadline;
  std::vector<pid_t> pid(O.workers,0); std::vector<Found> crashes; std::map<std::string,uint64_t> knownCrash;
  std::vector<std::string> dirs(O.workers);
  std::vector<int> incarnation(O.workers,0);
  std::vector<std::string> alldirs;
  auto spawn=[&](int w,bool resume,uint64_t rc,const std::vector<int>& rp){
    std::string d=O.scratch+"/w"+std::to_string(w)+"_"+std::to_string(incarnation[w]++); dirs[w]=d; alldirs.push_back(d);
    S[w].busy=0; S[w].start=now();
    fflush(stdout); fflush(stderr);
    pid_t p=fork(); if(p==0){ setpgid(0,0); workerLoop(H,O,G,&S[w],w,d,tEnd,resume,rc,rp); _exit(0);} pid[w]=p; };
  int alive=0;
  for(int w=0;w<O.workers;w++){ spawn(w,false,0,{}); alive++; }
  while(alive>0){
    int status; pid_t p=waitpid(-1,&status,WNOHANG);
    if(p<=0){
      for(int w=0;w<O.workers;w++) if(pid[w]>0){
        if(!H.isolate() && S[w].busy==1 && now()-S[w].start>H.execTimeout()) { S[w].busy=3; kill(-pid[w],SIGKILL); kill(pid[w],SIGKILL); }
        else if(now()>tEnd+60+H.execTimeout()){ S[w].truncated=1; S[w].busy=0; kill(-pid[w],SIGKILL); kill(pid[w],SIGKILL);} }
      usleep(2000); continue; }
    int w=-1; for(int k=0;k<O.workers;k++) if(pid[k]==p) w=k;
    if(w<0) continue;
    pid[w]=0; alive--; 
    kill(-p,SIGKILL);
    bool ok=WIFEXITED(status)&&WEXITSTATUS(status)==0;
    if(ok) continue;
    if(S[w].busy==0 && now()>tEnd) continue;
    Found F; F.caseIndex=S[w].caseIndex; F.path.assign(S[w].path,S[w].path+std::min<size_t>(S[w].len,MAXPATH)); F.trace=std::string((const char*)S[w].trace); 
    if(S[w].busy==3){ F.key="hang"; F.kind="hang"; F.msg="execution does not terminate"; }
    else { F.key="crash"; F.kind="crash"; F.msg=WIFSIGNALED(status)? "process killed by signal "+std::to_string(WTERMSIG(status)) : "process exited with code "+std::to_string(WIFEXITED(status)?WEXITSTATUS(status):-1)+" in the middle of an execution"; }
    F.worker=dirs[w]; crashes.push_back(F); __sync_fetch_and_add(&G->stop,1);
  }
  // gather
  std::unordered_set<uint64_t> all; uint64_t execs=0,trans=0,pr=0,done=0,trunc=0;
  for(int w=0;w<O.workers;w++){ execs+=S[w].execs; trans+=S[w].trans; pr+=S[w].prunes; done+=S[w].casesDone; trunc+=S[w].truncated; }
  std::string viol; std::map<std::string,uint64_t> known; auto withOrder=[&](std::string l,const std::string& d){ size_t z=l.rfind('}'); std::ifstream o(d+".order"); std::string t,r; while(std::getline(o,t)) r+=(r.empty()?"":",")+t; if(z!=std::string::npos) l.insert(z,",\"order\":["+r+"]"); return l; };
  for(auto& d: alldirs){
    std::ifstream i(d+".states",std::ios::binary); uint64_t h; while(i.read((char*)&h,8)) all.insert(h);
    std::ifstream v(d+".violations"); std::string l; while(std::getline(v,l)){ if(!viol.empty()) viol+=",\n"; viol+=withOrder(l,d); }
    std::ifstream k(d+".known"); while(std::getline(k,l)){ size_t t=l.rfind('\t'); known[l.substr(0,t)]+=strtoull(l.c_str()+t+1,0,10); }
  }
  for(auto& F: crashes){ char* b=nullptr; size_t sz=0; FILE* f=open_memstream(&b,&sz); writeFound(f,F); fclose(f); if(!viol.empty()) viol+=",\n"; viol+=F.worker.empty()? std::string(b): withOrder(b,F.worker); free(b); }
  FILE* f=fopen(O.out.empty()?"/dev/stdout":O.out.c_str(),"w");
  fprintf(f,"{\"cases\":%llu,\"cases_done\":%llu,\"executions\":%llu,\"transitions\":%llu,\"states\":%llu,\"pruned\":%llu,\"exhaustive\":%s,\"wall\":%.2f,\n\"known\":{",(unsigned long long)n,(unsigned long long)done,(unsigned long long)execs,(unsigned long long)trans,(unsigned long long)all.size(),(unsigned long long)pr,(done==n&&viol.empty())?"true":"false",now()-t0);
  bool first=true; for(auto&k: known){ fprintf(f,"%s\"%s\":%llu",first?"":",",jsonEsc(k.first).c_str(),(unsigned long long)k.second); first=false; }
  fprintf(f,"},\n\"samples\":[");
  std::vector<uint64_t> sm; if(n) { sm.push_back(0); if(n>2) sm.push_back(n/2); if(n>1) sm.push_back(n-1); }
  for(size_t i=0;i<sm.size();i++) fprintf(f,"%s\"%s\"",i?",":"",jsonEsc(H.describe(sm[i],O.thorough)).c_str());
  fprintf(f,"],\n\"violations\":[%s]}\n",viol.c_str()); fclose(f);
  (void)trunc;
  return viol.empty()?0:1;
}

} // namespace mc
#define MC_MAIN(H) int main(int argc,char** argv){ H h; return mc::harnessMain(argc,argv,h); }
#endif
