// P25: the linear model against the regularised least-squares solution in extended precision.
// Every sample subset of a grid x outputs x regularisation (PART 1), every sequence of set / train / initialise / new file / copy (PART 2).
#include "hx.hpp"
#include "SurrogateModels/INCLUDE/linear_regression.hpp"
#include "SurrogateModels/INCLUDE/model_logger.hpp"
#include <unistd.h>
using namespace Rodop; using namespace hx; using mc::fmt;
#ifndef PART
#define PART 1
#endif
typedef long double LD; typedef std::vector<LD> LV;
struct Ref{ int d; V lb,ub; LV w; LD cond=0,scale=0;
  LV nz(const V& x)const{ LV z; for(int i=0;i<d;i++) z.push_back(((LD)x[i]-lb[i])/((LD)ub[i]-lb[i])/d); return z; }
  static bool gauss(std::vector<LV> A,LV r,LV& x){ int n=(int)r.size(); for(int i=0;i<n;i++){ int p=i; for(int k=i+1;k<n;k++) if(fabsl(A[k][i])>fabsl(A[p][i])) p=k; std::swap(A[i],A[p]); std::swap(r[i],r[p]); if(fabsl(A[i][i])<1e-25L) return false; for(int k=i+1;k<n;k++){ LD f=A[k][i]/A[i][i]; for(int j=i;j<n;j++) A[k][j]-=f*A[i][j]; r[k]-=f*r[i]; } } for(int i=n-1;i>=0;i--){ for(int k=i+1;k<n;k++) r[i]-=A[i][k]*r[k]; r[i]/=A[i][i]; } x=r; return true; }
  bool fit(const M& rows,double lam){ int m=d+1; std::vector<LV> A(m,LV(m,0)); LV r(m,0); scale=0; for(auto& q:rows){ LV a{1}; LV z=nz(q); a.insert(a.end(),z.begin(),z.end()); scale=std::max(scale,fabsl((LD)q[d])); for(int i=0;i<m;i++){ for(int j=0;j<m;j++) A[i][j]+=a[i]*a[j]; r[i]+=a[i]*q[d]; } } for(int i=0;i<m;i++) A[i][i]+=lam; if(!gauss(A,r,w)) return false; LD na=0,ni=0; for(int i=0;i<m;i++){ LV e(m,0),q; e[i]=1; gauss(A,e,q); LD a=0,c=0; for(int j=0;j<m;j++){ a+=fabsl(A[i][j]); c+=fabsl(q[j]); } na=std::max(na,a); ni=std::max(ni,c); } cond=na*ni; for(auto v:w) scale=std::max(scale,fabsl(v)); return cond<1e13L; }
  LD at(const V& x)const{ LV z=nz(x); LD s=w[0]; for(int i=0;i<d;i++) s+=w[i+1]*z[i]; return s; } };
static void judge(const LinearModel& m,const Ref& r,const M& qs,mc::Ctx& c,const std::string& W,const M* affine=nullptr){ LD tol=r.cond*2.3e-16L*50*r.scale*(r.d+1)+1e-13L*r.scale; V w=fromv(m.getWeights()); c.check((int)w.size()==r.d+1,"P25-size",W+": "+std::to_string(w.size())+" weights"); for(int i=0;i<=r.d;i++) c.check(fabsl(w[i]-r.w[i])<=tol,"P25-weights",W+": weight "+std::to_string(i)+" is "+fmt(w[i])+" instead of "+fmt((double)r.w[i]));
  M Z; for(auto& x:qs){ V z; for(auto v:r.nz(x)) z.push_back((double)v); Z.push_back(z); } V all=fromv(m.interpolateAll(tmat(Z))); V iv=fromv(m.interpolateVector(tmat(Z)));
  for(size_t k=0;k<qs.size();k++){ double f=m.interpolate(tv(Z[k])); c.tick(); c.check(fabsl(f-r.at(qs[k]))<=tol*(r.d+1),"P25-value",W+": prediction at "+S(qs[k])+" is "+fmt(f)+" instead of "+fmt((double)r.at(qs[k]))); c.check(closed(all[k],f,1e-14,1e-300)&&closed(iv[k],f,1e-14,1e-300),"P25-all",W+": prediction number "+std::to_string(k)+" of the matrix form is "+fmt(all[k])+" "+fmt(iv[k])+", of the single form "+fmt(f)); }
  if(affine) for(auto& q:*affine){ V z; for(auto v:r.nz(q)) z.push_back((double)v); double f=m.interpolate(tv(z)); c.check(fabsl(f-q[r.d])<=tol*(r.d+1),"P25-reproduces",W+": affine data "+S(q)+" predicted as "+fmt(f)); }
  c.state(mc::hashBytes(w.data(),8*w.size())); }
static M grid(int d,const V& lb,const V& ub){ M r; int per=d==1?5:d==2?3:2; int n=1; for(int i=0;i<d;i++) n*=per; for(int k=0;k<n;k++){ V x; int q=k; for(int i=0;i<d;i++){ x.push_back(lb[i]+(ub[i]-lb[i])*(q%per)/(per-1)); q/=per; } r.push_back(x); } return r; }
static void box(int d,int b,V& lb,V& ub){ static const double l[3][3]={{0,0,0},{-2,3,1e3},{100,-1e-2,-5}},u[3][3]={{1,1,1},{6,3.5,2e3},{1100,1e-2,-4}}; lb.assign(l[b],l[b]+d); ub.assign(u[b],u[b]+d); }
static void load(LinearModel& m){ m.readData(); m.normalizeData(); m.initializeSurrogateModel(); }
struct H: mc::Harness {
  void init(mc::Ctx&){ ModelLogger::getInstance().setLogLevel(CRITICAL); int fd=open("/dev/null",O_WRONLY); dup2(fd,1); dup2(fd,2); }
#if PART==1
  struct K{ int d,box,mask; };
  static std::vector<K> make(){ std::vector<K> r; for(int d=1;d<=3;d++) for(int b=0;b<3;b++){ int n=d==1?5:d==2?9:8; for(int m=1;m<(1<<n);m++){ r.push_back({d,b,m}); } } return r; }
  K at(uint64_t i,bool){ static std::vector<K> a=make(); return a[i]; }
  uint64_t cases(bool){ return make().size(); }
  std::string describe(uint64_t i,bool t){ K k=at(i,t); return std::to_string(k.d)+"-D box "+std::to_string(k.box)+" samples "+std::to_string(k.mask); }
  void run(uint64_t i,mc::Ctx& c){ K k=at(i,c.thorough); Ref r; r.d=k.d; box(k.d,k.box,r.lb,r.ub); M g=grid(k.d,r.lb,r.ub),X; for(size_t j=0;j<g.size();j++) if(k.mask>>j&1) X.push_back(g[j]); int n=(int)X.size();
    std::vector<V> pats; for(int p=0;p<4;p++){ V f; for(int j=0;j<n;j++) f.push_back(p==0? ((j*5+k.mask)%7)-3.0: p==1? 1e6*(((j*3+k.mask)%5)+0.25): p==2? (j==n/2?1e-3:0): 0); pats.push_back(f); }
    { V f; for(auto& x:X){ double s=2.5; for(int q=0;q<k.d;q++) s+=(q%2?-3:1.5)*(x[q]-r.lb[q])/(r.ub[q]-r.lb[q]); f.push_back(s); } pats.push_back(f); }
    for(size_t p=0;p<pats.size();p++){ M rows=X; for(int j=0;j<n;j++) rows[j].push_back(pats[p][j]); if((i+p)%2) std::reverse(rows.begin(),rows.end()); writeCSV("l.csv",rows); LinearModel m; m.setDimension(k.d); m.setName("lin"); m.setNameOfInputFile("l.csv"); m.setBoxConstraints(Bounds(tv(r.lb),tv(r.ub))); load(m);
      for(double lam:{1e-8,0.0,1e-3,1.0,250.0}){ if(lam==0&&!r.fit(rows,lam)) continue; if(!r.fit(rows,lam)) continue; if(lam!=1e-8){ m.setRegularizationParameter(lam); m.train(); } c.op(describe(i,c.thorough)+" regularisation "+fmt(lam)); judge(m,r,g,c,describe(i,c.thorough)+" outputs "+S(pats[p])+" regularisation "+fmt(lam),lam==0&&p+1==pats.size()?&rows:nullptr); } } }
#else
  uint64_t cases(bool){ return 3; } bool snapshots(){ return true; }
  std::string describe(uint64_t i,bool t){ return std::to_string(1+i)+"-D, call sequences of length "+std::to_string(t?6:5); }
  void run(uint64_t i,mc::Ctx& c){ int d=1+(int)i; Ref r; r.d=d; box(d,1,r.lb,r.ub); M g=grid(d,r.lb,r.ub); M A,B; for(size_t j=0;j<g.size();j++){ V x=g[j]; x.push_back(std::cos(3.0*j)*4); (j%2?A:B).push_back(x); if(j==0||j+1==g.size()) (j%2?B:A).push_back(x); } writeCSV("l.csv",A); LinearModel m; m.setDimension(d); m.setName("lin"); m.setNameOfInputFile("l.csv"); m.setBoxConstraints(Bounds(tv(r.lb),tv(r.ub))); double lam=1e-8,used=-1; const M* rows=&A; const M* file=&A; const M* fit=nullptr; std::string W=describe(i,c.thorough)+":"; bool read=false;
    for(int s=0;s<(c.thorough?6:5);s++){ int a=c.choose(8); std::string op; static const double LM[]={1e-8,0.05,2.0};
      if(a<3){ if(lam==LM[a]&&s) throw mc::Prune(); lam=LM[a]; op=" regularisation "+fmt(lam); W+=op; m.setRegularizationParameter(lam); }
      else if(a==3){ if(!read) throw mc::Prune(); op=" train"; W+=op; m.train(); used=lam; fit=rows; }
      else if(a==4){ op=" read and initialise"; W+=op; rows=file; load(m); read=true; used=lam; fit=rows; }
      else if(a==5){ file=file==&A?&B:&A; op=" change file"; W+=op; writeCSV("l.csv",*file); }
      else if(a==6){ if(!read) throw mc::Prune(); op=" read and train"; W+=op; rows=file; m.readData(); m.normalizeData(); m.train(); used=lam; fit=rows; }
      else { op=" copy"; W+=op; LinearModel q(m); m=q; }
      c.op(op); if(fit&&r.fit(*fit,used)) judge(m,r,g,c,W+", regularisation "+fmt(used)); if(read) c.check(m.getRegularizationParameter()==lam,"P25-parameter",W+": the regularisation parameter is "+fmt(m.getRegularizationParameter())+" instead of "+fmt(lam)); } }
#endif
};
MC_MAIN(H)
