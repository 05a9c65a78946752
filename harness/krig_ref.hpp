// Kriging predictor and error estimate in extended precision (generalised least squares), shared by P11, P24 and P26.
#pragma once
#include "hx.hpp"
using namespace hx;
typedef long double LD; typedef std::vector<LD> LV;
static const LD EPS=2.3e-16L;
struct Ref { int d; std::vector<V> X; V F; V lb,ub; V hyp; LD nug; bool lin; 
  std::vector<LV> Z; LV y,w; std::vector<LV> L; LV Riy,Ri1; LD b,s2,one,cond,scale,logdet; bool ok;
  LV nz(const V& x){ LV z; for(int i=0;i<d;i++) z.push_back(((LD)x[i]-lb[i])/((LD)ub[i]-lb[i])/d); return z; }
  LD corr(const LV& a,const LV& c){ LD s=0; for(int i=0;i<d;i++) s+=(LD)hyp[i]*powl(fabsl(a[i]-c[i]),(LD)hyp[d+i]); return expl(-s); }
  LV solve(const LV& r){ int n=(int)r.size(); LV q=r; for(int i=0;i<n;i++){ for(int k=0;k<i;k++) q[i]-=L[i][k]*q[k]; q[i]/=L[i][i]; } for(int i=n-1;i>=0;i--){ for(int k=i+1;k<n;k++) q[i]-=L[k][i]*q[k]; q[i]/=L[i][i]; } return q; }
  static LD dot(const LV& a,const LV& c){ LD s=0; for(size_t i=0;i<a.size();i++) s+=a[i]*c[i]; return s; }
  LD line(const LV& z){ if(!lin) return 0; LD s=w[0]; for(int i=0;i<d;i++) s+=w[i+1]*z[i]; return s; }
  static LV gauss(std::vector<LV> A,LV r){ int n=(int)r.size(); for(int i=0;i<n;i++){ int p=i; for(int k=i+1;k<n;k++) if(fabsl(A[k][i])>fabsl(A[p][i])) p=k; std::swap(A[i],A[p]); std::swap(r[i],r[p]); for(int k=i+1;k<n;k++){ LD f=A[k][i]/A[i][i]; for(int j=i;j<n;j++) A[k][j]-=f*A[i][j]; r[k]-=f*r[i]; } } for(int i=n-1;i>=0;i--){ for(int k=i+1;k<n;k++) r[i]-=A[i][k]*r[k]; r[i]/=A[i][i]; } return r; }
  void fit(){ int n=(int)X.size(); Z.clear(); for(auto& x:X) Z.push_back(nz(x)); y.assign(F.begin(),F.end());
    scale=0; for(auto v:y) scale=std::max(scale,fabsl(v));
    if(lin){ int m=d+1; std::vector<LV> A(m,LV(m,0)); LV r(m,0); for(int k=0;k<n;k++){ LV a{1}; a.insert(a.end(),Z[k].begin(),Z[k].end()); for(int i=0;i<m;i++){ for(int j=0;j<m;j++) A[i][j]+=a[i]*a[j]; r[i]+=a[i]*y[k]; } } for(int i=0;i<m;i++) A[i][i]+=1e-8L; w=gauss(A,r); LD na=0,ni=0; for(int i=0;i<m;i++){ LV e(m,0); e[i]=1; LV q=gauss(A,e); LD a=0,c=0; for(int j=0;j<m;j++){ a+=fabsl(A[i][j]); c+=fabsl(q[j]); } na=std::max(na,a); ni=std::max(ni,c); } delta=na*ni*1e-14L*scale; for(int k=0;k<n;k++) y[k]-=line(Z[k]); }
    std::vector<LV> Rm(n,LV(n)); for(int i=0;i<n;i++) for(int j=0;j<n;j++) Rm[i][j]=corr(Z[i],Z[j])+(i==j?nug:0);
    L.assign(n,LV(n,0)); ok=true; for(int i=0;i<n&&ok;i++) for(int j=0;j<=i;j++){ LD s=Rm[i][j]; for(int k=0;k<j;k++) s-=L[i][k]*L[j][k]; if(i==j){ if(s<=1e-14L){ ok=false; break; } L[i][i]=sqrtl(s); } else L[i][j]=s/L[j][j]; }
    if(!ok) return; logdet=0; for(int i=0;i<n;i++) logdet+=2*logl(L[i][i]); LD na=0,ni=0; for(int i=0;i<n;i++){ LV e(n,0); e[i]=1; LV q=solve(e); LD a=0,c=0; for(int j=0;j<n;j++){ a+=fabsl(Rm[i][j]); c+=fabsl(q[j]); } na=std::max(na,a); ni=std::max(ni,c); } cond=na*ni; inv=ni;
    LV o(n,1); Ri1=solve(o); one=dot(o,Ri1); b=dot(Ri1,y)/one; LV yb=y; for(auto& v:yb) v-=b; Riy=solve(yb); s2=dot(yb,Riy)/n; if(s2<0) s2=0; }
  LD inv,delta=0; // delta: rounding error of the linear part
  void at(const LV& z,LD& f,LD& m){ LV r; for(auto& q:Z) r.push_back(corr(z,q)); f=line(z)+b+dot(r,Riy); LV Rr=solve(r); LD t=1-dot(r,Rr); LD u=1; for(auto v:Rr) u-=v; m=s2*(t+u*u/one); mp=fabsl(b)+scale; mm=1; LD a=0; for(size_t i=0;i<Rr.size();i++){ mp+=fabsl(Riy[i]*r[i]); a+=fabsl(Rr[i]); } mm+=a+a*a/one; }
  LD mp,mm; // size of the terms summed in the prediction and in the error estimate
};
