// P16: Cholesky / LU / inverse / determinant on all small integer matrices, exact integer oracle; solver objects reused.
#include "mc.hpp"
#include "LinearAlgebra/INCLUDE/linear_solver.hpp"
using namespace mc; using std::vector; using Rodop::mat; using Rodop::vec; using Rodop::CholeskySystem; using Rodop::LUSystem;
typedef vector<vector<long>> I;
static mat mk(const I& a){ int n=a.size(); mat m(n,n); for(int i=0;i<n;i++) for(int j=0;j<n;j++) m(i,j)=a[i][j]; return m; }
static std::string show(const I& a){ std::string s; for(auto&r:a){ for(long v:r) s+=std::to_string(v)+" "; s+="; "; } return "["+s+"]"; }
static long det(const I& a){ int n=a.size(); if(n==0) return 1; if(n==1) return a[0][0]; long d=0; for(int j=0;j<n;j++){ I b; for(int i=1;i<n;i++){ vector<long> r; for(int k=0;k<n;k++) if(k!=j) r.push_back(a[i][k]); b.push_back(r); } d+=(j%2?-1:1)*a[0][j]*det(b); } return d; }
static long minor_(const I& a,int k){ I b(k,vector<long>(k)); for(int i=0;i<k;i++) for(int j=0;j<k;j++) b[i][j]=a[i][j]; return det(b); }
// definite sign: +1 PD, -1 some negative eigenvalue, 0 singular PSD
static int definite(const I& a){ int n=a.size(); bool pd=true; for(int k=1;k<=n;k++) if(minor_(a,k)<=0) pd=false; if(pd) return 1;
  // PSD iff all principal minors >=0
  for(int mask=1;mask<(1<<n);mask++){ vector<int> id; for(int i=0;i<n;i++) if(mask>>i&1) id.push_back(i); I b(id.size(),vector<long>(id.size())); for(size_t i=0;i<id.size();i++) for(size_t j=0;j<id.size();j++) b[i][j]=a[id[i]][id[j]]; if(det(b)<0) return -1; } return 0; }
template<class F> static bool throws(F f){ try{ f(); }catch(const std::exception&){ return true; } return false; }
static double scaleOf(const I& a){ double s=1; for(auto&r:a) for(long v:r) s=std::max(s,(double)std::labs(v)); return s; }
static bool finite(const vec& v){ for(unsigned i=0;i<v.getSize();i++) if(!std::isfinite(v(i))) return false; return true; }
static bool residualOk(const I& a,const vec& x,const vec& b,double cond){ int n=a.size(); if((int)x.getSize()!=n||!finite(x)) return false; for(int i=0;i<n;i++){ double s=0,m=std::fabs(b(i)); for(int j=0;j<n;j++){ s+=a[i][j]*x(j); m+=std::fabs(a[i][j]*x(j)); } if(std::fabs(s-b(i))>1e-10*(1+m)*cond) return false; } return true; }
static vector<vec> rhs(int n){ vector<vec> r; for(int k=0;k<n;k++){ vec e(n); e(k)=1; r.push_back(e); } vec b(n); for(int k=0;k<n;k++) b(k)=(k%2?-1.5:2.0)*(k+1); r.push_back(b); vec z(n); r.push_back(z); return r; }
static void checkChol(const I& a,Ctx& c,CholeskySystem* reuse){
  int n=a.size(); int d=definite(a); const mat A=mk(a); std::string S=show(a);
  auto factorOk=[&](const mat& L){ if((int)L.getNRows()!=n) return false; for(int i=0;i<n;i++){ if(!(L(i,i)>=0)) return false; for(int j=0;j<n;j++){ if(j>i&&L(i,j)!=0) return false; double s=0; for(int k=0;k<n;k++) s+=L(i,k)*L(j,k); if(!(std::fabs(s-a[i][j])<1e-9*scaleOf(a))) return false; } } return true; };
  for(int v=0;v<3;v++){ int ret=7; mat L= v==0? A.cholesky(ret): v==1? A.choleskyNaive(ret): A.choleskyOpenBlas(ret); const char* w= v==0?"cholesky":v==1?"choleskyNaive":"choleskyOpenBlas"; c.tick();
    if(d==1&&ret!=1) c.fail("pd-refused",std::string(w)+" fails on positive definite "+S);
    if(d==-1&&ret!=-1) c.fail("indefinite-accepted",std::string(w)+" accepts indefinite "+S);
    if(ret==1&&!factorOk(L)) c.fail("factor",std::string(w)+" wrong factor of "+S);
    if(ret==1&&d==1) for(auto& b: rhs(n)){ vec x= v==0?L.solveCholesky(b): v==1?L.solveCholeskyNaive(b):L.solveCholeskyOpenBlas(b); c.tick(); if(!residualOk(a,x,b,1)) c.fail("solve",std::string(w)+" wrong solution for "+S); }
    if(ret!=1&&ret!=-1) c.fail("flag","no result flag"); }
  CholeskySystem own; CholeskySystem& s= reuse?*reuse:own;
  s.setMatrix(A); if(s.isFactorizationDone()) c.fail("stale-flag","factorization flag survives setMatrix"); if((int)s.getDimension()!=n||!s.checkDimension(n)) c.fail("dimension","dimension not updated");
  if(!s.getMatrix().isEqual(A)) c.fail("matrix","stored matrix differs");
  s.factorize(); c.tick();
  if(d==1){ if(!s.isFactorizationDone()) c.fail("pd-refused","system refuses positive definite "+S); for(auto& b: rhs(n)) if(!residualOk(a,s.solveLinearSystem(b),b,1)) c.fail("solve","system solution wrong for "+S); double dd=det(a); if(std::fabs(s.calculateDeterminant()-dd)>1e-9*std::max(1.0,dd)) c.fail("determinant","determinant of "+S+" is "+fmt(s.calculateDeterminant())); if(std::fabs(s.calculateLogDeterminant()-std::log(dd))>1e-9) c.fail("logdet","log determinant of "+S); if(!factorOk(s.getFactorizedMatrix())) c.fail("factor","system factor"); }
  if(d==-1&&s.isFactorizationDone()) c.fail("indefinite-accepted","system accepts indefinite "+S);
}
static void checkLU(const I& a,Ctx& c,LUSystem* reuse){
  int n=a.size(); long dd=det(a); const mat A=mk(a); std::string S=show(a);
  bool zero=false; for(int i=0;i<n;i++){ bool zr=true,zc=true; for(int j=0;j<n;j++){ if(a[i][j]) zr=false; if(a[j][i]) zc=false; } if(zr||zc) zero=true; }
  LUSystem own(n); LUSystem& s= reuse?*reuse:own;
  s.setMatrix(A); if(s.isFactorizationDone()) c.fail("stale-flag","LU flag survives setMatrix"); if(s.getDimension()!=n||!s.checkDimension(n)||s.checkDimension(n+1)) c.fail("dimension","LU dimension"); s.factorize(); c.tick();
  if(dd!=0){
    if(!s.isFactorizationDone()) c.fail("nonsingular-refused","LU refuses "+S);
    for(auto& b: rhs(n)){ c.tick(); if(!residualOk(a,s.solveLinearSystem(b),b,1)) c.fail("lu-solve","LU system solution wrong for "+S); if(!residualOk(a,A.solve(b),b,1)) c.fail("solve","solve wrong for "+S);
      for(int v=0;v<3;v++){ vector<int> p(n); int ret=7; mat F= v==0?A.lu(p.data(),ret): v==1?A.luNaive(p.data(),ret):A.luOpenBlas(p.data(),ret); if(ret!=1) c.fail("nonsingular-refused","lu variant refuses "+S); vec x= v==0?F.solveLU(p.data(),b): v==1?F.solveLUNaive(p.data(),b):F.solveLUOpenBlas(p.data(),b); if(!residualOk(a,x,b,1)) c.fail("lu-solve","lu variant "+std::to_string(v)+" wrong for "+S); } }
    for(int v=0;v<3;v++){ mat X= v==0?A.invert(): v==1?A.invertNaive():A.invertOpenBlas(); c.tick(); mat P=A*X; mat E(n,n); E.eye(); if(!P.isEqual(E,1e-9)) c.fail("inverse","inverse of "+S+" wrong"); for(int i=0;i<n*n;i++) if(!std::isfinite(X.getPointer()[i])) c.fail("inverse","inverse not finite"); }
  } else if(zero){ if(s.isFactorizationDone()) c.fail("singular-accepted","LU accepts "+S); if(!throws([&]{A.invert();})||!throws([&]{A.invertNaive();})||!throws([&]{A.solve(vec(n));})) c.fail("singular-accepted","inverse/solve accept singular "+S); vector<int> p(n); int ret=7; mat F=A.luNaive(p.data(),ret); if(ret!=-1) c.fail("singular-accepted","luNaive accepts "+S); mat G(F); }
  if(!mk(a).isEqual(A)) c.fail("mutates","operand changed");
}
struct Space{ int n; bool sym; vector<long> al; uint64_t count; };
struct H: Harness{
  vector<Space> sp(bool t){ vector<Space> v={{1,true,{-2,-1,0,1,2,5},0},{2,true,{-3,-2,-1,0,1,2,3,4},0},{3,true,{-1,0,1,2,3},0},{2,false,{-3,-2,-1,0,1,2,3},0},{3,false,t?vector<long>{-2,-1,0,1,3}:vector<long>{-1,0,2},0},{4,true,t?vector<long>{-1,0,1,3}:vector<long>{-1,0,3},0}}; for(auto&s:v){ int e=s.sym?s.n*(s.n+1)/2:s.n*s.n; s.count=1; for(int i=0;i<e;i++) s.count*=s.al.size(); } return v; }
  static I build(const Space& s,uint64_t k){ I a(s.n,vector<long>(s.n)); for(int i=0;i<s.n;i++) for(int j=s.sym?i:0;j<s.n;j++){ a[i][j]=s.al[k%s.al.size()]; k/=s.al.size(); if(s.sym) a[j][i]=a[i][j]; } return a; }
  static const int BLK=64;
  vector<I> pool(){ vector<I> p; auto add=[&](I a){ p.push_back(a); }; add({{2}});add({{-1}});add({{0}});add({{4,1},{1,3}});add({{1,2},{2,1}});add({{0,1},{1,0}});add({{1,1},{1,1}});add({{0,0},{0,0}});add({{3,1},{-2,5}});add({{2,0},{0,1}});
    add({{4,1,0},{1,3,1},{0,1,2}});add({{0,2,1},{1,0,3},{2,1,0}});add({{1,2,3},{2,1,0},{3,0,1}});add({{5,0,0},{0,0,0},{0,0,1}});add({{9,3,1},{3,8,2},{1,2,7}});add({{1,0,0,0},{0,2,0,0},{0,0,3,0},{0,0,0,4}});add({{0,0,0,1},{1,0,0,0},{0,1,0,0},{0,0,1,0}});add({{6,1,1,1},{1,6,1,1},{1,1,6,1},{1,1,1,6}}); 
    I big(7,vector<long>(7)); for(int i=0;i<7;i++) for(int j=0;j<7;j++) big[i][j]= i==j? 20+i : 3-std::abs(i-j); add(big); I big2=big; for(int i=0;i<7;i++) std::swap(big2[i][0],big2[i][5]); add(big2); return p; }
  uint64_t single(bool t){ uint64_t n=0; for(auto&s:sp(t)) n+=(s.count+BLK-1)/BLK; return n; }
  uint64_t cases(bool t) override { return single(t)+pool().size(); }
  bool locate(uint64_t i,bool t,Space& s,uint64_t& k){ for(auto&q:sp(t)){ uint64_t b=(q.count+BLK-1)/BLK; if(i<b){ s=q; k=i*BLK; return true; } i-=b; } return false; }
  std::string describe(uint64_t i,bool t) override { Space s; uint64_t k; if(locate(i,t,s,k)) return std::string(s.sym?"symmetric ":"general ")+std::to_string(s.n)+"x"+std::to_string(s.n)+" matrices from "+show(build(s,k)); return "solver objects reused: factorise "+show(pool()[i-single(t)])+" then any two others"; }
  void run(uint64_t i,Ctx& c) override {
    Space s; uint64_t k;
    if(locate(i,c.thorough,s,k)){ for(uint64_t q=k;q<k+BLK&&q<s.count;q++){ I a=build(s,q); if(s.sym){ checkChol(a,c,nullptr); c.state(mix(s.n*2,q)); } if(!s.sym||s.n<=3){ checkLU(a,c,nullptr); c.state(mix(s.n*2+1,q)); } }
      if(k==0&&s.n==3){ mat r(2,3); int ret; vector<int> p(3); if(!throws([&]{r.cholesky(ret);})||!throws([&]{r.lu(p.data(),ret);})||!throws([&]{r.invert();})||!throws([&]{r.solve(vec(2));})||!throws([&]{mat(2,2).solve(vec(3));})||!throws([&]{mat(2,2).solveCholesky(vec(3));})) c.fail("shape","non-square or mismatching system accepted"); }
      return; }
    auto P=pool(); size_t f=i-single(c.thorough);
    // one solver object of each kind reused over all sequences of three matrices, optionally re-dimensioned in between
    int b=c.choose(P.size()), d=c.choose(P.size()); bool redim=c.flip(); c.op("reuse "+std::to_string(b)+","+std::to_string(d));
    CholeskySystem cs(2); LUSystem ls(3);
    auto sym=[](const I&a){ for(size_t i=0;i<a.size();i++) for(size_t j=0;j<a.size();j++) if(a[i][j]!=a[j][i]) return false; return true; };
    for(int x: {(int)f,b,d}){ if(redim){ cs.setDimension(P[x].size()); ls.setDimension(P[x].size()); if(cs.isFactorizationDone()||ls.isFactorizationDone()) c.fail("stale-flag","factorization flag survives setDimension"); } if(sym(P[x])) checkChol(P[x],c,&cs); checkLU(P[x],c,&ls); c.state(mix(x*7+redim,f*100+b)); }
  }
};
MC_MAIN(H)
