// P13: vector type against a reference model. Part "values": every operation on every vector (pair) over an alphabet.
// Part "sequences" (-DSEQ): every operation sequence up to a depth on two vectors.
#include "mc.hpp"
#include "LinearAlgebra/INCLUDE/vector.hpp"
using namespace Rodop; using namespace mc; using std::vector;
typedef vector<double> R;
static vec mk(const R& r){ vec v((unsigned)r.size()); for(size_t i=0;i<r.size();i++) v(i)=r[i]; return v; }
static std::string show(const R& r){ std::string s="["; for(double d:r) s+=fmt(d)+" "; return s+"]"; }
static bool same(const vec& v,const R& r){ if(v.getSize()!=r.size()) return false; for(size_t i=0;i<r.size();i++){ double a=v.get(i); if(!(a==r[i]||(std::isnan(a)&&std::isnan(r[i])))) return false; } return true; }
static bool close(double a,double b){ if(a==b) return true; if(std::isnan(a)||std::isnan(b)) return std::isnan(a)&&std::isnan(b); return std::fabs(a-b)<=1e-12*(1+std::fabs(a)+std::fabs(b)); }
static bool closeV(const vec& v,const R& r){ if(v.getSize()!=r.size()) return false; for(size_t i=0;i<r.size();i++) if(!close(v.get(i),r[i])) return false; return true; }
template<class F> static bool throws(F f){ try{ f(); }catch(const std::exception&){ return true; } return false; }
#ifndef SEQ
static const double AL[]={-2,-0.5,0,1,3};
static uint64_t nvec(int L){ uint64_t n=0,p=1; for(int l=0;l<=L;l++){ n+=p; p*=5; } return n; }
static int EXTRA_L=5; // longer vectors (three value patterns per length up to 24) follow the complete enumeration
static R longer(uint64_t k){ int l=5+k/3; R r(l); for(int i=0;i<l;i++) r[i]= k%3==0? ((i*7)%11)-5.0 : k%3==1? (i%2? -0.5*i: i) : 3.0-i; return r; }
static R nth(uint64_t i){ uint64_t p=1; int l=0; while(i>=p){ i-=p; p*=5; l++; } R r(l); for(int k=0;k<l;k++){ r[k]=AL[i%5]; i/=5; } return r; }
struct H: Harness{
  uint64_t N(bool t){ return nvec(t?5:4); } uint64_t cases(bool t) override { return N(t)+60; }
  R get(uint64_t i,bool t){ return i<N(t)? nth(i): longer(i-N(t)); }
  std::string describe(uint64_t i,bool t) override { return "v="+show(get(i,t))+" against every second vector"; }
  void unary(const R& r,Ctx& c){
    const vec v=mk(r); size_t n=r.size();
    auto ck=[&](bool ok,const char*w){ c.tick(); if(!ok) c.fail(std::string("op-")+w,std::string(w)+" wrong on "+show(r)); if(!same(v,r)) c.fail(std::string("mutates-")+w,std::string(w)+" changed its operand "+show(r)); };
    ck(v.getSize()==n && v.isEmpty()==(n==0),"size");
    ck(throws([&]{v.get(n);})&&throws([&]{v(n);})&&throws([&]{vec w(v);w.set(n,1);})&&throws([&]{vec w(v); w(n)=1;}),"range-check");
    ck(v.toStdVector()==r,"toStdVector");
    { vec w; w.fromStdVector(r); ck(same(w,r),"fromStdVector"); vec w2(7,3.0); w2.fromStdVector(r); ck(same(w2,r),"fromStdVector-over"); }
    double s=0,p=1,l1=0,li=0,l2=0; for(double d:r){ s+=d;p*=d;l1+=std::fabs(d);li=std::max(li,std::fabs(d));l2+=d*d; }
    ck(close(v.sum(),s),"sum"); ck(close(v.product(),p),"product");
    ck(close(v.norm(L1),l1),"norm-L1"); ck(close(v.norm(L2),std::sqrt(l2)),"norm-L2"); ck(close(v.norm(LINF),li),"norm-Linf"); ck(close(v.norm(),std::sqrt(l2)),"norm-default");
    NormType nt[]={L1,L2,LINF}; double nv[]={l1,std::sqrt(l2),li};
    for(int k=0;k<3;k++){ if(nv[k]==0) ck(throws([&]{v.unitVector(nt[k]);}),"unitVector-zero"); else { R u=r; for(double&d:u) d/=nv[k]; ck(closeV(v.unitVector(nt[k]),u),"unitVector"); } }
    for(double a: {-1.5,0.0,2.0}){ R m=r,q=r,t=r; for(size_t i=0;i<n;i++){ m[i]=r[i]*a; q[i]=r[i]+a; t[i]=r[i]-a; } ck(same(v*a,m),"times-scalar"); ck(same(v+a,q),"plus-scalar"); ck(same(v-a,t),"minus-scalar");
      R z=r; for(double&d:z) d=a*d+0.25; ck(closeV(vec::scaleAndAdd(v,a,0.25),z),"scaleAndAdd-scalar");
      { vec w(v); w.fill(a); ck(same(w,R(n,a)),"fill"); }
      { R pb=r; pb.push_back(a); vec w(v); w.push_back(a); ck(same(w,pb),"push_back"); }
      ck(same(vec((unsigned)n,a),R(n,a)),"ctor-value"); }
    ck(same(vec((unsigned)n),R(n,0.0)),"ctor-size");
    if(n==0){ ck(throws([&]{v.findMin();})&&throws([&]{v.findMax();})&&throws([&]{v.findMinIndex();})&&throws([&]{v.findMaxIndex();})&&throws([&]{v.mean();})&&throws([&]{v.standardDeviation();})&&throws([&]{v.quantile(0.5);}),"empty-reductions-throw"); }
    else {
      auto mi=std::min_element(r.begin(),r.end()); auto ma=std::max_element(r.begin(),r.end());
      ck(v.findMin()==*mi,"findMin"); ck(v.findMinIndex()==mi-r.begin(),"findMinIndex"); ck(v.findMax()==*ma,"findMax"); ck(r[v.findMaxIndex()]==*ma,"findMaxIndex"); ck(v.findMaxIndex()==ma-r.begin(),"findMaxIndex-first");
      double m=s/n,ss=0; for(double d:r) ss+=(d-m)*(d-m); ck(close(v.mean(),m),"mean"); ck(close(v.standardDeviation(),std::sqrt(ss/n)),"standardDeviation");
      R so=r; std::sort(so.begin(),so.end());
      for(double q: {0.0,0.1,0.25,0.5,0.9,1.0}){ double x=q*(n-1); size_t lo=(size_t)std::floor(x); double w=x-lo; double e= w==0? so[lo]: so[lo]*(1-w)+so[lo+1]*w; ck(close(v.quantile(q),e),"quantile"); }
      ck(throws([&]{v.quantile(-0.1);})&&throws([&]{v.quantile(1.1);}),"quantile-range");
    }
    for(size_t k=0;k<=n;k++){ ck(same(v.head(k),R(r.begin(),r.begin()+k)),"head"); ck(same(v.tail(k),R(r.end()-k,r.end())),"tail"); }
    ck(throws([&]{v.head(n+1);})&&throws([&]{v.tail(n+1);}),"head-tail-range");
    { R a=r; std::sort(a.begin(),a.end()); vec w(v); w.sort(); ck(same(w,a),"sort"); ck(w.is_sorted(),"sorted-is_sorted"); std::reverse(a.begin(),a.end()); vec u(v); u.sort(false); ck(same(u,a),"sort-descending"); ck(u.is_sorted(false),"sorted-is_sorted-desc");
      ck(v.is_sorted(true)==std::is_sorted(r.begin(),r.end()),"is_sorted"); ck(v.is_sorted(false)==std::is_sorted(r.begin(),r.end(),std::greater<double>()),"is_sorted-desc"); }
    { bool z=true,h=false; for(double d:r){ if(d!=0) z=false; else h=true; } ck(v.is_zero()==z,"is_zero"); ck(v.has_zeros()==h,"has_zeros"); ck(v.has_zeros(0.0)==h,"has_zeros-exact"); ck(!v.has_nan(),"has_nan-false"); for(size_t i=0;i<n;i++){ vec w(v); w(i)=i%2? INFINITY: -INFINITY; ck(!w.has_nan(),"has_nan-infinity"); }
      for(size_t i=0;i<n;i++){ vec w(v); w(i)=NAN; ck(w.has_nan(),"has_nan"); vec e(v); e(i)=r[i]+1e-6; ck(!e.is_equal(v)&&e.is_equal(v,1e-5),"is_equal-tolerance"); } }
    if(n>0){ // intervals of a sorted vector
      bool srt=std::is_sorted(r.begin(),r.end());
      if(!srt) ck(throws([&]{v.findInterval(0);}),"findInterval-unsorted");
      else for(double x: {-3.0,-2.0,-1.0,-0.5,-0.1,0.0,0.5,1.0,2.0,3.0,4.0}){ int e=-1; for(size_t i=0;i<n;i++) if(x>=r[i]) e=i; 
        if(x==r[n-1]) continue; // the closing end point belongs to no half-open interval in this library: unspecified
        ck(v.findInterval(x)==e,"findInterval"); } } else ck(v.findInterval(1)==-1,"findInterval-empty");
    { double lo=-3,hi=5; R e=r; for(double&d:e) d=(d-lo)/(hi-lo)/n; ck(closeV(v.normalizeVector(lo,hi),e),"normalize-scalar");
      R l(n),u(n),w(n); for(size_t i=0;i<n;i++){ l[i]=-3-(double)i; u[i]=4+2.0*i; w[i]=u[i]-l[i]; } R f=r; for(size_t i=0;i<n;i++) f[i]=(r[i]-l[i])/(u[i]-l[i])/n;
      ck(closeV(v.normalizeVector(mk(l),mk(u)),f),"normalize"); ck(closeV(v.normalizeVectorFast(mk(l),mk(w)),f),"normalizeFast");
      ck(closeV(mk(f).denormalizeVector(mk(l),mk(u)),r),"denormalize"); ck(closeV(mk(f).denormalizeVectorFast(mk(l),mk(w)),r),"denormalizeFast"); }
    { vec w(v); w.fillWithIntegersAscendingOrder(); R e(n); for(size_t i=0;i<n;i++) e[i]=i+1; ck(same(w,e),"fillIntegers"); }
    { vec w(v); w.reset(); ck(w.getSize()==0,"reset"); }
    for(unsigned k=0;k<=n+2;k++){ vec w(v); w.resize(k,7.5); R e=r; e.resize(k,7.5); ck(same(w,e),"resize"); }
    { std::string e; if(n==0) e="Vector is empty."; else { std::ostringstream o; o.setf(std::ios::fixed); o.precision(4); for(size_t i=0;i<n;i++) o<<(i?", ":"")<<r[i]; e=o.str(); } ck(v.toString()==e,"toString"); }
  }
  void binary(const R& a,const R& b,Ctx& c){
    const vec x=mk(a),y=mk(b); size_t n=a.size(),m=b.size();
    auto ck=[&](bool ok,const char*w){ c.tick(); if(!ok) c.fail(std::string("op-")+w,std::string(w)+" wrong on "+show(a)+" "+show(b)); if(!same(x,a)||!same(y,b)) c.fail(std::string("mutates-")+w,std::string(w)+" changed an operand, "+show(a)+" "+show(b)); };
    if(n!=m){ ck(throws([&]{x+y;})&&throws([&]{x-y;})&&throws([&]{x<y;})&&throws([&]{x>y;})&&throws([&]{x.dot(y);})&&throws([&]{x.dotNoLib(y);})&&throws([&]{vec::dotProduct(x,y);})&&throws([&]{vec::scaleAndAdd(x,2,y);})&&throws([&]{vec::scaleAndAddNoLib(x,2,y);})&&throws([&]{x.is_between(y,y);}),"size-mismatch-throws"); ck(!x.is_equal(y),"is_equal-size"); }
    else {
      R p(n),q(n); double d=0; bool lt=true,gt=true,eq=true; R sa(n); for(size_t i=0;i<n;i++){ p[i]=a[i]+b[i]; q[i]=a[i]-b[i]; d+=a[i]*b[i]; if(!(a[i]<b[i])) lt=false; if(!(a[i]>b[i])) gt=false; if(a[i]!=b[i]) eq=false; sa[i]=2.5*a[i]+b[i]; }
      ck(same(x+y,p),"plus"); ck(same(x-y,q),"minus"); ck(close(x.dot(y),d),"dot"); ck(close(x.dotNoLib(y),d),"dotNoLib"); ck(close(vec::dotProduct(x,y),d),"dotProduct");
      ck((x<y)==lt,"less"); ck((x>y)==gt,"greater"); ck(x.is_equal(y)==eq,"is_equal"); ck(closeV(vec::scaleAndAdd(x,2.5,y),sa),"scaleAndAdd"); ck(same(vec::scaleAndAdd(x,0.0,y),b)&&same(vec::scaleAndAddNoLib(x,0.0,y),b),"scaleAndAdd-zero"); ck(closeV(vec::scaleAndAddNoLib(x,2.5,y),sa),"scaleAndAddNoLib");
      { // correlation kernels and their derivatives along two directions
        R th(n),ga(n),e1(n),e2(n); double sg=0,se=0,t1=0,t2=0,t12=0; for(size_t i=0;i<n;i++){ th[i]=0.01*(1+i%5); ga[i]=1+0.25*(i%5); e1[i]=a[i]-0.5; e2[i]=1+b[i]*0.25; double df=a[i]-b[i]; sg+=th[i]*df*df; se+=th[i]*std::pow(std::fabs(df),ga[i]); t1+=2*th[i]*df*e1[i]; t2+=2*th[i]*df*e2[i]; t12+=2*th[i]*e1[i]*e2[i]; }
        const vec T=mk(th),G=mk(ga),E1=mk(e1),E2=mk(e2); int N=(int)n; double E=std::exp(-sg);
        ck(close(vec::computeGaussianCorrelation(x,y,T,N),E)&&close(vec::computeGaussianCorrelation(x.getPointer(),y.getPointer(),T.getPointer(),N),E)&&close(vec::computeGaussianCorrelationNaive(x.getPointer(),y.getPointer(),T.getPointer(),N),E),"gaussianCorrelation");
        ck(close(vec::computeExponentialCorrelation(x.getPointer(),y.getPointer(),T.getPointer(),G.getPointer(),N),std::exp(-se))&&close(vec::computeExponentialCorrelationNaive(x.getPointer(),y.getPointer(),T.getPointer(),G.getPointer(),N),std::exp(-se)),"exponentialCorrelation");
        ck(close(vec::computeGaussianCorrelationDot(x.getPointer(),y.getPointer(),E1.getPointer(),T.getPointer(),N),t1*E),"gaussianCorrelationDot"); ck(close(vec::computeGaussianCorrelationDotDot(x.getPointer(),y.getPointer(),E1.getPointer(),E2.getPointer(),T.getPointer(),N),E*(t1*t2-t12)),"gaussianCorrelationDotDot"); }
      bool bt=true; for(size_t i=0;i<n;i++) if(a[i]<b[i]-1||a[i]>b[i]+0.5) bt=false; ck(x.is_between(y-1.0,y+0.5)==bt,"is_between");
      bool b2=true; for(size_t i=0;i<n;i++) if(a[i]!=b[i]) b2=false; ck(x.is_between(y,y)==b2,"is_between-closed");
    }
    for(int pos=-2;pos<=(int)n+1;pos++){ vec w(x); if(pos<-1||pos>(int)n){ ck(throws([&]{w.appendVector(y,pos);})&&same(w,a),"appendVector-range"); continue; } R e=a; size_t at=pos<0?n:pos; e.insert(e.begin()+at,b.begin(),b.end()); w.appendVector(y,pos); ck(same(w,e),"appendVector"); }
    for(int pos=-1;pos<=(int)n;pos++){ vec w(x); if(pos<0||pos>=(int)n){ ck(throws([&]{w.copyVector(y,pos);})&&same(w,a),"copyVector-range"); continue; } R e=a; for(size_t i=0;i<m&&pos+i<n;i++) e[pos+i]=b[i]; w.copyVector(y,pos); ck(same(w,e),"copyVector"); }
    { vec w(x),u(y); w.swap(u); ck(same(w,b)&&same(u,a),"swap"); }
    { vec w(x); w=y; ck(same(w,b),"assign"); if(m){ w(0)=99; } ck(same(y,b),"assign-deep"); }
    { vec w(x); if(n) w(0)=99; ck(same(x,a),"copy-deep"); }
  }
  void run(uint64_t i,Ctx& c) override {
    R a=get(i,c.thorough); unary(a,c);
    if(i>=N(c.thorough)){ for(int k=0;k<60;k++){ binary(a,longer(k),c); c.state(mix(i,1000000+k)); } }
    uint64_t nb=nvec(c.thorough?4:3);
    for(uint64_t j=0;j<nb;j++){ R b=nth(j); binary(a,b,c); c.state(mix(i,j)); }
  }
};
#else
struct H: Harness{
  static const int OPS=28;
  uint64_t cases(bool) override { return OPS*OPS; }
  std::string describe(uint64_t i,bool t) override { return "all operation sequences starting with operations "+std::to_string(i/OPS)+","+std::to_string(i%OPS)+" up to depth "+(t?"6":"4")+" on two vectors"; }
  void run(uint64_t ci,Ctx& c) override {
    vec A,B{2.0,-1.0}; R a,b{2.0,-1.0}; int depth=c.thorough?6:4;
    for(int d=0;d<depth;d++){
      int op= d==0? ci/OPS : d==1? ci%OPS : c.choose(OPS);
      c.op("op "+std::to_string(op));
      switch(op){
        case 0: A.push_back(1.5); a.push_back(1.5); break;
        case 1: B.push_back(-0.5); b.push_back(-0.5); break;
        case 2: A=B; a=b; break;
        case 3: B=A; b=a; break;
        case 4: A=A; break;
        case 5: A.swap(B); a.swap(b); break;
        case 6: A.appendVector(B); a.insert(a.end(),b.begin(),b.end()); break;
        case 7: A.appendVector(B,0); a.insert(a.begin(),b.begin(),b.end()); break;
        case 8: { A.appendVector(A); R t=a; a.insert(a.end(),t.begin(),t.end()); break; }
        case 9: if(a.size()<1) throw Prune(); A.copyVector(B,0); for(size_t i=0;i<b.size()&&i<a.size();i++) a[i]=b[i]; break;
        case 10: if(a.size()<2) throw Prune(); A.copyVector(B,1); for(size_t i=0;i<b.size()&&i+1<a.size();i++) a[i+1]=b[i]; break;
        case 11: A.resize(0); a.resize(0); break;
        case 12: A.resize(3,4.0); a.resize(3,4.0); break;
        case 13: B.resize(1); b.resize(1,0.0); break;
        case 14: A.reset(); a.clear(); break;
        case 15: A.sort(); std::sort(a.begin(),a.end()); break;
        case 16: A.sort(false); std::sort(a.begin(),a.end(),std::greater<double>()); break;
        case 17: A.fromStdVector(b); a=b; break;
        case 18: if(a.size()!=b.size()) throw Prune(); A=A+B; for(size_t i=0;i<a.size();i++) a[i]+=b[i]; break;
        case 19: if(a.size()!=b.size()) throw Prune(); B=A-B; for(size_t i=0;i<a.size();i++) b[i]=a[i]-b[i]; break;
        case 20: if(b.size()<1) throw Prune(); A=B.head(1); a=R(b.begin(),b.begin()+1); break;
        case 21: if(a.size()<2) throw Prune(); A=A.tail(2); a=R(a.end()-2,a.end()); break;
        case 22: { vec C(A); C.push_back(9); C=A; if(C.getSize()) C(0)=77; break; }
        case 23: B=vec(2,3.0); b=R(2,3.0); break;
        case 24: A=A*2.0; for(double&x:a) x*=2; break;
        case 25: A.fill(0.5); for(double&x:a) x=0.5; break;
        case 26: A=vec{1.0,2.0,3.0}; a={1,2,3}; break;
        case 27: { vec v; A=v; a.clear(); break; }
      }
      if(a.size()>24) throw Prune();
      if(!same(A,a)||!same(B,b)) c.fail("sequence","after operation "+std::to_string(op)+": expected A="+show(a)+" B="+show(b)+" got A="+A.toString()+" B="+B.toString());
      c.state(hashBytes(a.data(),a.size()*8,mix(a.size(),hashBytes(b.data(),b.size()*8))));
    }
  }
};
#endif
MC_MAIN(H)
