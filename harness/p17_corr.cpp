// P17: correlation functions against the textbook definition, on all point sets of small grids and all call sequences.
#include "mc.hpp"
#include <type_traits>
#include "CorrelationFunctions/INCLUDE/exponential_correlation_function.hpp"
#include "CorrelationFunctions/INCLUDE/gaussian_correlation_function.hpp"
using namespace Rodop; using mc::fmt; typedef std::vector<double> V;
static vec tv(const V& a){ vec v; v.resize(a.size()); for(size_t i=0;i<a.size();i++) v(i)=a[i]; return v; }
static std::string S(const V& v){ std::string s="("; for(double d: v) s+=fmt(d)+" "; return s+")"; }
static double refE(const V&x,const V&y,const V&h){ size_t d=x.size(); long double s=0; for(size_t k=0;k<d;k++) s+=h[k]*powl(fabsl((long double)x[k]-y[k]),h[d+k]); return (double)expl(-s); }
static double refG(const V&x,const V&y,const V&h){ long double s=0; for(size_t k=0;k<x.size();k++) s+=h[k]*((long double)x[k]-y[k])*(x[k]-y[k]); return (double)expl(-s); }
static bool close(double a,double b){ return std::fabs(a-b)<=1e-12+1e-10*std::fabs(b); }
static mat tm(const std::vector<V>& p){ mat M(p.size(),p[0].size()); for(size_t i=0;i<p.size();i++) for(size_t j=0;j<p[0].size();j++) M(i,j)=p[i][j]; return M; }
struct H: mc::Harness {
  static void product(const std::vector<double>& a,int d,std::vector<V>& out){ out.assign(1,V()); for(int k=0;k<d;k++){ std::vector<V> n; for(auto&p: out) for(double x: a){ V q=p; q.push_back(x); n.push_back(q);} out=n; } }
  static void hypers(bool gauss,int d,bool t,std::vector<V>& out){ V th=t?V{0,1e-6,0.3,1,7.5,20,1e6}:V{0,1e-6,0.3,7.5,1e6}, ga= t?V{0.1,0.9,1,1.7,2}:V{0.1,1,1.7,2}; if(d==3){ th={0,0.3,7.5}; ga={0.1,1,2}; } std::vector<V> a,b; product(th,d,a); if(gauss){ out=a; return; } product(ga,d,b); out.clear(); for(auto&x: a) for(auto&y: b){ V h=x; h.insert(h.end(),y.begin(),y.end()); out.push_back(h);} }
  static V grid(int d,bool t){ return d==1? V{0,0.125,0.5,1,-0.5,1e-9} : d==2? (t?V{0,0.25,0.5,-0.5,0.1}:V{0,0.25,-0.5,0.1}) : V{0,0.3,-0.5}; }
#ifndef SEQ
  struct K{int d; bool g; size_t h;};
  std::vector<K> ks(bool t){ std::vector<K> r; for(int g=0;g<2;g++) for(int d=1;d<=3;d++){ std::vector<V> h; hypers(g,d,t,h); for(size_t i=0;i<h.size();i++) r.push_back({d,(bool)g,i}); } return r; }
  std::vector<K> cache[2];
  const std::vector<K>& C(bool t){ if(cache[t].empty()) cache[t]=ks(t); return cache[t]; }
  uint64_t cases(bool t){ return C(t).size(); }
  std::string describe(uint64_t i,bool t){ auto k=C(t)[i]; std::vector<V> h; hypers(k.g,k.d,t,h); return std::string(k.g?"gaussian":"exponential")+" hyper-parameters "+S(h[k.h]); }
  template<class F> void go(F& f,const K& k,const V& h,mc::Ctx& c,double(*ref)(const V&,const V&,const V&)){
    std::vector<V> P; product(grid(k.d,c.thorough),k.d,P); size_t n=P.size();
    f.setInputSampleMatrix(tm(P)); f.setHyperParameters(tv(h)); vec g=f.getHyperParameters(); for(size_t i=0;i<h.size();i++) c.check(g(i)==h[i],"readback","hyper-parameters read back differ");
    f.computeCorrelationMatrix(); mat R=f.getCorrelationMatrix(); c.check(R.getNRows()==n&&R.getNCols()==n,"shape","correlation matrix has the wrong shape");
    std::string w=S(h);
    for(size_t i=0;i<n;i++){
      vec r=f.computeCorrelationVector(tv(P[i])); c.check(r.getSize()==n,"shape","correlation vector has the wrong size");
      for(size_t j=0;j<n;j++){
        double e=ref(P[i],P[j],h),q=f.computeCorrelation(tv(P[i]),tv(P[j])); c.tick(); std::string ww=w+" "+S(P[i])+S(P[j]);
        c.state(mc::hashBytes(&q,8,mc::hashBytes(h.data(),8*h.size())));
        c.check(close(q,e),"value",ww+": correlation "+fmt(q)+" expected "+fmt(e));
        c.check(q>=0&&q<=1,"range",ww+": correlation "+fmt(q)); c.check(i!=j||q==1,"diagonal",ww+": correlation of a point with itself "+fmt(q));
        c.check(q==f.computeCorrelation(tv(P[j]),tv(P[i])),"symmetry",ww+": not symmetric");
        c.check(close(r(j),e),"vector",ww+": correlation vector entry "+fmt(r(j))+" expected "+fmt(e));
        c.check(close(R(i,j)-(i==j?1e-12:0),e),"matrix",ww+": correlation matrix entry "+fmt(R(i,j))+" expected "+fmt(e));
        if(i==j) c.check(R(i,i)>=1&&R(i,i)<=1+1e-6,"nugget",ww+": diagonal "+fmt(R(i,i)));
        // farther away along one coordinate: never more correlated
        for(int a=0;a<k.d;a++){ V y=P[j]; double s=P[j][a]>=P[i][a]?1:-1; y[a]+=0.3*s; double q2=f.computeCorrelation(tv(P[i]),tv(y)); c.check(q2<=q*(1+1e-12),"monotone",ww+": correlation increases with distance"); }
        // directional derivative with respect to the second point, against the closed form
        for(int dd=0;dd<2;dd++){ V dir(k.d); for(int a=0;a<k.d;a++) dir[a]=dd? (a%2?-0.7:0.4):1; bool smooth=true; long double s=0; for(int a=0;a<k.d;a++){ long double df=(long double)P[i][a]-P[j][a],ga=k.g?2:h[k.d+a]; if(df==0&&ga<=1) smooth=false; if(df!=0) s+=h[a]*ga*powl(fabsl(df),ga-1)*(df>0?-1:1)*dir[a]; }
          if(!smooth) continue; double ed=(double)(-(long double)e*s),gd=f.computeCorrelationDot(tv(P[i]),tv(P[j]),tv(dir)); c.check(std::fabs(gd-ed)<=1e-9+1e-8*std::fabs(ed),"derivative",ww+": directional derivative "+fmt(gd)+" expected "+fmt(ed)); }
        if constexpr(std::is_same_v<F,GaussianCorrelationFunction>) for(int d1=0;d1<3;d1++) for(int d2=0;d2<3;d2++){ auto D=[&](int q){ V v(k.d); for(int a=0;a<k.d;a++) v[a]= q==0? 1: q==1? (a%2?-0.7:0.4): (a?2.5:0); return v; }; V u=D(d1),v=D(d2); long double a1=0,a2=0,b=0; for(int a=0;a<k.d;a++){ long double df=(long double)P[i][a]-P[j][a]; a1+=2*h[a]*df*u[a]; a2+=2*h[a]*df*v[a]; b+=2*h[a]*u[a]*v[a]; } double ed=(double)((long double)e*(a1*a2-b)),gd=f.computeCorrelationDotDot(tv(P[i]),tv(P[j]),tv(u),tv(v)); c.check(std::fabs(gd-ed)<=1e-9*(1+(double)fabsl(b))+1e-8*std::fabs(ed),"derivative2",ww+": second directional derivative "+fmt(gd)+" expected "+fmt(ed)); }
      }
    }
    // the nugget asked for is the one on the diagonal; a nugget outside [0,1) is refused and changes nothing
    for(double eps: {0.0,1e-8,0.5,-1.0,1.0,0.25,0.0}){ static thread_local double now; bool th=false; try{ f.setEpsilon(eps); }catch(const std::exception&){ th=true; } c.check(th==!(eps>=0&&eps<1),"nugget-accept",w+": nugget "+fmt(eps)+(th?" refused":" accepted")); if(!th) now=eps; f.computeCorrelationMatrix(); mat Q=f.getCorrelationMatrix(); c.tick(); for(size_t i=0;i<n;i++){ c.check(std::fabs(Q(i,i)-1-now)<=1e-15,"nugget-value",w+": diagonal "+fmt(Q(i,i))+" with nugget "+fmt(now)); for(size_t j=0;j<n;j++) if(j!=i) c.check(Q(i,j)==R(i,j),"nugget-offdiagonal",w+": the nugget changes the correlation of different samples"); } }
  }
  void run(uint64_t i,mc::Ctx& c){ auto k=C(c.thorough)[i]; std::vector<V> h; hypers(k.g,k.d,c.thorough,h); c.op("hyper-parameters "+S(h[k.h])); if(k.g){ GaussianCorrelationFunction f; go(f,k,h[k.h],c,refG);} else { ExponentialCorrelationFunction f; go(f,k,h[k.h],c,refE);} }
#else
  // every sequence of set-input / set-hyper-parameters / initialise / compute calls, on a function and its copy
  uint64_t cases(bool t){ return 2*81; }
  std::string describe(uint64_t i,bool t){ return std::string(i%2?"gaussian":"exponential")+" call sequences of length "+std::to_string(t?7:6)+", prefix "+std::to_string(i/2); }
  template<class F> void go(F& f0,bool gauss,uint64_t pre,mc::Ctx& c){
    std::vector<V> in[3]={{{0,0.1},{0.3,0.5},{0.25,0.25}},{{0.5,0.5},{0,0.2}},{{0.1,0.1},{0.4,0.5},{0.4,0.1},{0,0}}}; V hy[3]={{1,2,1.5,2},{0.2,7,1,1.2},{3,0,0.5,1.9}}; if(gauss) for(auto&h: hy) h.resize(2);
    V q{0.2,0.4}; auto ref=gauss?refG:refE; int X=-1,h=-1; bool bad=false; 
    F f; F other; int oX=-1,oh=-1;
    int L=c.thorough?7:6; 
    for(int s=0;s<L;s++){
      int a= s<4? (int)(pre/(s==0?1:s==1?3:s==2?9:27)%3)*3+c.choose(3) : c.choose(9);
      if(a<3){ c.op("setInput "+std::to_string(a)); f.setInputSampleMatrix(tm(in[a])); X=a; }
      else if(a<6){ if(X<0) throw mc::Prune(); c.op("setHyper "+std::to_string(a-3)); f.setHyperParameters(tv(hy[a-3])); h=a-3; }
      else if(a==6){ if(X<0||h<0) throw mc::Prune(); c.op("matrix"); f.computeCorrelationMatrix(); mat R=f.getCorrelationMatrix(); size_t n=in[X].size(); c.check(R.getNRows()==n&&R.getNCols()==n,"shape","matrix shape"); 
        for(size_t i=0;i<n;i++) for(size_t j=0;j<n;j++) c.check(std::fabs(R(i,j)-ref(in[X][i],in[X][j],hy[h]))<1e-11,"stale","matrix entry "+fmt(R(i,j))+" is not that of the current input and hyper-parameters"); }
      else if(a==7){ if(X<0||h<0) throw mc::Prune(); c.op("vector"); vec r=f.computeCorrelationVector(tv(q)); c.check(r.getSize()==in[X].size(),"shape","vector size"); for(size_t i=0;i<in[X].size();i++) c.check(std::fabs(r(i)-ref(in[X][i],q,hy[h]))<1e-11,"stale","vector entry is not that of the current input"); }
      else { c.op("swap with the other object"); std::swap(f,other); std::swap(X,oX); std::swap(h,oh); }
      if(X>=0&&h>=0){ vec g=f.getHyperParameters(); for(size_t i=0;i<hy[h].size();i++) c.check(g(i)==hy[h][i],"readback","hyper-parameters read back differ"); }
      c.state((X+1)*64+(h+1)*16+(oX+1)*4+(oh+1)+1000*a);
    }
  }
  void run(uint64_t i,mc::Ctx& c){ if(i%2){ GaussianCorrelationFunction f; go(f,true,i/2,c);} else { ExponentialCorrelationFunction f; go(f,false,i/2,c);} }
#endif
};
MC_MAIN(H)
