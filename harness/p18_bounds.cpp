// P18: bounds objects against a reference model; sampling with every outcome of the random source.
#include "mc.hpp"
#include "Bounds/INCLUDE/bounds.hpp"
#include "LinearAlgebra/INCLUDE/matrix.hpp"
#include "Design/INCLUDE/design.hpp"
#include "Optimizers/INCLUDE/aux.hpp"
using namespace Rodop; using mc::fmt;
static mc::Ctx* CC=nullptr; static int LHS_DRAWS=3; static bool RAWALL=true;
double rodeo_mc_real(double a,double b){ if(!(a<=b)) throw mc::Violation{"bad-draw","the random source is asked for a number in the empty interval ["+fmt(a)+","+fmt(b)+")"};
  if(!CC) return a; double pb=std::nextafter(b,a); std::vector<double> v; 
  if(LHS_DRAWS==2) v={a,pb}; else if(LHS_DRAWS==3) v={a,a+(b-a)/2,pb}; else v={a,std::nextafter(a,b),a+(b-a)/2,pb,b}; 
  return v[CC->choose((int)v.size())]; }
double rodeo_mc_normal(double m,double s){ static const double k[]={-8,-1,0,1,8}; return m+s*(CC?k[CC->choose(5)]:0); }
long rodeo_mc_int(long a,long b){ if(!CC) return a; if(b<a) throw mc::Violation{"bad-draw","empty integer interval"}; if(b-a<8) return a+CC->choose((int)(b-a+1)); long v[]={a,a+(b-a)/2,b}; return v[CC->choose(3)]; }
int rodeo_mc_rand(){ static const int v[]={0,1,RAND_MAX/2,RAND_MAX-1,RAND_MAX}; return CC? v[CC->choose(5)]:0; }

struct BModel{ bool set=false; std::vector<double> lb,ub; };
static const double NaN=std::nan(""), INF=std::numeric_limits<double>::infinity();
static vec tv(const std::vector<double>& a){ vec v; v.resize(a.size()); for(size_t i=0;i<a.size();i++) v(i)=a[i]; return v; }
static bool eqd(double a,double b){ return a==b || (std::isnan(a)&&std::isnan(b)); }
static std::string S(const std::vector<double>& v){ std::string s="("; for(double d: v) s+=fmt(d)+" "; return s+")"; }
static std::string S(const vec& v){ std::string s="("; for(unsigned i=0;i<v.getSize();i++) s+=fmt(v(i))+" "; return s+")"; }
static bool okb(const std::vector<double>& l,const std::vector<double>& u){ if(l.size()!=u.size()||l.empty()) return false; for(size_t i=0;i<l.size();i++) if(!(l[i]<u[i])) return false; return true; }

struct H: mc::Harness {
#if PART==1
  // every pair of bound vectors (all sizes 0..3), every way of setting them, on an object in every prior state
  std::vector<double> al(bool t){ return t? std::vector<double>{0,1,-1,INF,-INF,NaN,std::nextafter(0,1)}:std::vector<double>{0,1,INF,-INF,NaN,std::nextafter(0,1)}; }
  std::vector<std::vector<double>> vecs(bool t){ std::vector<std::vector<double>> r{{}}; auto a=al(t); for(double x: a) r.push_back({x}); for(double x: a) for(double y: a) r.push_back({x,y}); static const double q[]={0,1,0.5,NaN}; int n=t?4:3; for(int x=0;x<n;x++) for(int y=0;y<n;y++) for(int z=0;z<n;z++) r.push_back({q[x],q[y],q[z]}); return r; }
  uint64_t cases(bool t){ auto n=vecs(t).size(); return n*n; }
  std::string describe(uint64_t i,bool t){ auto v=vecs(t); return "setBounds "+S(v[i/v.size()])+" "+S(v[i%v.size()]); }
  static void agree(mc::Ctx& c,Bounds& b,BModel& m,const std::string& w){
    c.check(b.areBoundsSet()==m.set,"areBoundsSet",w+": areBoundsSet "+std::to_string(b.areBoundsSet())+" expected "+std::to_string(m.set));
    if(m.set){ vec l=b.getLowerBounds(),u=b.getUpperBounds(); c.check(l.getSize()==m.lb.size()&&u.getSize()==m.ub.size()&&b.getDimension()==m.lb.size(),"size",w+": sizes differ");
      for(size_t i=0;i<m.lb.size();i++) c.check(eqd(l(i),m.lb[i])&&eqd(u(i),m.ub[i]),"value",w+": bounds are "+S(l)+S(u)+" expected "+S(m.lb)+S(m.ub));
      c.check(b.checkIfBoundsAreValid()&&b.checkBounds(),"validity",w+": valid bounds reported invalid"); }
    else { bool th=false; try{ b.generateVectorWithinBounds(); } catch(std::exception&){ th=true; } c.check(th,"unset",w+": a vector is generated although no bounds are set"); }
  }
  void run(uint64_t i,mc::Ctx& c){
    CC=nullptr; auto V=vecs(c.thorough); auto L=V[i/V.size()],U=V[i%V.size()];
    int prior=c.choose(4),form=c.choose(5); 
    Bounds b; BModel m;
    if(prior==1){ b.setBounds(tv({-2,-3,-4}),tv({2,3,4})); m={true,{-2,-3,-4},{2,3,4}}; }
    if(prior==2){ b=Bounds(std::vector<double>{5},std::vector<double>{6}); m={true,{5},{6}}; }
    if(prior==3){ b.setBounds(std::vector<double>{5,5},std::vector<double>{6,7}); b.reset(); }
    bool th=false; std::string w="prior "+std::to_string(prior)+" form "+std::to_string(form)+" "+S(L)+S(U); bool want=okb(L,U); c.op(w);
    try{
      if(form==0) b.setBounds(tv(L),tv(U));
      else if(form==1) b.setBounds(L,U);
      else if(form==2) { Bounds x(tv(L),tv(U)); b=x; }
      else if(form==3) { Bounds x(L,U); b=x; }
      else { if(L.size()!=1||U.size()!=1) throw mc::Prune(); if(prior==0||prior==3) b.setDimension(2); unsigned d=b.getDimension(); b.setBounds(L[0],U[0]); L.assign(d,L[0]); U.assign(d,U[0]); }
    } catch(mc::Prune&){ throw; } catch(std::exception&){ th=true; }
    c.check(th==!want,"accept",w+(th?" is rejected":" is accepted"));
    if(!th) m={true,L,U};
    if(form==4&&th&&!m.set) return;
    agree(c,b,m,w); c.state(mc::hashBytes(L.data(),L.size()*8,mc::hashBytes(U.data(),U.size()*8,prior*7+form)));
    if(!m.set) return;
    // membership of points around the faces
    std::vector<std::vector<double>> pts(1); 
    for(size_t k=0;k<m.lb.size();k++){ std::vector<double> cand{m.lb[k],m.ub[k],std::nextafter(m.lb[k],INF),std::nextafter(m.lb[k],-INF),std::nextafter(m.ub[k],INF),std::nextafter(m.ub[k],-INF),NaN,INF,-INF}; std::vector<std::vector<double>> n; for(auto&p: pts) for(double x: cand){ auto q=p; q.push_back(x); n.push_back(q);} pts=n; }
    for(auto&p: pts){ bool in=true; for(size_t k=0;k<p.size();k++) if(!(p[k]>=m.lb[k]&&p[k]<=m.ub[k])) in=false; c.tick(); c.check(b.isPointWithinBounds(tv(p))==in,"membership",w+": point "+S(p)+" reported "+(in?"outside":"inside")); }
    for(size_t d=0;d<4;d++) if(d!=m.lb.size()){ bool t2=false; try{ b.isPointWithinBounds(tv(std::vector<double>(d,0.5))); } catch(std::exception&){ t2=true; } c.check(t2,"membership-size",w+": a point of size "+std::to_string(d)+" is not rejected"); }
  }
#elif PART==2
  // sampling inside a box, every outcome of each draw
  struct Box{ double l,u; };
  std::vector<Box> boxes(){ return {{-1,1},{0.1,0.3},{-0.3,0.7},{2,2.0000001},{-1e10,1e-10},{0.1,0.7},{-5.12,5.12},{100,101.1},{-0.1,0.2},{0.3,0.9},{-1.1,-0.1}}; }
  enum{ NF=14 };
  uint64_t cases(bool t){ auto b=boxes().size(); return NF*b*b; }
  std::string describe(uint64_t i,bool){ return "sampling function "+std::to_string(i%NF)+" boxes "+std::to_string(i/NF); }
  void run(uint64_t i,mc::Ctx& c){
    CC=&c; LHS_DRAWS=5; auto B=boxes(); int f=i%NF; Box b0=B[i/NF%B.size()],b1=B[i/NF/B.size()];
    std::vector<double> l{b0.l,b1.l},u{b0.u,b1.u}; int d=2; vec L=tv(l),U=tv(u);
    auto in=[&](const vec& v,const vec& lo,const vec& up,const char* n){ c.op(n); c.state(mc::hashBytes(n,strlen(n),v.getSize()?mc::hashBytes(&v(0),8*v.getSize()):0)); c.check(v.getSize()==lo.getSize(),"size",std::string(n)+": wrong size"); for(unsigned k=0;k<v.getSize();k++) c.check(v(k)>=lo(k)&&v(k)<=up(k),"outside",std::string(n)+": "+fmt(v(k))+" outside ["+fmt(lo(k))+","+fmt(up(k))+"]"); };
    vec S1(d),S2(d); S1.fill(b0.l); S2.fill(b0.u);
    if(f==0){ vec v(d); v.fill(NAN); v.fillRandom(b0.l,b0.u); in(v,S1,S2,"vec::fillRandom(a,b)"); }
    else if(f==1){ vec v(d); v.fill(NAN); v.fillRandom(L,U); in(v,L,U,"vec::fillRandom(lb,ub)"); }
    else if(f==2) in(vec::generateRandomVectorBetween(L,U),L,U,"vec::generateRandomVectorBetween");
    else if(f==3){ vec v(d); v.fill(NAN); v.fillRandom(); vec z(d),o(d); z.fill(0.0); o.fill(1.0); in(v,z,o,"vec::fillRandom()"); }
    else if(f==4){ Bounds b(L,U); in(b.generateVectorWithinBounds(),L,U,"Bounds::generateVectorWithinBounds"); }
    else if(f==5){ Bounds b(l,u); in(tv(b.generateStdVectorWithinBounds()),L,U,"Bounds::generateStdVectorWithinBounds"); }
    else if(f==6||f==7||f==8||f==9){ mat M(2,d); M.fill(NAN); if(f==6) M.fillRandom(L,U); else if(f==7) M.fillRandom(l,u); else if(f==8) M.fillRandom(b0.l,b0.u); else M.fillRandom();
      const char* n[]={"mat::fillRandom(vec,vec)","mat::fillRandom(std::vector)","mat::fillRandom(a,b)","mat::fillRandom()"}; vec z(d),o(d); z.fill(0.0); o.fill(1.0);
      for(int r=0;r<2;r++) in(M.getRow(r),f==8?S1:f==9?z:L,f==8?S2:f==9?o:U,n[f-6]); }
    else if(f==10){ Design D(d); D.generateRandomDesignVector(L,U); in(D.designParameters,L,U,"Design::generateRandomDesignVector(vec)"); D.generateRandomDesignVector(b0.l,b0.u); in(D.designParameters,S1,S2,"Design::generateRandomDesignVector(a,b)"); }
    else if(f==11){ vec z(d),o(d); z.fill(0.0); o.fill(1.0/d); DesignForBayesianOptimization D(d,1); D.generateRandomDesignVector(); in(D.dv,z,o,"DesignForBayesianOptimization::generateRandomDesignVector()"); D.generateRandomDesignVector(L,U); in(D.dv,L,U,"DesignForBayesianOptimization::generateRandomDesignVector(lb,ub)"); }
    else if(f==12){ // around a sample in the normalised box
      static const double pos[]={0,0.25,0.5,0.1,0.3}; static const double fac[]={0.001,0.8,0.1,2.0,0.003125}; vec z(d),o(d); z.fill(0.0); o.fill(1.0/d); vec s(d); s(0)=pos[(i/NF)%5]; s(1)=pos[(i/NF/5)%5]; double F=fac[(i/NF/25)%5];
      DesignForBayesianOptimization D(d,1); D.generateRandomDesignVectorAroundASample(s,z,o,F); in(D.dv,z,o,"generateRandomDesignVectorAroundASample"); for(int k=0;k<d;k++) c.check(std::fabs(D.dv(k)-s(k))<=F/d*(1+1e-12),"window","candidate "+fmt(D.dv(k))+" outside the window "+fmt(F)+" around "+fmt(s(k))); }
    else { int a=(int)(i/NF%7)-3,b=a+(int)(i/NF/7%4); int r=getRandomInteger(a,b); c.check(r>=a&&r<=b,"outside","getRandomInteger outside"); double x=getRandomDouble(b0.l,b0.u); c.check(x>=b0.l&&x<=b0.u,"outside","getRandomDouble outside"); c.state(mc::mix(r+100,mc::hashBytes(&x,8))); }
  }
#else
  // Latin hypercube: one sample per stratum and parameter; shuffling rows keeps the rows
  struct Cfg{ int n,d,draws,form; double l0,u0,l1,u1; };
  std::vector<Cfg> cfg(bool t){ std::vector<Cfg> r; double bx[4][4]={{0,1,-1,1},{-0.3,0.7,0.1,0.3},{-5.12,5.12,100,100.5},{-1.7,-0.2,0,1e-6}};
    for(int form=0;form<3;form++) for(auto&b: bx) { for(int n=1;n<=3;n++) r.push_back({n,1,5,form,b[0],b[1],b[2],b[3]}); r.push_back({4,1,3,form,b[0],b[1],b[2],b[3]}); r.push_back({5,1,2,form,b[0],b[1],b[2],b[3]}); r.push_back({2,2,3,form,b[0],b[1],b[2],b[3]}); r.push_back({3,2,2,form,b[0],b[1],b[2],b[3]}); if(t){ r.push_back({3,2,3,form,b[0],b[1],b[2],b[3]}); r.push_back({5,1,3,form,b[0],b[1],b[2],b[3]}); r.push_back({4,2,2,form,b[0],b[1],b[2],b[3]}); r.push_back({6,1,2,form,b[0],b[1],b[2],b[3]});} }
    return r; }
  uint64_t cases(bool t){ return cfg(t).size(); }
  std::string describe(uint64_t i,bool t){ auto k=cfg(t)[i]; return "form "+std::to_string(k.form)+" n="+std::to_string(k.n)+" d="+std::to_string(k.d); }
  void run(uint64_t i,mc::Ctx& c){
    auto k=cfg(c.thorough)[i]; CC=&c; LHS_DRAWS=k.draws; std::vector<double> l{k.l0,k.l1},u{k.u0,k.u1}; l.resize(k.d); u.resize(k.d);
    mat M(k.n,k.d);
    if(k.form==2){ for(int r=0;r<k.n;r++) for(int j=0;j<k.d;j++) M(r,j)=10*r+j+1; M.shuffleRows(); std::set<int> seen; 
      for(int r=0;r<k.n;r++){ int id=(int)((M(r,0)-1)/10); for(int j=0;j<k.d;j++) c.check(M(r,j)==10*id+j+1,"shuffle","shuffleRows tears a row apart"); seen.insert(id);} c.check((int)seen.size()==k.n,"shuffle","shuffleRows loses a row"); std::string s; for(int r=0;r<k.n;r++) s+=std::to_string(M(r,0))+","; c.state(s); return; }
    M.fill(NAN); if(k.form==0) M.fillRandomLHS(tv(l),tv(u)); else M.fillRandomLHS(l,u);
    c.check((int)M.getNRows()==k.n&&(int)M.getNCols()==k.d,"size","LHS changes the size");
    uint64_t h=i;
    for(int j=0;j<k.d;j++){ std::vector<double> x; for(int r=0;r<k.n;r++){ double v=M(r,j); c.check(v>=l[j]&&v<=u[j],"outside","LHS sample "+fmt(v)+" outside ["+fmt(l[j])+","+fmt(u[j])+"]"); x.push_back(v); h=mc::mix(h,mc::hashBytes(&v,8)); }
      std::sort(x.begin(),x.end()); double w=(u[j]-l[j])/k.n,e=1e-9*w; for(int r=0;r<k.n;r++) c.check(x[r]>=l[j]+r*w-e&&x[r]<=l[j]+(r+1)*w+e,"stratum","LHS: stratum "+std::to_string(r)+" of parameter "+std::to_string(j)+" has no sample of its own, samples "+S(x)); }
    c.state(h);
  }
#endif
};
MC_MAIN(H)
