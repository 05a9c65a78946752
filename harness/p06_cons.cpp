// P06: every mix of evaluator kinds, directions, registration orders/IDs and answers: the stored value of each constraint is
// the one its own evaluator gave and the feasibility is strict. Duplicate names are refused.
#include "sys.hpp"
using namespace sy;
struct K{ std::string kinds,dirs; std::vector<int> ids; int shape; };  // shape 50: two evaluations, answers {bad,good} each; shape 0: answers {bad,equal,good}^n ; 1..: one constraint gets unusual answers; 9: duplicate names
struct H: mc::Harness {
  std::vector<K> make(bool t){ std::vector<K> r; std::string kk="CEU"; int nmax=t?4:3;
    for(int n=1;n<=nmax;n++){ int nk=1; for(int i=0;i<n;i++) nk*=3; std::vector<int> id(n); for(int i=0;i<n;i++) id[i]=i;
      do for(int m=0;m<nk;m++) for(int d=0;d<(1<<n);d++){ std::string ks,ds; int z=m; for(int i=0;i<n;i++){ ks+=kk[z%3]; z/=3; ds+=(d>>i&1)?'>':'<'; }
          if(n==4&&(m%7||d%3)) continue;              // four constraints: a sub-lattice
          bool ident=std::is_sorted(id.begin(),id.end()); if(n==3&&!t&&!ident&&d!=(m*5+id[0])%8) continue;   // quick: permuted ids with one direction pattern each
          r.push_back({ks,ds,id,0}); if(n<=2||(t&&n==3&&ident)||(ident&&d==m%8)) r.push_back({ks,ds,id,50}); for(int i=0;i<n;i++) if(n<=2||(ident&&(d==0||d==(1<<n)-1)&&n==3)) r.push_back({ks,ds,id,1+i});
          if(n>=2&&d==0) for(int a=0;a<n;a++) for(int b=a+1;b<n;b++) r.push_back({ks,ds,id,100+10*a+b}); }
      while(std::next_permutation(id.begin(),id.end())); }
    if(!t) for(const char* k:{"UUUU","CEUU","UECU"}) for(const char* d:{"<><>",">><<"}) for(int z=0;z<2;z++) r.push_back({k,d,z?std::vector<int>{3,2,1,0}:std::vector<int>{0,1,2,3},0});
    return r; }
  std::vector<K> q,th; H(){ q=make(false); th=make(true); }
  uint64_t cases(bool t){ return (t?th:q).size(); }
  std::string describe(uint64_t i,bool t){ auto& k=(t?th:q)[i]; std::string s="constraints "+k.kinds+" "+k.dirs+" ids"; for(int x:k.ids) s+=" "+std::to_string(x); return s+(k.shape>=100? ", duplicate names": k.shape==50? ", two evaluations": k.shape? ", unusual answers of constraint "+std::to_string(k.shape-1):""); }
  void init(mc::Ctx&){ initDir(); }
  bool snapshots(){ return true; }
  void run(uint64_t i,mc::Ctx& c){ const K& k=(c.thorough?th:q)[i]; Cfg g; g.what=describe(i,c.thorough); int D=1+(int)(i%3==2); g.dim=D; g.lb=V(D,-1); g.ub=V(D,2); g.X={{-0.5},{0.4},{1.1},{1.9}}; if(D==2) for(int j=0;j<4;j++) g.X[j].push_back(j*0.75-0.625); g.F={3,1,2,5}; int n=(int)k.kinds.size();
    static const double tg[]={0.5,-2,0,3}; for(int q=0;q<n;q++){ Con a{k.kinds[q],k.ids[q],k.dirs[q],tg[q],"con"+std::string(1,"ABCD"[q])}; g.cons.push_back(a); M T=g.X; for(size_t j=0;j<T.size();j++) T[j].push_back(a.target+(a.dir=='<'?-1:1)*(1+0.1*j)); g.conTable.push_back(T); }
    int dupA=-1; if(k.shape>=100){ dupA=(k.shape-100)/10; int b=(k.shape-100)%10; g.cons[b].name=g.cons[dupA].name; }
    int B=k.shape==50?2:1; g.budget=B; g.inner=2; Run r; r.c=&c; r.cfg=&g; r.prop="P01";
    auto val=[&](int q){ auto& a=g.cons[q]; double s=a.dir=='<'?1:-1; double inf=std::numeric_limits<double>::infinity(); if(k.shape==50){ return a.target+(c.flip()? -s: s)*(1+0.25*r.evalX.size()); } if(k.shape==1+q){ int w=c.choose(a.kind=='E'?4:7); switch(w){ case 0: return a.target; case 1: return std::nextafter(a.target,s*inf); case 2: return std::nextafter(a.target,-s*inf); case 3: return a.target==0? -0.0: 1e300*s; case 4: return inf; case 5: return -inf; default: return (double)NAN; } }
      if(k.shape) return a.target-s; static const double o[]={-1,1,0}; return a.target+s*o[c.choose(3)]; };
    g.what+=D>1?", two parameters":""; std::vector<V> all; bool udfSet[4]; auto ans=[&](int q)->double&{ return all.back()[q]; };
    r.pickF=[&](int){ all.push_back(V(n,NAN)); std::fill(udfSet,udfSet+4,false); return 0.25; };
    r.pickC=[&](int,int q){ return ans(q)=val(q); };
    // built-in functions: the answer is drawn when the design being evaluated is asked for; other designs (the search) satisfy the constraint
    r.udf=[&](int id,const double* x){ for(int q=0;q<n;q++) if(g.cons[q].id==id&&g.cons[q].kind=='U'){ if(all.empty()||x[0]!=r.evalX.back()[0]||x[D-1]!=r.evalX.back()[D-1]) return g.cons[q].target-(g.cons[q].dir=='<'?1:-1); if(all.size()==r.evalX.size()&&!udfSet[q]&&r.calls.size()){ ans(q)=val(q); udfSet[q]=true; } return ans(q); } return 0.0; };
    std::fill(udfSet,udfSet+4,false);
    start(r); std::string err; std::unique_ptr<Optimizer> o; try{ o.reset(makeOptimizer(g)); r.inRun=true; o->performEfficientGlobalOptimization(); } catch(std::exception& e){ err=e.what(); }
    r.inRun=false;
    if(dupA>=0){ if(err.empty()) throw mc::Violation{"P06-duplicate",g.what+": two constraints named "+g.cons[dupA].name+" are accepted"}; R=nullptr; return; }
    if((int)r.evalX.size()!=B||(int)all.size()!=B) throw mc::Violation{"P06-run",g.what+": the run made "+std::to_string(r.evalX.size())+" evaluations instead of "+std::to_string(B)+", error '"+err+"'"};
    M h; if(err.empty()) h=fromm(o->getHistory());
    for(int e=0;e<B;e++){ size_t row=4+e; V& an=all[e]; bool nan=false; for(int q=0;q<n;q++) nan|=std::isnan(an[q]);
    bool feas=true; for(int q=0;q<n;q++){ auto& a=g.cons[q]; feas&= a.dir=='<'? an[q]<a.target: an[q]>a.target; }
    V w(n); for(int q=0;q<n;q++) w[g.cons[q].id]=an[q]; c.state(w); std::string WH=g.what+(B>1?", evaluation "+std::to_string(e):"");
    if(nan){ if(err.empty()){ if(h.size()>row&&h[row].back()!=0) throw mc::Violation{"P06-nan",WH+": a design with the constraint values "+S(w)+" is recorded as feasible"}; } R=nullptr; return; }
    if(!err.empty()) throw mc::Violation{"P06-error",WH+": constraint values "+S(w)+" end the run with the error "+err};
    if(h.size()!=(size_t)4+B) throw mc::Violation{"P06-rows",WH+": history has "+std::to_string(h.size())+" rows instead of "+std::to_string(4+B)};
    V got(h[row].begin()+1+D,h[row].begin()+1+D+n); if(!hx::same(got,w)) throw mc::Violation{"P06-value",WH+": the evaluators gave the values (by constraint id) "+S(w)+" but recorded are "+S(got)};
    if(h[row].back()!=(feas?1.0:0.0)) throw mc::Violation{"P06-feasibility",WH+": constraint values "+S(w)+" recorded as "+(feas?"infeasible":"feasible")};
    M t; std::vector<std::string> hd; readCSV("optimizationHistory.csv",t,&hd); for(auto& s:hd) while(!s.empty()&&isspace((unsigned char)s.back())) s.pop_back();
    for(int q=0;q<n;q++) if(hd.size()!=(size_t)n+3+D||hd[1+D+g.cons[q].id]!=g.cons[q].name) throw mc::Violation{"P06-name",WH+": the history column of constraint id "+std::to_string(g.cons[q].id)+" carries another name than "+g.cons[q].name};
    if(e==B-1) for(int q=0;q<n;q++) if(g.cons[q].kind!='U'&&std::isfinite(an[q])){ M T; readCSV(conFile(g.cons[q]),T); bool dup=false; if(B>1) dup=std::fabs(r.evalX[0][0]-r.evalX[1][0])<=1e-4&&std::fabs(r.evalX[0][D-1]-r.evalX[1][D-1])<=1e-4&&std::fabs(all[0][q]-an[q])<=1e-4; if(!dup&&(T.empty()||!closed(T.back().back(),an[q],1e-11,1e-12)||!closed(T.back()[0],r.evalX[e][0],1e-11,1e-12)||!closed(T.back()[D-1],r.evalX[e][D-1],1e-11,1e-12))) throw mc::Violation{"P06-row",WH+": the training file of "+g.cons[q].name+" does not end with the value "+fmt(an[q])+" its evaluator gave"}; }
    for(int q=0;q<n;q++) if(g.cons[q].kind=='E'&&(int)slurp(g.cons[q].name+".calls").size()!=2*B) throw mc::Violation{"P06-calls",WH+": the program of "+g.cons[q].name+" ran "+std::to_string(slurp(g.cons[q].name+".calls").size()/2)+" times for "+std::to_string(B)+" designs"};
    }
    R=nullptr; }
};
MC_MAIN(H)
