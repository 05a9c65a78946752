// P14: matrix type against a reference model (row vectors).
#include "mc.hpp"
#include <set>
#include "LinearAlgebra/INCLUDE/matrix.hpp"
using namespace Rodop; using namespace mc; using std::vector;
typedef vector<double> R; struct M{ int r=0,c=0; vector<R> a; M(){} M(int r,int c,double v=0):r(r),c(c),a(r,R(c,v)){} };
static mat mk(const M& m){ mat x(m.r,m.c); for(int i=0;i<m.r;i++) for(int j=0;j<m.c;j++) x(i,j)=m.a[i][j]; return x; }
static vec mkv(const R& r){ vec v((unsigned)r.size()); for(size_t i=0;i<r.size();i++) v(i)=r[i]; return v; }
static std::string show(const M& m){ std::string s=std::to_string(m.r)+"x"+std::to_string(m.c)+"["; for(auto&r:m.a){ for(double d:r) s+=fmt(d)+" "; s+="; "; } return s+"]"; }
static bool close(double a,double b){ if(a==b) return true; if(std::isnan(a)||std::isnan(b)) return false; return std::fabs(a-b)<=1e-12*(1+std::fabs(a)+std::fabs(b)); }
static bool same(const mat& x,const M& m){ if((int)x.getNRows()!=m.r||(int)x.getNCols()!=m.c) return false; if((int)x.getSize()!=m.r*m.c||x.isEmpty()!=(m.r*m.c==0)) return false; for(int i=0;i<m.r;i++) for(int j=0;j<m.c;j++) if(!close(x(i,j),m.a[i][j])) return false; return true; }
static bool sameE(const mat& x,const M& m){ if(m.r*m.c==0) return x.isEmpty(); return same(x,m); } // empty results: only emptiness is specified
static bool sameV(const vec& v,const R& r){ if(v.getSize()!=r.size()) return false; for(size_t i=0;i<r.size();i++) if(!close(v.get(i),r[i])) return false; return true; }
static unsigned SEED=1; extern "C" unsigned __wrap__ZNSt13random_device9_M_getvalEv(void*){ return SEED; } // the random source's seed is an input of the exploration
template<class F> static bool throws(F f){ try{ f(); }catch(const std::exception&){ return true; } return false; }
static M rows(const M& m,const vector<int>& idx){ M o((int)idx.size(),m.c); for(size_t i=0;i<idx.size();i++) o.a[i]=m.a[idx[i]]; return o; }
static M transp(const M& m){ M o(m.c,m.r); for(int i=0;i<m.r;i++) for(int j=0;j<m.c;j++) o.a[j][i]=m.a[i][j]; return o; }
static M insRow(const M& m,int pos,const R& v){ M o=m; if(m.r*m.c==0){ o=M(0,(int)v.size()); } o.a.insert(o.a.begin()+pos,v); o.r++; return o; }
static M mul(const M& a,const M& b){ M o(a.r,b.c); for(int i=0;i<a.r;i++) for(int j=0;j<b.c;j++){ double s=0; for(int k=0;k<a.c;k++) s+=a.a[i][k]*b.a[k][j]; o.a[i][j]=s; } return o; }
#ifndef SEQ
static const double AL3[]={-1,0,2}; static const double AL2[]={-1.5,2};
static vector<std::pair<int,int>> shapes(bool){ return {{0,0},{1,1},{1,2},{2,1},{2,2},{1,3},{3,1},{2,3},{3,2},{3,3},{4,2},{2,4}}; }
// entry alphabet: 3 values for up to 6 entries, 2 values above; plus distinct-entry fillings for larger shapes
static uint64_t cnt(int r,int c){ int n=r*c; uint64_t k=1; for(int i=0;i<n;i++) k*= n<=6?3:2; return k; }
static M fill(int r,int c,uint64_t k){ M m(r,c); int n=r*c; for(int i=0;i<r;i++) for(int j=0;j<c;j++){ if(n<=6){ m.a[i][j]=AL3[k%3]; k/=3; } else { m.a[i][j]=AL2[k%2]; k/=2; } } return m; }
static M patt(int r,int c,int p){ M m(r,c); for(int i=0;i<r;i++) for(int j=0;j<c;j++) m.a[i][j]= p==0? 10*i+j+1 : p==1? ((i*7+j*5)%11)-5.0 : (i==j?4.0:1.0/(1+i+j)); return m; }
struct Case{ int r,c; int pat; };
struct H: Harness{
  vector<Case> cs;
  H(){ for(auto s: shapes(true)) cs.push_back({s.first,s.second,-1}); for(int r=1;r<=6;r++) for(int c=1;c<=6;c++) for(int p=0;p<3;p++) cs.push_back({r,c,p}); cs.push_back({17,9,0}); cs.push_back({9,17,1}); cs.push_back({20,20,1}); }
  // case index = (shape, filling)
  vector<std::pair<int,uint64_t>> idx; 
  void build(){ if(!idx.empty()) return; for(size_t i=0;i<cs.size();i++){ uint64_t n= cs[i].pat>=0?1:cnt(cs[i].r,cs[i].c); for(uint64_t k=0;k<n;k++) idx.push_back({(int)i,k}); } }
  uint64_t cases(bool) override { build(); return idx.size(); }
  M get(uint64_t i){ build(); auto& k=cs[idx[i].first]; return k.pat>=0? patt(k.r,k.c,k.pat): fill(k.r,k.c,idx[i].second); }
  std::string describe(uint64_t i,bool) override { return show(get(i)); }
  void run(uint64_t i,Ctx& c) override {
    M m=get(i); const mat x=mk(m); int r=m.r,cc=m.c;
    auto ck=[&](bool ok,const char*w){ c.tick(); if(!ok) c.fail(std::string("op-")+w,std::string(w)+" wrong on "+show(m)); if(!same(x,m)) c.fail(std::string("mutates-")+w,std::string(w)+" changed its operand "+show(m)); };
    c.state(hashBytes(&i,8));
    ck(same(mat(r,cc),M(r,cc))&&same(mat(r,cc,2.5),M(r,cc,2.5)),"constructor");
    { mat y(x); ck(same(y,m),"copy"); if(r*cc){ y(0,0)=77; } ck(same(x,m),"copy-deep"); mat z; z=x; ck(same(z,m),"assign"); z=z; ck(same(z,m),"self-assign"); mat w(std::move(z)); ck(same(w,m)&&z.isEmpty(),"move-ctor"); mat q(2,2,1.0); q=std::move(w); ck(same(q,m)&&w.isEmpty(),"move-assign"); w=q; ck(same(w,m),"reuse-moved"); }
    ck(throws([&]{x(r,0);})&&throws([&]{x(0,cc);}),"range-check");
    { mat y(x); y.reset(); ck(y.isEmpty()&&y.getNRows()==0&&y.getNCols()==0,"reset"); }
    for(int k=-1;k<r&&r*cc;k++){ ck(sameV(x.getRow(k),m.a[k<0?r-1:k]),"getRow"); }
    for(int k=-1;k<cc&&r*cc;k++){ R col(r); for(int q=0;q<r;q++) col[q]=m.a[q][k<0?cc-1:k]; ck(sameV(x.getCol(k),col),"getCol"); }
    ck(throws([&]{x.getRow(r);})&&throws([&]{x.getRow(-2);})&&throws([&]{x.getCol(cc);})&&throws([&]{x.getCol(-2);}),"getRow-range");
    if(r*cc){
      R nr(cc),nc(r); for(int j=0;j<cc;j++) nr[j]=100+j; for(int j=0;j<r;j++) nc[j]=200+j;
      for(int k=0;k<r;k++){ mat y(x); y.setRow(mkv(nr),k); M e=m; e.a[k]=nr; ck(same(y,e),"setRow"); }
      for(int k=0;k<cc;k++){ mat y(x); y.setCol(mkv(nc),k); M e=m; for(int q=0;q<r;q++) e.a[q][k]=nc[q]; ck(same(y,e),"setCol"); }
      ck(throws([&]{mat y(x);y.setRow(mkv(nr),r);})&&throws([&]{mat y(x);y.setCol(mkv(nc),cc);})&&throws([&]{mat y(x);y.setRow(vec(cc+1),0);})&&throws([&]{mat y(x);y.setCol(vec(r+1),0);}),"setRow-range");
      for(int k=-3;k<=r+1;k++){ mat y(x); if(k<-1||k>r){ ck(throws([&]{y.addRow(mkv(nr),k);})&&same(y,m),"addRow-range"); continue; } y.addRow(mkv(nr),k); ck(same(y,insRow(m,k<0?r:k,nr)),"addRow"); }
      for(int k=-3;k<=cc+1;k++){ mat y(x); if(k<-1||k>cc){ ck(throws([&]{y.addColumn(mkv(nc),k);})&&same(y,m),"addColumn-range"); continue; } y.addColumn(mkv(nc),k); ck(same(y,transp(insRow(transp(m),k<0?cc:k,nc))),"addColumn"); }
      ck(throws([&]{mat y(x);y.addRow(vec(cc+1));})&&throws([&]{mat y(x);y.addColumn(vec(r+1));}),"addRow-size");
      for(int k=-1;k<r;k++){ mat y(x); y.deleteRow(k); vector<int> id; for(int q=0;q<r;q++) if(q!=(k<0?r-1:k)) id.push_back(q); ck(sameE(y,rows(m,id)),"deleteRow"); }
      if(r<=6) for(int mask=0;mask<(1<<r);mask++){ vector<int> del,id; for(int q=r-1;q>=0;q--) if(mask>>q&1) del.push_back(q); for(int q=0;q<r;q++) if(!(mask>>q&1)) id.push_back(q); if(mask&1) del.push_back(0); mat y(x); y.deleteRows(del); ck(sameE(y,rows(m,id)),"deleteRows"); }
      ck(throws([&]{mat y(x);y.deleteRows({0,r});})&&throws([&]{mat y(x);y.deleteRows({-1});}),"deleteRows-range");
      for(int a=0;a<r;a++) for(int b=a;b<r;b++) for(int p=0;p<cc;p++) for(int q=p;q<cc;q++){ if(r>6&&(a%5||q%5)) continue; M e(b-a+1,q-p+1); for(int u=a;u<=b;u++) for(int v=p;v<=q;v++) e.a[u-a][v-p]=m.a[u][v]; ck(same(x.submat(a,b,p,q),e),"submat"); }
      ck(throws([&]{x.submat(0,r,0,0);})&&throws([&]{x.submat(0,0,0,cc);})&&(r<2||throws([&]{x.submat(1,0,0,0);}))&&(cc<2||throws([&]{x.submat(0,0,1,0);})),"submat-range");
      // membership
      for(int k=0;k<r;k++){ int first=k; for(int q=0;q<r;q++) if(m.a[q]==m.a[k]){ first=q; break; } ck(x.isRowInMatrix(mkv(m.a[k]))&&x.findRowIndex(mkv(m.a[k]))==first,"findRowIndex"); R near=m.a[k]; for(double&d:near) d+=1e-9; ck(x.isRowInMatrix(mkv(near))&&x.findRowIndex(mkv(near))==first,"findRowIndex-near"); R far=m.a[k]; far[cc-1]+=0.01; ck(!x.isRowInMatrix(mkv(far))&&x.findRowIndex(mkv(far))==-1,"findRowIndex-far"); ck(x.isRowInMatrix(mkv(far),0.02)&&x.findRowIndex(mkv(far),0.02)>=0,"findRowIndex-tol"); R f0=m.a[k]; f0[0]+=0.01; ck(!x.isRowInMatrix(mkv(f0)),"isRowInMatrix-first"); }
      ck(!x.isRowInMatrix(vec(cc+1)),"isRowInMatrix-size");
      // normalisation
      R lo(cc),hi(cc); for(int j=0;j<cc;j++){ lo[j]=-7-j; hi[j]=300+11*j; } M e=m; for(int q=0;q<r;q++) for(int j=0;j<cc;j++) e.a[q][j]=(m.a[q][j]-lo[j])/(hi[j]-lo[j])/cc; ck(same(x.normalizeMatrix(mkv(lo),mkv(hi)),e),"normalizeMatrix");
      M e2=m; for(int q=0;q<r;q++) for(int j=0;j<cc;j++) e2.a[q][j]=(m.a[q][j]+7)/(57.0)/cc; ck(same(x.normalizeMatrix(-7.0,50.0),e2),"normalizeMatrix-scalar");
      ck(throws([&]{x.normalizeMatrix(mkv(hi),mkv(lo));})&&throws([&]{x.normalizeMatrix(mkv(lo),mkv(lo));})&&throws([&]{x.normalizeMatrix(vec(cc+1),vec(cc+1,1.0));})&&throws([&]{x.normalizeMatrix(mkv(lo),vec(cc+1,1.0));}),"normalizeMatrix-range");
      { M t=transp(m); ck(same(x.transpose(),t)&&same(x.transposeNaive(),t),"transpose"); }
      { R v(cc); for(int j=0;j<cc;j++) v[j]=j-1.5; R e3(r); for(int q=0;q<r;q++){ double s=0; for(int j=0;j<cc;j++) s+=m.a[q][j]*v[j]; e3[q]=s; } ck(sameV(x.matVecProduct(mkv(v)),e3),"matVec"); ck(sameV(x.matVecProductNaive(mkv(v)),e3),"matVecNaive"); ck(sameV(x.matVecProductOpenBlas(mkv(v)),e3),"matVecBlas"); ck(throws([&]{x.matVecProduct(vec(cc+1));}),"matVec-size"); }
      { M y2=m; double mn=std::min(r,cc); mat y(x); y.addEpsilonToDiagonal(0.125); for(int k=0;k<mn;k++) y2.a[k][k]+=0.125; ck(same(y,y2),"addEpsilonToDiagonal"); }
      if(r==cc){ R d(r); for(int k=0;k<r;k++) d[k]=m.a[k][k]; ck(sameV(x.diag(),d),"diag"); mat y(x); y.eye(); M id(r,r); for(int k=0;k<r;k++) id.a[k][k]=1; ck(same(y,id),"eye"); 
        if(r<=6){ vector<double> res(r*r); mat C(r,r); mat::matmatmul(x.getPointer(),x.getPointer(),C.getPointer(),r); ck(same(C,mul(m,m)),"matmatmul"); vec b(r); for(int k=0;k<r;k++) b(k)=k+1; double*p=mat::matvecmul(x.getPointer(),b.getPointer(),r); bool ok=true; for(int k=0;k<r;k++){ double s=0; for(int j=0;j<r;j++) s+=m.a[k][j]*(j+1); if(!close(s,p[k])) ok=false; } delete[] p; ck(ok,"matvecmul"); } }
      else { ck(throws([&]{x.diag();})&&throws([&]{mat y(x);y.eye();}),"square-only"); }
      { std::multiset<R> all(m.a.begin(),m.a.end()); std::set<vector<R>> seen; for(SEED=1;SEED<=24;SEED++){ mat y(x); y.shuffleRows(); vector<R> got; bool ok=(int)y.getNRows()==r&&(int)y.getNCols()==cc; for(int q=0;ok&&q<r;q++){ R w; for(int j=0;j<cc;j++) w.push_back(y(q,j)); got.push_back(w); } ck(ok&&std::multiset<R>(got.begin(),got.end())==all,"shuffleRows"); seen.insert(got); } std::set<R> d(m.a.begin(),m.a.end()); ck(d.size()<2||seen.size()>1,"shuffleRows-shuffles"); }
      { bool sy=(r==cc); for(int a=0;a<r&&sy;a++) for(int b=0;b<r;b++) if(m.a[a][b]!=m.a[b][a]) sy=false; ck(x.isSymmetric()==sy,"isSymmetric"); }
    } else {
      mat y(x); ck(throws([&]{y.deleteRow(0);})&&throws([&]{y.deleteRow(-1);})&&throws([&]{y.deleteRows({0});}),"delete-empty"); ck(y.isEmpty()&&y.getNRows()==0,"delete-empty-state");
      mat z; z.addRow(vec{1,2,3}); ck(same(z,insRow(M(),0,{1,2,3})),"addRow-empty"); mat w; w.addColumn(vec{1,2,3}); ck(same(w,transp(insRow(M(),0,{1,2,3}))),"addColumn-empty"); 
      mat t(2,0); t.addRow(vec{4,5}); M e(1,2); e.a[0]={4,5}; ck(same(t,e),"addRow-noColumns"); mat u(0,3); u.addRow(vec{4,5,6}); M f(1,3); f.a[0]={4,5,6}; ck(same(u,f),"addRow-noRows"); mat s(0,2); s.addColumn(vec{4,5}); M g(2,1); g.a[0]={4}; g.a[1]={5}; ck(same(s,g),"addColumn-noRows");
      for(int k: {-3,-2,1,2}){ mat y2; ck(throws([&]{y2.addRow(vec{1,2},k);}),"addRow-empty-range"); mat y3; ck(throws([&]{y3.addColumn(vec{1,2},k);}),"addColumn-empty-range"); }
      ck(throws([&]{x.diag();}),"diag-empty");
    }
    for(double a: {-2.0,0.0,0.5}){ M e=m; for(auto&q:e.a) for(double&d:q) d*=a; ck(same(x*a,e),"scalar-product"); mat y(x); y.fill(a); ck(same(y,M(r,cc,a)),"fill"); }
    if(r<=6&&cc<=6) for(int a=0;a<=r+2;a++) for(int b=0;b<=cc+2;b++){ mat y(x); y.resize(a,b); M e(a,b); for(int p=0;p<std::min(a,r);p++) for(int q=0;q<std::min(b,cc);q++) e.a[p][q]=m.a[p][q]; ck(same(y,e),"resize"); }
    // binary operations against patterned and small enumerated partners
    auto bin=[&](const M& n){ const mat y=mk(n); c.state(mix(i,hashBytes(&n.r,4)+n.c*31)); auto cb=[&](bool ok,const char*w){ c.tick(); if(!ok) c.fail(std::string("op-")+w,std::string(w)+" wrong on "+show(m)+" and "+show(n)); if(!same(x,m)||!same(y,n)) c.fail(std::string("mutates-")+w,std::string(w)+" changed an operand"); };
      if(r==n.r&&cc==n.c){ M p=m,q=m; bool eq=true; for(int a=0;a<r;a++) for(int b=0;b<cc;b++){ p.a[a][b]+=n.a[a][b]; q.a[a][b]-=n.a[a][b]; if(m.a[a][b]!=n.a[a][b]) eq=false; } cb(same(x+y,p),"plus"); cb(same(x-y,q),"minus"); cb(x.isEqual(y)==eq,"isEqual"); }
      else { cb(throws([&]{x+y;})&&throws([&]{x-y;})&&!x.isEqual(y),"shape-mismatch"); }
      if(cc==n.r && r*cc*n.c>0){ M e=mul(m,n); cb(same(x*y,e),"times"); cb(same(x.matMatProduct(y),e),"matMat"); cb(same(x.matMatProductNaive(y),e),"matMatNaive"); cb(same(x.matMatProductOpenBlas(y),e),"matMatBlas"); } else if(cc!=n.r) cb(throws([&]{x*y;})&&throws([&]{x.matMatProduct(y);}),"times-shape");
      if(r&&n.r&&cc&&n.c){ if(cc==n.c){ M e=m; e.r+=n.r; e.a.insert(e.a.end(),n.a.begin(),n.a.end()); cb(same(x.concatenateRowWise(y),e),"concatenateRowWise"); } else cb(throws([&]{x.concatenateRowWise(y);}),"concatenateRowWise-shape");
        if(r==n.r){ M e=m; e.c+=n.c; for(int a=0;a<r;a++) e.a[a].insert(e.a[a].end(),n.a[a].begin(),n.a[a].end()); cb(same(x.concatenateColumnWise(y),e),"concatenateColumnWise"); } else cb(throws([&]{x.concatenateColumnWise(y);}),"concatenateColumnWise-shape"); }
      else { cb(same(x.concatenateRowWise(y),r?m:n),"concatenateRowWise-empty"); cb(same(x.concatenateColumnWise(y),cc?m:n),"concatenateColumnWise-empty"); } };
    for(int a=0;a<=4;a++) for(int b=0;b<=4;b++) if((a==0)==(b==0)) for(int p=0;p<2;p++) bin(patt(a,b,p));
    bin(m); if(r*cc){ M n=m; n.a[r-1][cc-1]+=1e-6; bin(n); }
    if(r*cc>0&&r*cc<=4){ uint64_t n=cnt(r,cc); for(uint64_t k=0;k<n;k++) bin(fill(r,cc,k)); n=cnt(cc,r); for(uint64_t k=0;k<n;k++) bin(fill(cc,r,k)); }
  }
};
#else
struct H: Harness{
  static const int OPS=24;
  uint64_t cases(bool) override { return OPS*OPS; }
  std::string describe(uint64_t i,bool t) override { return "all operation sequences starting with operations "+std::to_string(i/OPS)+","+std::to_string(i%OPS)+" up to depth "+(t?"6":"4")+" on two matrices"; }
  void run(uint64_t ci,Ctx& c) override {
    M a(2,3),b(1,3); for(int i=0;i<2;i++) for(int j=0;j<3;j++) a.a[i][j]=10*i+j; for(int j=0;j<3;j++) b.a[0][j]=100+j;
    mat A=mk(a),B=mk(b); int depth=c.thorough?6:4; int fresh=1000;
    for(int d=0;d<depth;d++){
      int op= d==0? ci/OPS : d==1? ci%OPS : c.choose(OPS); c.op("op "+std::to_string(op));
      bool e=a.r*a.c==0, eb=b.r*b.c==0; auto row=[&](int n){ R r(n); for(double&x:r) x=fresh++; return r; };
      switch(op){
        case 0: { R v=row(e?2:a.c); A.addRow(mkv(v)); a=insRow(a,e?0:a.r,v); break; }
        case 1: { R v=row(e?3:a.c); A.addRow(mkv(v),0); a=insRow(a,0,v); break; }
        case 2: { R v=row(e?2:a.r); A.addColumn(mkv(v)); a=transp(insRow(transp(a),e?0:a.c,v)); break; }
        case 3: { R v=row(e?2:a.r); A.addColumn(mkv(v),0); a=transp(insRow(transp(a),0,v)); break; }
        case 4: if(e){ if(!throws([&]{A.deleteRow(-1);})) c.fail("sequence","deleteRow on an empty matrix accepted"); break; } A.deleteRow(-1); a.a.pop_back(); a.r--; if(!a.r) a=M(); break;
        case 5: if(e) throw Prune(); A.deleteRow(0); a.a.erase(a.a.begin()); a.r--; if(!a.r) a=M(); break;
        case 6: if(a.r<3||e) throw Prune(); A.deleteRows({2,0}); { M t=a; vector<int> id; for(int i=0;i<a.r;i++) if(i!=0&&i!=2) id.push_back(i); a=rows(t,id); if(!a.r) a=M(); } break;
        case 7: A=B; a=b; break;
        case 8: B=A; b=a; break;
        case 9: { mat C(A); B=std::move(C); b=a; break; }
        case 10: { mat C=std::move(A); A=B; B=C; std::swap(a,b); break; }
        case 11: A.resize(2,2); { M t(2,2); for(int i=0;i<std::min(2,a.r);i++) for(int j=0;j<std::min(2,a.c);j++) t.a[i][j]=a.a[i][j]; a=t; } break;
        case 12: A.resize(3,1); { M t(3,1); for(int i=0;i<std::min(3,a.r);i++) for(int j=0;j<std::min(1,a.c);j++) t.a[i][j]=a.a[i][j]; a=t; } break;
        case 13: A.reset(); a=M(); break;
        case 14: A=A.transpose(); a=transp(a); break;
        case 15: if(!e&&!eb&&a.c!=b.c) throw Prune(); A=A.concatenateRowWise(B); if(a.r==0) a=b; else if(b.r!=0){ a.r+=b.r; a.a.insert(a.a.end(),b.a.begin(),b.a.end()); } break;
        case 16: if(!e&&!eb&&a.r!=b.r) throw Prune(); A=A.concatenateColumnWise(B); if(a.c==0) a=b; else if(b.c!=0){ a.c+=b.c; for(int i=0;i<a.r;i++) a.a[i].insert(a.a[i].end(),b.a[i].begin(),b.a[i].end()); } break;
        case 17: if(e||a.r<2) throw Prune(); A=A.submat(1,a.r-1,0,a.c-1); { M t=a; t.a.erase(t.a.begin()); t.r--; a=t; } break;
        case 18: if(a.c!=b.c||a.r!=b.r) throw Prune(); A=A+B; for(int i=0;i<a.r;i++) for(int j=0;j<a.c;j++) a.a[i][j]+=b.a[i][j]; break;
        case 19: if(e) throw Prune(); { R v=row(a.c); A.setRow(mkv(v),a.r-1); a.a[a.r-1]=v; } break;
        case 20: if(e) throw Prune(); { R v=row(a.r); A.setCol(mkv(v),0); for(int i=0;i<a.r;i++) a.a[i][0]=v[i]; } break;
        case 21: A=A*0.5; for(auto&q:a.a) for(double&x:q) x*=0.5; break;
        case 22: A=mat(2,2,7.0); a=M(2,2,7.0); break;
        case 23: if(e) throw Prune(); A.addRow(A.getRow(0)); a=insRow(a,a.r,a.a[0]); break;
      }
      if(a.r*a.c>40) throw Prune();
      if(!sameE(A,a)||!sameE(B,b)) c.fail("sequence","after operation "+std::to_string(op)+": expected A="+show(a)+" B="+show(b));
      if(a.r*a.c==0){ a=M(A.getNRows(),A.getNCols()); } if(b.r*b.c==0){ b=M(B.getNRows(),B.getNCols()); }
      uint64_t h=mix(a.r,a.c); for(auto&q:a.a) h=hashBytes(q.data(),q.size()*8,h); h=mix(h,mix(b.r,b.c)); for(auto&q:b.a) h=hashBytes(q.data(),q.size()*8,h); c.state(h);
    }
  }
};
#endif
MC_MAIN(H)
