// P15: CSV files. -DPART=1 round trips of matrices/vectors; -DPART=2 every file content up to a length over the format alphabet;
// -DPART=3 every truncation point and append sequences.
#include "mc.hpp"
#include "LinearAlgebra/INCLUDE/matrix.hpp"
using namespace mc; using std::vector; using Rodop::mat; using Rodop::vec;
template<class F> static bool throws(F f){ try{ f(); }catch(const std::exception&){ return true; } return false; }
static void put(const std::string& f,const std::string& s){ int fd=open(f.c_str(),O_WRONLY|O_CREAT|O_TRUNC,0644); if(write(fd,s.data(),s.size())!=(ssize_t)s.size()) abort(); close(fd); }
// independent reference reader: -1 reject, 0 unspecified, 1 accept
static int refCell(const std::string& cell,double& v){
  size_t a=cell.find_first_not_of(" \t\r"); if(a==std::string::npos) return -1; size_t b=cell.find_last_not_of(" \t\r"); std::string s=cell.substr(a,b-a+1);
  size_t i=0; if(i<s.size()&&(s[i]=='-'||s[i]=='+')) i++; size_t d=0; while(i<s.size()&&isdigit((unsigned char)s[i])){ i++; d++; } if(i<s.size()&&s[i]=='.'){ i++; while(i<s.size()&&isdigit((unsigned char)s[i])){ i++; d++; } } if(!d) { bool al=false; for(char ch:s) if(isalpha((unsigned char)ch)) al=true; if(al&&(s.find("nan")!=s.npos||s.find("inf")!=s.npos)) return 0; return -1; }
  if(i<s.size()&&(s[i]=='e'||s[i]=='E')){ i++; if(i<s.size()&&(s[i]=='-'||s[i]=='+')) i++; size_t e=0; while(i<s.size()&&isdigit((unsigned char)s[i])){ i++; e++; } if(!e) return -1; }
  if(i!=s.size()){ return (s.size()>1&&(s.find('x')!=s.npos||s.find('X')!=s.npos)&&i==1+(s[0]=='-'||s[0]=='+'))?0:-1; }
  v=strtod(s.c_str(),0); if(std::isinf(v)) return 0; if(v!=0&&std::fabs(v)<1e-300) return 0; return 1; }
static int refFile(const std::string& t,vector<vector<double>>& rows){
  int res=1; size_t p=0; while(p<t.size()){ size_t e=t.find('\n',p); std::string line=t.substr(p,(e==t.npos?t.size():e)-p); p= e==t.npos? t.size(): e+1;
    if(line.empty()||line.find_first_not_of(" \t\r")==line.npos){ res= res==-1?-1:0; continue; }      // blank lines: accepted or rejected, never data
    if(line.back()==',') res= res==-1?-1:0;                                                              // trailing separator: unspecified
    vector<double> r; size_t q=0; for(;;){ size_t k=line.find(',',q); std::string cell=line.substr(q,(k==line.npos?line.size():k)-q); if(k==line.npos&&q>0&&cell.empty()) break; double v=0; int x=refCell(cell,v); if(x==-1) return -1; if(x==0) res= 0; r.push_back(v); if(k==line.npos) break; q=k+1; }
    rows.push_back(r); }
  for(auto&r:rows) if(r.size()!=rows[0].size()) return -1;
  if(rows.empty()) return res==1?-1:res; return res; }
static bool same(const mat& m,const vector<vector<double>>& r,double tol){ if(m.getNRows()!=r.size()||m.getNCols()!=r[0].size()) return false; for(size_t i=0;i<r.size();i++) for(size_t j=0;j<r[0].size();j++) if(!(std::fabs(m(i,j)-r[i][j])<=tol*(1+0*std::fabs(r[i][j]))+4e-16*std::fabs(r[i][j]))) return false; return true; }
static std::string vis(const std::string& s){ std::string o; for(char ch:s){ if(ch=='\n') o+="\\n"; else if(ch=='\r') o+="\\r"; else o+=ch; } return "\""+o+"\""; }
#if PART==1
static const double AL[]={0,1,-1,0.5,-123456.789,1e-6,3.14159265358979,1e15,-2.5e-3,7e8};
struct H: Harness{
  vector<std::pair<int,int>> sh={{1,1},{1,2},{2,1},{2,2},{1,3},{3,1},{2,3},{3,2}};
  uint64_t cnt(int n,int al){ uint64_t k=1; while(n--) k*=al; return k; }
  int al(int n,bool t){ return n<=2?10: n<=4?(t?8:5) : (t?4:3); }
  static const int BLK=50;
  vector<std::pair<int,int>> big={{4,4},{5,3},{3,5},{2,7},{13,1},{1,13},{17,9},{9,17},{100,2},{1,40}};
  uint64_t cases(bool t) override { return small(t)+big.size(); }
  uint64_t small(bool t){ uint64_t n=0; for(auto s:sh) n+=(cnt(s.first*s.second,al(s.first*s.second,t))+BLK-1)/BLK; return n; }
  std::string describe(uint64_t i,bool) override { return "matrices block "+std::to_string(i); }
  void run(uint64_t i,Ctx& c) override {
    if(i>=small(c.thorough)){ auto s=big[i-small(c.thorough)]; for(int p=0;p<3;p++) for(int prec: {6,12}) for(int hdr=0;hdr<2;hdr++) for(int init=0;init<3;init++){ vector<vector<double>> r(s.first,vector<double>(s.second)); mat m(s.first,s.second); for(int a=0;a<s.first;a++) for(int b=0;b<s.second;b++){ r[a][b]= p==0? 10*a+b+0.25 : p==1? AL[(a*7+b*3)%10] : -1.5/(1+a+2*b); m(a,b)=r[a][b]; } c.tick(); c.state(mix(s.first*1000+s.second,p*100+prec*10+hdr));
        std::vector<std::string> h; if(hdr) for(int b=0;b<s.second;b++) h.push_back("x"+std::to_string(b)); m.saveAsCSV("t.csv",prec,h); mat y; if(init==1) y=mat(3,3,9.0); if(init==2) y=mat(s.second,s.first,9.0); y.readFromCSV("t.csv",hdr); if(!same(y,r,0.500001*std::pow(10.0,-prec))) c.fail("roundtrip","matrix "+std::to_string(s.first)+"x"+std::to_string(s.second)+" changed by a save/read round trip, file "+vis(readAll("t.csv")).substr(0,300));
        unlink("u.csv"); for(int a=0;a<s.first;a++) m.getRow(a).appendToCSV("u.csv",prec); if(!hdr&&readAll("u.csv")!=readAll("t.csv")) c.fail("append","appending rows differs from writing them at once"); 
        if(s.first==1||s.second==1){ vec v= s.first==1? m.getRow(0): m.getCol(0); v.saveToCSV("v1.csv"); vec u(2,7.0); u.readFromCSV("v1.csv"); bool ok=u.getSize()==v.getSize(); for(unsigned a=0;ok&&a<v.getSize();a++) ok=std::fabs(u(a)-v(a))<=5.1e-6*std::fabs(v(a)); if(!ok) c.fail("vec-roundtrip","vector changed by a save/read round trip"); } }
      return; }
    for(auto s:sh){ int n=s.first*s.second,A=al(n,c.thorough); uint64_t tot=cnt(n,A),b=(tot+BLK-1)/BLK; if(i>=b){ i-=b; continue; }
      for(uint64_t k=i*BLK;k<tot&&k<(i+1)*BLK;k++){
        vector<vector<double>> r(s.first,vector<double>(s.second)); uint64_t q=k; for(auto&x:r) for(double&d:x){ d=AL[(q%A)*(n<=2?1:(A==3?3:A==4?2:1))]; q/=A; }
        mat m(s.first,s.second); for(int a=0;a<s.first;a++) for(int bb=0;bb<s.second;bb++) m(a,bb)=r[a][bb];
        c.state(mix(n*100+s.first,k));
        for(int prec: {6,12}) for(int hdr=0;hdr<2;hdr++){ c.op("save prec "+std::to_string(prec)+" header "+std::to_string(hdr)); std::vector<std::string> h; if(hdr) for(int a=0;a<s.second;a++) h.push_back("name"+std::to_string(a)); 
          m.saveAsCSV("t.csv",prec,h); mat y(3,3,9.0); y.readFromCSV("t.csv",hdr); if(!same(y,r,0.500001*std::pow(10.0,-prec))) c.fail("roundtrip","matrix changed by a save/read round trip, file "+vis(readAll("t.csv")));
          if(hdr){ std::string t=readAll("t.csv"); std::string e; for(int a=0;a<s.second;a++) e+=(a?",name":"name")+std::to_string(a); if(t.substr(0,t.find('\n'))!=e) c.fail("header","header line "+vis(t)); if(!throws([&]{mat z; z.readFromCSV("t.csv",false);})) c.fail("header-as-data","header read as data"); }
          // text equals rows appended one by one
          if(!hdr){ unlink("u.csv"); for(int a=0;a<s.first;a++) m.getRow(a).appendToCSV("u.csv",prec); if(readAll("u.csv")!=readAll("t.csv")) c.fail("append","appending rows differs from writing them at once: "+vis(readAll("u.csv"))+" vs "+vis(readAll("t.csv"))); 
            // file without final newline
            std::string t=readAll("t.csv"); put("v.csv",t.substr(0,t.size()-1)); mat w; w.readFromCSV("v.csv"); if(!same(w,r,0.500001*std::pow(10.0,-prec))) c.fail("no-newline","missing trailing newline changes the data");
            m.getRow(0).appendToCSV("v.csv",prec); mat z; z.readFromCSV("v.csv"); auto r2=r; r2.push_back(r[0]); if(!same(z,r2,0.500001*std::pow(10.0,-prec))) c.fail("append-no-newline","appending to a file without final newline corrupts it: "+vis(readAll("v.csv")));
            if(!throws([&]{vec(s.second+1).appendToCSV("t.csv");})||readAll("t.csv")!=t) c.fail("append-size","row of wrong length accepted"); }
        }
        std::vector<std::string> bad(s.second+1,"x"); if(!throws([&]{m.saveAsCSV("w.csv",6,bad);})) c.fail("header-size","wrong header size accepted");
        if(s.first==1){ vec v=m.getRow(0); v.saveToCSV("v1.csv"); vec u(2,7.0); u.readFromCSV("v1.csv"); if((int)u.getSize()!=s.second) c.fail("vec-roundtrip","vector length changed"); for(int a=0;a<s.second;a++) if(std::fabs(u(a)-v(a))>5.1e-6*std::fabs(v(a))) c.fail("vec-roundtrip","vector value changed: "+vis(readAll("v1.csv"))); std::string t=readAll("v1.csv"); put("v2.csv",t+"\n"); vec w; w.readFromCSV("v2.csv"); if(!w.is_equal(u)) c.fail("vec-newline","trailing newline changes a vector file"); }
      }
      return; }
  }
};
#elif PART==2
static const char* AB="1.-e,\n x;"; static const int NA=9;
struct H: Harness{
  int L(bool t){ return t?7:6; }
  uint64_t cases(bool) override { return 1+NA+81; }
  std::string describe(uint64_t i,bool t) override { return "all files of up to "+std::to_string(L(t))+" characters over {1 . - e , newline blank x ;} with prefix class "+std::to_string(i); }
  void one(const std::string& t,Ctx& c){
    c.tick(); put("f.csv",t); vector<vector<double>> rows; int e=refFile(t,rows);
    mat m(2,2,5.0); bool ok=true; try{ m.readFromCSV("f.csv"); }catch(const std::exception&){ ok=false; }
    if(e==1&&!ok) c.fail("valid-rejected","valid table rejected: "+vis(t));
    if(e==-1&&ok) c.fail("malformed-accepted","malformed table accepted: "+vis(t));
    if(e==1&&!same(m,rows,0)) c.fail("wrong-data","wrong data read from "+vis(t));
    if(!ok&&!(m.getNRows()==2&&m.getNCols()==2&&m(0,0)==5.0&&m(1,1)==5.0&&m(1,0)==5.0)) c.fail("damaged","failed read damages the matrix, file "+vis(t));
    // vector files: one number per line
    vector<double> v; int ev=1; { size_t p=0; while(p<t.size()){ size_t k=t.find('\n',p); std::string l=t.substr(p,(k==t.npos?t.size():k)-p); p= k==t.npos?t.size():k+1; double x=0; int q=refCell(l,x); if(l.find(',')!=l.npos) q=-1; if(q==-1){ ev=-1; break; } if(q==0) ev=0; v.push_back(x); } }
    vec w(2,3.0); bool okv=true; try{ w.readFromCSV("f.csv"); }catch(const std::exception&){ okv=false; }
    if(ev==1&&!okv) c.fail("vec-valid-rejected","valid vector file rejected: "+vis(t)); if(ev==-1&&okv) c.fail("vec-malformed-accepted","malformed vector file accepted: "+vis(t));
    if(ev==1){ bool s=w.getSize()==v.size(); for(size_t i=0;s&&i<v.size();i++) if(w(i)!=v[i]) s=false; if(!s) c.fail("vec-wrong-data","wrong vector from "+vis(t)); }
    if(!okv&&!(w.getSize()==2&&w(0)==3.0)) c.fail("vec-damaged","failed read damages the vector, file "+vis(t));
    c.state(hashBytes(t.data(),t.size(),mix(e+2,ok))); }
  void rec(std::string& s,int left,Ctx& c){ one(s,c); if(!left) return; for(int i=0;i<NA;i++){ s.push_back(AB[i]); rec(s,left-1,c); s.pop_back(); } }
  void run(uint64_t i,Ctx& c) override { std::string s; if(i==0){ one(s,c); if(!throws([&]{mat m; m.readFromCSV("no-such-file.csv");})||!throws([&]{vec m; m.readFromCSV("no-such-file.csv");})) c.fail("missing","missing file accepted"); return; } if(i<=NA){ s+=AB[i-1]; one(s,c); return; } i-=NA+1; s+=AB[i/9]; s+=AB[i%9]; rec(s,L(c.thorough)-2,c); }
};
#else
// token-level files: rows of tokens, plus every truncation point of valid files
static const char* TK[]={"1","-2.5","3e2",".5","+7"," 8 ","1.","abc","1a","","1 2","1;2","--1","1e","nan","0x1","1e+"}; static const int NT=17;
struct H: Harness{
  uint64_t cases(bool) override { return NT*NT+2; }
  std::string describe(uint64_t i,bool) override { return i==NT*NT+1?"every byte next to, before, inside and instead of a number": i==NT*NT?"every truncation point of valid files": std::string("token files starting with ")+TK[i/NT]+" , "+TK[i%NT]; }
  void one(const std::string& t,Ctx& c,int skip=0){ c.tick(); put("f.csv",t); std::string body=t; if(skip){ size_t k=t.find('\n'); body= k==t.npos?"":t.substr(k+1); } vector<vector<double>> rows; int e=refFile(body,rows); mat m(1,2,4.0); bool ok=true; try{ m.readFromCSV("f.csv",skip); }catch(const std::exception&){ ok=false; } c.state(hashBytes(t.data(),t.size(),skip));
    if(e==1&&!ok) c.fail("valid-rejected","valid table rejected: "+vis(t)); if(e==-1&&ok) c.fail("malformed-accepted","malformed table accepted: "+vis(t)); if(e==1&&!same(m,rows,0)) c.fail("wrong-data","wrong data read from "+vis(t)); }
  void run(uint64_t i,Ctx& c) override {
    if(i==NT*NT){ for(std::string t: {"1.5,2\n3,4\n","h1,h2\n1,2\n-3,4e1\n","1\n2\n3\n"}) for(size_t k=0;k<=t.size();k++) for(int s=0;s<2;s++) one(t.substr(0,k),c,s); return; }
    if(i==NT*NT+1){ for(int b=1;b<256;b++){ if(b=='\v'||b=='\f') continue; std::string z(1,(char)b); for(std::string n: {"1","-2.5","4e1"}) for(std::string t: {n+z,z+n,n+" "+z,z,n+z+n,z+" "+n}) for(std::string f: {t+"\n",t,"3,"+t+"\n",t+",3\n","1,2\n3,"+t+"\n","1,2\n"+t+",3\n","1\n"+t+"\n2\n"}) one(f,c); } return; }
    std::string a=TK[i/NT],b=TK[i%NT]; const char* eol[]={"\n","\r\n"};
    for(int e=0;e<2;e++) for(int fin=0;fin<2;fin++){ std::string E=eol[e];
      auto f=[&](const std::string& s){ one(fin? s+E : s,c); };
      f(a); f(a+","+b); f(a+E+b);
      for(int j=0;j<NT;j++){ std::string d=TK[j]; f(a+","+b+","+d); f(a+","+b+E+d); f(a+E+b+","+d); f(a+E+b+E+d); for(int k=0;k<NT;k++){ if(e&&!c.thorough) continue; std::string g=TK[k]; f(a+","+b+E+d+","+g); if(c.thorough){ f(a+E+b+E+d+E+g); f(a+","+b+","+d+E+g); } } } }
  }
};
#endif
MC_MAIN(H)
