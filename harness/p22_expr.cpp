// P22: every expression text up to a length / every token sequence, through both parsers, against a hand-written grammar.
#include "mc.hpp"
#include "API/INCLUDE/rodeo.h"
using namespace Rodop; using mc::fmt;
static bool sp(char c){ return c==' '||c=='\t'||c=='\n'||c=='\r'; }
static bool isNumber(const std::string& s){ size_t i=0,n=s.size(); if(i<n&&(s[i]=='+'||s[i]=='-')) i++; size_t d=0; while(i<n&&isdigit(s[i])) i++,d++; if(i<n&&s[i]=='.'){ i++; while(i<n&&isdigit(s[i])) i++,d++; } if(!d) return false; if(i<n&&(s[i]=='e'||s[i]=='E')){ i++; if(i<n&&(s[i]=='+'||s[i]=='-')) i++; size_t k=0; while(i<n&&isdigit(s[i])) i++,k++; if(!k) return false; } return i==n; }
struct Ref{ bool ok=false; std::string name,op; double v=0; bool unspecified=false; };
static Ref ref(const std::string& s){
  Ref r; size_t i=0,n=s.size(); while(i<n&&sp(s[i])) i++; std::string nm; while(i<n&&!sp(s[i])&&s[i]!='<'&&s[i]!='>') nm+=s[i++]; while(i<n&&sp(s[i])) i++;
  if(nm.empty()||i>=n||(s[i]!='<'&&s[i]!='>')) return r; r.op=s[i++]; while(i<n&&sp(s[i])) i++; std::string v; while(i<n&&!sp(s[i])) v+=s[i++]; while(i<n&&sp(s[i])) i++; if(i<n) return r;
  if(!isNumber(v)) return r; errno=0; double x=strtod(v.c_str(),0); if(std::isinf(x)) return r; if(errno==ERANGE) r.unspecified=true; r.ok=true; r.name=nm; r.v=x; return r; }
static void judge(const std::string& s,mc::Ctx& c){
  Ref r=ref(s); std::string q="'"+s+"'"; c.tick();
  for(int p=0;p<2;p++){
    bool ok=true; std::string nm,op; double v=0; const char* w=p?"parseExpression ":"setDefinition ";
    ConstraintDefinition d; d.constraintName="old"; d.inequalityType=">"; d.value=77; d.ID=3;
    try{ if(p==0){ d.setDefinition(s); nm=d.constraintName; op=d.inequalityType; v=d.value; c.check(d.ID==3,"id",w+q+": ID changed"); } else { auto e=parseExpression(s); nm=e.name; op=e.inequality; v=e.value; } } catch(std::exception&){ ok=false; }
    if(r.ok&&r.unspecified&&!ok) continue;
    c.check(ok==r.ok,ok?"accepted":"rejected",std::string(w)+q+(ok?" is accepted as "+nm+" "+op+" "+fmt(v):" is rejected"));
    if(!ok){ if(p==0) c.check(d.constraintName=="old"&&d.inequalityType==">"&&d.value==77,"partial",w+q+": a rejected expression modifies the definition"); continue; }
    c.check(nm==r.name&&op==r.op&&v==r.v,"meaning",w+q+" is understood as "+nm+" "+op+" "+fmt(v));
    if(p==0){ // what the constraint says afterwards is what was written
      ConstraintFunction f; f.setConstraintDefinition(d); c.check(f.getInequalityType()==op&&f.getInequalityTargetValue()==v,"binding","definition not bound to the constraint");
      double e=std::fabs(v)>1?std::fabs(v)*1e-9:1e-9; c.check(f.checkFeasibility(v+e)==(op==">")&&f.checkFeasibility(v-e)==(op=="<")&&!f.checkFeasibility(v),"feasibility",q+": feasibility test does not follow the expression");
      std::string t=d.toString(); size_t k=t.find("definition = "); c.check(k!=std::string::npos,"print","toString lacks the definition"); std::string txt=t.substr(k+13); txt=txt.substr(0,txt.find('\n')); ConstraintDefinition e2; e2.setDefinition(txt); c.check(e2.constraintName==nm&&e2.inequalityType==op&&std::fabs(e2.value-v)<=1e-5*std::fabs(v),"print",q+" prints as "+txt); }
    c.state(nm+op+fmt(v));
  }
}
struct H: mc::Harness {
#ifndef TOK
  const std::string A="c<>1.-e ";
  int L(bool t){ return t?9:7; }
  uint64_t cases(bool){ return 512; }
  std::string describe(uint64_t i,bool t){ std::string s; for(int k=0;k<3;k++){ s+=A[i%8]; i/=8; } return "all texts of length <= "+std::to_string(L(t))+" starting with '"+s+"'"; }
  void rec(std::string& s,int left,mc::Ctx& c){ judge(s,c); if(!left) return; for(char x: A){ s+=x; rec(s,left-1,c); s.pop_back(); } }
  void run(uint64_t i,mc::Ctx& c){ std::string s; uint64_t j=i; for(int k=0;k<3;k++){ s+=A[j%8]; j/=8; } c.op("prefix '"+s+"'"); if(i<64){ judge(s.substr(0,2),c); if(i<8) judge(s.substr(0,1),c); if(i==0) judge("",c); } rec(s,L(c.thorough)-3,c); }
#else
  const std::vector<std::string> T{"c1","<",">"," ","  \t","3.5","-1e-3","1e400","=","abc","0","+","1.5e","c_2[x]"};
  uint64_t cases(bool){ return T.size()*T.size(); }
  std::string describe(uint64_t i,bool){ return "token sequences starting with '"+T[i%T.size()]+"','"+T[i/T.size()]+"'"; }
  void rec(const std::string& s,int left,mc::Ctx& c){ judge(s,c); if(!left) return; for(auto&x: T) rec(s+x,left-1,c); }
  void run(uint64_t i,mc::Ctx& c){ std::string s=T[i%T.size()]+T[i/T.size()]; c.op(s); if(i<T.size()) judge(T[i],c); rec(s,c.thorough?4:3,c); }
  double execTimeout(){ return 300; }
#endif
};
MC_MAIN(H)
