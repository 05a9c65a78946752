// Force-included into the repository's sources: the standard random facilities become ones whose every outcome is
// decided by the explorer (rodeo_mc_real / rodeo_mc_int / rodeo_mc_raw, defined by the harness).
#ifndef CTL_RANDOM_HPP
#define CTL_RANDOM_HPP
#include <random>
#include <algorithm>
#include <numeric>
#include <memory>
#include <functional>
#include <cstdlib>
#include <cmath>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <fstream>
#include <iostream>
#include <sstream>
#include <iomanip>
#include <thread>
#include <mutex>
#include <chrono>
#include <regex>
#include <filesystem>
#include <unordered_map>
#include <unordered_set>
double rodeo_mc_real(double a,double b);      // a draw from [a,b)
double rodeo_mc_normal(double mean,double sd);
long   rodeo_mc_int(long a,long b);           // a draw from [a,b]
int    rodeo_mc_rand();                       // rand()
namespace std {
// the engine keeps a state that every draw changes: an engine shared by threads shows up as a race
struct rodeo_mc_engine { typedef unsigned int result_type; unsigned long state=0; void touch(){ state++; } rodeo_mc_engine(){} rodeo_mc_engine(const rodeo_mc_engine&)=default; rodeo_mc_engine(rodeo_mc_engine& o):state(o.state){} rodeo_mc_engine& operator=(const rodeo_mc_engine&)=default; template<class T> explicit rodeo_mc_engine(T&&){} 
  static constexpr result_type min(){return 0;} static constexpr result_type max(){return 0xffffffffu;} 
  result_type operator()(){ touch(); return (result_type)rodeo_mc_int(0,0xffffffffL); } template<class T> void seed(T&&){} void seed(){} void discard(unsigned long long){} };
struct rodeo_mc_device { typedef unsigned int result_type; rodeo_mc_device(){} template<class T> explicit rodeo_mc_device(T&&){} static constexpr result_type min(){return 0;} static constexpr result_type max(){return 0xffffffffu;} result_type operator()(){ return 1; } double entropy()const{return 0;} };
inline void rodeo_mc_touch(rodeo_mc_engine& g){ g.touch(); } template<class G> inline void rodeo_mc_touch(G&){}
template<class R=double> struct rodeo_mc_ureal { R A,B; rodeo_mc_ureal(R a=0,R b=1):A(a),B(b){} template<class G> R operator()(G& g){ rodeo_mc_touch(g); return (R)rodeo_mc_real(A,B);} R a()const{return A;} R b()const{return B;} R min()const{return A;} R max()const{return B;} void reset(){} };
template<class R=double> struct rodeo_mc_norm { R M,S; rodeo_mc_norm(R m=0,R s=1):M(m),S(s){} template<class G> R operator()(G& g){ rodeo_mc_touch(g); return (R)rodeo_mc_normal(M,S);} R mean()const{return M;} R stddev()const{return S;} void reset(){} };
template<class I=int> struct rodeo_mc_uint { I A,B; rodeo_mc_uint(I a=0,I b=numeric_limits<I>::max()):A(a),B(b){} template<class G> I operator()(G& g){ rodeo_mc_touch(g); return (I)rodeo_mc_int((long)A,(long)B);} I a()const{return A;} I b()const{return B;} void reset(){} };
template<class It,class G> void rodeo_mc_shuffle(It f,It l,G&& g){ rodeo_mc_touch(g); for(auto n=l-f;n>1;--n){ auto j=rodeo_mc_int(0,(long)n-1); std::swap(f[n-1],f[j]); } }
}
#define mt19937 rodeo_mc_engine
#define mt19937_64 rodeo_mc_engine
#define default_random_engine rodeo_mc_engine
#define minstd_rand rodeo_mc_engine
#define random_device rodeo_mc_device
#define uniform_real_distribution rodeo_mc_ureal
#define normal_distribution rodeo_mc_norm
#define uniform_int_distribution rodeo_mc_uint
#define shuffle rodeo_mc_shuffle
#define rand rodeo_mc_rand
namespace std { using ::rodeo_mc_rand; }
#endif
