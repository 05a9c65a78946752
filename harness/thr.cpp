// see thr.hpp. Plain C style on purpose: no template instantiation of this file may replace an instrumented one at link time.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "thr.hpp"
#include <pthread.h>
#include <semaphore.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <dlfcn.h>
#include <malloc.h>
#include <new>
namespace thr {
enum { T=4, MAXL=4096 };
typedef uint32_t clk;
struct Cell { uintptr_t key; uint32_t gen; clk w[T],r[T],aw[T],ar[T]; uint8_t wm[T],rm[T]; const void *wpc[T],*rpc[T]; };
static const size_t NC=1u<<19; static Cell* tab; static size_t used;
struct Lock { uintptr_t key; int owner; clk vc[T]; };
static Lock locks[MAXL]; static int nlocks;
struct Th { int st; Lock* wait; sem_t sem; pthread_t p; clk vc[T]; unsigned loop; unsigned single; }; // st 0 unused 1 ready 2 waits for a lock 3 at a barrier 4 finished
static Th th[T]; static int team=1, cur, arrived; static uint32_t gen=1; static bool on_, active; static int (*choose_)(int); static int maxp,preempt; static Race R_; static Stats S_; static int ordinal; static int nthreads=2; static int sameRun;
static __thread int me=-1; static __thread int off; static __thread int nested;
static __thread bool rt;
static bool ctl(){ return active&&me>=0&&!nested; }
bool inRegion(){ return active&&me>=0; }
int tid(){ return me<0?0:me; } int region(){ return ordinal; } const Race& race(){ return R_; } const Stats& stats(){ return S_; }
Off::Off(){ off++; } Off::~Off(){ off--; }
void enable(int (*c)(int),int m){ choose_=c; maxp=m; on_=true; preempt=0; memset(&R_,0,sizeof R_); memset(&S_,0,sizeof S_); ordinal=0; nlocks=0; if(!tab) tab=(Cell*)calloc(NC,sizeof(Cell)); }
void disable(){ on_=false; }
static void die(const char* m){ fprintf(stderr,"controlled scheduler: %s\n",m); fflush(stderr); abort(); }
static Lock* lockOf(uintptr_t k){ for(int i=0;i<nlocks;i++) if(locks[i].key==k) return &locks[i]; if(nlocks>=MAXL) die("too many locks"); Lock* l=&locks[nlocks++]; l->key=k; l->owner=-1; memset(l->vc,0,sizeof l->vc); return l; }
static bool enabled(int i){ return th[i].st==1||(th[i].st==2&&th[i].wait->owner<0); }
static void join(clk* a,const clk* b){ for(int i=0;i<T;i++) if(b[i]>a[i]) a[i]=b[i]; }
static void hand(int to){ int self=me; cur=to; sem_post(&th[to].sem); while(sem_wait(&th[self].sem)){} }
// decide who runs next; the caller keeps its state up to date before
static void point(bool canStay){
  S_.points++; int e[T],n=0; bool stay=canStay&&enabled(me); if(stay) e[n++]=me; for(int i=0;i<team;i++) if(i!=me&&enabled(i)) e[n++]=i;
  if(n==0){ if(th[me].st==4) return; die("DEADLOCK: no thread of the region can run"); }
  int k=0; if(stay&&++sameRun>2000&&n>1){ k=1; sameRun=0; } else if(stay&&preempt>=maxp) k=0; else if(n>1){ off++; k=choose_(n); off--; }
  if(stay&&k>0){ preempt++; S_.preemptions++; } if(e[k]!=me){ sameRun=0; hand(e[k]); } }
static void acquire(uintptr_t k){ Th& t=th[me]; point(true); Lock* l=lockOf(k); while(l->owner>=0){ if(l->owner==me) die("DEADLOCK: a thread locks what it already holds"); t.st=2; t.wait=l; point(false); t.st=1; } l->owner=me; join(t.vc,l->vc); }
static void release(uintptr_t k){ Th& t=th[me]; Lock* l=lockOf(k); l->owner=-1; join(l->vc,t.vc); t.vc[me]++; }
static void barrier(){ Th& t=th[me]; int live=0; for(int i=0;i<team;i++) if(th[i].st!=4) live++; if(++arrived<live){ t.st=3; point(false); t.st=1; } else { arrived=0; clk all[T]; memset(all,0,sizeof all); for(int i=0;i<team;i++) if(th[i].st!=4) join(all,th[i].vc); for(int i=0;i<team;i++) if(th[i].st!=4){ join(th[i].vc,all); th[i].vc[i]++; if(th[i].st==3) th[i].st=1; } point(true); } }
static void (*Fn)(void*); static void* Data;
static void finish(){ th[me].st=4; }
static void* body(void* a){ me=(int)(intptr_t)a; while(sem_wait(&th[me].sem)){} Fn(Data); finish();
  // the last one to finish wakes the master, others hand over
  int e[T],n=0; for(int i=0;i<team;i++) if(enabled(i)) e[n++]=i; 
  if(n==0){ bool all=true; for(int i=1;i<team;i++) all&=th[i].st==4; if(th[0].st==5&&all){ cur=0; sem_post(&th[0].sem); } else if(arrived>0){ die("DEADLOCK: threads wait at a barrier that others have passed by"); } else die("DEADLOCK: the remaining threads of the region cannot run"); return 0; }
  off++; int k=n>1?choose_(n):0; off--; sameRun=0; cur=e[k]; sem_post(&th[e[k]].sem); return 0; }
// work sharing
static struct Loop { long next,end,incr,chunk; unsigned seq; bool up; unsigned done; } loop; static unsigned singleSeq;
static void run(void (*fn)(void*),void* data,unsigned n,const Loop* init){
  if(n==0) n=nthreads; if(n>T) n=T;
  if(!on_||inRegion()||n<1){ nested++; Loop keep=loop; if(init) loop=*init; fn(data); loop=keep; nested--; return; }
  S_.regions++; ordinal++; if((int)n>S_.maxTeam) S_.maxTeam=n; gen++; used=0; team=n; Fn=fn; Data=data; arrived=0; singleSeq=0; loop.seq=0; sameRun=0; if(init){ loop=*init; loop.seq=1; }
  for(int i=0;i<nlocks;i++) memset(locks[i].vc,0,sizeof locks[i].vc);
  for(int i=0;i<team;i++){ Th& t=th[i]; t.st=1; t.wait=0; memset(t.vc,0,sizeof t.vc); t.vc[i]=1; t.loop=init?1:0; t.single=0; sem_init(&t.sem,0,0); }
  me=0; active=true; cur=0;
  for(int i=1;i<team;i++) if(pthread_create(&th[i].p,0,body,(void*)(intptr_t)i)) die("no thread");
  // any thread may start first: not a preemption
  if(team>1){ off++; int k=choose_(team); off--; if(k>0) hand(k); }
  fn(data); th[0].st=5; bool all=true; for(int i=1;i<team;i++) all&=th[i].st==4;
  if(!all){ int e[T],m=0; for(int i=1;i<team;i++) if(enabled(i)) e[m++]=i; if(m==0) die("DEADLOCK: the remaining threads of the region cannot run"); off++; int k=m>1?choose_(m):0; off--; sameRun=0; cur=e[k]; sem_post(&th[e[k]].sem); while(sem_wait(&th[0].sem)){} }
  active=false; me=-1; for(int i=1;i<team;i++) pthread_join(th[i].p,0); for(int i=0;i<team;i++) sem_destroy(&th[i].sem); team=1; }
// ---- memory accesses
static Cell* cell(uintptr_t g){ size_t h=(g*0x9E3779B97F4A7C15ull)>>45; h&=NC-1; for(;;){ Cell* c=&tab[h]; if(c->gen!=gen){ if(++used>NC*3/4) die("access table full"); memset(c,0,sizeof *c); c->gen=gen; c->key=g; return c; } if(c->key==g) return c; h=(h+1)&(NC-1); } }
static void hit(const void* a,int u,bool w1,const void* p1,bool w2,const void* p2){ if(R_.found) return; R_.found=1; R_.addr=a; R_.t1=u; R_.t2=me; R_.pc1=p1; R_.pc2=p2; R_.w1=w1; R_.w2=w2; }
static inline void access1(uintptr_t g,uint8_t m,bool w,bool atomic,const void* pc){ Cell* c=cell(g); Th& t=th[me];
  for(int u=0;u<team;u++) if(u!=me){ clk k=t.vc[u];
    if((c->wm[u]&m)&&c->w[u]>k) hit((void*)(g<<3),u,true,c->wpc[u],w,pc);
    if(w&&(c->rm[u]&m)&&c->r[u]>k) hit((void*)(g<<3),u,false,c->rpc[u],w,pc);
    if(!atomic){ if(c->aw[u]>k) hit((void*)(g<<3),u,true,0,w,pc); if(w&&c->ar[u]>k) hit((void*)(g<<3),u,false,0,w,pc); } }
  if(atomic){ if(w) c->aw[me]=t.vc[me]; else c->ar[me]=t.vc[me]; return; }
  if(w){ if(c->w[me]!=t.vc[me]) { c->wm[me]=0; } c->w[me]=t.vc[me]; c->wm[me]|=m; c->wpc[me]=pc; } else { if(c->r[me]!=t.vc[me]) c->rm[me]=0; c->r[me]=t.vc[me]; c->rm[me]|=m; c->rpc[me]=pc; } }
static inline void acc(const void* p,size_t n,bool w,const void* pc){ if(!active||me<0||off||nested||n==0) return; S_.accesses++; uintptr_t a=(uintptr_t)p,e=a+n; while(a<e){ uintptr_t g=a>>3; unsigned lo=a&7,hi=(e>>3)==g?(unsigned)(e&7):8; access1(g,(uint8_t)(((1u<<hi)-1)&~((1u<<lo)-1)),w,false,pc); a=(g+1)<<3; } }
static void fresh(void* p,size_t n){ if(!active||me<0||!p) return; uintptr_t a=(uintptr_t)p>>3,e=((uintptr_t)p+n+7)>>3; for(;a<e;a++){ size_t h=(a*0x9E3779B97F4A7C15ull)>>45; h&=NC-1; for(;;){ Cell* c=&tab[h]; if(c->gen!=gen) break; if(c->key==a){ uintptr_t k=c->key; memset(c,0,sizeof *c); c->gen=gen; c->key=k; break; } h=(h+1)&(NC-1); } } }
static void atomicOp(const void* p,size_t n,bool w,int order,const void* pc){ if(!ctl()||off) return; point(true); uintptr_t a=(uintptr_t)p; access1(a>>3,0xff,w,true,pc); if(order!=0){ for(int i=0;i<nlocks;i++) if(locks[i].key==a) join(th[me].vc,locks[i].vc); Lock* l=lockOf(a|1ull<<63); bool rel=w&&order>=3,ac=order==1||order==2||order>=4; if(ac) join(th[me].vc,l->vc); if(rel){ join(l->vc,th[me].vc); th[me].vc[me]++; } } }
static const char *lo_,*hi_; extern "C" char __executable_start, etext;
static bool ours(const void* ra){ return (const char*)ra>=&__executable_start&&(const char*)ra<&etext; }
}
using namespace thr;
#define PC __builtin_return_address(0)
extern "C" {
void __tsan_init(){} void __tsan_func_entry(void*){} void __tsan_func_exit(){} void __tsan_vptr_update(void** p,void* v){ acc(p,8,*p!=v,PC); } void __tsan_vptr_read(void** p){ acc(p,8,false,PC); }
#define RW(n) void __tsan_read##n(void* p){ acc(p,n,false,PC); } void __tsan_write##n(void* p){ acc(p,n,true,PC); } void __tsan_unaligned_read##n(void* p){ acc(p,n,false,PC); } void __tsan_unaligned_write##n(void* p){ acc(p,n,true,PC); } void __tsan_volatile_read##n(void* p){ acc(p,n,false,PC); } void __tsan_volatile_write##n(void* p){ acc(p,n,true,PC); } void __tsan_read##n##_pc(void* p,void* pc){ acc(p,n,false,pc); } void __tsan_write##n##_pc(void* p,void* pc){ acc(p,n,true,pc); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p,size_t n){ acc(p,n,false,PC); } void __tsan_write_range(void* p,size_t n){ acc(p,n,true,PC); }
#define AT(B,ty) ty __tsan_atomic##B##_load(const volatile ty* a,int o){ atomicOp((void*)a,B/8,false,o,PC); return *a; } void __tsan_atomic##B##_store(volatile ty* a,ty v,int o){ atomicOp((void*)a,B/8,true,o,PC); *a=v; } \
 ty __tsan_atomic##B##_exchange(volatile ty* a,ty v,int o){ atomicOp((void*)a,B/8,true,o,PC); return __atomic_exchange_n(a,v,5); } ty __tsan_atomic##B##_fetch_add(volatile ty* a,ty v,int o){ atomicOp((void*)a,B/8,true,o,PC); return __atomic_fetch_add(a,v,5); } ty __tsan_atomic##B##_fetch_sub(volatile ty* a,ty v,int o){ atomicOp((void*)a,B/8,true,o,PC); return __atomic_fetch_sub(a,v,5); } \
 ty __tsan_atomic##B##_fetch_and(volatile ty* a,ty v,int o){ atomicOp((void*)a,B/8,true,o,PC); return __atomic_fetch_and(a,v,5); } ty __tsan_atomic##B##_fetch_or(volatile ty* a,ty v,int o){ atomicOp((void*)a,B/8,true,o,PC); return __atomic_fetch_or(a,v,5); } ty __tsan_atomic##B##_fetch_xor(volatile ty* a,ty v,int o){ atomicOp((void*)a,B/8,true,o,PC); return __atomic_fetch_xor(a,v,5); } ty __tsan_atomic##B##_fetch_nand(volatile ty* a,ty v,int o){ atomicOp((void*)a,B/8,true,o,PC); return __atomic_fetch_nand(a,v,5); } \
 int __tsan_atomic##B##_compare_exchange_strong(volatile ty* a,ty* c,ty v,int o,int f){ (void)f; atomicOp((void*)a,B/8,true,o,PC); return __atomic_compare_exchange_n(a,c,v,0,5,5); } int __tsan_atomic##B##_compare_exchange_weak(volatile ty* a,ty* c,ty v,int o,int f){ (void)f; atomicOp((void*)a,B/8,true,o,PC); return __atomic_compare_exchange_n(a,c,v,0,5,5); } ty __tsan_atomic##B##_compare_exchange_val(volatile ty* a,ty c,ty v,int o,int f){ (void)f; atomicOp((void*)a,B/8,true,o,PC); __atomic_compare_exchange_n(a,&c,v,0,5,5); return c; }
AT(8,uint8_t) AT(16,uint16_t) AT(32,uint32_t) AT(64,uint64_t)
void __tsan_atomic_thread_fence(int){ if(ctl()&&!off) point(true); } void __tsan_atomic_signal_fence(int){}
// ---- libgomp
void GOMP_parallel(void (*fn)(void*),void* d,unsigned n,unsigned){ run(fn,d,n,0); }
void GOMP_barrier(){ if(ctl()) barrier(); }
void GOMP_critical_start(){ if(ctl()) acquire(1); } void GOMP_critical_end(){ if(ctl()) release(1); }
void GOMP_critical_name_start(void** p){ if(ctl()) acquire((uintptr_t)p); } void GOMP_critical_name_end(void** p){ if(ctl()) release((uintptr_t)p); }
void GOMP_atomic_start(){ if(ctl()) acquire(2); } void GOMP_atomic_end(){ if(ctl()) release(2); }
static void setLoop(Loop& l,long s,long e,long i,long c){ l.next=s; l.end=e; l.incr=i; l.chunk=c<1?1:c; l.up=i>0; }
static bool nextChunk(long* s,long* e){ if(ctl()) point(true); Loop& l=loop; if(l.up? l.next>=l.end: l.next<=l.end) return false; *s=l.next; long t=l.next+l.chunk*l.incr; if(l.up? t>l.end: t<l.end) t=l.end; *e=t; l.next=t; return true; }
static bool startLoop(long s,long e,long i,long c,long* a,long* b){ if(ctl()){ if(++th[me].loop>loop.seq){ loop.seq=th[me].loop; setLoop(loop,s,e,i,c); } } else setLoop(loop,s,e,i,c); return nextChunk(a,b); }
#define LP(K) bool GOMP_loop_##K##_start(long s,long e,long i,long c,long* a,long* b){ return startLoop(s,e,i,c,a,b); } bool GOMP_loop_##K##_next(long* a,long* b){ return nextChunk(a,b); } void GOMP_parallel_loop_##K(void (*fn)(void*),void* d,unsigned n,long s,long e,long i,long c,unsigned){ Loop l; memset(&l,0,sizeof l); setLoop(l,s,e,i,c); run(fn,d,n,&l); }
LP(static) LP(dynamic) LP(guided) LP(nonmonotonic_dynamic) LP(nonmonotonic_guided)
#define LR(K) bool GOMP_loop_##K##_start(long s,long e,long i,long* a,long* b){ return startLoop(s,e,i,1,a,b); } bool GOMP_loop_##K##_next(long* a,long* b){ return nextChunk(a,b); } void GOMP_parallel_loop_##K(void (*fn)(void*),void* d,unsigned n,long s,long e,long i,unsigned){ Loop l; memset(&l,0,sizeof l); setLoop(l,s,e,i,1); run(fn,d,n,&l); }
LR(runtime) LR(nonmonotonic_runtime) LR(maybe_nonmonotonic_runtime)
typedef unsigned long long ull;
#define LU(K) bool GOMP_loop_ull_##K##_start(bool,ull s,ull e,ull i,ull c,ull* a,ull* b){ return startLoop((long)s,(long)e,(long)i,(long)c,(long*)a,(long*)b); } bool GOMP_loop_ull_##K##_next(ull* a,ull* b){ return nextChunk((long*)a,(long*)b); }
LU(static) LU(dynamic) LU(guided) LU(nonmonotonic_dynamic) LU(nonmonotonic_guided)
void GOMP_loop_end(){ if(ctl()) barrier(); } void GOMP_loop_end_nowait(){} bool GOMP_loop_end_cancel(){ if(ctl()) barrier(); return false; }
bool GOMP_single_start(){ if(!ctl()) return true; if(++th[me].single>singleSeq){ singleSeq=th[me].single; return true; } return false; }
void omp_set_num_threads(int n){ nthreads=n<1?1:n; } int omp_get_num_threads(){ return ctl()?team:1; } int omp_get_thread_num(){ return ctl()?me:0; } int omp_get_max_threads(){ return nthreads; } int omp_in_parallel(){ return ctl()&&team>1; } int omp_get_num_procs(){ return 4; } double omp_get_wtime(){ return 0; } void omp_set_dynamic(int){} int omp_get_dynamic(){ return 0; } void omp_set_nested(int){} int omp_get_thread_limit(){ return T; } int omp_get_level(){ return ctl()?1:0; }
void omp_init_lock(void** l){ *l=0; } void omp_destroy_lock(void**){} void omp_set_lock(void** l){ if(ctl()) acquire((uintptr_t)l); } void omp_unset_lock(void** l){ if(ctl()) release((uintptr_t)l); } int omp_test_lock(void** l){ if(!ctl()) return 1; point(true); if(lockOf((uintptr_t)l)->owner>=0) return 0; lockOf((uintptr_t)l)->owner=me; join(th[me].vc,lockOf((uintptr_t)l)->vc); return 1; }
// ---- std::mutex of the program (not those inside libraries)
typedef int (*MF)(pthread_mutex_t*);
int pthread_mutex_lock(pthread_mutex_t* m) noexcept { static MF f; if(!f) f=(MF)dlsym(RTLD_NEXT,"pthread_mutex_lock"); if(ctl()&&!off&&ours(PC)){ acquire((uintptr_t)m); return 0; } return f(m); }
int pthread_mutex_unlock(pthread_mutex_t* m) noexcept { static MF f; if(!f) f=(MF)dlsym(RTLD_NEXT,"pthread_mutex_unlock"); if(ctl()&&!off&&ours(PC)){ release((uintptr_t)m); return 0; } return f(m); }
int pthread_mutex_trylock(pthread_mutex_t* m) noexcept { static MF f; if(!f) f=(MF)dlsym(RTLD_NEXT,"pthread_mutex_trylock"); if(ctl()&&!off&&ours(PC)){ point(true); Lock* l=lockOf((uintptr_t)m); if(l->owner>=0) return 16; l->owner=me; join(th[me].vc,l->vc); return 0; } return f(m); }
// local statics
typedef int (*GA)(char*); typedef void (*GR)(char*);
int __cxa_guard_acquire(char* g){ static GA f; if(!f) f=(GA)dlsym(RTLD_NEXT,"__cxa_guard_acquire"); if(ctl()&&!off){ if(*g){ join(th[me].vc,lockOf((uintptr_t)g)->vc); return 0; } acquire((uintptr_t)g); if(*g){ release((uintptr_t)g); return 0; } return 1; } return f(g); }
void __cxa_guard_release(char* g){ static GR f; if(!f) f=(GR)dlsym(RTLD_NEXT,"__cxa_guard_release"); if(ctl()&&!off){ *g=1; release((uintptr_t)g); return; } f(g); }
void __cxa_guard_abort(char* g){ static GR f; if(!f) f=(GR)dlsym(RTLD_NEXT,"__cxa_guard_abort"); if(ctl()&&!off){ release((uintptr_t)g); return; } f(g); }
void* __real_memcpy(void*,const void*,size_t); void* __real_memmove(void*,const void*,size_t); void* __real_memset(void*,int,size_t);
void* __wrap_memcpy(void* d,const void* s,size_t n){ acc(s,n,false,PC); acc(d,n,true,PC); return __real_memcpy(d,s,n); }
void* __wrap_memmove(void* d,const void* s,size_t n){ acc(s,n,false,PC); acc(d,n,true,PC); return __real_memmove(d,s,n); }
void* __wrap_memset(void* d,int c,size_t n){ acc(d,n,true,PC); return __real_memset(d,c,n); }
}
static void* get(size_t n){ void* p=malloc(n?n:1); if(!p) throw std::bad_alloc(); fresh(p,n); return p; }
void* operator new(size_t n){ return get(n); } void* operator new[](size_t n){ return get(n); }
void* operator new(size_t n,const std::nothrow_t&) noexcept { void* p=malloc(n?n:1); fresh(p,n); return p; } void* operator new[](size_t n,const std::nothrow_t&) noexcept { void* p=malloc(n?n:1); fresh(p,n); return p; }
void operator delete(void* p) noexcept { free(p); } void operator delete[](void* p) noexcept { free(p); } void operator delete(void* p,size_t) noexcept { free(p); } void operator delete[](void* p,size_t) noexcept { free(p); }
