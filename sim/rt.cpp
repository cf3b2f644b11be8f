#include "rt.h"
#include <cerrno>
#include <cmath>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <new>
#include <map>
#include <deque>
#include <unordered_map>
#include <vector>
#include <string>
#include <algorithm>
#include <exception>
#include <iostream>
#include <dlfcn.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/resource.h>
#include <time.h>
#include <unistd.h>

extern "C" { extern char __data_start[]; extern char _end[]; extern char __executable_start[]; }

namespace sim {

const char* const fault_names[F_N] = {
 "alloc_fail","thread_create_fail","open_fail","read_eio","read_short","read_eintr",
 "disk_full","write_eio","write_short","write_eintr","close_eio","stdout_fail",
 "device_enum_error","queue_create_error","device_alloc_error","submit_error",
 "host_map_error","device_async_error","spurious_wakeup","rename_fail"};
const char* const probe_names[P_N] = {
 "threads_created","blocked_on_mutex","granule_shared_by_threads","overlapping_calls","kernels_run",
 "work_items_run","command_overtook_earlier_one","no_init_contents_discarded","allocations_in_call","worker_stalled",
 "reads","writes","chunked_calls","recompute_calls","tight_capacity_calls","cpu_fallback_calls","exceptions_seen",
 "retries_ok","invalid_points_refused","rows_vs_model","rows_structure_only","rows_vs_baseline","rows_k_limited","cli_exit_0","cli_exit_nonzero",
 "saves_complete","saves_reported_failed","big_calls"};
const char* const strategy_names[S_N] = {"serial","random","pct","stall","burst","sync","replay"};

// ------------------------------------------------------------------ raw calls
static inline long raw6(long n,long a=0,long b=0,long c=0,long d=0,long e=0,long f=0){
  register long r10 __asm__("r10")=d; register long r8 __asm__("r8")=e; register long r9 __asm__("r9")=f;
  long ret; __asm__ volatile("syscall":"=a"(ret):"a"(n),"D"(a),"S"(b),"d"(c),"r"(r10),"r"(r8),"r"(r9):"rcx","r11","memory");
  return ret;
}
static void fwait(uint32_t* p,uint32_t v){ raw6(SYS_futex,(long)p,FUTEX_WAIT|FUTEX_PRIVATE_FLAG,v); }
static void fwake(uint32_t* p){ raw6(SYS_futex,(long)p,FUTEX_WAKE|FUTEX_PRIVATE_FLAG,1); }

// ------------------------------------------------------------------- PRNG
struct Rng { uint64_t s;
  uint64_t next(){ s+=0x9e3779b97f4a7c15ull; uint64_t z=s; z=(z^(z>>30))*0xbf58476d1ce4e5b9ull; z=(z^(z>>27))*0x94d049bb133111ebull; return z^(z>>31);}
  uint64_t below(uint64_t n){ return n? next()%n:0; }
  double unit(){ return (next()>>11)*(1.0/9007199254740992.0);}
  uint64_t geo(double mean){ double v=-std::log(1.0-unit())*mean; if(v>1e12) v=1e12; return 1+(uint64_t)v; } };

// ------------------------------------------------------------------- state
static const int MAXT=640; static int next_tid=0;
struct VC { uint32_t c[MAXT+1]; VC(){ memset(c,0,sizeof c); }
  void join(const VC&o){ for(int i=0;i<next_tid;i++) if(o.c[i]>c[i]) c[i]=o.c[i]; } };
enum TState { T_RUN, T_BLOCK, T_QUIESCE, T_DONE, T_DEAD };
struct Group { size_t id=0,n=0,arrived=0; std::vector<void*> local; VC bvc; };
struct Th {
  int tid=0, state=T_RUN; uint32_t go=0; const void* key=nullptr; const char* why=""; bool timed=false; uint64_t wake=0; bool timedout=false;
  VC vc; pthread_t real=0; bool has_real=false; void*(*fn)(void*)=nullptr; void* arg=nullptr; void* ret=nullptr;
  void (*sfn)(void*)=nullptr; bool detached=false, joined=false; int stack=-1; int64_t prio=0; Group* grp=nullptr; const char* name="";
  int depth=0; bool fault_ok=false; bool is_cmd=false; int op=0;
};
static bool g_active=false, g_on=false;
static Config C; static Shared* S=nullptr;
static std::vector<Th*> ths; static Th* cur=nullptr; static std::vector<int> free_tids; static int g_live=0;
static uint64_t g_steps=0, g_next=~0ull, g_strat_next=~0ull, g_last=0, g_timeoff=0; static size_t g_rpos=0;
static const uint64_t FAIR=200000;
static Rng R_s, R_a; static uint64_t g_hash=0, g_sig=0, g_nsw=0;
static uint64_t fcnt[F_N], fmost[F_N]; static std::vector<uint64_t> pct_pts; static size_t pct_i=0; static int64_t pct_low=0; static int burst_left=0;
static int stall_victim=-1; static uint64_t stall_until=0;
static pthread_key_t g_key;

static int (*r_create)(pthread_t*,const pthread_attr_t*,void*(*)(void*),void*);
static int (*r_join)(pthread_t,void**); static int (*r_detach)(pthread_t);
static int (*r_mlock)(pthread_mutex_t*), (*r_munlock)(pthread_mutex_t*), (*r_mtry)(pthread_mutex_t*);
static int (*r_once)(pthread_once_t*,void(*)());
static FILE* (*r_fopen)(const char*,const char*); static int (*r_fclose)(FILE*);
template<class F> static void real(F& f,const char* n){ if(!f) f=(F)dlsym(RTLD_NEXT,n); }

static inline void upd(){ g_on = g_active && cur && cur->depth==0; }
bool active(){ return g_active; }
Scope::Scope(){ if(cur){ cur->depth++; upd(); } } Scope::~Scope(){ if(cur){ cur->depth--; upd(); } }
Code::Code(){ saved=0; if(cur){ saved=cur->depth; cur->depth=0; upd(); } } Code::~Code(){ if(cur){ cur->depth=saved; upd(); } }
void mix(uint64_t v){ g_hash=(g_hash^v)*1099511628211ull; g_hash^=g_hash>>29; }
void probe(Probe p,uint64_t n){ if(S) S->probes[p]+=n; }
uint64_t aux(){ return R_a.next(); }
uint64_t step_now(){ return g_steps; }
int cur_tid(){ return cur?cur->tid:-1; }
int live_threads(){ return g_live; }
void window(bool on){ if(cur) cur->fault_ok=on; }
uint64_t fired_total(){ uint64_t t=0; for(int i=0;i<F_N;i++) t+=S->fired[i]; return t; }
uint64_t fired(int k){ return S->fired[k]; }
int ngpu(){ return C.ngpu; }
void set_ngpu(int n){ C.ngpu=n; }
int max_wg(){ return C.max_wg; }

static void publish(){ S->hash=g_hash; S->sig=g_sig; S->steps=g_steps; S->switches=g_nsw; S->sim_ns=g_steps*100+g_timeoff; for(int i=0;i<F_N;i++) S->fcount[i]=std::max(fmost[i],fcnt[i]); }
static void die(){ raw6(SYS_exit_group,0); for(;;); }
void violation(const char* cls,const char* fmt,...){
  g_on=false; va_list ap; va_start(ap,fmt); vsnprintf(S->msg,sizeof S->msg,fmt,ap); va_end(ap);
  snprintf(S->cls,sizeof S->cls,"%s",cls); for(const char* p=cls;*p;p++) mix(*p); mix(g_steps); publish(); S->verdict=2; die(); __builtin_unreachable();
}
void inconclusive(const char* why){ g_on=false; snprintf(S->msg,sizeof S->msg,"%s",why); snprintf(S->cls,sizeof S->cls,"timeout"); publish(); S->verdict=3; die(); __builtin_unreachable(); }
void harness_error(const char* fmt,...){
  g_on=false; va_list ap; va_start(ap,fmt); vsnprintf(S->msg,sizeof S->msg,fmt,ap); va_end(ap);
  snprintf(S->cls,sizeof S->cls,"harness-error"); publish(); S->verdict=3; die(); __builtin_unreachable();
}
void finish_ok(){ g_on=false; publish(); S->verdict=1; die(); __builtin_unreachable(); }

// ------------------------------------------------------------------- memory
static char* const BASE=(char*)0x100000000000ull;
static const size_t HEAP=1024ull<<20, STK=256<<10, NSTK=660, REGION=HEAP+STK*NSTK;
struct Slot { uint32_t clk; uint16_t tid; uint8_t mask, fl; };
struct Cell { Slot s[4]; };
static Cell* shadow; static uint8_t* amask; static size_t g_bump=64;
static uintptr_t gl0,gl1; static Cell* gshadow;
static int64_t g_livebytes=0; static bool stk_used[NSTK], stk_dirty[NSTK];
struct Hdr { uint64_t magic, cap, pad, size, ord, live; };
static const uint64_t MAGIC=0x51ab0c4151ab0c41ull; static uint64_t g_nalloc=0;

static std::map<size_t,std::deque<char*>> g_freed;
static void set_addr(char* p,size_t n,bool on){ // p 8-aligned
  size_t c=(p-BASE)>>3, full=n>>3; memset(amask+c,on?0xff:0,full); if(n&7) amask[c+full]=on?(uint8_t)((1u<<(n&7))-1):0;
}
static void garbage(char* p,size_t n){
  switch(C.garbage){ case 0: memset(p,0,n); break; case 1: memset(p,0xff,n); break;
   case 2: { uint64_t x=R_a.next()|1; size_t i=0; for(;i+8<=n;i+=8){ x^=x<<13;x^=x>>7;x^=x<<17; memcpy(p+i,&x,8);} for(;i<n;i++)p[i]=(char)(x>>(8*(i&7))); break; }
   case 3: { uint32_t v=R_a.below(40); size_t i=0; for(;i+4<=n;i+=4){ memcpy(p+i,&v,4); v=(v*5+3)%41; } for(;i<n;i++)p[i]=1; break; }
   default: memset(p,0x01,n); } }
static void* arena_alloc(size_t n,size_t al){
  if(al<16) al=16;
  if(n>HEAP/2) return nullptr;
  size_t pos=(g_bump+sizeof(Hdr)+32+al-1)/al*al, end=pos+((n+7)&~7ull)+32; char* p=nullptr; Hdr* h;
  if(end>HEAP){ // freed blocks are recycled only once the arena is used up
    for(auto it=g_freed.lower_bound((n+7)&~7ull);it!=g_freed.end()&&!p;++it) for(size_t i=0;i<it->second.size();i++) if((uintptr_t)it->second[i]%al==0){ p=it->second[i]; it->second.erase(it->second.begin()+i); if(it->second.empty()) g_freed.erase(it); break; }
    if(!p) return nullptr; h=(Hdr*)(p-sizeof(Hdr)); memset((void*)(shadow+((p-BASE)>>3)),0,(h->cap>>3)*sizeof(Cell)); }
  else { g_bump=end; p=BASE+pos; h=(Hdr*)(p-sizeof(Hdr)); h->cap=(n+7)&~7ull; }
  h->magic=MAGIC; h->size=n; h->ord=++g_nalloc; h->live=1;
  set_addr(p,n,true); garbage(p,n); g_livebytes+=n; return p;
}
static inline bool in_arena(const void* p){ return (char*)p>=BASE&&(char*)p<BASE+HEAP; }
static void race_range(uintptr_t a,size_t n,uint8_t w,void* pc);
static void arena_free(void* v,void* pc){
  char* p=(char*)v; Hdr* h=(Hdr*)(p-sizeof(Hdr));
  if(h->magic!=MAGIC){ if(g_active&&C.mem_mode==1) violation("invalid-free","free of %p which is not the start of a block",v); return; }
  if(!h->live){ if(g_active&&C.mem_mode) violation("double-free","block of %lu bytes (allocation #%lu) freed twice",(unsigned long)h->size,(unsigned long)h->ord); return; }
  if(g_active&&cur) race_range((uintptr_t)p,h->size,true,pc);
  h->live=0; g_livebytes-=h->size; set_addr(p,(h->size+7)&~7ull,false); memset(p,0xDD,h->size); g_freed[h->cap].push_back(p);
}
int64_t live_bytes(){ return g_livebytes; }
void* alloc_tracked(size_t n){ void* p=arena_alloc(n,16); if(!p) inconclusive("the simulated memory is used up"); return p; }
void free_tracked(void* p){ arena_free(p,__builtin_return_address(0)); }

// ------------------------------------------------------------------ scheduling
static void record(uint64_t step,int tid){ if(S->nlog<LOG_CAP){ S->log[S->nlog].step=step; S->log[S->nlog].tid=tid; S->nlog++; } else S->log_overflow++; }
static inline uint64_t now_ns(){ return 1000000000ull+g_steps*100+g_timeoff; }

static void plan_next(){ // when the next pre-emption by strategy happens
  uint64_t n=~0ull;
  switch(C.strategy){
    case S_RANDOM: case S_STALL: n=g_steps+R_s.geo(C.quantum); break;
    case S_BURST: if(burst_left>0){ burst_left--; n=g_steps+R_s.geo(6); } else { burst_left=20+R_s.below(40); n=g_steps+R_s.geo(C.est_steps/10.0+1); } break;
    case S_PCT: while(pct_i<pct_pts.size()&&pct_pts[pct_i]<=g_steps) pct_i++; n=pct_i<pct_pts.size()?pct_pts[pct_i]:~0ull; break;
    case S_REPLAY: while(g_rpos<C.nreplay&&C.replay[g_rpos].step<=g_steps) g_rpos++; n=g_rpos<C.nreplay?C.replay[g_rpos].step:~0ull; break;
    default: break;
  }
  if(C.strategy!=S_REPLAY&&g_nsw>=C.max_switches) n=~0ull;
  g_strat_next=n; g_next=std::min(std::min(n,g_last+FAIR),C.step_cap);
}
enum Why { W_PRE, W_BLOCK, W_YIELD, W_FAIR, W_SYNC };
static std::string waiters(){ Scope sc; std::string s; char b[200]; for(Th* t:ths) if(t->state!=T_DONE&&t->state!=T_DEAD){ snprintf(b,sizeof b," [t%d %s %s%s]",t->tid,t->name,t->state==T_RUN?"runnable":t->why,t->timed?" timed":""); s+=b; if(s.size()>1500) break; } return s; }
static Th* pick(Why why){
  // expire sleepers
  for(;;){
    Th* run=nullptr; Th* first=nullptr; Th* q=nullptr; uint64_t best=~0ull; static std::vector<Th*> rs; rs.clear();
    for(Th* t:ths){ if(t->state==T_BLOCK&&t->timed&&t->wake<=now_ns()){ t->state=T_RUN; t->timed=false; t->timedout=true; t->key=nullptr; }
      if(t->state==T_RUN) rs.push_back(t); else if(t->state==T_QUIESCE){ if(!q) q=t; } else if(t->state==T_BLOCK&&t->timed) best=std::min(best,t->wake); }
    if(rs.empty()){ if(best!=~0ull){ g_timeoff+=best-now_ns(); continue; } if(q){ q->state=T_RUN; return q; } violation("deadlock","no thread can run:%s",waiters().c_str()); }
    // default choice: next runnable thread in cyclic tid order
    if((why==W_PRE||why==W_SYNC)&&cur->state==T_RUN) run=cur;
    else { for(Th* t:rs){ if(!first||t->tid<first->tid) first=t; if(t!=cur&&t->tid>cur->tid&&(!run||t->tid<run->tid)) run=t; } if(!run) run=first; }
    Th* def=run; Th* ch=def;
    bool lim=g_nsw>=C.max_switches;
    if(C.strategy==S_REPLAY){ size_t r=g_rpos; while(r<C.nreplay&&C.replay[r].step<g_steps) r++; if(r<C.nreplay&&C.replay[r].step==g_steps) for(Th* t:rs) if(t->tid==C.replay[r].tid) ch=t; }
    else if(!lim) switch(C.strategy){
      case S_RANDOM: case S_BURST: case S_SYNC: if(why==W_PRE){ if(rs.size()>1){ size_t i=R_s.below(rs.size()); if(rs[i]==cur) i=(i+1)%rs.size(); ch=rs[i]; } } else ch=rs[R_s.below(rs.size())]; break;
      case S_STALL: {
        if(g_steps>=stall_until){ stall_victim=R_s.below(4)?(int)R_s.below(next_tid):-1; stall_until=g_steps+R_s.geo(C.est_steps/3.0+1); }
        static std::vector<Th*> ok; ok.clear(); for(Th* t:rs) if(t->tid!=stall_victim) ok.push_back(t); if(ok.size()<rs.size()&&!ok.empty()) probe(P_STALLED);
        auto& v=ok.empty()?rs:ok; if(why==W_PRE){ if(cur->tid==stall_victim||R_s.below(2)) ch=v[R_s.below(v.size())]; } else ch=v[R_s.below(v.size())]; break; }
      case S_PCT: { if(why==W_PRE||why==W_YIELD||why==W_FAIR) cur->prio=--pct_low; ch=rs[0]; for(Th* t:rs) if(t->prio>ch->prio) ch=t; break; }
      default: break; }
    if(ch!=def&&C.strategy!=S_REPLAY) record(g_steps,ch->tid);
    return ch;
  }
}
static void hand(Th* to){ // make 'to' the running thread; the caller waits or exits
  if(to!=cur){ g_nsw++; g_last=g_steps; g_sig=(g_sig^(g_steps*1000003ull+to->tid))*1099511628211ull; g_sig^=g_sig>>31; mix(g_steps*257+to->tid); }
  cur=to; upd(); plan_next();
}
static void swap_to(Th* to){
  if(to==cur){ plan_next(); return; }
  Th* self=cur; hand(to);
  __atomic_store_n(&to->go,1u,__ATOMIC_RELEASE); fwake(&to->go);
  while(!__atomic_load_n(&self->go,__ATOMIC_ACQUIRE)) fwait(&self->go,0);
  __atomic_store_n(&self->go,0u,__ATOMIC_RELAXED);
}
static void __attribute__((noinline)) preempt(){
  if(g_steps>=C.step_cap) violation("no-progress","still running after %lu steps:%s",(unsigned long)g_steps,waiters().c_str());
  Why w=W_PRE; if(g_steps-g_last>=FAIR){ w=W_FAIR; }
  Th* t=pick(w); if(w==W_FAIR) g_last=g_steps;
  swap_to(t);
}
static inline void tick(){ if(++g_steps>=g_next) preempt(); }
static void sync_point(){ if(!g_active||!cur) return;
  if(++g_steps>=g_next) preempt(); else if(C.strategy==S_SYNC&&g_nsw<C.max_switches&&cur->depth==0&&R_s.below(2)){ Th* t=pick(W_PRE); swap_to(t); }
  else if(C.strategy==S_PCT&&g_nsw<C.max_switches){ Th* t=pick(W_SYNC); if(t!=cur) swap_to(t); } }
static bool block(const void* key,const char* why,bool timed=false,uint64_t wake=0){ // true: woken, false: timed out
  ++g_steps; cur->state=T_BLOCK; cur->key=key; cur->why=why; cur->timed=timed; cur->wake=wake; cur->timedout=false;
  Th* self=cur; Th* t=pick(W_BLOCK); swap_to(t); return !self->timedout;
}
static void wake1(Th* t){ t->state=T_RUN; t->key=nullptr; t->timed=false; t->timedout=false; }
static int wake_key(const void* key,int n,bool random=false){ int k=0; static std::vector<Th*> w; w.clear(); for(Th* t:ths) if(t->state==T_BLOCK&&t->key==key) w.push_back(t);
  while(n>0&&!w.empty()){ size_t i=random?R_a.below(w.size()):0; wake1(w[i]); w.erase(w.begin()+i); n--; k++; } return k; }
static void do_yield(){ ++g_steps; Th* t=pick(W_YIELD); swap_to(t); }
void yield_point(){ if(g_active&&cur) do_yield(); }
void quiesce(){ ++g_steps; cur->state=T_QUIESCE; cur->why="quiesce"; Th* t=pick(W_BLOCK); swap_to(t); }
void end_thread_forever(){ ++g_steps; cur->state=T_DEAD; cur->why="exited"; g_live--; Th* t=pick(W_BLOCK); swap_to(t); harness_error("a parked thread was resumed"); }

// ------------------------------------------------------------------- threads
static Th* new_th(const VC* base){
  int tid; if(next_tid<=MAXT) tid=next_tid++; else { if(free_tids.empty()) inconclusive("more threads than the simulator has"); tid=free_tids.front(); free_tids.erase(free_tids.begin()); }
  Th* t=nullptr; for(Th*& x:ths) if(x->tid==tid){ Th* old=x; t=new Th; t->vc.c[tid]=old->vc.c[tid]; x=t; }
  if(!t){ t=new Th; ths.push_back(t); }
  t->tid=tid; uint32_t own=t->vc.c[tid]; if(base) t->vc=*base; t->vc.c[tid]=std::max(own,t->vc.c[tid])+1;
  t->prio=1000000+(int64_t)(C.strategy==S_PCT?R_s.below(1000000):0); return t;
}
static int stack_get(){ for(size_t i=0;i<NSTK;i++) if(!stk_used[i]){ stk_used[i]=true; if(stk_dirty[i]){ char* a=(char*)(shadow+((HEAP+i*STK)>>3)); madvise(a,STK*4,MADV_DONTNEED); } stk_dirty[i]=true; return i; } return -1; }
static void thread_finish(void* p){ // pthread key destructor: after thread_local destructors
  Th* t=(Th*)p; if(!g_active||cur!=t) return;
  t->depth=1; upd(); ++g_steps; t->state=T_DONE; t->vc.c[t->tid]++; g_live--; wake_key(t,1<<20); mix(0x77+t->tid);
  Th* n=pick(W_BLOCK); hand(n);
  __atomic_store_n(&n->go,1u,__ATOMIC_RELEASE); fwake(&n->go);
}
static void* tramp(void* p){
  Th* t=(Th*)p; while(!__atomic_load_n(&t->go,__ATOMIC_ACQUIRE)) fwait(&t->go,0); __atomic_store_n(&t->go,0u,__ATOMIC_RELAXED);
  pthread_setspecific(g_key,t);
  if(t->sfn) t->sfn(t->arg); else t->ret=t->fn(t->arg);
  return t->ret;
}
static Th* start_th(void*(*fn)(void*),void (*sfn)(void*),void* arg,const char* name,int depth,const VC* base){
  Th* t=new_th(base); if(!t) return nullptr; int st=stack_get(); if(st<0) harness_error("out of stacks");
  t->fn=fn; t->sfn=sfn; t->arg=arg; t->name=name; t->depth=depth; t->stack=st; t->fault_ok=cur->fault_ok; t->grp=cur->grp; t->op=cur->op;
  pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstack(&at,BASE+HEAP+st*STK,STK);
  int rc=r_create(&t->real,&at,tramp,t); pthread_attr_destroy(&at); if(rc) harness_error("real pthread_create failed: %d",rc);
  t->has_real=true; g_live++; S->nthreads++; if((uint64_t)g_live>S->peak_threads) S->peak_threads=g_live; mix(0x55+t->tid); return t;
}
static void reap(Th* t,bool hb){ // t is done: release its real thread
  if(hb) cur->vc.join(t->vc);
  if(!t->joined){ t->joined=true; r_join(t->real,nullptr); stk_used[t->stack]=false; free_tids.push_back(t->tid); }
}
static void join_th(Th* t,bool hb,const char* why){ while(t->state!=T_DONE) block(t,why); reap(t,hb); }
Th* spawn(void (*fn)(void*),void* arg,const char* name){ cur->vc.c[cur->tid]++; Th* t=start_th(nullptr,fn,arg,name,1,&cur->vc); if(!t) harness_error("too many threads"); return t; }
void join(Th* t){ join_th(t,true,"join"); }

void init(){
  real(r_create,"pthread_create"); real(r_join,"pthread_join"); real(r_detach,"pthread_detach"); real(r_mlock,"pthread_mutex_lock"); real(r_munlock,"pthread_mutex_unlock");
  real(r_mtry,"pthread_mutex_trylock"); real(r_once,"pthread_once"); real(r_fopen,"fopen"); real(r_fclose,"fclose");
  auto map=[&](void* at,size_t n){ void* p=mmap(at,n,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED_NOREPLACE,-1,0); if(p!=at){ fprintf(stderr,"mmap at %p failed\n",at); exit(3);} madvise(p,n,MADV_NOHUGEPAGE); return p; };
  map(BASE,REGION); shadow=(Cell*)map((void*)0x200000000000ull,REGION/8*sizeof(Cell)); amask=(uint8_t*)map((void*)0x300000000000ull,HEAP/8);
  gl0=(uintptr_t)__data_start&~7ull; gl1=(uintptr_t)_end; gshadow=(Cell*)map((void*)0x400000000000ull,((gl1-gl0)/8+2)*sizeof(Cell)+4096);
  pthread_key_create(&g_key,thread_finish);
}
void start(const Config& c,Shared* s){
  C=c; S=s; R_s.s=c.sched_seed*0x9e3779b97f4a7c15ull+1; R_a.s=c.aux_seed*0xd1342543de82ef95ull+7; g_hash=c.aux_seed;
  if(C.strategy==S_PCT){ for(int i=0;i<C.pct_depth;i++) pct_pts.push_back(R_s.below(C.est_steps*3/2+1)+1); std::sort(pct_pts.begin(),pct_pts.end()); }
  cpu_set_t set; CPU_ZERO(&set); int cpu=sched_getcpu(); if(cpu>=0){ CPU_SET(cpu,&set); sched_setaffinity(0,sizeof set,&set); }
  Th* t=new_th(nullptr); t->name="root"; t->depth=1; cur=t; g_live=1; g_active=true; upd(); plan_next();
}
void stop(){ g_active=false; g_on=false; }

// ------------------------------------------------------------- race detection
static std::string describe(uintptr_t a){ Scope sc; char b[200];
  if(in_arena((void*)a)){ for(uintptr_t p=a&~15ull; p>(uintptr_t)BASE&&a-p<(4u<<20);p-=8){ if(*(uint64_t*)p==MAGIC){ Hdr* h=(Hdr*)p; if(h->magic==MAGIC&&h->live<2){ int64_t off=a-(p+sizeof(Hdr)); snprintf(b,sizeof b,"offset %ld of a %s block of %lu bytes (allocation #%lu)",(long)off,h->live?"live":"freed",(unsigned long)h->size,(unsigned long)h->ord); return b; } } } return "heap address outside any block"; }
  if(a>=(uintptr_t)BASE+HEAP&&a<(uintptr_t)BASE+REGION){ int st=(a-(uintptr_t)BASE-HEAP)/STK; int tid=-1; for(Th* t:ths) if(t->stack==st) tid=t->tid; snprintf(b,sizeof b,"stack of thread t%d",tid); return b; }
  snprintf(b,sizeof b,"global at exe+0x%lx",(unsigned long)(a-(uintptr_t)__executable_start)); return b; }
static void __attribute__((noinline)) oob(uintptr_t a,size_t n,bool w,void* pc){
  if(!C.mem_mode) return;
  if(C.mem_mode==2&&describe(a).find("freed")==std::string::npos) return;
  violation("bad-memory-access","%s of %zu bytes at %s by t%d %s pc=exe+0x%lx",w?"write":"read",n,describe(a).c_str(),cur->tid,cur->name,(unsigned long)((uintptr_t)pc-(uintptr_t)__executable_start));
}
static void __attribute__((noinline)) race(uintptr_t a,size_t n,bool w,const Slot& o,uint8_t fl,void* pc){
  if(C.race_mode==2||C.race_mode==3){ Th* t=nullptr; for(Th* x:ths) if(x->tid==o.tid) t=x; if(!t) return; if(C.race_mode==2){ if(t->op==cur->op) return; } else if(strncmp(t->name,"work item",9)||strncmp(cur->name,"work item",9)) return; }
  if(C.race_mode==4&&!((o.fl|fl)&4)) return;
  violation("data-race","%s of %zu bytes by t%d %s races with an unordered %s by t%d; %s; pc=exe+0x%lx",w?"write":"read",n,cur->tid,cur->name,(o.fl&1)?"write":"read",o.tid,describe(a).c_str(),(unsigned long)((uintptr_t)pc-(uintptr_t)__executable_start));
}
static inline bool stdio_obj(uintptr_t a){
  auto in=[&](const void* p,size_t n){ return a-(uintptr_t)p<n; };
  return in(&std::cout,sizeof std::cout)||in(&std::cerr,sizeof std::cerr)||in(&std::clog,sizeof std::clog)||in(&std::cin,sizeof std::cin)||in(&std::wcout,sizeof std::wcout)||in(&std::wcerr,sizeof std::wcerr);
}
static inline void cell(Cell* c,uint8_t mask,uint8_t fl,uintptr_t a,size_t n,void* pc){
  uint16_t tid=cur->tid; uint32_t clk=cur->vc.c[tid]; Slot* put=nullptr; bool have=false;
  for(int i=0;i<4;i++){ Slot& s=c->s[i];
    if(!s.mask){ if(!put) put=&s; continue; }
    if(s.tid==tid){ if(s.mask==mask&&((s.fl&1)<=(fl&1))&&(s.fl&6)==(fl&6)) { put=&s; have=true; } continue; }
    if((s.mask&mask)&&((s.fl|fl)&1)&&!((s.fl&fl)&2)&&s.clk>cur->vc.c[s.tid]) race(a,n,fl&1,s,fl,pc);
  }
  (void)have;
  if(!put){ // keep writes and other threads' entries as long as possible
    put=&c->s[g_steps&3]; S->probes[P_RACY_GRANULE]++; }
  put->clk=clk; put->tid=tid; put->mask=mask; put->fl=fl;
}
static inline void check(uintptr_t a,size_t n,uint8_t fl,void* pc){
  Cell* base; uintptr_t org; size_t off=a-(uintptr_t)BASE;
  if(off<REGION){
    if(off<HEAP){ size_t i=off>>3; unsigned o=off&7; if(o+n<=8){ uint8_t m=(uint8_t)(((1u<<n)-1)<<o); if((amask[i]&m)!=m) oob(a,n,fl&1,pc); }
      else { for(size_t k=0;k<n;k++){ size_t q=off+k; if(q>=HEAP||!(amask[q>>3]>>(q&7)&1)) oob(a,n,fl&1,pc); } } }
    base=shadow; org=(uintptr_t)BASE;
  } else if(a>=gl0&&a<gl1){ if(stdio_obj(a)) return; base=gshadow; org=gl0; }
  else return;
  if(!C.race_mode) return;
  uintptr_t p=a-org; size_t left=n;
  while(left){ unsigned o=p&7; size_t k=std::min<size_t>(8-o,left); cell(base+(p>>3),(uint8_t)(((1u<<k)-1)<<o),fl,a,n,pc); p+=k; left-=k; }
}
static void race_range(uintptr_t a,size_t n,uint8_t w,void* pc){ if(!n||!C.race_mode) return; size_t off=a-(uintptr_t)BASE; if(off>=REGION) return; uintptr_t p=off; size_t left=n;
  while(left){ unsigned o=p&7; size_t k=std::min<size_t>(8-o,left); cell(shadow+(p>>3),(uint8_t)(((1u<<k)-1)<<o),w,a+(n-left),k,pc); p+=k; left-=k; } }
static void access_range(uintptr_t a,size_t n,bool w,void* pc){ // memcpy and friends
  if(!n||!g_on) return; tick(); size_t i=0;
  while(i<n){ size_t k=std::min<size_t>(8-((a+i)&7),n-i); check(a+i,k,w,pc); i+=k; }
}
void touch_write(void* p,size_t n){ if(!g_active||!cur) return; race_range((uintptr_t)p,n,5,__builtin_return_address(0)); }

static std::unordered_map<uintptr_t,VC> syncs; static VC fence_vc;
static void acquire(const void* k){ auto it=syncs.find((uintptr_t)k); if(it!=syncs.end()) cur->vc.join(it->second); }
static void release(const void* k,bool merge=true){ VC& v=syncs[(uintptr_t)k]; if(merge) v.join(cur->vc); else v=cur->vc; cur->vc.c[cur->tid]++; }

// ------------------------------------------------------------------- faults
static bool g_faults=true; static uint32_t fired_ops[1024];
void set_op(int op){ if(cur) cur->op=op; }
uint32_t op_fired(int op){ return fired_ops[op&1023]; }
void rearm(bool on){ g_faults=on; for(int i=0;i<F_N;i++){ fmost[i]=std::max(fmost[i],fcnt[i]); fcnt[i]=0; } }
bool fault(int kind,int64_t* arg){
  if(!g_active||!cur||!cur->fault_ok||!g_faults) return false;
  uint64_t n=++fcnt[kind];
  for(size_t i=0;i<C.nfaults;i++) if(C.faults[i].kind==kind&&C.faults[i].ord==n){ if(arg)*arg=C.faults[i].arg; S->fired[kind]++; fired_ops[cur->op&1023]++; mix(0x1000+kind); return true; }
  return false;
}
static const FaultSpec* standing(int kind){ if(!g_faults) return nullptr; for(size_t i=0;i<C.nfaults;i++) if(C.faults[i].kind==kind) return &C.faults[i]; return nullptr; }

static void* do_alloc(size_t n,size_t al){
  sync_point(); if(cur->fault_ok) S->probes[P_ALLOC]++;
  if(fault(F_ALLOC)) return nullptr;
  void* got=arena_alloc(n,al); if(!got&&n<HEAP/4) inconclusive("the simulated memory is used up"); return got;
}

// -------------------------------------------------------------- mutex & friends
struct Mx { Th* owner=nullptr; int cnt=0; }; static std::unordered_map<uintptr_t,Mx> mxs;
static int mx_lock(void* m,bool recursive,bool tryl,bool timed,uint64_t until){
  sync_point(); Mx* x=&mxs[(uintptr_t)m];
  if(x->owner==cur){ if(recursive){ x->cnt++; return 0; } if(tryl) return EBUSY; if(timed){ block(m,"own mutex",true,until); return ETIMEDOUT; } violation("self-deadlock","thread t%d locks a mutex it already holds",cur->tid); }
  while(x->owner){ if(tryl) return EBUSY; probe(P_MUTEX_BLOCK); if(!block(m,"mutex",timed,until)) return ETIMEDOUT; x=&mxs[(uintptr_t)m]; }
  x->owner=cur; x->cnt=1; acquire(m); mix(0x31); return 0;
}
static int mx_unlock(void* m,bool pt=true){
  Mx& x=mxs[(uintptr_t)m]; if(x.owner!=cur) { if(!x.owner) return EPERM; violation("bad-unlock","thread t%d unlocks a mutex it does not hold",cur->tid); }
  if(--x.cnt) return 0; release(m); x.owner=nullptr; wake_key(m,1); if(pt) sync_point(); return 0;
}
struct Rw { Th* w=nullptr; int r=0; }; static std::unordered_map<uintptr_t,Rw> rws;
static int rw_lock(void* m,bool wr,bool tryl){ sync_point(); for(;;){ Rw& x=rws[(uintptr_t)m]; if(!x.w&&(!wr||!x.r)){ if(wr) x.w=cur; else x.r++; acquire(m); return 0; } if(tryl) return EBUSY; block(m,"rwlock"); } }
static int rw_unlock(void* m){ Rw& x=rws[(uintptr_t)m]; release(m); if(x.w==cur) x.w=nullptr; else if(x.r>0) x.r--; wake_key(m,1<<20); sync_point(); return 0; }
static inline bool handled(){ return g_on; }
static uint64_t ts_ns(const timespec* t){ uint64_t v=(uint64_t)t->tv_sec*1000000000ull+t->tv_nsec; return v>1600000000000000000ull?v-1700000000000000000ull:v; }
static bool mx_rec(pthread_mutex_t* m){ return (m->__data.__kind&3)==PTHREAD_MUTEX_RECURSIVE; }
static int cv_wait(pthread_cond_t* c,pthread_mutex_t* m,bool timed,uint64_t until){
  sync_point(); Mx& x=mxs[(uintptr_t)m]; if(x.owner!=cur) violation("bad-wait","condition wait without holding the mutex");
  int cnt=x.cnt; x.cnt=1; bool spurious=fault(F_SPURIOUS); mx_unlock(m,false); bool ok=true; // releasing and going to sleep is one step
  if(!spurious) ok=block(c,"condition variable",timed,until);
  acquire(c); mx_lock(m,mx_rec(m),false,false,0); mxs[(uintptr_t)m].cnt=cnt; return ok?0:ETIMEDOUT;
}
} // namespace sim
using namespace sim;

// ================================================================ interposition
extern "C" {
int pthread_create(pthread_t* out,const pthread_attr_t* at,void*(*fn)(void*),void* arg){
  real(r_create,"pthread_create"); if(!g_active||!cur||cur->depth) return r_create(out,at,fn,arg);
  sync_point(); if(fault(F_THREAD)) return EAGAIN;
  cur->vc.c[cur->tid]++; probe(P_THREADS); Th* t;
  { Scope s; t=start_th(fn,nullptr,arg,"worker",0,&cur->vc); }
  if(!t) return EAGAIN; *out=t->real; sync_point(); return 0;
}
static Th* find_th(pthread_t p){ Th* r=nullptr; for(Th* t:ths) if(t->has_real&&!t->joined&&pthread_equal(t->real,p)) r=t; return r; }
int pthread_join(pthread_t p,void** ret){
  real(r_join,"pthread_join"); if(!handled()) return r_join(p,ret);
  sync_point(); Th* t=find_th(p); if(!t) return ESRCH; if(t==cur) return EDEADLK; if(t->detached) return EINVAL;
  { Scope s; join_th(t,true,"join"); } if(ret) *ret=t->ret; mix(0x66+t->tid); return 0;
}
int pthread_detach(pthread_t p){ real(r_detach,"pthread_detach"); if(!handled()) return r_detach(p); Th* t=find_th(p); if(!t) return ESRCH; t->detached=true; sync_point(); return 0; }
int pthread_mutex_lock(pthread_mutex_t* m){ if(handled()) return mx_lock(m,mx_rec(m),false,false,0); real(r_mlock,"pthread_mutex_lock"); return r_mlock(m); }
int pthread_mutex_trylock(pthread_mutex_t* m){ if(handled()) return mx_lock(m,mx_rec(m),true,false,0); real(r_mtry,"pthread_mutex_trylock"); return r_mtry(m); }
int pthread_mutex_timedlock(pthread_mutex_t* m,const timespec* t){ if(handled()) return mx_lock(m,mx_rec(m),false,true,ts_ns(t)); static int(*f)(pthread_mutex_t*,const timespec*); real(f,"pthread_mutex_timedlock"); return f(m,t); }
int pthread_mutex_clocklock(pthread_mutex_t* m,clockid_t c,const timespec* t){ if(handled()) return mx_lock(m,mx_rec(m),false,true,ts_ns(t)); static int(*f)(pthread_mutex_t*,clockid_t,const timespec*); real(f,"pthread_mutex_clocklock"); return f(m,c,t); }
int pthread_mutex_unlock(pthread_mutex_t* m){ if(handled()) return mx_unlock(m); real(r_munlock,"pthread_mutex_unlock"); return r_munlock(m); }
int pthread_rwlock_rdlock(pthread_rwlock_t* m){ if(handled()) return rw_lock(m,false,false); static int(*f)(pthread_rwlock_t*); real(f,"pthread_rwlock_rdlock"); return f(m); }
int pthread_rwlock_wrlock(pthread_rwlock_t* m){ if(handled()) return rw_lock(m,true,false); static int(*f)(pthread_rwlock_t*); real(f,"pthread_rwlock_wrlock"); return f(m); }
int pthread_rwlock_tryrdlock(pthread_rwlock_t* m){ if(handled()) return rw_lock(m,false,true); static int(*f)(pthread_rwlock_t*); real(f,"pthread_rwlock_tryrdlock"); return f(m); }
int pthread_rwlock_trywrlock(pthread_rwlock_t* m){ if(handled()) return rw_lock(m,true,true); static int(*f)(pthread_rwlock_t*); real(f,"pthread_rwlock_trywrlock"); return f(m); }
int pthread_rwlock_unlock(pthread_rwlock_t* m){ if(handled()) return rw_unlock(m); static int(*f)(pthread_rwlock_t*); real(f,"pthread_rwlock_unlock"); return f(m); }
int pthread_cond_wait(pthread_cond_t* c,pthread_mutex_t* m){ if(handled()) return cv_wait(c,m,false,0); static int(*f)(pthread_cond_t*,pthread_mutex_t*); real(f,"pthread_cond_wait"); return f(c,m); }
int pthread_cond_timedwait(pthread_cond_t* c,pthread_mutex_t* m,const timespec* t){ if(handled()) return cv_wait(c,m,true,ts_ns(t)); static int(*f)(pthread_cond_t*,pthread_mutex_t*,const timespec*); real(f,"pthread_cond_timedwait"); return f(c,m,t); }
int pthread_cond_clockwait(pthread_cond_t* c,pthread_mutex_t* m,clockid_t k,const timespec* t){ if(handled()) return cv_wait(c,m,true,ts_ns(t)); static int(*f)(pthread_cond_t*,pthread_mutex_t*,clockid_t,const timespec*); real(f,"pthread_cond_clockwait"); return f(c,m,k,t); }
int pthread_cond_signal(pthread_cond_t* c){ if(handled()){ sync_point(); release(c); wake_key(c,1,true); return 0; } static int(*f)(pthread_cond_t*); real(f,"pthread_cond_signal"); return f(c); }
int pthread_cond_broadcast(pthread_cond_t* c){ if(handled()){ sync_point(); release(c); wake_key(c,1<<20); return 0; } static int(*f)(pthread_cond_t*); real(f,"pthread_cond_broadcast"); return f(c); }
static std::unordered_map<uintptr_t,int> onces;
int pthread_once(pthread_once_t* o,void(*fn)()){
  if(!handled()||*(volatile int*)o==2){ if(handled()) { sync_point(); acquire(o); } if(*(volatile int*)o==2&&onces.count((uintptr_t)o)) return 0; real(r_once,"pthread_once"); return r_once(o,fn); }
  sync_point(); for(;;){ int st=onces[(uintptr_t)o]; if(st==2){ acquire(o); return 0; } if(st==0) break; block(o,"once"); }
  onces[(uintptr_t)o]=1;
  try { fn(); } catch(...){ onces[(uintptr_t)o]=0; wake_key(o,1<<20); throw; }
  onces[(uintptr_t)o]=2; *(volatile int*)o=2; release(o); wake_key(o,1<<20); return 0;
}
struct SemSt { int v; }; static std::unordered_map<uintptr_t,SemSt> sems;
int sem_init(sem_t* s,int,unsigned v){ sems[(uintptr_t)s]={(int)v}; return 0; }
int sem_destroy(sem_t* s){ sems.erase((uintptr_t)s); return 0; }
int sem_post(sem_t* s){ sync_point(); sems[(uintptr_t)s].v++; if(cur) release(s); wake_key(s,1); return 0; }
int sem_wait(sem_t* s){ sync_point(); while(sems[(uintptr_t)s].v<=0) block(s,"semaphore"); sems[(uintptr_t)s].v--; acquire(s); return 0; }
int sem_trywait(sem_t* s){ sync_point(); if(sems[(uintptr_t)s].v<=0){ errno=EAGAIN; return -1; } sems[(uintptr_t)s].v--; acquire(s); return 0; }
struct BarSt { unsigned n,arr; uint64_t gen; }; static std::unordered_map<uintptr_t,BarSt> bars;
int pthread_barrier_init(pthread_barrier_t* b,const pthread_barrierattr_t*,unsigned n){ bars[(uintptr_t)b]={n,0,0}; return 0; }
int pthread_barrier_destroy(pthread_barrier_t* b){ bars.erase((uintptr_t)b); return 0; }
int pthread_barrier_wait(pthread_barrier_t* b){ sync_point(); release(b); BarSt& x=bars[(uintptr_t)b]; uint64_t g=x.gen; if(++x.arr==x.n){ x.arr=0; x.gen++; wake_key(b,1<<20); acquire(b); return PTHREAD_BARRIER_SERIAL_THREAD; } while(bars[(uintptr_t)b].gen==g) block(b,"barrier"); acquire(b); return 0; }
int sched_yield(){ if(handled()){ do_yield(); return 0; } return raw6(SYS_sched_yield); }
static int do_sleep(uint64_t until){ sync_point(); static char k; if(until>now_ns()) block(&k,"sleep",true,until); else do_yield(); return 0; }
int nanosleep(const timespec* t,timespec*){ if(handled()) return do_sleep(now_ns()+ts_ns(t)); long r=raw6(SYS_nanosleep,(long)t,0); return r<0?(errno=-r,-1):0; }
int clock_nanosleep(clockid_t,int fl,const timespec* t,timespec*){ if(handled()) return do_sleep((fl&TIMER_ABSTIME)?ts_ns(t):now_ns()+ts_ns(t)); return -raw6(SYS_nanosleep,(long)t,0); }
int usleep(useconds_t u){ if(handled()) return do_sleep(now_ns()+u*1000ull); timespec t={0,(long)u*1000}; raw6(SYS_nanosleep,(long)&t,0); return 0; }
int clock_gettime(clockid_t c,timespec* t){ if(g_active&&cur&&cur->depth==0){ tick(); uint64_t n=now_ns()+(c==CLOCK_REALTIME?1700000000000000000ull:0); t->tv_sec=n/1000000000ull; t->tv_nsec=n%1000000000ull; return 0; } long r=raw6(SYS_clock_gettime,c,(long)t); return r<0?(errno=-r,-1):0; }
time_t time(time_t* p){ timespec t; clock_gettime(CLOCK_REALTIME,&t); if(p)*p=t.tv_sec; return t.tv_sec; }
int get_nprocs(){ if(g_active&&cur&&cur->depth==0) return C.hwconc; static int(*f)(); real(f,"get_nprocs"); return f(); }
long sysconf(int n){ if(g_active&&cur&&cur->depth==0&&(n==_SC_NPROCESSORS_ONLN||n==_SC_NPROCESSORS_CONF)) return C.hwconc; static long(*f)(int); real(f,"sysconf"); return f(n); }
long syscall(long n,...){
  va_list ap; va_start(ap,n); long a=va_arg(ap,long),b=va_arg(ap,long),c=va_arg(ap,long),d=va_arg(ap,long),e=va_arg(ap,long),f=va_arg(ap,long); va_end(ap);
  if(n==SYS_futex&&handled()){
    int op=b&~(FUTEX_PRIVATE_FLAG|FUTEX_CLOCK_REALTIME);
    if(op==FUTEX_WAIT||op==FUTEX_WAIT_BITSET){ sync_point(); if(*(volatile uint32_t*)a!=(uint32_t)c){ acquire((void*)a); errno=EAGAIN; return -1; }
      bool timed=d; uint64_t until=timed?ts_ns((timespec*)d)+(op==FUTEX_WAIT?now_ns():0):0; bool ok=block((void*)a,"futex",timed,until); acquire((void*)a); if(!ok){ errno=ETIMEDOUT; return -1; } return 0; }
    if(op==FUTEX_WAKE||op==FUTEX_WAKE_BITSET){ sync_point(); release((void*)a); return wake_key((void*)a,(int)c); }
  }
  long r=raw6(n,a,b,c,d,e,f); if(r<0&&r>-4096){ errno=-r; return -1; } return r;
}
// function-local statics
int sim_guard_acquire(void* g) __asm__("__cxa_guard_acquire");
int sim_guard_acquire(void* g){ volatile char* b=(volatile char*)g;
  if(!g_active||!cur||cur->depth){ if(b[0]) return 0; b[1]=1; return 1; }
  sync_point(); for(;;){ if(b[0]){ acquire(g); return 0; } if(!b[1]) break; block(g,"static initialisation"); } b[1]=1; return 1; }
void sim_guard_release(void* g) __asm__("__cxa_guard_release");
void sim_guard_release(void* g){ volatile char* b=(volatile char*)g; b[0]=1; b[1]=0; if(g_active&&cur){ release(g); wake_key(g,1<<20); if(cur->depth==0) sync_point(); } }
void sim_guard_abort(void* g) __asm__("__cxa_guard_abort");
void sim_guard_abort(void* g){ volatile char* b=(volatile char*)g; b[1]=0; if(g_active&&cur) wake_key(g,1<<20); }

// ---------------------------------------------------------------------- files
struct SFile { int fd=-1; bool dir=false; bool bad=false; }; static std::map<std::string,SFile> fsys;
struct FdInfo { SFile* f=nullptr; bool wr=false, stdio=false; }; static FdInfo fds[1024]; static int64_t disk_used=0; static bool wr_bad=false;  // stdio: a C stream, which reports EINTR as an error and so is not interrupted
static off_t lseek_size(int fd){ off_t c=lseek(fd,0,SEEK_CUR), e=lseek(fd,0,SEEK_END); lseek(fd,c,SEEK_SET); return e; }
static bool simpath(const char* p){ return g_active&&p&&!strncmp(p,"/simfs/",7); }
static int sim_open(const char* path,bool wr,bool trunc,bool create){
  Scope sc; int64_t arg=0; if(fault(F_FOPEN,&arg)){ errno=arg?arg:EACCES; return -1; }
  auto it=fsys.find(path); if(it==fsys.end()&&(!wr||!create||strstr(path,"/missing/"))){ errno=ENOENT; return -1; }
  if(it!=fsys.end()&&it->second.dir&&wr){ errno=EISDIR; return -1; }
  SFile& f=fsys[path]; if(wr&&trunc){ if(f.fd>=0) close(f.fd); f.fd=-1; f.bad=false; }
  if(f.fd<0) f.fd=memfd_create("simfs",0);
  int fd=dup(f.fd); if(fd<0||fd>=1024) harness_error("dup failed"); if(!wr||trunc) lseek(fd,0,SEEK_SET); else lseek(fd,0,SEEK_END);
  fds[fd].f=&f; fds[fd].wr=wr; fds[fd].stdio=false; return fd;
}
static ssize_t sim_read(int fd,void* b,size_t n){
  SFile* f=fds[fd].f; sync_point(); probe(P_READ); int64_t arg=0;
  if(f->dir){ errno=EISDIR; return -1; }
  if(f->bad){ errno=EIO; return -1; }
  if(fault(F_READERR)){ f->bad=true; errno=EIO; return -1; }
  if(!fds[fd].stdio&&fault(F_READINTR)){ errno=EINTR; return -1; }
  if(fault(F_READSHORT,&arg)){ if(arg<1) arg=1; if((size_t)arg<n) n=arg; }
  long r=raw6(SYS_read,fd,(long)b,n); if(r<0){ errno=-r; return -1; } return r;
}
static ssize_t sim_write(int fd,const void* b,size_t n){
  sync_point(); probe(P_WRITE); int64_t arg=0;
  if(wr_bad){ errno=EIO; return -1; }
  if(fault(F_WRITEERR)){ wr_bad=true; errno=EIO; return -1; }
  if(!fds[fd].stdio&&fault(F_WRITEINTR)){ errno=EINTR; return -1; }
  if(fault(F_WRITESHORT,&arg)){ if(arg<1) arg=1; if((size_t)arg<n) n=arg; }
  if(const FaultSpec* s=standing(F_DISKFULL)) if(cur->fault_ok){ int64_t room=s->arg-disk_used; if((int64_t)n>room){ if(!S->fired[F_DISKFULL]) S->fired[F_DISKFULL]++; fired_ops[cur->op&1023]++; if(room<=0){ errno=ENOSPC; return -1; } n=room; } }
  long r=raw6(SYS_write,fd,(long)b,n); if(r<0){ errno=-r; return -1; } disk_used+=r; return r;
}
static int sim_closed(SFile* f,bool wr){ int64_t arg=0; if(fault(F_CLOSEERR,&arg)){ if(wr){ off_t sz=lseek(f->fd,0,SEEK_END); if(ftruncate(f->fd,sz*arg/1000)){} } errno=EIO; return -1; } return 0; }
FILE* fopen(const char* p,const char* m){ if(simpath(p)&&cur->depth==0){ sync_point(); bool wr=m[0]!='r'||strchr(m,'+'); int fd=sim_open(p,wr,m[0]=='w',m[0]!='r'); if(fd<0) return nullptr; int e=0; FILE* f; { Scope s; f=fdopen(fd,m[0]=='r'?(strchr(m,'+')?"r+":"r"):(m[0]=='a'?"a":"w")); e=errno; } errno=e; return f; } real(r_fopen,"fopen"); return r_fopen(p,m); }
FILE* fopen64(const char* p,const char* m){ return fopen(p,m); }
int fclose(FILE* f){ real(r_fclose,"fclose"); int fd=fileno(f); if(g_active&&fd>=0&&fd<1024&&fds[fd].f){ SFile* s=fds[fd].f; bool wr=fds[fd].wr; sync_point(); r_fclose(f); fds[fd].f=nullptr; return sim_closed(s,wr); } return r_fclose(f); }
int open(const char* p,int fl,...){ mode_t mode=0; if(fl&O_CREAT){ va_list ap; va_start(ap,fl); mode=va_arg(ap,int); va_end(ap);} if(simpath(p)&&cur->depth==0){ sync_point(); bool wr=(fl&O_ACCMODE)!=O_RDONLY; return sim_open(p,wr,fl&O_TRUNC,fl&O_CREAT); } long r=raw6(SYS_openat,AT_FDCWD,(long)p,fl,mode); if(r<0){ errno=-r; return -1; } return r; }
int open64(const char* p,int fl,...){ mode_t mode=0; if(fl&O_CREAT){ va_list ap; va_start(ap,fl); mode=va_arg(ap,int); va_end(ap);} return open(p,fl,mode); }
int close(int fd){ if(g_active&&fd>=0&&fd<1024&&fds[fd].f&&cur&&cur->depth==0){ SFile* s=fds[fd].f; bool wr=fds[fd].wr; fds[fd].f=nullptr; raw6(SYS_close,fd); return sim_closed(s,wr); } long r=raw6(SYS_close,fd); if(r<0){ errno=-r; return -1; } return 0; }
ssize_t read(int fd,void* b,size_t n){ if(g_active&&fd>=0&&fd<1024&&fds[fd].f&&cur->depth==0) return sim_read(fd,b,n); long r=raw6(SYS_read,fd,(long)b,n); if(r<0){ errno=-r; return -1; } return r; }
ssize_t write(int fd,const void* b,size_t n){ if(g_active&&fd>=0&&fd<1024&&fds[fd].f&&cur->depth==0) return sim_write(fd,b,n); long r=raw6(SYS_write,fd,(long)b,n); if(r<0){ errno=-r; return -1; } return r; }
ssize_t writev(int fd,const iovec* v,int k){ if(g_active&&fd>=0&&fd<1024&&fds[fd].f&&cur->depth==0){ ssize_t t=0; for(int i=0;i<k;i++){ if(!v[i].iov_len) continue; ssize_t r=sim_write(fd,v[i].iov_base,v[i].iov_len); if(r<0) return t?t:-1; t+=r; if((size_t)r<v[i].iov_len) break; } return t; } long r=raw6(SYS_writev,fd,(long)v,k); if(r<0){ errno=-r; return -1; } return r; }
// the rest of what a program asks about files
static int sim_stat(const char* p,struct stat* st){ Scope sc; auto it=fsys.find(p); if(it==fsys.end()){ size_t n=strlen(p); bool d=!strcmp(p,"/simfs/")||!strcmp(p,"/simfs"); (void)n; if(!d){ errno=ENOENT; return -1; } memset(st,0,sizeof *st); st->st_mode=S_IFDIR|0755; return 0; }
  memset(st,0,sizeof *st); if(it->second.dir){ st->st_mode=S_IFDIR|0755; st->st_nlink=2; return 0; } st->st_mode=S_IFREG|0644; st->st_nlink=1; st->st_ino=1+(uintptr_t)&it->second%100000; if(it->second.fd>=0) st->st_size=lseek_size(it->second.fd); st->st_blksize=4096; st->st_blocks=(st->st_size+511)/512; return 0; }
int stat(const char* p,struct stat* st){ if(simpath(p)&&cur->depth==0){ sync_point(); return sim_stat(p,st); } long r=raw6(SYS_newfstatat,AT_FDCWD,(long)p,(long)st,0); if(r<0){ errno=-r; return -1; } return 0; }
int lstat(const char* p,struct stat* st){ if(simpath(p)&&cur->depth==0){ sync_point(); return sim_stat(p,st); } long r=raw6(SYS_newfstatat,AT_FDCWD,(long)p,(long)st,AT_SYMLINK_NOFOLLOW); if(r<0){ errno=-r; return -1; } return 0; }
int stat64(const char* p,struct stat64* st){ return stat(p,(struct stat*)st); }
int lstat64(const char* p,struct stat64* st){ return lstat(p,(struct stat*)st); }
int access(const char* p,int m){ if(simpath(p)&&cur->depth==0){ struct stat st; return sim_stat(p,&st); } long r=raw6(SYS_access,(long)p,m); if(r<0){ errno=-r; return -1; } return 0; }
int unlink(const char* p){ if(simpath(p)&&cur->depth==0){ sync_point(); Scope sc; auto it=fsys.find(p); if(it==fsys.end()){ errno=ENOENT; return -1; } if(it->second.dir){ errno=EISDIR; return -1; } for(auto& f:fds) if(f.f==&it->second) return 0; if(it->second.fd>=0) raw6(SYS_close,it->second.fd); fsys.erase(it); return 0; } long r=raw6(SYS_unlink,(long)p); if(r<0){ errno=-r; return -1; } return 0; }
int remove(const char* p){ if(simpath(p)&&cur->depth==0) return unlink(p); long r=raw6(SYS_unlink,(long)p); if(r==-EISDIR||r==-EPERM) r=raw6(SYS_rmdir,(long)p); if(r<0){ errno=-r; return -1; } return 0; }
int rename(const char* a,const char* b){ if(simpath(a)&&simpath(b)&&cur->depth==0){ sync_point(); Scope sc; auto it=fsys.find(a); if(it==fsys.end()||strstr(b,"/missing/")){ errno=ENOENT; return -1; } if(fault(F_RENAME)){ errno=EACCES; return -1; } SFile& d=fsys[b]; if(d.dir){ errno=EISDIR; return -1; } if(d.fd>=0) raw6(SYS_close,d.fd); d.fd=it->second.fd; d.bad=it->second.bad; it->second.fd=-1; fsys.erase(it); return 0; } long r=raw6(SYS_rename,(long)a,(long)b); if(r<0){ errno=-r; return -1; } return 0; }
// C stdio used directly by the code under test: a cookie stream over the same faults
struct Ck { int fd; };
static ssize_t ck_read(void* c,char* b,size_t n){ ssize_t r=sim_read(((Ck*)c)->fd,b,n); return r; }
static ssize_t ck_write(void* c,const char* b,size_t n){ size_t t=0; while(t<n){ ssize_t r=sim_write(((Ck*)c)->fd,b+t,n-t); if(r<=0) break; t+=r; } return t; } // like a file stream: goes on after a short write
static int ck_close(void* c){ int fd=((Ck*)c)->fd; SFile* s=fds[fd].f; bool wr=fds[fd].wr; fds[fd].f=nullptr; raw6(SYS_close,fd); return sim_closed(s,wr); }
FILE* sim_fopen(const char* p,const char* m){ if(!simpath(p)||cur->depth) return fopen(p,m); sync_point(); bool wr=m[0]!='r'||strchr(m,'+'); int fd=sim_open(p,wr,m[0]=='w',m[0]!='r'); if(fd<0) return nullptr; fds[fd].stdio=true; Scope s; cookie_io_functions_t io={ck_read,ck_write,nullptr,ck_close}; return fopencookie(new Ck{fd},m,io); }
FILE* sim_fopen64(const char* p,const char* m){ return sim_fopen(p,m); }
int sim_fclose(FILE* f){ real(r_fclose,"fclose"); int fd=fileno(f); if(fd>=0) return fclose(f); return r_fclose(f); }

// ----------------------------------------------------------- memory functions
void* sim_memcpy(void* d,const void* s,size_t n){ if(g_on){ access_range((uintptr_t)s,n,false,__builtin_return_address(0)); access_range((uintptr_t)d,n,true,__builtin_return_address(0)); } return memcpy(d,s,n); }
void* sim_memmove(void* d,const void* s,size_t n){ if(g_on){ access_range((uintptr_t)s,n,false,__builtin_return_address(0)); access_range((uintptr_t)d,n,true,__builtin_return_address(0)); } return memmove(d,s,n); }
void* sim_memset(void* d,int v,size_t n){ if(g_on) access_range((uintptr_t)d,n,true,__builtin_return_address(0)); return memset(d,v,n); }
int sim_memcmp(const void* a,const void* b,size_t n){ if(g_on){ access_range((uintptr_t)a,n,false,__builtin_return_address(0)); access_range((uintptr_t)b,n,false,__builtin_return_address(0)); } return memcmp(a,b,n); }
void* sim_malloc(size_t n){ if(g_on) return do_alloc(n,16); return malloc(n); }
void* sim_calloc(size_t n,size_t m){ if(g_on){ void* p=do_alloc(n*m,16); if(p) memset(p,0,n*m); return p; } return calloc(n,m); }
void sim_free(void* p){ if(p&&in_arena(p)){ if(g_on) sync_point(); arena_free(p,__builtin_return_address(0)); } else free(p); }
void* sim_realloc(void* p,size_t n){ if(!p) return sim_malloc(n); if(!in_arena(p)) return realloc(p,n); void* q=sim_malloc(n); if(!q) return nullptr; Hdr* h=(Hdr*)((char*)p-sizeof(Hdr)); memcpy(q,p,h->size<n?h->size:n); sim_free(p); return q; }
void* sim_aligned_alloc(size_t al,size_t n){ if(g_on) return do_alloc(n,al); return aligned_alloc(al,n); }

#define PC __builtin_return_address(0)
#define ACC(sz) \
 void __tsan_read##sz(void* a){ if(g_on){ tick(); check((uintptr_t)a,sz,0,PC);} } \
 void __tsan_write##sz(void* a){ if(g_on){ tick(); check((uintptr_t)a,sz,1,PC);} } \
 void __tsan_unaligned_read##sz(void* a){ if(g_on){ tick(); check((uintptr_t)a,sz,0,PC);} } \
 void __tsan_unaligned_write##sz(void* a){ if(g_on){ tick(); check((uintptr_t)a,sz,1,PC);} } \
 void __tsan_volatile_read##sz(void* a){ if(g_on){ tick(); check((uintptr_t)a,sz,0,PC);} } \
 void __tsan_volatile_write##sz(void* a){ if(g_on){ tick(); check((uintptr_t)a,sz,1,PC);} } \
 void __tsan_unaligned_volatile_read##sz(void* a){ if(g_on){ tick(); check((uintptr_t)a,sz,0,PC);} } \
 void __tsan_unaligned_volatile_write##sz(void* a){ if(g_on){ tick(); check((uintptr_t)a,sz,1,PC);} }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
void __tsan_read_range(void* a,size_t n){ access_range((uintptr_t)a,n,false,PC); }
void __tsan_write_range(void* a,size_t n){ access_range((uintptr_t)a,n,true,PC); }
void __tsan_vptr_update(void** a,void*){ if(g_on){ tick(); check((uintptr_t)a,8,1,PC);} }
void __tsan_vptr_read(void** a){ if(g_on){ tick(); check((uintptr_t)a,8,0,PC);} }
void __tsan_func_entry(void*){ if(g_on) tick(); }
void __tsan_func_exit(){}
void __tsan_init(){}
void __tsan_ignore_thread_begin(){} void __tsan_ignore_thread_end(){}
#define ACQ(mo) ((mo)==1||(mo)==2||(mo)==4||(mo)==5)
#define REL(mo) ((mo)==3||(mo)==4||(mo)==5)
#define AT_PRE(w) if(g_on){ sync_point(); check((uintptr_t)a,sizeof(*a),(w)|2,PC); }
#define ATOM(bits,T) \
 T __tsan_atomic##bits##_load(const volatile T* a,int mo){ AT_PRE(0) T v=*a; if(g_on&&ACQ(mo)) acquire((void*)a); return v; } \
 void __tsan_atomic##bits##_store(volatile T* a,T v,int mo){ AT_PRE(1) if(g_on&&REL(mo)) release((void*)a,false); *a=v; } \
 T __tsan_atomic##bits##_exchange(volatile T* a,T v,int mo){ AT_PRE(1) if(g_on&&ACQ(mo)) acquire((void*)a); if(g_on&&REL(mo)) release((void*)a); T o=*a; *a=v; return o; } \
 T __tsan_atomic##bits##_fetch_add(volatile T* a,T v,int mo){ AT_PRE(1) if(g_on&&ACQ(mo)) acquire((void*)a); if(g_on&&REL(mo)) release((void*)a); T o=*a; *a=o+v; return o; } \
 T __tsan_atomic##bits##_fetch_sub(volatile T* a,T v,int mo){ AT_PRE(1) if(g_on&&ACQ(mo)) acquire((void*)a); if(g_on&&REL(mo)) release((void*)a); T o=*a; *a=o-v; return o; } \
 T __tsan_atomic##bits##_fetch_and(volatile T* a,T v,int mo){ AT_PRE(1) if(g_on&&ACQ(mo)) acquire((void*)a); if(g_on&&REL(mo)) release((void*)a); T o=*a; *a=o&v; return o; } \
 T __tsan_atomic##bits##_fetch_or(volatile T* a,T v,int mo){ AT_PRE(1) if(g_on&&ACQ(mo)) acquire((void*)a); if(g_on&&REL(mo)) release((void*)a); T o=*a; *a=o|v; return o; } \
 T __tsan_atomic##bits##_fetch_xor(volatile T* a,T v,int mo){ AT_PRE(1) if(g_on&&ACQ(mo)) acquire((void*)a); if(g_on&&REL(mo)) release((void*)a); T o=*a; *a=o^v; return o; } \
 T __tsan_atomic##bits##_fetch_nand(volatile T* a,T v,int mo){ AT_PRE(1) if(g_on&&ACQ(mo)) acquire((void*)a); if(g_on&&REL(mo)) release((void*)a); T o=*a; *a=~(o&v); return o; } \
 int __tsan_atomic##bits##_compare_exchange_strong(volatile T* a,T* c,T v,int mo,int fmo){ AT_PRE(1) T o=*a; if(o==*c){ if(g_on&&ACQ(mo)) acquire((void*)a); if(g_on&&REL(mo)) release((void*)a); *a=v; return 1; } if(g_on&&ACQ(fmo)) acquire((void*)a); *c=o; return 0; } \
 int __tsan_atomic##bits##_compare_exchange_weak(volatile T* a,T* c,T v,int mo,int fmo){ AT_PRE(1) T o=*a; if(o==*c){ if(g_on&&ACQ(mo)) acquire((void*)a); if(g_on&&REL(mo)) release((void*)a); *a=v; return 1; } if(g_on&&ACQ(fmo)) acquire((void*)a); *c=o; return 0; } \
 T __tsan_atomic##bits##_compare_exchange_val(volatile T* a,T c,T v,int mo,int fmo){ AT_PRE(1) T o=*a; if(o==c){ if(g_on&&ACQ(mo)) acquire((void*)a); if(g_on&&REL(mo)) release((void*)a); *a=v; } else if(g_on&&ACQ(fmo)) acquire((void*)a); return o; }
ATOM(8,uint8_t) ATOM(16,uint16_t) ATOM(32,uint32_t) ATOM(64,uint64_t)
void __tsan_atomic_thread_fence(int){ if(g_on){ sync_point(); fence_vc.join(cur->vc); cur->vc.join(fence_vc); cur->vc.c[cur->tid]++; } }
void __tsan_atomic_signal_fence(int){}
} // extern "C"

// ------------------------------------------------------------ operator new/delete
void* sim_nw(size_t n,size_t al,bool nothrow){
  if(g_on){ void* p=do_alloc(n?n:1,al); if(p||nothrow) return p; throw std::bad_alloc(); }
  void* p=al>16?aligned_alloc(al,(n+al-1)/al*al):malloc(n?n:1); if(!p&&!nothrow) throw std::bad_alloc(); return p;
}
void sim_dl(void* p,void* pc){ if(!p) return; if(in_arena(p)){ if(g_on) sync_point(); arena_free(p,pc); } else free(p); }
namespace sim {
void fs_put(const char* path,const void* data,size_t n){ Scope s; SFile& f=fsys[path]; if(f.fd>=0) close(f.fd); f=SFile(); f.fd=memfd_create("simfs",0); const char* p=(const char*)data; while(n){ long r=raw6(SYS_write,f.fd,(long)p,n); if(r<=0) harness_error("memfd write"); p+=r; n-=r; } }
void fs_dir(const char* path){ SFile& f=fsys[path]; f.dir=true; f.fd=memfd_create("simdir",0); }
bool fs_get(const char* path,void (*sink)(void*,const char*,size_t),void* ctx){ Scope s; auto it=fsys.find(path); if(it==fsys.end()||it->second.fd<0) return false; char b[65536]; off_t o=0; for(;;){ long r=raw6(SYS_pread64,it->second.fd,(long)b,sizeof b,o); if(r<=0) break; sink(ctx,b,r); o+=r; } return true; }

// ----------------------------------------------------------------- SYCL device
struct Cmd { uint64_t id,queue; std::vector<Req> reqs; std::vector<Cmd*> deps; void (*run)(void*); void* ctx; void (*del)(void*); Th* th=nullptr; bool done=false, started=false, failed=false; };
struct BufState { char* data; size_t bytes; int refs=1; void* final=nullptr; Cmd* writer=nullptr; std::vector<Cmd*> readers; int host=0; };
static std::vector<Cmd*> cmds; static std::vector<bool> q_inorder; static int async_errs=0;
static void set_current_group(Group* g){ cur->grp=g; }
BufState* buf_new(size_t bytes,const void* init){
  BufState* b; { Scope s; b=new BufState; b->bytes=bytes; b->data=(char*)arena_alloc(bytes?bytes:1,64); if(!b->data){ delete b; return nullptr; } }
  if(init){ if(g_on){ for(size_t i=0;i<bytes;i+=8) check((uintptr_t)init+i,std::min<size_t>(8,bytes-i),0,PC); } memcpy(b->data,init,bytes); race_range((uintptr_t)b->data,bytes,true,PC); }
  sync_point(); return b; }
void* buf_data(BufState* b){ return b->data; } size_t buf_bytes(BufState* b){ return b->bytes; }
void buf_addref(BufState* b){ b->refs++; }
static void cmd_reap(Cmd* c){ while(!c->done) block(c,"device command"); join_th(c->th,true,"device command"); if(c->del){ c->del(c->ctx); c->del=nullptr; } }
void cmd_wait(uint64_t id){ sync_point(); Scope s; if(id&&id<=cmds.size()) cmd_reap(cmds[id-1]); }
void queue_wait(uint64_t q){ sync_point(); Scope s; for(size_t i=0;i<cmds.size();i++) if(cmds[i]->queue==q) cmd_reap(cmds[i]); }
int take_async(){ int n=async_errs; async_errs=0; return n; }
uint64_t queue_new(bool in){ async_errs=0; q_inorder.push_back(in); return q_inorder.size(); }
static void buf_sync(BufState* b,bool write){ Scope s; if(b->writer) cmd_reap(b->writer); if(write) for(size_t i=0;i<b->readers.size();i++) cmd_reap(b->readers[i]); }
void buf_release(BufState* b){ if(--b->refs) return; sync_point(); buf_sync(b,true);
  if(b->final){ race_range((uintptr_t)b->data,b->bytes,false,PC); if(g_on) access_range((uintptr_t)b->final,b->bytes,true,PC); memcpy(b->final,b->data,b->bytes); }
  arena_free(b->data,PC); Scope s; delete b; }
void buf_set_final(BufState* b,void* h){ b->final=h; }
void buf_host_open(BufState* b,bool write,bool discard){ sync_point(); buf_sync(b,write); b->host++; if(discard) garbage(b->data,b->bytes); }
void buf_host_close(BufState* b){ if(--b->host==0) wake_key(&b->host,1<<20); sync_point(); }
static void cmd_main(void* p){ Cmd* c=(Cmd*)p;
  for(Cmd* d:c->deps){ while(!d->done) block(d,"device dependency"); cur->vc.join(d->th->vc); if(d->failed) c->failed=true; }  // what waits for a failed command is not run
  for(auto& r:c->reqs) while(r.buf->host) block(&r.buf->host,"host accessor");
  c->started=true; for(Cmd* o:cmds) if(o->id<c->id&&!o->started){ probe(P_CMD_OOO); break; }
  for(auto& r:c->reqs) if(r.discard){ bool keep=false; for(auto& o:c->reqs) if(o.buf==r.buf&&!o.discard) keep=true; if(!keep){ probe(P_NOINIT); garbage(r.buf->data,r.buf->bytes); race_range((uintptr_t)r.buf->data,r.buf->bytes,true,PC); cur->vc.c[cur->tid]++; } }
  probe(P_KERNEL); if(c->failed){ if(c->queue==q_inorder.size()) async_errs++; for(auto& r:c->reqs) if(r.write) garbage(r.buf->data,r.buf->bytes); } else c->run(c->ctx);
  c->done=true; cur->vc.c[cur->tid]++; wake_key(c,1<<20);
}
uint64_t cmd_submit(uint64_t q,const Req* reqs,size_t n,const uint64_t* evs,size_t nev,void (*run)(void*),void* ctx,void (*del)(void*)){
  sync_point(); bool fail=fault(F_ASYNC); Cmd* c; { Scope s; c=new Cmd; c->id=cmds.size()+1; c->queue=q; c->run=run; c->ctx=ctx; c->del=del; c->failed=fail;
   for(size_t i=0;i<n;i++){ const Req& r=reqs[i]; BufState* b=r.buf; c->reqs.push_back(r); if(b->writer) c->deps.push_back(b->writer); if(r.write) for(Cmd* x:b->readers) c->deps.push_back(x); }
   for(size_t i=0;i<n;i++){ const Req& r=reqs[i]; BufState* b=r.buf; if(r.write){ b->writer=c; b->readers.clear(); } else if(b->writer!=c) b->readers.push_back(c); }
   for(size_t i=0;i<nev;i++) if(evs[i]) c->deps.push_back(cmds[evs[i]-1]);
   if(q&&q_inorder[q-1]) for(Cmd* x:cmds) if(x->queue==q) c->deps.push_back(x);
   cmds.push_back(c); cur->vc.c[cur->tid]++; c->th=start_th(nullptr,cmd_main,c,"device command",1,&cur->vc); if(!c->th) harness_error("too many threads"); c->th->is_cmd=true; c->th->grp=nullptr; }
  sync_point(); return c->id; }

struct Launch { void (*item)(void*,size_t,size_t); void (*ritem)(void*,size_t); void* ctx; size_t local=1; const size_t* lb=nullptr; size_t nl=0; std::vector<size_t> order; size_t next=0; VC base,done; };
struct ItemArg { Launch* L; size_t g,l; Group* grp; size_t lane,lanes; };
static void item_main(void* p){ ItemArg* a=(ItemArg*)p; set_current_group(a->grp); probe(P_WORKITEM); { Code c; a->L->item(a->L->ctx,a->g,a->l); } }
static void lane_main(void* p){ ItemArg* a=(ItemArg*)p; for(size_t i=a->lane;i<a->L->order.size();i+=a->lanes){ probe(P_WORKITEM); Code c; a->L->ritem(a->L->ctx,a->L->order[i]); } }
static void cu_main(void* p){ Launch* L=(Launch*)p;
  while(L->next<L->order.size()){ size_t g=L->order[L->next++]; Group grp; grp.id=g; grp.n=L->local;
    for(size_t i=0;i<L->nl;i++){ void* m=arena_alloc(L->lb[i]?L->lb[i]:1,64); if(!m) inconclusive("the simulated memory is used up"); grp.local.push_back(m); }
    std::vector<ItemArg> as(L->local); std::vector<Th*> ts; std::vector<size_t> ord(L->local); for(size_t i=0;i<L->local;i++) ord[i]=i; for(size_t i=L->local;i>1;i--) std::swap(ord[i-1],ord[R_a.below(i)]);
    for(size_t i:ord){ as[i]={L,g,i,&grp,0,0}; Th* t=start_th(nullptr,item_main,&as[i],"work item",1,&L->base); if(!t) harness_error("too many work items"); ts.push_back(t); }
    for(Th* t:ts){ join_th(t,false,"work group"); L->done.join(t->vc); }
    for(void* m:grp.local){ VC keep=cur->vc; cur->vc.join(L->done); arena_free(m,PC); cur->vc=keep; } } }
static void run_launch(Launch& L,size_t n){ Scope s; cur->vc.c[cur->tid]++; L.base=cur->vc; L.done=cur->vc; L.order.resize(n); for(size_t i=0;i<n;i++) L.order[i]=i; for(size_t i=n;i>1;i--) std::swap(L.order[i-1],L.order[R_a.below(i)]); }
void launch(size_t groups,size_t local,const size_t* lb,size_t nl,void (*item)(void*,size_t,size_t),void* ctx){
  Launch L; L.item=item; L.ctx=ctx; L.local=local; L.lb=lb; L.nl=nl; run_launch(L,groups); size_t cus=std::max(1,C.cus); while(cus>1&&cus*local>160) cus--; cus=std::min(cus,std::max<size_t>(groups,1));
  std::vector<Th*> ts; for(size_t i=0;i<cus;i++){ Th* t=start_th(nullptr,cu_main,&L,"compute unit",1,&L.base); if(!t) harness_error("too many threads"); ts.push_back(t); }
  for(Th* t:ts) join_th(t,false,"kernel"); cur->vc.join(L.done); }
void launch_range(size_t n,void (*item)(void*,size_t),void* ctx){
  Launch L; L.ritem=item; L.ctx=ctx; run_launch(L,n); size_t lanes=std::min<size_t>(std::max(1,C.cus),n?n:1); std::vector<ItemArg> as(lanes); std::vector<Th*> ts;
  for(size_t i=0;i<lanes;i++){ as[i]={&L,0,0,nullptr,i,lanes}; Th* t=start_th(nullptr,lane_main,&as[i],"work items",1,&L.base); if(!t) harness_error("too many threads"); ts.push_back(t); }
  for(Th* t:ts){ join_th(t,false,"kernel"); L.done.join(t->vc); } cur->vc.join(L.done); }
void* local_ptr(size_t s){ if(!cur->grp||s>=cur->grp->local.size()) harness_error("local memory outside a work group"); return cur->grp->local[s]; }
void group_barrier(){ Scope s; Group* g=cur->grp; if(!g) harness_error("barrier outside a group"); g->bvc.join(cur->vc); cur->vc.c[cur->tid]++; if(++g->arrived==g->n){ g->arrived=0; cur->vc.join(g->bvc); wake_key(g,1<<20); } else { block(g,"group barrier"); cur->vc.join(g->bvc); } }
void device_oob(const char* what,size_t i,size_t n){ violation("device-out-of-bounds","%s index %zu outside its %zu elements (t%d %s)",what,i,n,cur->tid,cur->name); }
} // namespace sim
