// Preloaded under the Python interpreter: owns every C++ allocation and every
// thread of the extension module.  Python itself allocates with malloc and is
// not affected.  Freed memory is overwritten and handed out again at once
// (last in, first out) so that a dangling view reads something else.
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <cerrno>
#include <cstdarg>
#include <ctime>
#include <new>
#include <thread>
#include <dlfcn.h>
#include <pthread.h>
#include <unistd.h>
static uint64_t rs=1; static uint64_t rnd(){ rs^=rs<<13; rs^=rs>>7; rs^=rs<<17; return rs; }
static bool armed=false; static uint64_t n_alloc=0, n_thread=0, fail_alloc[4], fail_thread[4]; static uint64_t fired_alloc=0, fired_thread=0; static uint64_t total_alloc=0,total_free=0,reused=0,inside_threads=0; static int64_t live=0;
struct H { uint64_t magic; uint32_t cls; uint32_t pad; uint64_t size; H* next; };
static const uint64_t LIVE=0x6c69766562795079ull, DEAD=0x6465616462795079ull; static H* freel[64]; static bool simulate=false;
static int cls_of(size_t n){ int c=4; while(((size_t)1<<c)<n) c++; return c; }
static void sched_alloc();
static void* take(size_t n){
  if(simulate) sched_alloc();
  if(armed){ n_alloc++; for(uint64_t f:fail_alloc) if(f&&f==n_alloc){ fired_alloc++; return nullptr; } }
  total_alloc++; live+=n; int c=cls_of(n?n:1); H* h=freel[c]; if(h){ freel[c]=h->next; reused++; } else { h=(H*)malloc(sizeof(H)+((size_t)1<<c)); if(!h) return nullptr; }
  h->magic=LIVE; h->cls=c; h->size=n; unsigned char* p=(unsigned char*)(h+1); if(simulate){ uint64_t v=rnd(); for(size_t i=0;i<((size_t)1<<c);i++) p[i]=(unsigned char)(v>>(8*(i&7)))|1; } return p; }
static void give(void* q){ if(!q) return; H* h=(H*)q-1; if(h->magic!=LIVE){ const char* m=h->magic==DEAD?"pysim: double free\n":"pysim: free of a foreign pointer\n"; if(write(2,m,strlen(m))){} abort(); }
  h->magic=DEAD; total_free++; live-=h->size; memset(q,0xd7,(size_t)1<<h->cls); h->next=freel[h->cls]; freel[h->cls]=h; }
void* operator new(size_t n){ void* p=take(n); if(!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n){ void* p=take(n); if(!p) throw std::bad_alloc(); return p; }
void* operator new(size_t n,const std::nothrow_t&) noexcept { return take(n); }
void* operator new[](size_t n,const std::nothrow_t&) noexcept { return take(n); }
void operator delete(void* p) noexcept { give(p); } void operator delete[](void* p) noexcept { give(p); } void operator delete(void* p,size_t) noexcept { give(p); } void operator delete[](void* p,size_t) noexcept { give(p); } void operator delete(void* p,const std::nothrow_t&) noexcept { give(p); } void operator delete[](void* p,const std::nothrow_t&) noexcept { give(p); }

// Threads started while simulating are real threads of which exactly one runs
// at a time: whoever holds the baton.  The seed decides who gets it next at
// every creation, join, lock, wait, wake-up and at some allocations.
enum { RUN, WAIT, DONE };
struct Th { int go=0; int state=RUN; const void* key=nullptr; bool timed=false, timeout=false; void* (*f)(void*)=nullptr; void* a=nullptr; void* ret=nullptr; pthread_t real; bool joined=false, detached=false; };
static Th main_th; static Th* thv[4096]; static int nth=0, nlive=0; static thread_local Th* me=nullptr; static pthread_key_t end_key; static bool have_key=false;
static long raw_futex(int* a,int op,int v){ long r; register long r10 __asm__("r10")=0; register long r8 __asm__("r8")=0; register long r9 __asm__("r9")=0; __asm__ volatile("syscall":"=a"(r):"a"(202L),"D"(a),"S"((long)op),"d"((long)v),"r"(r10),"r"(r8),"r"(r9):"rcx","r11","memory"); return r; }
static void sit(){ while(__atomic_exchange_n(&me->go,0,__ATOMIC_ACQUIRE)==0) raw_futex(&me->go,128,0); }
static void hand(Th* t){ __atomic_store_n(&t->go,1,__ATOMIC_RELEASE); raw_futex(&t->go,129,1); }
static Th* pick(){ Th* c[4096]; int n=0; if(main_th.state==RUN) c[n++]=&main_th; for(int i=0;i<nth;i++) if(thv[i]->state==RUN) c[n++]=thv[i];
  if(!n){ if(main_th.state==WAIT&&main_th.timed) c[n++]=&main_th; for(int i=0;i<nth;i++) if(thv[i]->state==WAIT&&thv[i]->timed) c[n++]=thv[i];
    if(!n){ const char m[]="pysim: deadlock, every thread waits\n"; if(write(2,m,sizeof m-1)){} abort(); } Th* t=c[rnd()%n]; t->state=RUN; t->timeout=true; return t; }
  return n==1?c[0]:c[rnd()%n]; }
static bool multi(){ return simulate&&me&&nlive>0; }
static void yield_(){ Th* t=pick(); if(t!=me){ hand(t); sit(); } }
static bool wait_on(const void* k,bool timed=false){ me->state=WAIT; me->key=k; me->timed=timed; me->timeout=false; Th* t=pick(); if(t!=me){ hand(t); sit(); } me->timed=false; return !me->timeout; }
static int wake_on(const void* k,int n){ int w=0; Th* c[4096]; int m=0; if(main_th.state==WAIT&&main_th.key==k) c[m++]=&main_th; for(int i=0;i<nth;i++) if(thv[i]->state==WAIT&&thv[i]->key==k) c[m++]=thv[i]; while(m&&w<n){ int j=rnd()%m; c[j]->state=RUN; c[j]=c[--m]; w++; } return w; }
static void th_end(void* v){ Th* t=(Th*)v; t->state=DONE; nlive--; wake_on(t,1<<20); Th* n=pick(); hand(n); }
static void* th_run(void* v){ Th* t=(Th*)v; me=t; sit(); inside_threads++; pthread_setspecific(end_key,t); t->ret=t->f(t->a); return t->ret; }
static void sched_alloc(){ if(multi()&&rnd()%4==0) yield_(); }
template<class F> static F real_of(const char* n){ return (F)dlsym(RTLD_NEXT,n); }
static void sweep(){ int k=0; for(int i=0;i<nth;i++) if(thv[i]->state==DONE&&(thv[i]->joined||thv[i]->detached)) free(thv[i]); else thv[k++]=thv[i]; nth=k; }
typedef int (*create_t)(pthread_t*,const pthread_attr_t*,void*(*)(void*),void*); typedef int (*join_t)(pthread_t,void**); typedef int (*m_t)(pthread_mutex_t*); typedef int (*rw_t)(pthread_rwlock_t*);
static Th* find(pthread_t p){ for(int i=nth;i-->0;) if(!thv[i]->joined&&pthread_equal(thv[i]->real,p)) return thv[i]; return nullptr; }
extern "C" {
int pthread_create(pthread_t* th,const pthread_attr_t* at,void*(*f)(void*),void* a) {
  static create_t real=real_of<create_t>("pthread_create"); if(!simulate||!me) return real(th,at,f,a);
  if(armed){ n_thread++; for(uint64_t q:fail_thread) if(q&&q==n_thread){ fired_thread++; return EAGAIN; } }
  sweep(); if(nth>=4000) return EAGAIN; if(!have_key){ pthread_key_create(&end_key,th_end); have_key=true; }
  Th* t=new(malloc(sizeof(Th))) Th(); t->f=f; t->a=a; int r=real(&t->real,at,th_run,t); if(r){ free(t); return r; }
  thv[nth++]=t; nlive++; *th=t->real; if(rnd()%2==0) yield_(); return 0; }
int pthread_join(pthread_t th,void** r){ static join_t real=real_of<join_t>("pthread_join"); Th* t=me?find(th):nullptr; if(!t) return real(th,r);
  if(t==me) return EDEADLK; if(rnd()%2==0) yield_(); while(t->state!=DONE) wait_on(t); t->joined=true; return real(th,r); }
int pthread_detach(pthread_t th){ typedef int (*d_t)(pthread_t); static d_t real=real_of<d_t>("pthread_detach"); if(Th* t=me?find(th):nullptr) t->detached=true; return real(th); }
int pthread_mutex_lock(pthread_mutex_t* m){ static m_t real=real_of<m_t>("pthread_mutex_lock"), tr=real_of<m_t>("pthread_mutex_trylock"); if(!multi()) return real(m); if(rnd()%2) yield_(); int r; while((r=tr(m))==EBUSY) wait_on(m); return r; }
int pthread_mutex_unlock(pthread_mutex_t* m){ static m_t real=real_of<m_t>("pthread_mutex_unlock"); int r=real(m); if(multi()){ wake_on(m,1<<20); if(rnd()%2) yield_(); } return r; }
static int cv(pthread_cond_t* c,pthread_mutex_t* m,bool timed){ static m_t un=real_of<m_t>("pthread_mutex_unlock"), tr=real_of<m_t>("pthread_mutex_trylock"); un(m); wake_on(m,1<<20); bool ok=wait_on(c,timed); while(tr(m)==EBUSY) wait_on(m); return ok?0:ETIMEDOUT; }
int pthread_cond_wait(pthread_cond_t* c,pthread_mutex_t* m){ typedef int (*f_t)(pthread_cond_t*,pthread_mutex_t*); static f_t real=real_of<f_t>("pthread_cond_wait"); return multi()?cv(c,m,false):real(c,m); }
int pthread_cond_timedwait(pthread_cond_t* c,pthread_mutex_t* m,const timespec* t){ typedef int (*f_t)(pthread_cond_t*,pthread_mutex_t*,const timespec*); static f_t real=real_of<f_t>("pthread_cond_timedwait"); return multi()?cv(c,m,true):real(c,m,t); }
int pthread_cond_clockwait(pthread_cond_t* c,pthread_mutex_t* m,clockid_t k,const timespec* t){ typedef int (*f_t)(pthread_cond_t*,pthread_mutex_t*,clockid_t,const timespec*); static f_t real=real_of<f_t>("pthread_cond_clockwait"); return multi()?cv(c,m,true):real(c,m,k,t); }
int pthread_cond_signal(pthread_cond_t* c){ typedef int (*f_t)(pthread_cond_t*); static f_t real=real_of<f_t>("pthread_cond_signal"); if(multi()) wake_on(c,1); return real(c); }
int pthread_cond_broadcast(pthread_cond_t* c){ typedef int (*f_t)(pthread_cond_t*); static f_t real=real_of<f_t>("pthread_cond_broadcast"); if(multi()) wake_on(c,1<<20); return real(c); }
int pthread_rwlock_rdlock(pthread_rwlock_t* m){ static rw_t real=real_of<rw_t>("pthread_rwlock_rdlock"), tr=real_of<rw_t>("pthread_rwlock_tryrdlock"); if(!multi()) return real(m); if(rnd()%2) yield_(); int r; while((r=tr(m))==EBUSY) wait_on(m); return r; }
int pthread_rwlock_wrlock(pthread_rwlock_t* m){ static rw_t real=real_of<rw_t>("pthread_rwlock_wrlock"), tr=real_of<rw_t>("pthread_rwlock_trywrlock"); if(!multi()) return real(m); if(rnd()%2) yield_(); int r; while((r=tr(m))==EBUSY) wait_on(m); return r; }
int pthread_rwlock_unlock(pthread_rwlock_t* m){ static rw_t real=real_of<rw_t>("pthread_rwlock_unlock"); int r=real(m); if(multi()){ wake_on(m,1<<20); if(rnd()%2) yield_(); } return r; }
int pthread_once(pthread_once_t* o,void(*fn)()){ typedef int (*f_t)(pthread_once_t*,void(*)()); static f_t real=real_of<f_t>("pthread_once"); if(!multi()||*(volatile int*)o==2) return real(o,fn);
  static struct { void* o; int st; } tab[64]; int k=0; while(k<63&&tab[k].o&&tab[k].o!=o) k++; if(tab[k].o!=o){ tab[k].o=o; tab[k].st=0; } while(tab[k].st==1) wait_on(o); if(*(volatile int*)o==2) return 0;
  tab[k].st=1; try { fn(); } catch(...){ tab[k].st=0; wake_on(o,1<<20); throw; } tab[k].st=2; *(volatile int*)o=2; wake_on(o,1<<20); return 0; }
int sched_yield(){ if(multi()) yield_(); return 0; }
int nanosleep(const timespec* t,timespec* r){ typedef int (*f_t)(const timespec*,timespec*); static f_t real=real_of<f_t>("nanosleep"); if(multi()){ yield_(); return 0; } return real(t,r); }
int clock_nanosleep(clockid_t c,int fl,const timespec* t,timespec* r){ typedef int (*f_t)(clockid_t,int,const timespec*,timespec*); static f_t real=real_of<f_t>("clock_nanosleep"); if(multi()){ yield_(); return 0; } return real(c,fl,t,r); }
long syscall(long n,...){ va_list ap; va_start(ap,n); long a=va_arg(ap,long),b=va_arg(ap,long),c=va_arg(ap,long),d=va_arg(ap,long),e=va_arg(ap,long),f=va_arg(ap,long); va_end(ap);
  if(n==202&&multi()){ int op=b&127&~128; op=b&~(128|256); if(op==0||op==9){ if(*(volatile int*)a!=(int)c){ errno=EAGAIN; return -1; } if(!wait_on((void*)a,d!=0)){ errno=ETIMEDOUT; return -1; } return 0; } if(op==1||op==10) return wake_on((void*)a,(int)c); }
  typedef long (*f_t)(long,...); static f_t real=real_of<f_t>("syscall"); return real(n,a,b,c,d,e,f); }
}
static uint64_t n_dev=0, fail_dev=0, fired_dev=0; static int gpus=0;
extern "C" {
int pysim_devfault(){ if(!armed) return 0; n_dev++; if(fail_dev&&fail_dev==n_dev){ fired_dev++; return 1; } return 0; }
int pysim_ngpu(){ return gpus; } uint64_t pysim_rnd(){ return rnd(); } void pysim_gpus(int n){ gpus=n; }
void pysim_seed(uint64_t s){ rs=s*0x9e3779b97f4a7c15ull|1; for(int i=0;i<8;i++) rnd(); simulate=true; me=&main_th; }
void pysim_arm(uint64_t a0,uint64_t a1,uint64_t t0,uint64_t t1,uint64_t d0){ n_alloc=n_thread=n_dev=0; fail_dev=d0; fail_alloc[0]=a0; fail_alloc[1]=a1; fail_thread[0]=t0; fail_thread[1]=t1; armed=true; }
void pysim_disarm(){ armed=false; }
uint64_t pysim_get(int k){ uint64_t v[]={n_alloc,n_thread,fired_alloc,fired_thread,total_alloc,total_free,reused,inside_threads,(uint64_t)live,(uint64_t)nlive,n_dev,fired_dev}; return v[k]; }
}
