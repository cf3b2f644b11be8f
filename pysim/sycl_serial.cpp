// Minimal back end of the simulated SYCL headers for the Python process: each
// command runs to completion when submitted, work items in a seeded order.
#include <cstdlib>
#include <cstring>
#include <vector>
#include <algorithm>
#include <unistd.h>
#include "rt.h"
extern "C" int pysim_devfault(); extern "C" int pysim_ngpu(); extern "C" uint64_t pysim_rnd();
namespace sim {
Scope::Scope(){} Scope::~Scope(){}
struct BufState { int refs; size_t n; char* d; void* final; };
bool fault(int,int64_t*){ return pysim_devfault(); }
BufState* buf_new(size_t n,const void* init){ BufState* b=(BufState*)malloc(sizeof(BufState)); b->refs=1; b->n=n; b->final=nullptr; b->d=(char*)malloc(n+16); uint64_t v=pysim_rnd(); memset(b->d,(int)(v&255),n+16); if(init) memcpy(b->d,init,n); return b; }
void* buf_data(BufState* b){ return b->d; } size_t buf_bytes(BufState* b){ return b->n; } void buf_addref(BufState* b){ b->refs++; }
void buf_release(BufState* b){ if(--b->refs) return; if(b->final) memcpy(b->final,b->d,b->n); free(b->d); free(b); }
void buf_set_final(BufState* b,void* h){ b->final=h; } void buf_host_open(BufState*,bool,bool){} void buf_host_close(BufState*){}
uint64_t cmd_submit(uint64_t,const Req*,size_t,const uint64_t*,size_t,void (*run)(void*),void* c,void (*del)(void*)){ run(c); del(c); return 1; }
void cmd_wait(uint64_t){} void queue_wait(uint64_t){} int take_async(){ return 0; } uint64_t queue_new(bool){ return 1; }
static std::vector<std::vector<char>>* loc;
static std::vector<size_t> order(size_t n){ std::vector<size_t> o(n); for(size_t i=0;i<n;i++) o[i]=i; for(size_t i=n;i>1;i--) std::swap(o[i-1],o[pysim_rnd()%i]); return o; }
void launch(size_t g,size_t l,const size_t* lb,size_t nl,void (*item)(void*,size_t,size_t),void* c){ for(size_t i:order(g)){ std::vector<std::vector<char>> m; for(size_t k=0;k<nl;k++) m.emplace_back(lb[k]+16,(char)pysim_rnd()); loc=&m; for(size_t j:order(l)) item(c,i,j); loc=nullptr; } }
void launch_range(size_t n,void (*item)(void*,size_t),void* c){ for(size_t i:order(n)) item(c,i); }
void* local_ptr(size_t s){ return (*loc)[s].data(); } void group_barrier(){ const char* m="pysim: barriers are not supported here\n"; if(write(2,m,strlen(m))){} _exit(77); }
int ngpu(){ return pysim_ngpu(); } int max_wg(){ return 64; } void device_oob(const char*,size_t,size_t){ const char* m="pysim: device access out of bounds\n"; if(write(2,m,strlen(m))){} abort(); }
}
