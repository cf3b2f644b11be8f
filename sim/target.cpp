#include <votess.hpp>
#include <new>
#include <string>
#include <system_error>
#include <vector>
#include "tgt.h"
#include "rt.h"

namespace {
struct Pts { int dbl, ti; std::vector<std::array<float,3>> f; std::vector<std::array<double,3>> d; };
template<class F> void guarded(TgtStatus* st, F f) {
  st->exc=0; st->what[0]=0;
  sim::window(true);
  try { f(); sim::window(false); }
  catch (const std::bad_alloc& e) { sim::window(false); st->exc=1; snprintf(st->what,sizeof st->what,"%s",e.what()); }
  catch (const std::system_error& e) { sim::window(false); st->exc=2; snprintf(st->what,sizeof st->what,"%s",e.what()); }
  catch (const std::exception& e) { sim::window(false); st->exc=3; snprintf(st->what,sizeof st->what,"%s",e.what()); }
  catch (...) { sim::window(false); st->exc=4; snprintf(st->what,sizeof st->what,"not a std::exception"); }
}
struct Result { virtual ~Result(){} virtual void rows(row_sink,void*)=0; virtual void save(const std::string&)=0; virtual void print()=0; };
template<class Ti> struct Res : Result {
  votess::dnn<Ti> d; Res(){} Res(std::vector<Ti>& l,std::vector<Ti>& o):d(l,o){} Res(std::vector<Ti>&& l,std::vector<Ti>&& o):d(std::move(l),std::move(o)){}
  void rows(row_sink s,void* ctx) override { std::vector<int> row; size_t n=d.size(); for(size_t i=0;i<n;i++){ row.clear(); size_t m=d[i].size(); for(size_t j=0;j<m;j++){ Ti x=d[i][j]; row.push_back((int)x==x?(int)x:-77); } { sim::Scope sc; s(ctx,i,n,row.data(),row.size()); } } }
  void save(const std::string& p) override { d.savetxt(p); }
  void print() override { d.print(); }
};
template<class Ti> Result* tess(Pts* p,const TessArgs* a,TgtStatus* st,votess::vtargs& g){
  Res<Ti>* out=new Res<Ti>;
  guarded(st,[&]{
    if(p->dbl) out->d = a->device ? votess::tesellate<Ti,double>(p->d,g,votess::device::gpu) : votess::tesellate<Ti,double>(p->d,g);
    else out->d = a->device ? votess::tesellate<Ti,float>(p->f,g,votess::device::gpu) : votess::tesellate<Ti,float>(p->f,g,votess::device::cpu);
  });
  if(st->exc){ delete out; return nullptr; }
  return out;
}
}
extern "C" {
int tgt_index_types(){
#ifdef SIM_ALL_INDEX_TYPES
  return 3;
#else
  return 1;
#endif
}
void* tgt_points(int dbl,int ti,const double* x,size_t n){ Pts* p=new Pts; p->dbl=dbl; p->ti=ti;
  if(dbl){ p->d.resize(n); for(size_t i=0;i<n;i++) for(int c=0;c<3;c++) p->d[i][c]=x[3*i+c]; }
  else { p->f.resize(n); for(size_t i=0;i<n;i++) for(int c=0;c<3;c++) p->f[i][c]=(float)x[3*i+c]; } return p; }
void tgt_points_set(void* v,const double* x,size_t n){ Pts* p=(Pts*)v; if(p->dbl){ p->d.resize(n); for(size_t i=0;i<n;i++) for(int c=0;c<3;c++) p->d[i][c]=x[3*i+c]; } else { p->f.resize(n); for(size_t i=0;i<n;i++) for(int c=0;c<3;c++) p->f[i][c]=(float)x[3*i+c]; } }
void tgt_points_get(void* v,double* x){ Pts* p=(Pts*)v; if(p->dbl) for(size_t i=0;i<p->d.size();i++) for(int c=0;c<3;c++) x[3*i+c]=p->d[i][c]; else for(size_t i=0;i<p->f.size();i++) for(int c=0;c<3;c++) x[3*i+c]=p->f[i][c]; }
size_t tgt_points_size(void* v){ Pts* p=(Pts*)v; return p->dbl?p->d.size():p->f.size(); }
void* tgt_points_raw(void* v,size_t* b){ Pts* p=(Pts*)v; if(p->dbl){ *b=p->d.size()*sizeof(p->d[0]); return p->d.data(); } *b=p->f.size()*sizeof(p->f[0]); return p->f.data(); }
void tgt_points_free(void* v){ delete (Pts*)v; }
static void fill(votess::vtargs& g,const TessArgs* a){
  if(a->set&1) g["k"]=a->k;
  if(a->set&2) g["knn_grid_resolution"]=a->gr;
  if(a->set&4) g["cpu_nthreads"]=a->nthreads;
  if(a->set&8) g["use_chunking"]=(bool)a->chunking;
  if(a->set&16) g["chunksize"]=a->chunksize;
  if(a->set&32) g["use_recompute"]=(bool)a->recompute;
  if(a->set&64) g["cc_p_maxsize"]=a->p;
  if(a->set&128) g["cc_t_maxsize"]=a->t;
  if(a->set&256) g["gpu_ndsize"]=a->ndsize;
  if(a->set&512) g["dev_suppress_stdout"]=(bool)a->suppress;
}
void* tgt_args(const TessArgs* a){ votess::vtargs* g=new votess::vtargs; fill(*g,a); return g; }
void* tgt_tess(void* v,const TessArgs* a,TgtStatus* st,void* args){
  Pts* p=(Pts*)v; votess::vtargs own; if(!args) fill(own,a);
  votess::vtargs& g=args?*(votess::vtargs*)args:own;
#ifdef SIM_ALL_INDEX_TYPES
  if(p->ti==1) return tess<long>(p,a,st,g);
  if(p->ti==2) return tess<short>(p,a,st,g);
#endif
  return tess<int>(p,a,st,g);
}
void* tgt_make(const int* l,size_t nl,const int* o,size_t no){ std::vector<int> list, offs; if(nl%2){ list.reserve(2*nl+5); offs.reserve(2*no+5); } list.assign(l,l+nl); offs.assign(o,o+no); if(nl%3==0){ Result* q=new Res<int>(list,offs); for(int& x:list) x=-5; for(int& x:offs) x=-5; return q; } return new Res<int>(std::move(list),std::move(offs)); }
void tgt_rows(void* r,row_sink s,void* ctx){ ((Result*)r)->rows(s,ctx); }
void tgt_save(void* r,const char* path,TgtStatus* st){ std::string p(path); guarded(st,[&]{ ((Result*)r)->save(p); }); }
void tgt_print(void* r,TgtStatus* st){ guarded(st,[&]{ ((Result*)r)->print(); }); }
void tgt_free(void* r){ delete (Result*)r; }
void* tgt_vt(void* c){ return c?new votess::vtargs(*(const votess::vtargs*)c):new votess::vtargs; }
void tgt_vt_set(void* vt,const char* key,int type,long long v,TgtStatus* st){ votess::vtargs& g=*(votess::vtargs*)vt; std::string k(key); guarded(st,[&]{ switch(type){ case 0: g[k]=(int)v; break; case 1: g[k]=(bool)v; break; case 2: g[k]=(size_t)v; break; case 3: g[k]=v; break; case 4: g[k]=(short)v; break; case 5: g[k]="abc"; break; default: g[k]=std::string("x1"); } }); }
long long tgt_vt_get(void* vt,const char* key,int type,TgtStatus* st){ const votess::vtargs& g=*(const votess::vtargs*)vt; votess::vtargs& h=*(votess::vtargs*)vt; std::string k(key); long long r=0; guarded(st,[&]{ switch(type){ case 0: r=g[k].get<int>(); break; case 1: r=g[k].get<bool>(); break; case 2: r=(long long)g[k].get<size_t>(); break; case 3: r=g[k].get<long long>(); break; case 4: { int x=g[k]; r=x; break; } default: { int x=h[k]; r=x; } } }); return r; }
}
