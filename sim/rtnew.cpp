// operator new and delete of the whole process.  rt.o's own references are
// redirected to rt_new/rt_delete (build.sh): the simulator's bookkeeping is
// neither a scheduling point nor a fault point of the code under test.
#include <cstdlib>
#include <new>
void* sim_nw(size_t n,size_t al,bool nothrow); void sim_dl(void* p,void* pc);
extern "C" void* rt_new(size_t n){ void* p=malloc(n?n:1); if(!p) abort(); return p; }
extern "C" void rt_delete(void* p){ free(p); }
extern "C" void rt_delete_n(void* p,size_t){ free(p); }
void* operator new(size_t n){ return sim_nw(n,16,false); }
void* operator new[](size_t n){ return sim_nw(n,16,false); }
void* operator new(size_t n,const std::nothrow_t&) noexcept { return sim_nw(n,16,true); }
void* operator new[](size_t n,const std::nothrow_t&) noexcept { return sim_nw(n,16,true); }
void* operator new(size_t n,std::align_val_t a){ return sim_nw(n,(size_t)a,false); }
void* operator new[](size_t n,std::align_val_t a){ return sim_nw(n,(size_t)a,false); }
void operator delete(void* p) noexcept { sim_dl(p,__builtin_return_address(0)); }
void operator delete[](void* p) noexcept { sim_dl(p,__builtin_return_address(0)); }
void operator delete(void* p,size_t) noexcept { sim_dl(p,__builtin_return_address(0)); }
void operator delete[](void* p,size_t) noexcept { sim_dl(p,__builtin_return_address(0)); }
void operator delete(void* p,const std::nothrow_t&) noexcept { sim_dl(p,__builtin_return_address(0)); }
void operator delete[](void* p,const std::nothrow_t&) noexcept { sim_dl(p,__builtin_return_address(0)); }
void operator delete(void* p,std::align_val_t) noexcept { sim_dl(p,__builtin_return_address(0)); }
void operator delete[](void* p,std::align_val_t) noexcept { sim_dl(p,__builtin_return_address(0)); }
void operator delete(void* p,size_t,std::align_val_t) noexcept { sim_dl(p,__builtin_return_address(0)); }
void operator delete[](void* p,size_t,std::align_val_t) noexcept { sim_dl(p,__builtin_return_address(0)); }

