// A simulated SYCL device: the API surface votess uses (and its near
// neighbourhood), executed by the simulator.  Work items, groups and commands
// are simulated threads; memory starts with whatever the plan says.
#pragma once
#include <algorithm>
#include <array>
#include <atomic>
#include <cmath>
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <exception>
#include <functional>
#include <iostream>
#include <limits>
#include <memory>
#include <sstream>
#include <stdexcept>
#include <string>
#include <system_error>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>
#include "../../rt.h"

namespace sycl {

enum class errc { success=0, runtime=1, kernel, accessor, nd_range, event, kernel_argument, build, invalid,
  memory_allocation, platform, profiling, feature_not_supported, kernel_not_supported, backend_mismatch };
class exception : public std::exception {
  std::string m; errc c;
 public:
  exception(errc e, const std::string& s="") : m(s), c(e) {}
  exception(std::error_code, const std::string& s="") : m(s), c(errc::runtime) {}
  const char* what() const noexcept override { return m.c_str(); }
  bool has_context() const noexcept { return false; }
  errc sim_code() const noexcept { return c; }
  std::error_code code() const noexcept { return std::error_code((int)c, std::generic_category()); }
};
using runtime_error = exception; using invalid_parameter_error = exception; using nd_range_error = exception;
using feature_not_supported = exception; using memory_allocation_error = exception;
class exception_list { std::vector<std::exception_ptr> v; public:
  size_t size() const { return v.size(); } auto begin() const { return v.begin(); } auto end() const { return v.end(); } void push(std::exception_ptr p){ v.push_back(p);} };
using async_handler = std::function<void(exception_list)>;

template<int D=1> struct id;
template<int D=1> struct range;
template<> struct range<1> { size_t v; range(size_t a=0):v(a){} size_t get(int) const { return v; } size_t& operator[](int){ return v; } size_t operator[](int) const { return v; } size_t size() const { return v; } };
template<> struct id<1> { size_t v; id(size_t a=0):v(a){} id(const range<1>& r):v(r.v){} size_t get(int) const { return v; } size_t& operator[](int){ return v; } size_t operator[](int) const { return v; } operator size_t() const { return v; } };
inline range<1> operator*(range<1> a,range<1> b){ return a.v*b.v; } inline range<1> operator*(range<1> a,size_t b){ return a.v*b; } inline range<1> operator+(range<1> a,size_t b){ return a.v+b; } inline range<1> operator/(range<1> a,size_t b){ return a.v/b; } inline bool operator==(range<1> a,range<1> b){ return a.v==b.v; }
range(size_t) -> range<1>; id(size_t) -> id<1>;
template<int D=1,bool O=true> struct item { size_t i,n; item(size_t a,size_t b):i(a),n(b){} size_t get_id(int) const { return i; } id<1> get_id() const { return id<1>(i); } size_t get_linear_id() const { return i; } size_t operator[](int) const { return i; } operator size_t() const { return i; } range<1> get_range() const { return range<1>(n); } size_t get_range(int) const { return n; } operator id<1>() const { return id<1>(i); } };
template<int D=1> struct nd_range { range<1> g,l; nd_range(range<1> a, range<1> b):g(a),l(b){} range<1> get_global_range() const { return g; } range<1> get_local_range() const { return l; } range<1> get_group_range() const { return range<1>(l.v?g.v/l.v:0); } };
namespace access {
 enum class mode { read=1024, write, read_write, discard_write, discard_read_write, atomic };
 enum class target { device=2014, global_buffer=2014, constant_buffer, local, host_buffer, host_task, image, host_image };
 enum class placeholder { false_t, true_t };
 enum class fence_space { local_space, global_space, global_and_local };
}
using access_mode = access::mode; using target = access::target;
enum class memory_scope { work_item, sub_group, work_group, device, system };
enum class memory_order { relaxed, acquire, release, acq_rel, seq_cst };
struct property_list { bool noinit=false, inorder=false; property_list(){} template<class...T,class=decltype(std::tuple<decltype(T::kind)...>())> property_list(T... t){ (add(t),...); } template<class T> void add(T t){ if(T::kind==1) noinit=true; if(T::kind==2) inorder=true; (void)t; } };
namespace property { struct no_init { static const int kind=1; }; 
 namespace queue { struct in_order { static const int kind=2; }; struct enable_profiling { static const int kind=0; }; }
 namespace buffer { struct use_host_ptr { static const int kind=0; }; struct use_mutex { static const int kind=0; }; struct context_bound { static const int kind=0; }; } }
inline constexpr property::no_init no_init{}; inline constexpr property::no_init noinit{};
template<access::mode M> struct mode_tag_t {}; template<access::mode M,access::target T> struct mode_target_tag_t {};
struct read_only_tag : mode_tag_t<access::mode::read> {}; struct write_only_tag : mode_tag_t<access::mode::write> {}; struct read_write_tag : mode_tag_t<access::mode::read_write> {};
inline constexpr mode_tag_t<access::mode::read> read_only{}; inline constexpr mode_tag_t<access::mode::write> write_only{}; inline constexpr mode_tag_t<access::mode::read_write> read_write{};

class handler; class queue; class event;
template<class T,int D=1,class A=void> class buffer;

namespace detail {
 inline bool is_noinit(const property_list& p){ return p.noinit; }
 template<class T> struct BufRef { // shared ownership of the simulated buffer
   sim::BufState* b=nullptr; size_t n=0;
   BufRef(){} BufRef(sim::BufState* x,size_t k):b(x),n(k){} BufRef(const BufRef& o):b(o.b),n(o.n){ if(b) sim::buf_addref(b); }
   BufRef& operator=(const BufRef& o){ if(o.b) sim::buf_addref(o.b); drop(); b=o.b; n=o.n; return *this; }
   ~BufRef(){ drop(); } void drop(){ if(b) sim::buf_release(b); b=nullptr; } };
}

template<class T,int D,access::mode M,access::target Tg=access::target::device,access::placeholder P=access::placeholder::false_t>
class accessor {
 public:
  using value_type=T; using reference=std::conditional_t<M==access::mode::read,const T&,T&>; 
  accessor(){}
  template<class A> accessor(buffer<T,D,A>& b, handler& h, const property_list& p={});
  template<class A,access::mode M2> accessor(buffer<T,D,A>& b, handler& h, mode_tag_t<M2>, const property_list& p={});
  template<class A,access::mode M2> accessor(buffer<T,D,A>& b, handler& h, range<1> r, mode_tag_t<M2>, const property_list& p={});
  template<class A,access::mode M2> accessor(buffer<T,D,A>& b, handler& h, range<1> r, id<1> o, mode_tag_t<M2>, const property_list& p={});
  bool empty() const { return n==0; } T* cbegin() const { return p; } T* cend() const { return p+n; } T* data() const { return p; } size_t byte_size() const { return n*sizeof(T); }
  reference operator[](size_t i) const { if(i>=n) sim::device_oob("accessor",i,n); return p[i]; }
  reference operator[](id<1> i) const { return (*this)[i.v]; }
  size_t size() const { return n; } range<1> get_range() const { return range<1>(n); } size_t get_count() const { return n; }
  T* get_pointer() const { return p; } template<class X=void> T* get_multi_ptr() const { return p; }
  T* begin() const { return p; } T* end() const { return p+n; }
 private:
  T* p=nullptr; size_t n=0;
  template<class A> void bind(buffer<T,D,A>& b, handler& h, const property_list& pl);
};

template<class T,int D=1> class local_accessor {
 public:
  local_accessor(){} local_accessor(range<1> r, handler& h);
  T& operator[](size_t i) const { if(i>=n) sim::device_oob("local accessor",i,n); return static_cast<T*>(sim::local_ptr(slot))[i]; }
  T& operator[](id<1> i) const { return (*this)[i.v]; }
  size_t size() const { return n; } T* get_pointer() const { return static_cast<T*>(sim::local_ptr(slot)); } template<class X=void> T* get_multi_ptr() const { return get_pointer(); } T* begin() const { return get_pointer(); } T* end() const { return get_pointer()+n; }
 private: size_t slot=0,n=0;
};

template<class T,int D=1,access::mode M=access::mode::read_write> class host_accessor {
  detail::BufRef<T> r; bool open=false;
  void init(const property_list& p){ if(sim::fault(sim::F_HOSTACC)) throw exception(errc::runtime,"simulated: mapping a buffer to the host failed"); sim::buf_host_open(r.b,M!=access::mode::read,p.noinit); if(sim::take_async()){ sim::buf_host_close(r.b); throw exception(errc::runtime,"simulated: a command failed on the device"); } open=true; }
 public:
  using reference=std::conditional_t<M==access::mode::read,const T&,T&>; using pointer=std::conditional_t<M==access::mode::read,const T*,T*>;
  template<class A> host_accessor(buffer<T,D,A>& b,const property_list& p={});
  template<class A> host_accessor(buffer<T,D,A>& b,mode_tag_t<M>,const property_list& p={});
  host_accessor(const host_accessor& o):r(o.r),open(o.open){ if(open) sim::buf_host_open(r.b,M!=access::mode::read,false); }
  host_accessor& operator=(const host_accessor&)=delete;
  ~host_accessor(){ if(open) sim::buf_host_close(r.b); }
  reference operator[](size_t i) const { if(i>=r.n) sim::device_oob("host accessor",i,r.n); return static_cast<T*>(sim::buf_data(r.b))[i]; }
  pointer begin() const { return static_cast<T*>(sim::buf_data(r.b)); } pointer end() const { return begin()+r.n; }
  pointer get_pointer() const { return begin(); } size_t size() const { return r.n; } range<1> get_range() const { return range<1>(r.n); } size_t get_count() const { return r.n; }
};

template<class T,int D,class A> class buffer {
 public:
  using value_type=T;
  explicit buffer(range<1> r,const property_list& ={}){ make(r.v,nullptr); }
  buffer(T* d,range<1> r,const property_list& ={}){ make(r.v,d); if(d) sim::buf_set_final(ref.b,d); }
  buffer(const T* d,range<1> r,const property_list& ={}){ make(r.v,d); }
  buffer(const std::shared_ptr<T>& d,range<1> r,const property_list& ={}){ make(r.v,d.get()); keep=d; sim::buf_set_final(ref.b,d.get()); }
  template<class It,class=typename std::iterator_traits<It>::value_type> buffer(It a,It b,const property_list& ={}){ sim::Scope s; std::vector<T> v(a,b); make(v.size(),v.data()); }
  buffer(std::vector<T>& v,const property_list& ={}){ make(v.size(),v.data()); sim::buf_set_final(ref.b,v.data()); }
  buffer(const std::vector<T>& v,const property_list& ={}){ make(v.size(),v.data()); }
  range<1> get_range() const { return range<1>(ref.n); } size_t size() const { return ref.n; } size_t get_count() const { return ref.n; } size_t get_size() const { return ref.n*sizeof(T); } size_t byte_size() const { return ref.n*sizeof(T); }
  host_accessor<T,D,access::mode::read_write> get_host_access(){ return host_accessor<T,D,access::mode::read_write>(*this); }
  template<access::mode M> host_accessor<T,D,M> get_host_access(mode_tag_t<M>,const property_list& p={}){ return host_accessor<T,D,M>(*this,p); }
  host_accessor<T,D,access::mode::read_write> get_host_access(property::no_init p){ return host_accessor<T,D,access::mode::read_write>(*this,property_list(p)); }
  template<access::mode M,access::target Tg=access::target::device> accessor<T,D,M,Tg> get_access(handler& h){ return accessor<T,D,M,Tg>(*this,h); }
  template<access::mode M> host_accessor<T,D,M> get_access(){ return host_accessor<T,D,M>(*this); }
  template<class P> void set_final_data(P p){ if constexpr(std::is_same_v<P,std::nullptr_t>) sim::buf_set_final(ref.b,nullptr); else sim::buf_set_final(ref.b,(void*)&*p); }
  void set_write_back(bool f=true){ if(!f) sim::buf_set_final(ref.b,nullptr); }
  detail::BufRef<T> ref; std::shared_ptr<T> keep;
 private:
  void make(size_t n,const void* d){ if(sim::fault(sim::F_BUFFER)) throw exception(errc::memory_allocation,"simulated: device allocation failed");
    if(n>(size_t)1<<28) throw exception(errc::memory_allocation,"simulated: buffer too large"); if(n==0) throw exception(errc::invalid,"simulated: zero-sized buffer");
    sim::BufState* b=sim::buf_new(n*sizeof(T),d); if(!b) throw exception(errc::memory_allocation,"simulated: device memory exhausted"); ref.b=b; ref.n=n; }
};
template<class T> buffer(T*,range<1>) -> buffer<T,1>; template<class T> buffer(const T*,range<1>) -> buffer<T,1>; template<class T> buffer(std::vector<T>&) -> buffer<T,1>; template<class T> buffer(const std::vector<T>&) -> buffer<T,1>;

template<class T,int D,class A> accessor(buffer<T,D,A>&,handler&) -> accessor<T,D,access::mode::read_write,access::target::device>;
template<class T,int D,class A,access::mode M> accessor(buffer<T,D,A>&,handler&,mode_tag_t<M>) -> accessor<T,D,M,access::target::device>;
template<class T,int D,class A,access::mode M,class P> accessor(buffer<T,D,A>&,handler&,mode_tag_t<M>,P) -> accessor<T,D,M,access::target::device>;
template<class T,int D,class A,access::mode M> accessor(buffer<T,D,A>&,handler&,range<1>,mode_tag_t<M>) -> accessor<T,D,M,access::target::device>;
template<class T,int D,class A,access::mode M,class P> accessor(buffer<T,D,A>&,handler&,range<1>,mode_tag_t<M>,P) -> accessor<T,D,M,access::target::device>;
template<class T,int D,class A,access::mode M> accessor(buffer<T,D,A>&,handler&,range<1>,id<1>,mode_tag_t<M>) -> accessor<T,D,M,access::target::device>;
template<class T,int D,class A> accessor(buffer<T,D,A>&,handler&,property::no_init) -> accessor<T,D,access::mode::read_write,access::target::device>;
template<class T,int D,class A> host_accessor(buffer<T,D,A>&) -> host_accessor<T,D,access::mode::read_write>;
template<class T,int D,class A,access::mode M> host_accessor(buffer<T,D,A>&,mode_tag_t<M>) -> host_accessor<T,D,M>;
template<class T,int D,class A,access::mode M,class P> host_accessor(buffer<T,D,A>&,mode_tag_t<M>,P) -> host_accessor<T,D,M>;
template<class T,int D,access::mode M> template<class A> host_accessor<T,D,M>::host_accessor(buffer<T,D,A>& b,const property_list& p):r(b.ref){ init(p); }
template<class T,int D,access::mode M> template<class A> host_accessor<T,D,M>::host_accessor(buffer<T,D,A>& b,mode_tag_t<M>,const property_list& p):r(b.ref){ init(p); }

template<int D=1> struct group { size_t g,l,n; size_t get_group_id(int) const { return g; } size_t get_id(int) const { return g; } size_t get_group_linear_id() const { return g; } size_t get_local_linear_range() const { return l; } size_t get_local_range(int) const { return l; } bool leader() const { return false; } };
template<int D=1> struct nd_item { size_t g,l,ls,gs;
  size_t get_global_linear_id() const { return g*ls+l; } size_t get_local_linear_id() const { return l; } size_t get_global_id(int) const { return g*ls+l; } id<1> get_global_id() const { return id<1>(g*ls+l); }
  size_t get_local_id(int) const { return l; } id<1> get_local_id() const { return id<1>(l); } size_t get_group(int) const { return g; } group<1> get_group() const { return {g,ls,gs}; } size_t get_group_linear_id() const { return g; }
  size_t get_local_range(int) const { return ls; } range<1> get_local_range() const { return range<1>(ls); } size_t get_global_range(int) const { return gs; } range<1> get_global_range() const { return range<1>(gs); } size_t get_group_range(int) const { return gs/ls; }
  void barrier(access::fence_space = access::fence_space::global_and_local) const { sim::group_barrier(); } };
template<class G> inline void group_barrier(const G&, memory_scope = memory_scope::work_group){ sim::group_barrier(); }

class event { public: uint64_t c=0; event(){} explicit event(uint64_t x):c(x){} void wait(){ sim::cmd_wait(c); if(sim::take_async()) throw exception(errc::runtime,"simulated: a command failed on the device"); } void wait_and_throw(){ wait(); } static void wait(const std::vector<event>& v){ for(auto e:v) e.wait(); } };

class handler {
 public:
  std::vector<sim::Req> reqs; std::vector<size_t> lbytes; std::vector<uint64_t> evs; uint64_t q=0; uint64_t cmd=0; bool used=false;
  template<class T,int D,access::mode M,access::target Tg,access::placeholder P> void require(accessor<T,D,M,Tg,P>){}
  void depends_on(event e){ sim::Scope s; evs.push_back(e.c); } void depends_on(const std::vector<event>& v){ for(auto e:v) depends_on(e); }
  template<class K> struct RangeCmd { K k; size_t n; size_t off; 
    static void run(void* p){ auto* c=static_cast<RangeCmd*>(p); sim::launch_range(c->n,&one,p); }
    static void one(void* p,size_t i){ auto* c=static_cast<RangeCmd*>(p); i+=c->off; if constexpr(std::is_invocable_v<K&,id<1>>) c->k(id<1>(i)); else if constexpr(std::is_invocable_v<K&,item<1>>) c->k(item<1>(i,c->n)); else c->k(i); }
    static void del(void* p){ delete static_cast<RangeCmd*>(p); } };
  template<class K> struct NdCmd { K k; size_t g,l; std::vector<size_t> lb;
    static void run(void* p){ auto* c=static_cast<NdCmd*>(p); sim::launch(c->l?c->g/c->l:0,c->l,c->lb.data(),c->lb.size(),&one,p); }
    static void one(void* p,size_t g,size_t l){ auto* c=static_cast<NdCmd*>(p); c->k(nd_item<1>{g,l,c->l,c->g}); }
    static void del(void* p){ delete static_cast<NdCmd*>(p); } };
  template<class K> struct TaskCmd { K k; static void run(void* p){ sim::launch_range(1,&one,p); } static void one(void* p,size_t){ static_cast<TaskCmd*>(p)->k(); } static void del(void* p){ delete static_cast<TaskCmd*>(p); } };
  void go(void(*run)(void*),void* ctx,void(*del)(void*)){ used=true; cmd=sim::cmd_submit(q,reqs.data(),reqs.size(),evs.data(),evs.size(),run,ctx,del); }
  template<class N=void,class K> void parallel_for(range<1> r,const K& k){ RangeCmd<K>* c; { sim::Scope s; c=new RangeCmd<K>{k,r.v,0}; } go(&RangeCmd<K>::run,c,&RangeCmd<K>::del); }
  template<class N=void,class K> void parallel_for(size_t n,const K& k){ parallel_for<N>(range<1>(n),k); }
  template<class N=void,class K> void parallel_for(nd_range<1> r,const K& k){
    if(r.l.v==0) throw exception(errc::nd_range,"simulated: local range is zero");
    if(r.g.v%r.l.v) throw exception(errc::nd_range,"simulated: global range is not a multiple of the local range");
    if(r.l.v>(size_t)sim::max_wg()) throw exception(errc::nd_range,"simulated: local range exceeds the device's maximum work-group size");
    NdCmd<K>* c; { sim::Scope s; c=new NdCmd<K>{k,r.g.v,r.l.v,lbytes}; } go(&NdCmd<K>::run,c,&NdCmd<K>::del); }
  template<class N=void,class K> void single_task(const K& k){ TaskCmd<K>* c; { sim::Scope s; c=new TaskCmd<K>{k}; } go(&TaskCmd<K>::run,c,&TaskCmd<K>::del); }
  template<class T,int D,access::mode M,access::target Tg,access::placeholder P> void fill(accessor<T,D,M,Tg,P> a,const T& v){ parallel_for(range<1>(a.size()),[=](id<1> i){ a[i]=v; }); }
  template<class T> void fill(void* p,const T& v,size_t n){ T* t=static_cast<T*>(p); T c=v; parallel_for(range<1>(n),[=](id<1> i){ t[i.v]=c; }); }
  void memset(void* p,int v,size_t n){ single_task([=]{ ::memset(p,v,n); }); } void memcpy(void* d,const void* s,size_t n){ single_task([=]{ ::memcpy(d,s,n); }); }
  template<class T> void copy(const T* s,T* d,size_t n){ memcpy(d,s,n*sizeof(T)); }
  template<class K> void host_task(const K& k){ single_task(k); } template<class A> void update_host(A){ single_task([]{}); }
  template<class A,class B> void copy(A a,B b){ if constexpr(std::is_pointer_v<A>){ size_t n=b.size(); single_task([=]{ for(size_t i=0;i<n;i++) b[i]=a[i]; }); } else if constexpr(std::is_pointer_v<B>){ size_t n=a.size(); single_task([=]{ for(size_t i=0;i<n;i++) b[i]=a[i]; }); } else { size_t n=a.size(); parallel_for(range<1>(n),[=](id<1> i){ b[i]=a[i]; }); } }
};
template<class T,int D,access::mode M,access::target Tg,access::placeholder P> template<class A>
void accessor<T,D,M,Tg,P>::bind(buffer<T,D,A>& b,handler& h,const property_list& pl){ sim::Scope s; p=static_cast<T*>(sim::buf_data(b.ref.b)); n=b.ref.n;
  h.reqs.push_back(sim::Req{b.ref.b, M!=access::mode::read, pl.noinit||M==access::mode::discard_write||M==access::mode::discard_read_write}); }
template<class T,int D,access::mode M,access::target Tg,access::placeholder P> template<class A>
accessor<T,D,M,Tg,P>::accessor(buffer<T,D,A>& b,handler& h,const property_list& pl){ bind(b,h,pl); }
template<class T,int D,access::mode M,access::target Tg,access::placeholder P> template<class A,access::mode M2>
accessor<T,D,M,Tg,P>::accessor(buffer<T,D,A>& b,handler& h,mode_tag_t<M2>,const property_list& pl){ bind(b,h,pl); }
template<class T,int D,access::mode M,access::target Tg,access::placeholder P> template<class A,access::mode M2>
accessor<T,D,M,Tg,P>::accessor(buffer<T,D,A>& b,handler& h,range<1> r,mode_tag_t<M2>,const property_list& pl){ bind(b,h,pl); if(r.v>n) throw exception(errc::invalid,"simulated: accessor range exceeds the buffer"); n=r.v; }
template<class T,int D,access::mode M,access::target Tg,access::placeholder P> template<class A,access::mode M2>
accessor<T,D,M,Tg,P>::accessor(buffer<T,D,A>& b,handler& h,range<1> r,id<1> o,mode_tag_t<M2>,const property_list& pl){ bind(b,h,pl); if(r.v+o.v>n) throw exception(errc::invalid,"simulated: accessor range exceeds the buffer"); n=r.v+o.v; }
template<class T,int D> local_accessor<T,D>::local_accessor(range<1> r,handler& h){ sim::Scope s; slot=h.lbytes.size(); n=r.v; h.lbytes.push_back(r.v*sizeof(T)); }

namespace info {
 enum class device_type { cpu, gpu, accelerator, custom, automatic, host, all };
 namespace device { struct name{using T=std::string;}; struct vendor{using T=std::string;}; struct version{using T=std::string;}; struct driver_version{using T=std::string;}; struct max_work_group_size{using T=size_t;}; struct preferred_vector_width_double{using T=uint32_t;}; struct preferred_vector_width_float{using T=uint32_t;};
  struct max_compute_units{using T=uint32_t;}; struct max_mem_alloc_size{using T=uint64_t;}; struct global_mem_size{using T=uint64_t;}; struct local_mem_size{using T=uint64_t;}; struct device_type{using T=info::device_type;}; struct max_clock_frequency{using T=uint32_t;}; }
 namespace platform { struct name{using T=std::string;}; struct vendor{using T=std::string;}; }
}
enum class aspect { cpu, gpu, fp64, fp16, accelerator, atomic64 };
class platform { public: template<class I> typename I::T get_info() const { return typename I::T("simulated"); } static std::vector<platform> get_platforms(){ return std::vector<platform>(1); } };
class device { public: bool gpu; explicit device(bool g=false):gpu(g){}
  template<class S,class=decltype(std::declval<S>()(std::declval<device>()))> explicit device(S):gpu(sim::ngpu()>0){}
  bool is_cpu() const { return !gpu; } bool is_gpu() const { return gpu; } bool is_accelerator() const { return false; } bool has(aspect a) const { return a==aspect::fp64||(a==aspect::gpu&&gpu)||(a==aspect::cpu&&!gpu); } platform get_platform() const { return platform(); }
  template<class I> typename I::T get_info() const { if constexpr(std::is_same_v<typename I::T,std::string>) return "simulated"; else if constexpr(std::is_same_v<I,info::device::max_work_group_size>) return sim::max_wg(); else if constexpr(std::is_same_v<I,info::device::device_type>) return gpu?info::device_type::gpu:info::device_type::cpu; else return typename I::T(1u<<30); }
  static std::vector<device> get_devices(info::device_type t=info::device_type::all){ if(sim::fault(sim::F_DEVENUM)) throw exception(errc::runtime,"simulated: device enumeration failed");
    std::vector<device> v; if(t==info::device_type::gpu||t==info::device_type::all) for(int i=0;i<sim::ngpu();i++) v.push_back(device(true)); if(t==info::device_type::cpu||t==info::device_type::all) v.push_back(device(false)); return v; } };
inline int default_selector_v(const device& d){ return d.is_gpu()?2:1; } inline int gpu_selector_v(const device& d){ return d.is_gpu()?1:-1; } inline int cpu_selector_v(const device& d){ return d.is_cpu()?1:-1; }
struct default_selector { int operator()(const device&) const { return 1; } }; struct gpu_selector { int operator()(const device& d) const { return d.is_gpu()?1:-1; } }; struct cpu_selector { int operator()(const device& d) const { return d.is_cpu()?1:-1; } };
class context { public: context(){} explicit context(const device&){} device get_device() const { return device(sim::ngpu()>0); } };

class queue {
  uint64_t q=0; device d; async_handler h;
  void make(const property_list& p){ if(sim::fault(sim::F_QUEUE)) throw exception(errc::runtime,"simulated: queue creation failed"); q=sim::queue_new(p.inorder); }
 public:
  explicit queue(const property_list& p={}):d(sim::ngpu()>0){ make(p); }
  explicit queue(const async_handler& a,const property_list& p={}):d(sim::ngpu()>0),h(a){ make(p); }
  explicit queue(const device& x,const property_list& p={}):d(x){ make(p); }
  queue(const device& x,const async_handler& a,const property_list& p={}):d(x),h(a){ make(p); }
  queue(const context&,const device& x,const property_list& p={}):d(x){ make(p); }
  template<class S,class=decltype(std::declval<S>()(std::declval<device>()))> explicit queue(const S& s,const property_list& p={}):d(pick(s)){ make(p); }
  template<class S,class=decltype(std::declval<S>()(std::declval<device>()))> queue(const S& s,const async_handler& a,const property_list& p={}):d(pick(s)),h(a){ make(p); }
  template<class S> static device pick(const S& s){ device best(false); int b=-1; bool any=false; for(auto& x:device::get_devices()){ int v=s(x); if(v>b){ b=v; best=x; any=true; } } if(!any) throw exception(errc::runtime,"simulated: no device matches"); return best; }
  device get_device() const { return d; } context get_context() const { return context(); } bool is_in_order() const { return false; }
  template<class F> event submit(F f){ if(sim::fault(sim::F_SUBMIT)) throw exception(errc::runtime,"simulated: submission failed"); handler h; h.q=q; f(h); { sim::Scope s; std::vector<sim::Req>().swap(h.reqs); } return event(h.cmd); }
  void report(){ if(!sim::take_async()) return; if(!h) throw exception(errc::runtime,"simulated: a command failed on the device"); exception_list l; l.push(std::make_exception_ptr(exception(errc::runtime,"simulated: a command failed on the device"))); h(l); }  // to the handler the caller gave, or as an exception
  void wait(){ sim::queue_wait(q); report(); }
  void wait_and_throw(){ wait(); } void throw_asynchronous(){ report(); }
  template<class N=void,class R,class K> event parallel_for(R r,const K& k){ return submit([&](handler& h){ h.template parallel_for<N>(r,k); }); }
  template<class T> event fill(void* p,const T& v,size_t n){ return submit([&](handler& h){ h.fill(p,v,n); }); } template<class T> event fill(void* p,const T& v,size_t n,event e){ return submit([&](handler& h){ h.depends_on(e); h.fill(p,v,n); }); }
  event memset(void* p,int v,size_t n){ return submit([&](handler& h){ h.memset(p,v,n); }); } event memcpy(void* d,const void* s,size_t n){ return submit([&](handler& h){ h.memcpy(d,s,n); }); } event memcpy(void* d,const void* s,size_t n,event e){ return submit([&](handler& h){ h.depends_on(e); h.memcpy(d,s,n); }); }
  template<class T> event copy(const T* s,T* d,size_t n){ return memcpy(d,s,n*sizeof(T)); }
  template<class N=void,class R,class K> event parallel_for(R r,event e,const K& k){ return submit([&](handler& h){ h.depends_on(e); h.template parallel_for<N>(r,k); }); } template<class N=void,class R,class K> event parallel_for(R r,const std::vector<event>& e,const K& k){ return submit([&](handler& h){ h.depends_on(e); h.template parallel_for<N>(r,k); }); }
  template<class N=void,class K> event single_task(const K& k){ return submit([&](handler& h){ h.template single_task<N>(k); }); }
};

// unified shared memory: blocks of the simulated heap, so bounds, lifetime and races are checked
namespace usm { enum class alloc { host, device, shared, unknown }; }
namespace detail { inline void* usm_alloc(size_t n){ if(sim::fault(sim::F_BUFFER)) return nullptr; try { return ::operator new(n?n:1); } catch(const std::bad_alloc&){ return nullptr; } } }
template<class T> T* malloc_device(size_t n,const queue&){ return static_cast<T*>(detail::usm_alloc(n*sizeof(T))); } template<class T> T* malloc_shared(size_t n,const queue&){ return static_cast<T*>(detail::usm_alloc(n*sizeof(T))); } template<class T> T* malloc_host(size_t n,const queue&){ return static_cast<T*>(detail::usm_alloc(n*sizeof(T))); }
inline void* malloc_device(size_t n,const queue&){ return detail::usm_alloc(n); } inline void* malloc_shared(size_t n,const queue&){ return detail::usm_alloc(n); } inline void* malloc_host(size_t n,const queue&){ return detail::usm_alloc(n); }
inline void free(void* p,const queue&){ ::operator delete(p); }

template<class T,class U> inline auto fmod(T a,U b){ return std::fmod(a,b); }
template<class T> inline T trunc(T a){ return std::trunc(a); } template<class T> inline T floor(T a){ return std::floor(a); } template<class T> inline T ceil(T a){ return std::ceil(a); } template<class T> inline T fabs(T a){ return std::fabs(a); } template<class T> inline T sqrt(T a){ return std::sqrt(a); }
template<class T> inline T min(T a,T b){ return b<a?b:a; } template<class T> inline T max(T a,T b){ return a<b?b:a; } template<class T> inline T clamp(T v,T a,T b){ return v<a?a:(b<v?b:v); } template<class T> inline T fmin(T a,T b){ return std::fmin(a,b); } template<class T> inline T fmax(T a,T b){ return std::fmax(a,b); }
template<class T> inline T fma(T a,T b,T c){ return std::fma(a,b,c); } template<class T> inline bool isnan(T a){ return std::isnan(a); } template<class T> inline bool isfinite(T a){ return std::isfinite(a); } template<class T> inline T rsqrt(T a){ return T(1)/std::sqrt(a); } template<class T> inline auto abs(T a){ return std::abs(a); } template<class T> inline T pow(T a,T b){ return std::pow(a,b); }
template<class T,memory_order O=memory_order::relaxed,memory_scope S=memory_scope::device,class Sp=void> class atomic_ref { T& r; public: explicit atomic_ref(T& x):r(x){} 
 T load(memory_order=O) const { return __atomic_load_n(&r,__ATOMIC_RELAXED); } void store(T v,memory_order=O) const { __atomic_store_n(&r,v,__ATOMIC_RELAXED); } T fetch_add(T v,memory_order=O) const { return __atomic_fetch_add(&r,v,__ATOMIC_RELAXED); } T fetch_sub(T v,memory_order=O) const { return __atomic_fetch_sub(&r,v,__ATOMIC_RELAXED); } T fetch_or(T v,memory_order=O) const { return __atomic_fetch_or(&r,v,__ATOMIC_RELAXED); } T operator++(int) const { return fetch_add(1); } operator T() const { return load(); } };
} // namespace sycl
