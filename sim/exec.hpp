// Runs plans: a fresh forked process per execution, the oracles inside it.
#pragma once
#include <algorithm>
#include <cerrno>
#include <climits>
#include <csignal>
#include <exception>
#include <fcntl.h>
#include <iostream>
#include <locale>
#include <map>
#include <set>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include "plan.hpp"
#include "ref.hpp"

typedef std::vector<std::vector<int>> Rows;
struct PropCfg { const char* id; int race, mem; int rows; int base_report; bool perm, structure, stdout_ck, exc_ok; };
// rows: 0 none, 1 exactly the baseline, 2 the baseline on robust rows (through coordinates), 3 the model on robust rows, 4 exact, only in serial runs
static const PropCfg props[] = {
 {"C01",0,0,1,1,false,false,false,false}, {"C02",0,0,1,0,false,false,false,false}, {"C03",0,0,3,1,false,false,false,false},
 {"C04",1,1,4,1,false,false,false,true }, {"C05",2,0,1,0,false,false,false,false}, {"C06",0,0,0,0,false,false,true ,true },
 {"C07",4,2,2,0,true ,true ,false,false}, {"C08",0,0,1,1,true ,true ,false,false}, {"C09",3,0,2,0,false,false,false,false},
 {"C10",0,0,2,0,true ,true ,true ,false}, {"C11",0,0,1,0,false,false,false,true }, {"C12",0,0,1,0,false,false,false,true },
 {"C13",0,0,0,0,false,false,false,true }, {"C14",4,2,0,1,false,false,false,false},
 {"C18",2,0,0,0,false,false,false,true }, {"C16",2,0,0,0,false,false,false,true }, {"C19",2,0,1,0,false,false,false,false},
 {"C20",1,1,1,0,true ,false,false,false}};
static const PropCfg& pcfg(const std::string& id){ for(auto& p:props) if(id==p.id) return p; fprintf(stderr,"unknown property %s\n",id.c_str()); exit(3); }

struct Expect { bool valid=false; int dbl=0; TessArgs a; std::vector<P3> in, pts; Rows rows, model; std::vector<char> robust, cap; uint64_t steps=0; };
struct OpOut { int exc; std::vector<P3> pts; Rows rows; uint64_t steps; };
struct RunRes { int kind=0; std::string cls, msg; uint64_t hash=0, steps=0, sig=0, switches=0, sim_ns=0; bool ok() const { return kind==0; } };

static sim::Shared* SH; static char* OUTB; static const size_t OUTCAP=48u<<20;
static bool g_verbose=false;
struct Stats { uint64_t runs=0, baselines=0, steps=0, sim_ns=0, switches=0, nthreads=0, peak=0, fired[sim::F_N]={0}, fcount[sim::F_N]={0}, probes[sim::P_N]={0}; };
static Stats G;

// ------------------------------------------------------------------ the child
namespace child {
static const Plan* P; static const std::vector<Expect>* E; static const PropCfg* PC; static bool collect; static int out_fd, err_fd, err_seen; static std::string err_text;
struct Kept { void* res=nullptr; Rows rows; }; static std::map<int,Kept> slots; static std::vector<void*> pts; struct Last { bool have=false; TessArgs a; Rows rows; }; static std::map<int,Last> last_of; static std::map<std::string,void*> arg_of; // the parameter objects calls share
static std::string arg_key(TessArgs a){ a.device=0; return std::string((const char*)&a,sizeof a); }
static bool shares_args(const Plan& p){ const std::string& q=p.prop; return q=="C07"||q=="C08"||q=="C10"||q=="C19"||(q=="C05"&&p.seed%2); }
 static std::vector<OpOut> outs; static int overlapping=0;
struct OwnBuf : std::streambuf { std::string s; int overflow(int c) override { sim::Scope z; if(c!=EOF){ s+=(char)c; } return c; } std::streamsize xsputn(const char* p,std::streamsize n) override { sim::Scope z; s.append(p,n); return n; } };
struct Grouping : std::numpunct<char> { char do_thousands_sep() const override { return ','; } std::string do_grouping() const override { return "\3"; } };
static OwnBuf* own; static std::streambuf* prev_buf; static std::streambuf* base_buf; static std::string sentinels;

static std::vector<P3> points(void* p){ std::vector<P3> v(tgt_points_size(p)); if(!v.empty()) tgt_points_get(p,v[0].data()); return v; }
static void rows_sink(void* c,size_t i,size_t n,const int* v,size_t m){ Rows& r=*(Rows*)c; if(r.size()<n) r.resize(n); r[i].assign(v,v+m); }
static std::string row_str(const std::vector<int>& r){ std::string s="{"; for(size_t i=0;i<r.size()&&i<40;i++) s+=(i?",":"")+std::to_string(r[i]); if(r.size()>40) s+=",..."; return s+"}"; }
static void check_perm(const std::vector<P3>& a,const std::vector<P3>& b,const char* when){ auto x=a,y=b; std::sort(x.begin(),x.end()); std::sort(y.begin(),y.end()); if(x!=y) sim::violation("points-changed","%s the points are no longer a permutation of what was passed (%zu points)",when,a.size()); }
static void check_struct(const Rows& r,size_t n){
  if(r.size()!=n) sim::violation("row-count","%zu rows for %zu points",r.size(),n);
  for(size_t i=0;i<n;i++){ std::set<int> s; for(int v:r[i]){ if(v<0||(size_t)v>=n) sim::violation("row-entry","row %zu holds %d, outside 0..%zu: %s",i,v,n-1,row_str(r[i]).c_str()); if((size_t)v==i) sim::violation("row-entry","row %zu lists the point itself: %s",i,row_str(r[i]).c_str()); if(!s.insert(v).second) sim::violation("row-entry","row %zu lists %d twice: %s",i,v,row_str(r[i]).c_str()); } }
  sim::probe(sim::P_ROWS_STRUCT,n); }
static void compare(const Expect& x,const std::vector<P3>& gp,const Rows& gr,int mode,const char* what){
  if(!x.valid) return;
  if(mode==1){
    if(gp!=x.pts) sim::violation("point-order","%s leaves the points in another order than the reference execution",what);
    if(gr.size()!=x.rows.size()) sim::violation("rows-differ","%s: %zu rows instead of %zu",what,gr.size(),x.rows.size());
    for(size_t i=0;i<gr.size();i++) if(gr[i]!=x.rows[i]) sim::violation("rows-differ","%s: row %zu is %s, the reference execution returns %s",what,i,row_str(gr[i]).c_str(),row_str(x.rows[i]).c_str());
    sim::probe(sim::P_ROWS_BASE,gr.size()); return; }
  const Rows& want=mode==3?x.model:x.rows; std::vector<int> to(gp.size());
  if(gp==x.pts) for(size_t i=0;i<gp.size();i++) to[i]=i;
  else { std::map<P3,int> m; for(size_t i=0;i<x.pts.size();i++) if(!m.insert({x.pts[i],(int)i}).second) return; if(gp.size()!=x.pts.size()) sim::violation("rows-differ","%s: number of points changed",what); for(size_t i=0;i<gp.size();i++){ auto it=m.find(gp[i]); if(it==m.end()) sim::violation("rows-differ","%s: point %zu is none of the points passed",what,i); to[i]=it->second; } }
  if(gr.size()!=gp.size()) sim::violation("rows-differ","%s: %zu rows for %zu points",what,gr.size(),gp.size());
  for(size_t i=0;i<gr.size();i++){ int e=to[i]; if(!x.robust[e]) continue; std::vector<int> g; bool bad=false; for(int v:gr[i]) if(v<0||(size_t)v>=to.size()) bad=true; else g.push_back(to[v]); std::vector<int> w=want[e]; std::sort(g.begin(),g.end()); std::sort(w.begin(),w.end());
    if(bad||g!=w) sim::violation("rows-differ","%s: row %zu is %s, %s %s",what,i,row_str(bad?gr[i]:g).c_str(),mode==3?"the Voronoi cell has the neighbours":"the reference execution returns",row_str(w).c_str());
    sim::probe(mode==3?sim::P_ROWS_MODEL:sim::P_ROWS_BASE); }
}
static void drain_err(){ char b[4096]; for(;;){ ssize_t r=read(err_fd,b,sizeof b); if(r<=0) break; err_text.append(b,r); } }
static std::string stdout_text(){ std::string s; char b[65536]; off_t o=0; for(;;){ ssize_t r=pread(out_fd,b,sizeof b,o); if(r<=0) break; s.append(b,r); o+=r; } return s; }

// "{ {1, 2, } {..} }" -> rows; false when the text is no such thing
static bool parse_print(const std::string& s,Rows& r){ r.clear(); int depth=0; std::string num; bool closed=false;
  auto flush=[&](){ if(num.empty()) return true; if(depth!=2) return false; char* e; long v=strtol(num.c_str(),&e,10); if(*e) return false; r.back().push_back((int)v); num.clear(); return true; };
  for(char c:s){ if(c=='{'){ if(closed||depth>=2||!num.empty()) return false; if(++depth==2) r.push_back({}); } else if(c=='}'){ if(depth<1||!flush()) return false; if(--depth==0) closed=true; } else if(c==','||c==' '||c=='\n'||c=='\t'){ if(!flush()) return false; } else if((c>='0'&&c<='9')||c=='-'){ if(depth!=2) return false; num+=c; } else return false; }
  return closed&&depth==0; }

static void cli_done(int rc){
  const Op& op=P->rounds[0].clients[0].ops[0]; const Expect& x=(*E)[0]; bool c12=P->prop=="C12";
  std::cout.flush(); fflush(stdout); sim::window(false); drain_err();
  std::string out=stdout_text(); bool benign=true, stdout_hit=false;
  for(int k:{sim::F_FOPEN,sim::F_READERR,sim::F_ALLOC,sim::F_THREAD}) if(sim::fired(k)) benign=false;
  for(auto& f:P->faults) if(f.kind==sim::F_STDOUT&&(int64_t)out.size()>=f.arg){ stdout_hit=true; SH->fired[sim::F_STDOUT]++; }
  sim::mix(rc); sim::mix(out.size()); SH->out_bytes=out.size();
  if(rc==0){ sim::probe(sim::P_CLI_OK);
    if(op.valid==0) sim::violation("corrupt-input-accepted","exit 0 for an input file that is not three coordinates in (0,1) per line; output %zu bytes",out.size());
    if(x.valid){ Rows r; bool ok=parse_print(out,r); bool empty=true; for(auto& q:x.rows) if(!q.empty()) empty=false;
      if(ok&&empty&&r.empty()) return;
      if(!ok) sim::violation(c12?"incomplete-output":"wrong-output","exit 0 but standard output (%zu bytes) is no complete result for the %zu points of the file; it ends with '%s'",out.size(),x.rows.size(),out.size()>60?esc(out.substr(out.size()-60)).c_str():esc(out).c_str());
      if(r.size()!=x.rows.size()) sim::violation(c12?"incomplete-output":"wrong-output","exit 0 but standard output holds %zu rows for the %zu points of the file",r.size(),x.rows.size());
      for(size_t i=0;i<r.size();i++) if(r[i]!=x.rows[i]) sim::violation("wrong-output","exit 0 but row %zu on standard output is %s, the library returns %s",i,row_str(r[i]).c_str(),row_str(x.rows[i]).c_str());
      sim::probe(sim::P_ROWS_BASE,r.size()); }
  } else { sim::probe(sim::P_CLI_ERR);
    if(op.valid==1&&benign&&!stdout_hit&&x.valid) sim::violation("valid-input-refused","exit %d for a valid input and no failing call; standard error: %s",rc,err_text.substr(0,300).c_str());
    if(!c12&&err_text.empty()&&!stdout_hit) sim::violation("silent-failure","exit %d with nothing on standard error",rc);
  }
}
struct PVal { bool known=false, junk=false, maybe=false, altjunk=false, lost=false; long long v=0, alt=0; }; static std::map<int,void*> vts; static std::map<std::pair<int,std::string>,PVal> pmodel;
struct Call { const Client* c; int first; };
static void run_op(const Op& op,int id){
  const Expect* x=E&&(size_t)id<E->size()?&(*E)[id]:nullptr; bool c06=PC->stdout_ck;
  (void)c06;
  if(op.kind==OP_TESS){
    void* ps=pts[op.set]; int64_t live[8]={0}; int nfail=0; bool exc_prev=true; int live_before=0;
    for(int at=0;at<op.attempts;at++){
      bool last=at==op.attempts-1; if(op.attempts>1) sim::rearm(!last);
      sim::set_op(1+id*4+std::min(at,3)); std::vector<P3> before=points(ps); TgtStatus st; uint64_t s0=sim::step_now();
      if(op.a.chunking) sim::probe(sim::P_CHUNKED); if(op.a.recompute) sim::probe(sim::P_RECOMPUTE); if(op.a.p<16||op.a.t<20) sim::probe(sim::P_TIGHT); if(op.a.device&&!sim::ngpu()) sim::probe(sim::P_FALLBACK); if(before.size()>=100) sim::probe(sim::P_BIG);
      if(overlapping++) sim::probe(sim::P_OVERLAP_CALLS);
      if(at==1&&P->cfg.ngpu2>=0) sim::set_ngpu(P->cfg.ngpu2); if(at==1) live_before=sim::live_threads();
      void* ao=nullptr; { auto it=arg_of.find(arg_key(op.a)); if(it!=arg_of.end()) ao=it->second; }
      void* res; { sim::Code c; res=tgt_tess(ps,&op.a,&st,ao); }
      overlapping--; bool fired=sim::op_fired(1+id*4+std::min(at,3))>0; uint64_t s1=sim::step_now();
      size_t nb; void* raw=tgt_points_raw(ps,&nb); sim::touch_write(raw,nb);
      std::vector<P3> after=points(ps); sim::mix(st.exc);
      if(PC->perm||collect) { if(PC->perm) check_perm(before,after,st.exc?"after a failed call":"after the call"); }
      if(P->prop=="C19"&&!op.valid){ if(!st.exc) sim::violation("invalid-accepted","a call with a coordinate outside (0,1) returns a result");
        if(before.size()!=after.size()||memcmp(before.data(),after.data(),before.size()*sizeof before[0])) sim::violation("points-changed","a refused call changed the caller's points"); sim::probe(sim::P_REFUSED); }
      if(P->prop=="C20"&&!op.valid&&st.exc) sim::probe(sim::P_REFUSED);
      if(st.exc){ sim::probe(sim::P_EXC); nfail++;
        last_of[op.set].have=false;
        if(!fired&&!PC->exc_ok&&op.valid) sim::violation("exception","a call with valid points and parameters throws without any injected fault: %s",st.what);
        if(collect){ OpOut o; o.exc=st.exc; o.pts=after; o.steps=s1-s0; outs.push_back(o); }
        exc_prev=true; if(at<8) live[at]=sim::live_bytes(); continue; }
      exc_prev=false; Rows rows; { sim::Code c; tgt_rows(res,rows_sink,&rows); }
      for(auto& r:rows) for(int v:r) sim::mix(v);
      if(collect){ OpOut o; o.exc=0; o.pts=after; o.rows=rows; o.steps=s1-s0; outs.push_back(o); }
      if((PC->structure&&op.valid)||(P->prop=="C20"&&!op.valid)) check_struct(rows,before.size());
      if(x&&!collect){ int m=PC->rows; if(m==4) m=P->cfg.strategy==sim::S_NONE&&P->sw.empty()?1:0; if(m==2&&after==x->pts&&!op.a.device) m=1; if((P->prop=="C08"||P->prop=="C19"||P->prop=="C20")&&before!=x->in) m=2; if(m) compare(*x,after,rows,m,op.a.device&&sim::ngpu()?"the device path":"the call"); }
      if(fired) sim::probe(sim::P_RETRY_OK,0); if(op.attempts>1&&last) sim::probe(sim::P_RETRY_OK);
      Kept& k=slots[op.slot];
      if(P->prop=="C08"){ auto& l=last_of[op.set]; TessArgs z=op.a; if(l.have&&l.a.gr==z.gr){ if(before!=after) sim::violation("not-idempotent","tessellating the already tessellated points again with the same grid moves them"); if(!memcmp(&l.a,&z,sizeof z)&&l.rows!=rows) sim::violation("not-idempotent","tessellating the same points again with the same parameters returns other rows"); } l.have=true; l.a=z; l.rows=rows; }
      if(k.res){ sim::Code c; tgt_free(k.res); } k.res=res; k.rows=rows;
      if(op.attempts>1){ sim::Code c; tgt_free(res); k.res=nullptr; }
      if(at<8) live[at]=sim::live_bytes();
    }
    (void)exc_prev;
    if(op.attempts>=4&&P->prop=="C07"){ // three attempts with the same faults
      bool f=sim::op_fired(1+id*4)&&sim::op_fired(1+id*4+1)&&sim::op_fired(1+id*4+2);
      if(f&&live[1]>live[0]&&live[2]>live[1]) sim::violation("leak","every failing attempt leaks: %ld, %ld, %ld bytes live after three of them",(long)live[0],(long)live[1],(long)live[2]);
      sim::quiesce(); if(sim::live_threads()>live_before) sim::violation("worker-left","%d threads of failed attempts are still there",sim::live_threads()-live_before); }
  } else if(op.kind==OP_MOVE){ std::vector<P3> v=points(pts[op.set]); move_points(v,op.list,P->sets[op.set].dbl); { sim::Code c; tgt_points_set(pts[op.set],v.empty()?nullptr:v[0].data(),v.size()); } last_of[op.set].have=false; for(auto& q:v) sim::mix((uint64_t)(q[0]*1e9));
  } else if(op.kind==OP_MAKE){ Kept& k=slots[op.slot]; { sim::Code c; k.res=tgt_make(op.list.data(),op.list.size(),op.offs.data(),op.offs.size()); } k.rows.clear(); for(size_t i=0;i+1<op.offs.size();i++) k.rows.push_back(std::vector<int>(op.list.begin()+op.offs[i],op.list.begin()+op.offs[i+1])); }
  else if(op.kind==OP_SAVE){ Kept& k=slots[op.slot]; if(!k.res) return; TgtStatus st; drain_err(); size_t e0=err_text.size(); sim::set_op(1+id*4); { sim::Code c; tgt_save(k.res,op.path.c_str(),&st); } drain_err();
    bool reported=st.exc||err_text.size()>e0, fired=sim::op_fired(1+id*4)>0; std::string data; bool have=sim::fs_get(op.path.c_str(),[](void* c,const char* p,size_t n){ ((std::string*)c)->append(p,n); },&data); sim::mix(data.size()); sim::mix(reported);
    bool whole=have; std::string why="no file"; Rows r; if(have){ std::string l; std::istringstream in(data); bool nl=data.empty()||data.back()=='\n'; while(std::getline(in,l)){ std::istringstream q(l); std::vector<int> v; std::string w; while(q>>w){ char* e; long z=strtol(w.c_str(),&e,10); if(*e){ whole=false; why="not a list of numbers"; } v.push_back((int)z); } r.push_back(v); }
      if(!nl){ whole=false; why="last line cut short"; } else if(r!=k.rows){ if(!(k.rows.empty()&&r.size()<=1&&(r.empty()||r[0].empty()))){ whole=false; why=std::to_string(r.size())+" lines for "+std::to_string(k.rows.size())+" rows"; for(size_t i=0;i<r.size()&&i<k.rows.size();i++) if(r[i]!=k.rows[i]){ why="line "+std::to_string(i)+" is "+row_str(r[i])+", the row is "+row_str(k.rows[i])+" ("+why+")"; break; } } } }
    bool benign=true; for(int q:{sim::F_FOPEN,sim::F_DISKFULL,sim::F_WRITEERR,sim::F_CLOSEERR,sim::F_ALLOC,sim::F_RENAME}) if(sim::fired(q)) benign=false; for(auto& f:P->files) if(f.dir&&f.path==op.path) benign=false; if(op.path.find("/missing/")!=std::string::npos) benign=false;
    if(whole&&!reported) sim::probe(sim::P_SAVE_OK); if(reported) sim::probe(sim::P_SAVE_ERR);
    if(!whole&&benign) sim::violation("wrong-file","the saved file is not the result although no call failed: %s",why.c_str());
    if(!whole&&!reported) sim::violation("silent-truncation","the saved file is incomplete (%s, %zu bytes) and nothing was reported",why.c_str(),data.size());
    if(reported&&benign) sim::violation("false-report","savetxt reports a failure although every call succeeded: %s%s",st.what,err_text.substr(e0,200).c_str()); (void)fired;
  } else if(op.kind==OP_READ){ Kept& k=slots[op.slot]; if(!k.res) return; sim::set_op(1+id*4); Rows r; { sim::Code c; tgt_rows(k.res,rows_sink,&r); } if(overlapping++) sim::probe(sim::P_OVERLAP_CALLS); overlapping--; if(r!=k.rows) sim::violation("rows-differ","a row read while other threads use the result is not the row of the result"); sim::probe(sim::P_ROWS_BASE,r.size());
  } else if(op.kind==OP_PARAM){ sim::set_op(1+id*4); TgtStatus st; int obj=op.slot; auto vt=[&](int o)->void*&{ return vts[o]; }; if(!vt(obj)){ sim::Code c; vt(obj)=tgt_vt(nullptr); }
    auto val=[&]{ return (long long)((uint64_t)(uint32_t)op.list[1]|(uint64_t)(uint32_t)op.list[2]<<32); }; bool fired; std::string ks=op.path; auto key=std::make_pair(obj,ks);
    if(op.set==0){ long long v=val(); { sim::Code c; tgt_vt_set(vt(obj),ks.c_str(),op.list[0],v,&st); } fired=sim::op_fired(1+id*4)>0; PVal n; n.known=true; n.junk=op.list[0]>=5; n.v=op.list[0]==1?(v!=0):v; PVal& m=pmodel[key];
      if(st.exc){ if(!fired) sim::violation("param-refused","setting %s throws although nothing failed: %s",ks.c_str(),st.what); sim::probe(sim::P_EXC); if(!m.known){ m.known=false; m.maybe=false; m.lost=true; } else { m.maybe=true; m.alt=n.v; m.altjunk=n.junk; } } else m=n; }
    else if(op.set==1){ long long g; { sim::Code c; g=tgt_vt_get(vt(obj),ks.c_str(),op.list[0],&st); } fired=sim::op_fired(1+id*4)>0; auto it=pmodel.find(key); if(overlapping++) sim::probe(sim::P_OVERLAP_CALLS); overlapping--; if(it==pmodel.end()||!it->second.known||it->second.lost){ if(st.exc&&!fired&&it==pmodel.end()&&op.list[0]!=1) sim::violation("param-lost","reading %s, which has its default value, throws: %s",ks.c_str(),st.what); return; }
      const PVal& m=it->second; auto agrees=[&](long long v,bool junk){ int t=op.list[0]; bool fits=!junk; if(t==0||t>=4) fits=fits&&v>=INT_MIN&&v<=INT_MAX; if(t==1) fits=fits&&(v==0||v==1); if(t==2&&v<0) return true; if(st.exc) return !fits||fired; return fits&&g==v; };
      if(!agrees(m.v,m.junk)&&!(m.maybe&&agrees(m.alt,m.altjunk))) sim::violation("param-changed","%s was set to %s%lld and reads %s%lld as type %d",ks.c_str(),m.junk?"text ":"",m.v,st.exc?"an exception ":"",g,op.list[0]); sim::probe(sim::P_ROWS_BASE); }
    else if(op.set==2){ int to=op.list[0]; if(to==obj) return; void* n; { sim::Code c; n=tgt_vt(vt(obj)); } vt(to)=n; for(auto i=pmodel.begin();i!=pmodel.end();) if(i->first.first==to) i=pmodel.erase(i); else ++i; std::map<std::pair<int,std::string>,PVal> add; for(auto& e:pmodel) if(e.first.first==obj) add[{to,e.first.second}]=e.second; pmodel.insert(add.begin(),add.end()); }
    else if(op.set==3){ { sim::Code c; if(op.list[0]) tgt_vt_set(vt(obj),ks.c_str(),0,1,&st); else tgt_vt_get(vt(obj),ks.c_str(),0,&st); } if(!st.exc) sim::violation("unknown-accepted","the unknown parameter name '%s' is accepted",ks.c_str()); sim::probe(sim::P_REFUSED); }
    else std::locale::global(op.list[0]?std::locale(std::locale::classic(),new Grouping):std::locale::classic());
  } else if(op.kind==OP_PRINT){ Kept& k=slots[op.slot]; if(!k.res) return; TgtStatus st; sim::Code c; tgt_print(k.res,&st); }
  else if(op.kind==OP_CLI){ static char* av[64]; int ac=0; for(auto& s:op.argv) av[ac++]=strdup(s.c_str()); av[ac]=nullptr; int rc; sim::set_op(1);
    { sim::Code c; sim::window(true); rc=votess_cli_main(ac,av); } sim::window(false); cli_done(rc); }
}
static void client_main(void* v){ Call* c=(Call*)v; int id=c->first; for(auto& op:c->c->ops){ run_op(op,id); id++; } }

struct FmtState { std::ios_base::fmtflags f; std::streamsize w,p; char fill; std::streambuf* b; std::ios_base::iostate st; };
static FmtState fmt(){ return {std::cout.flags(),std::cout.width(),std::cout.precision(),std::cout.fill(),std::cout.rdbuf(),std::cout.rdstate()}; }
static std::string sentinel(int i){ char b[64]; snprintf(b,sizeof b,"[sentinel %d %d]\n",i,i*37+11); return b; }
static bool all_suppressed(){ for(auto& r:P->rounds) for(auto& c:r.clients) for(auto& o:c.ops){ if(o.kind==OP_TESS&&!o.a.suppress&&(o.a.set&512)) return false; if(o.kind==OP_PRINT||o.kind==OP_CLI) return false; } return true; }
static void check_stdout(int printed){
  std::cout.flush(); fflush(stdout); std::string s=own?own->s:stdout_text(); std::string rest=own?stdout_text():"";
  std::string all; for(int i=0;i<printed;i++) all+=sentinel(i);
  if(own&&!rest.empty()&&all_suppressed()) sim::violation("stdout","text appears on standard output although the program redirected it: '%s'",esc(rest.substr(0,200)).c_str());
  if(all_suppressed()){ if(s!=all) sim::violation("stdout","standard output should hold exactly the program's %d lines; it holds '%s'",printed,esc(s.substr(0,300)).c_str()); return; }
  size_t pos=0; for(int i=0;i<printed;i++){ std::string t=sentinel(i); size_t a=s.find(t,pos); if(a==std::string::npos) sim::violation("stdout","line %d written by the program after the calls is missing from standard output or out of order; output is %zu bytes ending '%s'",i,s.size(),s.size()>120?esc(s.substr(s.size()-120)).c_str():esc(s).c_str()); pos=a+t.size(); if(s.find(t,pos)!=std::string::npos) sim::violation("stdout","line %d written by the program appears twice",i); }
}
static void on_signal(int sig,siginfo_t* si,void*){ signal(sig,SIG_DFL); sim::violation("crash","signal %d (%s) at address %p by thread t%d",sig,strsignal(sig),sig==SIGABRT?nullptr:si->si_addr,sim::cur_tid()); }
static void on_cpu(int){ uint64_t n=sim::step_now(); if(n<20000000) sim::violation("hang","the processor time limit was reached after %lu steps, inside code that makes no more of them",(unsigned long)n); sim::inconclusive("the processor time limit was reached"); }
static void on_terminate(){ const char* w="no exception"; std::string s; if(auto e=std::current_exception()){ try{ std::rethrow_exception(e); } catch(const std::exception& x){ s=x.what(); w=s.c_str(); } catch(...){ w="unknown"; } } sim::violation("terminate","std::terminate called by thread t%d (%s)",sim::cur_tid(),w); }
static void put_out(){ char* p=OUTB; auto w=[&](const void* d,size_t n){ if(p+n>OUTB+OUTCAP) sim::harness_error("result buffer full"); memcpy(p,d,n); p+=n; }; auto u=[&](uint64_t v){ w(&v,8); };
  u(outs.size()); for(auto& o:outs){ u(o.exc); u(o.steps); u(o.pts.size()); for(auto& q:o.pts) w(q.data(),24); u(o.rows.size()); for(auto& r:o.rows){ u(r.size()); if(!r.empty()) w(r.data(),r.size()*4); } } }
static void main_(){
  signal(SIGXFSZ,SIG_IGN); signal(SIGPIPE,SIG_IGN); struct rlimit rl={70,80}; signal(SIGXCPU,on_cpu); setrlimit(RLIMIT_CPU,&rl); rl={0,0}; setrlimit(RLIMIT_CORE,&rl); alarm(300);
  out_fd=memfd_create("stdout",0); int pp[2]; if(pipe2(pp,O_NONBLOCK)) _exit(9); err_fd=pp[0];
  fflush(stdout); dup2(out_fd,1); dup2(pp[1],2); lseek(1,0,SEEK_SET);
  struct sigaction sa{}; sa.sa_sigaction=on_signal; sa.sa_flags=SA_SIGINFO; for(int s:{SIGSEGV,SIGBUS,SIGFPE,SIGILL,SIGABRT}) sigaction(s,&sa,nullptr);
  std::set_terminate(on_terminate);
  sim::Config c=P->cfg; c.faults=P->faults.data(); c.nfaults=P->faults.size(); c.replay=P->sw.data(); c.nreplay=P->sw.size();
  sim::start(c,SH);
  for(auto& f:P->files) if(f.dir) sim::fs_dir(f.path.c_str()); else sim::fs_put(f.path.c_str(),f.data.data(),f.data.size());
  for(auto& f:P->faults) if(f.kind==sim::F_STDOUT){ if(f.arg==0){ int d=open("/dev/full",O_WRONLY); if(d>=0) dup2(d,1); } else { rl={(rlim_t)f.arg,(rlim_t)f.arg}; setrlimit(RLIMIT_FSIZE,&rl); } }
  for(auto& s:P->sets){ sim::Code cc; pts.push_back(tgt_points(s.dbl,s.ti,s.p.empty()?nullptr:s.p[0].data(),s.p.size())); }
  if(P->prop=="C16") for(int i=0;i<3;i++){ sim::Code cc; vts[i]=tgt_vt(nullptr); }
  if(P->loc==1||P->loc==2) std::locale::global(std::locale(std::locale::classic(),new Grouping));
  if(shares_args(*P)) for(auto& r:P->rounds) for(auto& c:r.clients) for(auto& o:c.ops) if(o.kind==OP_TESS){ void*& q=arg_of[arg_key(o.a)]; if(!q){ sim::Code cc; q=tgt_args(&o.a); } }
  if(P->loc==2) std::locale::global(std::locale::classic()); if(P->loc==3) std::locale::global(std::locale(std::locale::classic(),new Grouping));
  if(P->own_buf){ own=new OwnBuf; prev_buf=std::cout.rdbuf(own); }
  if(P->seed%3==1&&PC->stdout_ck){ std::cout.setf(std::ios::hex,std::ios::basefield); std::cout.precision(9); std::cout.fill('*'); }
  FmtState f0=fmt(); int printed=0, first=0;
  auto say=[&](){ if(PC->stdout_ck){ if(printed&&fmt().w!=f0.w) std::cout.width(0); std::cout<<sentinel(printed); printed++; if(printed%2) std::cout.flush(); } };
  say();
  for(auto& r:P->rounds){ std::vector<Call> calls; std::vector<sim::Th*> ts; for(auto& cl:r.clients){ calls.push_back({&cl,first}); first+=cl.ops.size(); }
    for(size_t i=0;i<calls.size();i++) ts.push_back(sim::spawn(client_main,&calls[i],"caller"));
    for(auto* t:ts) sim::join(t);
    if(PC->stdout_ck){ FmtState f=fmt(); if(f.b!=f0.b) sim::violation("stdout","after the calls std::cout has another buffer than before"); if(f.st!=f0.st) sim::violation("stdout","after the calls std::cout is in state %d",(int)f.st); if(f.f!=f0.f||f.p!=f0.p||f.fill!=f0.fill||f.w!=f0.w) sim::violation("stdout","the calls changed the formatting state of std::cout"); }
    say(); }
  sim::quiesce();
  if(P->prop=="C14"||P->prop=="C07") if(sim::live_threads()>1) sim::violation("worker-left","%d threads are left behind after every call returned",sim::live_threads()-1);
  if(PC->stdout_ck) check_stdout(printed);
  if(P->prop=="C08"||P->prop=="C05"||P->prop=="C18") for(auto& k:slots) if(k.second.res){ Rows again; { sim::Code cc; tgt_rows(k.second.res,rows_sink,&again); } if(again!=k.second.rows) sim::violation("result-changed","a result kept by the caller changed during later calls"); }
  if(own){ std::cout.rdbuf(prev_buf); }
  if(collect) put_out();
  sim::finish_ok();
}
} // namespace child
extern "C" void sim_exit(int rc){ // exit() called by the code under test
  sim::Scope s; sim::window(false);
  if(child::P->rounds[0].clients[0].ops[0].kind==OP_CLI){ child::cli_done(rc); sim::finish_ok(); }
  sim::violation("exit","the library called exit(%d)",rc); }

extern "C" void sim__exit(int rc){ sim_exit(rc); } extern "C" void sim__Exit(int rc){ sim_exit(rc); } extern "C" void sim_quick_exit(int rc){ sim_exit(rc); }

// ------------------------------------------------------------------ the parent
static RunRes run_child(const Plan& p,const std::vector<Expect>* e,bool collect,std::vector<OpOut>* out){
  memset((void*)SH,0,offsetof(sim::Shared,log)); fflush(stdout); fflush(stderr);
  static int nth=0; nth++; const char* nf=getenv("SIM_NOFORK"); pid_t pid=nf&&atoi(nf)==nth?0:fork(); if(pid<0){ perror("fork"); exit(3); }
  if(!pid){ child::P=&p; child::E=e; child::PC=&pcfg(p.prop); child::collect=collect; child::main_(); _exit(9); }
  int st; while(waitpid(pid,&st,0)<0&&errno==EINTR); RunRes r; int v=SH->verdict;
  r.hash=SH->hash; r.steps=SH->steps; r.sig=SH->sig; r.switches=SH->switches; r.sim_ns=SH->sim_ns; r.cls=SH->cls; r.msg=SH->msg;
  if(v==1) r.kind=0; else if(v==2) r.kind=1; else if(v==3) r.kind=2;
  else if(WIFSIGNALED(st)){ int s=WTERMSIG(st); if(s==SIGXCPU||s==SIGKILL){ r.kind=2; r.cls="timeout"; r.msg="processor time limit"; } else if(s==SIGALRM){ r.kind=2; r.cls="timeout"; r.msg="wall clock limit"; } else { r.kind=1; r.cls="crash"; r.msg="killed by signal "+std::to_string(s); r.hash=0; } }
  else { r.kind=2; r.cls="lost"; r.msg="the child ended with status "+std::to_string(st); }
  G.runs++; if(collect) G.baselines++; G.steps+=r.steps; G.sim_ns+=r.sim_ns; G.switches+=r.switches; G.nthreads+=SH->nthreads; G.peak=std::max<uint64_t>(G.peak,SH->peak_threads);
  for(int i=0;i<sim::F_N;i++){ G.fired[i]+=SH->fired[i]; G.fcount[i]+=SH->fcount[i]; } for(int i=0;i<sim::P_N;i++) G.probes[i]+=SH->probes[i];
  if(out&&r.kind==0){ const char* q=OUTB; auto u=[&](){ uint64_t x; memcpy(&x,q,8); q+=8; return x; }; size_t n=u(); for(size_t i=0;i<n;i++){ OpOut o; o.exc=u(); o.steps=u(); o.pts.resize(u()); for(auto& z:o.pts){ memcpy(z.data(),q,24); q+=24; } o.rows.resize(u()); for(auto& rr:o.rows){ rr.resize(u()); if(!rr.empty()){ memcpy(rr.data(),q,rr.size()*4); q+=rr.size()*4; } } out->push_back(o); } }
  return r;
}
static void model_rows(Expect& x){
  size_t n=x.pts.size(); int k=x.a.recompute?(int)n-1:std::min<int>(x.a.k,(int)n-1); x.model.assign(n,{}); x.robust.assign(n,0); x.cap.assign(n,0);
  size_t stride=n>300?1+n/300:1; for(size_t i=n>300?n%stride:0;i<n;i+=stride){ if(n==1){ x.robust[0]=1; x.cap[0]=1; break; } ref::Cell c=ref::site_cell(x.pts,(int)i,k,x.dbl?1.2e-16:6e-8,x.dbl?1e-14:1e-6); x.model[i]=c.neigh; x.robust[i]=c.robust&&c.pneed<=250; x.cap[i]=x.a.recompute||(c.pneed<=x.a.p&&c.tneed<=x.a.t); }
}
static TessArgs canonical(const std::string& prop,TessArgs a){
  if(prop=="C01"){ a.nthreads=1; a.set|=4; }
  if(prop=="C02"){ a.chunking=0; a.set|=8; }
  if(prop=="C03"){ a.nthreads=1; a.chunking=0; a.set|=12; }
  if(prop=="C09"||prop=="C10") a.device=0;
  return a;
}
// reference executions: every operation alone in a fresh process, one thread at a time, no faults
static RunRes baselines(const Plan& p,std::vector<Expect>& ex,uint64_t* total){
  ex.clear(); *total=0; const PropCfg& pc=pcfg(p.prop); std::vector<std::vector<P3>> cur; for(auto& s:p.sets) cur.push_back(s.p);
  for(auto& r:p.rounds) for(auto& c:r.clients) for(auto& op:c.ops){ Expect x;
    bool tess=op.kind==OP_TESS&&op.valid, cli=op.kind==OP_CLI&&op.valid!=0&&!p.sets.empty();
    if(op.kind==OP_MOVE) move_points(cur[op.set],op.list,p.sets[op.set].dbl);
    if(!tess&&!cli){ ex.push_back(x); continue; }
    x.a=canonical(p.prop,op.a); x.dbl=p.sets[op.set].dbl; x.in=cur[op.set];
    Plan b; b.prop=p.prop; b.seed=0; b.cfg=sim::Config(); b.cfg.hwconc=p.cfg.hwconc; b.cfg.ngpu=x.a.device?p.cfg.ngpu:0; b.cfg.max_wg=p.cfg.max_wg; b.cfg.race_mode=0; b.cfg.mem_mode=0; b.cfg.step_cap=x.in.size()>90?4000000000ull:800000000ull; if(p.prop=="C01"||p.prop=="C03") b.cfg.hwconc=2;
    PSet s; s.dbl=x.dbl; s.ti=p.sets[op.set].ti; s.p=x.in; b.sets.push_back(s); Op o; o.a=x.a; Round rr; Client cc; cc.ops.push_back(o); rr.clients.push_back(cc); b.rounds.push_back(rr);
    std::vector<OpOut> out; RunRes res=run_child(b,nullptr,true,&out);
    if(getenv("SIM_STEPLOG")) fprintf(stderr,"BASE %lu n=%zu k=%d gr=%d re=%d p=%d t=%d ch=%d dev=%d\n",(unsigned long)res.steps,x.in.size(),x.a.k,x.a.gr,x.a.recompute,x.a.p,x.a.t,x.a.chunking?x.a.chunksize:0,x.a.device);
    if(res.kind==2&&res.cls=="timeout"){ *total=UINT64_MAX/128; ex.push_back(x); continue; }
    if(res.kind==2) return res;
    if(res.kind==1){ if(pc.base_report&&!(x.in.size()>300&&(res.cls=="no-progress"||res.cls=="hang"))){ res.cls="reference-"+res.cls; res.msg="the call alone, one thread at a time: "+res.msg; return res; } if(res.cls=="no-progress"||res.cls=="hang") *total=UINT64_MAX/128; ex.push_back(x); continue; }
    if(out.size()!=1||out[0].exc){ ex.push_back(x); continue; }
    x.pts=out[0].pts; x.rows=out[0].rows; x.steps=res.steps; if(*total<UINT64_MAX/128) *total+=res.steps*op.attempts; x.valid=true; cur[op.set]=x.pts;
    if(p.prop=="C01"||p.prop=="C03"||p.prop=="C07"||p.prop=="C08"||p.prop=="C09"||p.prop=="C10"||p.prop=="C19"||p.prop=="C20") model_rows(x);
    if(p.prop=="C01"){ auto bad=[&](const std::string& m){ RunRes z; z.kind=1; z.cls="not-voronoi"; z.msg=m; z.hash=res.hash; z.steps=res.steps; return z; };
      if(x.rows.size()!=x.pts.size()) return bad("the number of rows differs from the number of points");
      std::vector<P3> u=x.in,w=x.pts; std::sort(u.begin(),u.end()); std::sort(w.begin(),w.end()); if(u!=w) return bad("the points are no longer a permutation of what was passed");
      for(size_t i=0;i<x.rows.size();i++) if(x.robust[i]&&x.cap[i]){ auto g=x.rows[i]; std::sort(g.begin(),g.end()); if(g!=x.model[i]) return bad("row "+std::to_string(i)+" is "+child::row_str(g)+", the Voronoi cell built from its k nearest points has the neighbours "+child::row_str(x.model[i])); G.probes[sim::P_ROWS_MODEL]++; if(x.a.k<(int)x.pts.size()-1) G.probes[sim::P_ROWS_KLIM]++; } }
    ex.push_back(x); }
  RunRes ok; return ok;
}
static bool too_big(uint64_t base){ return base>=UINT64_MAX/128; }   // a reference execution ran into its own limit
static uint64_t step_cap(uint64_t base){ return base*60+8000000; }
