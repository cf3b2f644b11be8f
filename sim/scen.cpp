// Explorer: seeded search over plans, minimisation, replay.
#include "gen.hpp"
#include <chrono>
#include <unordered_set>
static double now(){ return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

// a plan's whole evaluation: reference executions, then the plan itself
static RunRes evaluate(Plan p){
  std::vector<Expect> ex; uint64_t total; RunRes r=baselines(p,ex,&total); if(!r.ok()||too_big(total)) return r;
  p.cfg.step_cap=step_cap(total); return run_child(p,&ex,false,nullptr);
}
static void take_log(Plan& p){ p.sw.assign(SH->log,SH->log+SH->nlog); p.cfg.strategy=sim::S_REPLAY; }

static double g_deadline; static int g_tries;
static bool same(const Plan& p,const std::string& cls,RunRes* out=nullptr){ if(now()>g_deadline) return false; g_tries++; RunRes r=evaluate(p); if(out) *out=r; return r.kind==1&&r.cls==cls; }
// the failure with this plan under its strategy, or with a few other schedules
static bool still(Plan& p,const std::string& cls,int tries){ if(same(p,cls)) return true; if(p.cfg.strategy==sim::S_NONE||p.cfg.strategy==sim::S_REPLAY) return false; for(int i=0;i<tries;i++){ Plan q=p; q.cfg.sched_seed=p.cfg.sched_seed+1000+i; if(same(q,cls)){ p=q; return true; } } return false; }
template<class T,class F> static void ddmin(std::vector<T>& v,F ok){ size_t n=2; if(v.empty()) return; { std::vector<T> e; if(ok(e)){ v=e; return; } }
  while(v.size()>=1&&now()<g_deadline){ size_t ch=(v.size()+n-1)/n; bool red=false; for(size_t i=0;i<v.size();i+=ch){ std::vector<T> w(v.begin(),v.begin()+i); w.insert(w.end(),v.begin()+std::min(v.size(),i+ch),v.end()); if(ok(w)){ v=w; n=std::max<size_t>(n-1,2); red=true; break; } } if(!red){ if(ch==1) break; n=std::min(v.size(),n*2); } } }
static Plan minimise(Plan p,const std::string& cls,double budget){
  g_deadline=now()+budget; g_tries=0;
  ddmin(p.faults,[&](std::vector<sim::FaultSpec>& f){ Plan q=p; q.faults=f; return same(q,cls); });
  { Plan q=p; q.cfg.strategy=sim::S_NONE; q.sw.clear(); if(same(q,cls)) p=q; }
  int T=p.cfg.strategy==sim::S_NONE?0:6;
  auto attempt=[&](Plan q){ if(still(q,cls,T)){ p=q; return true; } return false; };
  for(int pass=0;pass<3&&now()<g_deadline;pass++){ bool any=false;
    for(size_t i=p.rounds.size();i-->0;) if(p.rounds.size()>1){ Plan q=p; q.rounds.erase(q.rounds.begin()+i); any|=attempt(q); }
    for(size_t i=p.rounds.size();i-->0;) for(size_t j=p.rounds[i].clients.size();j-->0;) if(p.rounds[i].clients.size()>1){ Plan q=p; q.rounds[i].clients.erase(q.rounds[i].clients.begin()+j); any|=attempt(q); }
    for(size_t i=0;i<p.rounds.size();i++) for(size_t j=0;j<p.rounds[i].clients.size();j++) for(size_t k=p.rounds[i].clients[j].ops.size();k-->0;) if(p.rounds[i].clients[j].ops.size()>1){ Plan q=p; auto& o=q.rounds[i].clients[j].ops; o.erase(o.begin()+k); any|=attempt(q); }
    bool cli=p.rounds[0].clients[0].ops[0].kind==OP_CLI;
    if(!cli) for(size_t s=0;s<p.sets.size();s++){ std::vector<P3> v=p.sets[s].p; size_t b=v.size(); for(size_t ch=std::max<size_t>(1,v.size()/2);;ch/=2){ for(size_t i=0;i<p.sets[s].p.size()&&p.sets[s].p.size()>ch&&now()<g_deadline;){ Plan q=p; auto& w=q.sets[s].p; w.erase(w.begin()+i,w.begin()+std::min(w.size(),i+ch)); if(w.empty()||!attempt(q)) i+=ch; } if(ch==1) break; } any|=p.sets[s].p.size()<b; }
    for(size_t i=0;i<p.rounds.size();i++) for(size_t j=0;j<p.rounds[i].clients.size();j++) for(size_t k=0;k<p.rounds[i].clients[j].ops.size();k++) if(p.rounds[i].clients[j].ops[k].kind==OP_TESS){
      auto tryset=[&](int TessArgs::*f,int v){ Plan q=p; TessArgs& a=q.rounds[i].clients[j].ops[k].a; if(a.*f==v) return; a.*f=v; any|=attempt(q); };
      if(p.prop!="C03") tryset(&TessArgs::recompute,0); tryset(&TessArgs::chunking,0); tryset(&TessArgs::nthreads,1); if(p.rounds[i].clients[j].ops[k].a.nthreads!=1) tryset(&TessArgs::nthreads,2); tryset(&TessArgs::gr,1); if(p.rounds[i].clients[j].ops[k].a.gr!=1) tryset(&TessArgs::gr,2); tryset(&TessArgs::p,64); tryset(&TessArgs::t,64); tryset(&TessArgs::ndsize,1); if(p.prop!="C09") tryset(&TessArgs::device,0); tryset(&TessArgs::k,4); }
    { Plan q=p; if(q.loc){ q.loc=0; any|=attempt(q); } } { Plan q=p; if(q.cfg.garbage){ q.cfg.garbage=0; any|=attempt(q); } } { Plan q=p; if(q.cfg.hwconc!=2){ q.cfg.hwconc=2; any|=attempt(q); } }
    if(!any) break; }
  RunRes r; if(!same(p,cls,&r)&&r.cls.empty()){ g_deadline=now()+30; same(p,cls,&r); }
  if(r.kind==1&&r.cls==cls&&r.cls.compare(0,10,"reference-")&&r.cls!="not-voronoi"){ take_log(p); if(!p.sw.empty()){ g_deadline=std::max(g_deadline,now()+20); Plan full=p; ddmin(p.sw,[&](std::vector<sim::SwitchRec>& s){ Plan q=p; q.sw=s; return same(q,cls); }); } }
  else { p.cfg.strategy=sim::S_REPLAY; p.sw.clear(); }
  return p;
}
static std::string jesc(const std::string& s){ std::string o; char b[8]; for(unsigned char c:s){ if(c=='"'||c=='\\'){ o+='\\'; o+=c; } else if(c<32||c>=127){ snprintf(b,sizeof b,"\\u%04x",c); o+=b; } else o+=c; } return o; }
static std::string describe(const Plan& p){ std::string s; char b[300]; snprintf(b,sizeof b,"%s seed=%lu strategy=%s hwconc=%d garbage=%d ngpu=%d;",p.prop.c_str(),(unsigned long)p.seed,sim::strategy_names[p.cfg.strategy],p.cfg.hwconc,p.cfg.garbage,p.cfg.ngpu); s=b;
  int ri=0; for(auto& r:p.rounds){ snprintf(b,sizeof b," round %d:",ri++); s+=b; for(auto& c:r.clients){ s+=" ["; for(auto& o:c.ops){ if(o.kind==OP_TESS){ auto& a=o.a; snprintf(b,sizeof b," tess(n=%zu %s %s k=%d gr=%d nt=%d chunk=%d recompute=%d p=%d t=%d dev=%d nd=%d x%d)",p.sets[o.set].p.size(),ti_names[p.sets[o.set].ti],p.sets[o.set].dbl?"double":"float",a.k,a.gr,a.nthreads,a.chunking?a.chunksize:0,a.recompute,a.p,a.t,a.device,a.ndsize,o.attempts); s+=b; } else if(o.kind==OP_CLI){ s+=" cli("; for(auto& x:o.argv) s+=x+" "; s+=")"; } else if(o.kind==OP_MAKE){ snprintf(b,sizeof b," make(%zu rows)",o.offs.size()-1); s+=b; } else s+=std::string(" ")+op_names[o.kind]; } s+=" ]"; } }
  for(auto& f:p.faults){ snprintf(b,sizeof b," fault %s#%lu(%ld)",sim::fault_names[f.kind],(unsigned long)f.ord,(long)f.arg); s+=b; } if(!p.sw.empty()){ snprintf(b,sizeof b," %zu switches",p.sw.size()); s+=b; } return s; }

struct Known { std::string prop,cls,sub; };
static std::vector<Known> known; static std::vector<uint64_t> known_hits;
static int known_match(const std::string& prop,const RunRes& r){ for(size_t i=0;i<known.size();i++) if(known[i].prop==prop&&known[i].cls==r.cls&&r.msg.find(known[i].sub)!=std::string::npos) return (int)i; return -1; }

int main(int argc,char** argv){
  std::string mode=argc>1?argv[1]:"", prop, out, rdir="."; uint64_t seed=1,start=0,stride=1,count=10; double tmax=1e9; std::string file; int variants=0; bool nomin=false; std::string hashlog, stopf;
  for(int i=2;i<argc;i++){ std::string a=argv[i]; auto nx=[&]{ return std::string(i+1<argc?argv[++i]:""); };
    if(a=="--prop") prop=nx(); else if(a=="--seed") seed=strtoull(nx().c_str(),0,10); else if(a=="--start") start=strtoull(nx().c_str(),0,10); else if(a=="--stride") stride=strtoull(nx().c_str(),0,10); else if(a=="--count") count=strtoull(nx().c_str(),0,10); else if(a=="--time") tmax=atof(nx().c_str()); else if(a=="--out") out=nx(); else if(a=="--replays") rdir=nx(); else if(a=="--variants") variants=atoi(nx().c_str()); else if(a=="--no-min") nomin=true; else if(a=="-v") g_verbose=true; else if(a=="--hashlog") hashlog=nx(); else if(a=="--stop") stopf=nx(); else if(a=="--known"){ std::ifstream f(nx()); std::string l; while(std::getline(f,l)){ // prop|class|text
        size_t x=l.find('|'),y=l.find('|',x+1); if(x!=std::string::npos&&y!=std::string::npos) known.push_back({l.substr(0,x),l.substr(x+1,y-x-1),l.substr(y+1)}); } } else file=a; }
  sim::init(); std::cout<<std::flush;
  SH=(sim::Shared*)mmap(0,sizeof(sim::Shared),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0); OUTB=(char*)mmap(0,OUTCAP,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS|MAP_NORESERVE,-1,0); known_hits.assign(known.size(),0);
  if(mode=="replay"){ Plan p; if(!plan_read(file,p)){ fprintf(stderr,"cannot read %s\n",file.c_str()); return 3; } RunRes r=evaluate(p);
    printf("%s %s hash=%lu steps=%lu %s\n",r.kind==0?"OK":r.kind==1?"VIOLATED":"ERROR",r.cls.c_str(),(unsigned long)r.hash,(unsigned long)r.steps,r.msg.c_str());
    if(!p.xcls.empty()) printf("expected %s hash=%lu: %s\n",p.xcls.c_str(),(unsigned long)p.xhash,r.cls==p.xcls&&r.hash==p.xhash?"reproduced exactly":"NOT reproduced");
    if(r.kind==2) return 3; if(!p.xcls.empty()&&r.kind==1&&!(r.cls==p.xcls&&r.hash==p.xhash)) return 4; return r.kind; }
  if(mode=="show"){ for(uint64_t i=start;i<start+count;i++) printf("%lu %s\n",(unsigned long)i,describe(gen(prop,hash_seed(prop,seed,i))).c_str()); return 0; }
  if(mode!="run"&&mode!="determinism"){ fprintf(stderr,"usage\n"); return 3; }
  FILE* hl=hashlog.empty()?nullptr:fopen(hashlog.c_str(),"w");
  double t0=now(); uint64_t plans=0,ndet=0,inconcl=0; std::unordered_set<uint64_t> sigs,nontriv; std::vector<std::string> samples; uint64_t strat[sim::S_N]={0}; std::vector<std::string> errors; std::string viol,vcls,vmsg,vdesc;
  if(!variants) variants=prop=="C07"||prop=="C12"||prop=="C13"||prop=="C11"?6:4;
  for(uint64_t idx=start;plans<count&&now()-t0<tmax&&viol.empty();idx+=stride){ if(!stopf.empty()&&access(stopf.c_str(),F_OK)==0) break; plans++;
    uint64_t hs=hash_seed(prop,seed,idx); Plan p=gen(prop,hs); Rng r2(hs^0x5bd1e995deadbeefull); RunRes r; std::vector<Expect> ex; uint64_t total=0; Plan failing;
    auto bad=[&](const Plan& q){ failing=q; return true; };
    bool fail=false; r=baselines(p,ex,&total);
    if(r.kind==2){ errors.push_back(r.cls+": "+r.msg); if(errors.size()>3) break; continue; }
    if(r.kind==1) fail=bad(p); else if(too_big(total)){ inconcl++; continue; }
    { size_t i=0; bool un=false; for(auto& rr:p.rounds) for(auto& cc:rr.clients) for(auto& oo:cc.ops){ if(((oo.kind==OP_TESS&&oo.valid)||(oo.kind==OP_CLI&&oo.valid==1))&&i<ex.size()&&!ex[i].valid) un=true; i++; } inconcl+=un; }
    uint64_t cnt[sim::F_N]={0}; uint64_t est=total, outb=0;
    uint64_t ph=0; for(char c:plan_text(p)) ph=(ph^(unsigned char)c)*1099511628211ull;
    int nv=variants; for(auto& s:p.sets) if(s.p.size()>300) nv=2; else if(s.p.size()>256&&(prop=="C14"||prop=="C04")) nv=1;
    for(int v=0;v<=nv&&!fail&&now()-t0<tmax;v++){ Plan q=p; q.cfg.step_cap=step_cap(total);
      if(v){ if(prop=="C12"&&outb){ if(!r2.one(4)) q.faults.push_back({sim::F_STDOUT,0,(int64_t)(r2.one(4)?0:r2.one(4)?outb-1-r2.below(std::min<uint64_t>(outb,6)):r2.below(outb+4))}); } else draw_faults(r2,q,cnt); if(r2.one(5)&&prop!="C12") q.faults.clear(); schedule(r2,q,std::max<uint64_t>(est,1000)); }
      r=run_child(q,&ex,false,nullptr); strat[q.cfg.strategy]++; if(hl) fprintf(hl,"%lu %d %d %s %lu %lu %lu\n",(unsigned long)idx,v,r.kind,r.cls.c_str(),(unsigned long)r.hash,(unsigned long)r.sig,(unsigned long)r.steps);
      if(mode=="determinism"&&r.kind!=2){ RunRes a=run_child(q,&ex,false,nullptr); Plan z=q; take_log(z); if(SH->log_overflow){ fprintf(stderr,"log overflow\n"); } RunRes b=run_child(z,&ex,false,nullptr); ndet++; if(a.hash!=r.hash||a.cls!=r.cls||a.sig!=r.sig){ errors.push_back("NONDETERMINISTIC "+describe(q)); } if(b.hash!=r.hash||b.cls!=r.cls||b.sig!=r.sig) errors.push_back("REPLAY DIFFERS "+describe(q)+" "+r.cls+"/"+b.cls); if(v==0){ memcpy(cnt,SH->fcount,sizeof cnt); est=r.steps; outb=SH->out_bytes; } if(hl) fflush(hl); continue; }
      if(r.kind==2&&r.cls=="timeout"){ inconcl++; continue; }
      if(r.kind==2){ errors.push_back(r.cls+": "+r.msg+" in "+describe(q)); if(errors.size()>3) break; continue; }
      if(v==0){ memcpy(cnt,SH->fcount,sizeof cnt); est=r.steps; outb=SH->out_bytes; }
      bool fired=false; for(int i=0;i<sim::F_N;i++) if(SH->fired[i]) fired=true;
      uint64_t fh=ph; for(auto& f:q.faults) fh=(fh^(f.kind*1000003ull+f.ord*31+f.arg))*1099511628211ull;
      sigs.insert(ph^r.sig*3); if((SH->nlog&&prop!="C11"&&prop!="C12"&&prop!="C13")||fired) nontriv.insert(fh^r.sig*3);
      if(samples.size()<3&&(v>0)&&(plans%3==1)) samples.push_back(describe(q)+" -> "+std::to_string(r.steps)+" steps, "+std::to_string(r.switches)+" switches, "+(r.ok()?"ok":r.cls));
      if(r.kind==1) fail=bad(q); }
    if(!fail) continue;
    int k=known_match(prop,r); if(k>=0){ known_hits[k]++; continue; }
    if(!stopf.empty()){ int fd=open(stopf.c_str(),O_CREAT|O_EXCL|O_WRONLY,0600); if(fd<0) break; close(fd); }
    if(g_verbose) fprintf(stderr,"found %s: %s\n  %s\n",r.cls.c_str(),r.msg.c_str(),describe(failing).c_str());
    // a violation: it must repeat, then it is minimised and must replay in a fresh process
    RunRes a=evaluate(failing); if(a.kind!=1||a.cls!=r.cls||a.hash!=r.hash){ errors.push_back("violation does not repeat: "+r.cls+" vs "+a.cls+" in "+describe(failing)); break; }
    Plan m=nomin?failing:minimise(failing,r.cls,100); if(nomin){ RunRes z=evaluate(m); (void)z; if(r.cls.compare(0,10,"reference-")) take_log(m); }
    RunRes b=evaluate(m); if(b.kind!=1||b.cls!=r.cls){ m=failing; b=evaluate(m); if(b.cls.compare(0,10,"reference-")&&b.cls!="not-voronoi") take_log(m); else m.cfg.strategy=sim::S_REPLAY; b=evaluate(m); }
    m.xcls=b.cls; m.xhash=b.hash; char nm[200]; snprintf(nm,sizeof nm,"%s/%s-%lu-%lu.plan",rdir.c_str(),prop.c_str(),(unsigned long)seed,(unsigned long)idx);
    { std::ofstream f(nm); f<<plan_text(m); f<<"# "<<b.cls<<": "<<esc(b.msg)<<"\n"; }
    std::string self="/proc/self/exe"; char exe[4096]; ssize_t el=readlink("/proc/self/exe",exe,4095); exe[el>0?el:0]=0; std::string cmd=std::string(exe)+" replay "+nm+" >/dev/null 2>&1"; int rc=system(cmd.c_str());
    if(!WIFEXITED(rc)||WEXITSTATUS(rc)!=1){ errors.push_back("fresh-process replay of "+std::string(nm)+" ended with "+std::to_string(WIFEXITED(rc)?WEXITSTATUS(rc):-1)); break; }
    viol=nm; vcls=b.cls; vmsg=b.msg; vdesc=describe(m);
  }
  std::ostringstream o; o<<"{\"prop\":\""<<prop<<"\",\"plans\":"<<plans<<",\"runs\":"<<G.runs<<",\"baselines\":"<<G.baselines<<",\"steps\":"<<G.steps<<",\"sim_ns\":"<<G.sim_ns<<",\"switches\":"<<G.switches<<",\"threads\":"<<G.nthreads<<",\"peak_threads\":"<<G.peak<<",\"inconclusive\":"<<inconcl<<",\"determinism_pairs\":"<<ndet<<",\"wall\":"<<now()-t0;
  auto arr=[&](const char* n,const char* const* names,const uint64_t* v,int k){ o<<",\""<<n<<"\":{"; for(int i=0;i<k;i++) o<<(i?",":"")<<"\""<<names[i]<<"\":"<<v[i]; o<<"}"; };
  arr("fired",sim::fault_names,G.fired,sim::F_N); arr("reached",sim::fault_names,G.fcount,sim::F_N); arr("probes",sim::probe_names,G.probes,sim::P_N); arr("strategies",sim::strategy_names,strat,sim::S_N);
  auto hexes=[&](const char* n,std::unordered_set<uint64_t>& s){ o<<",\""<<n<<"\":["; bool f=true; for(uint64_t h:s){ o<<(f?"":",")<<"\""<<std::hex<<h<<std::dec<<"\""; f=false; } o<<"]"; };
  hexes("sigs",sigs); hexes("nontrivial",nontriv);
  o<<",\"samples\":["; for(size_t i=0;i<samples.size();i++) o<<(i?",":"")<<"\""<<jesc(samples[i])<<"\""; o<<"],\"errors\":["; for(size_t i=0;i<errors.size();i++) o<<(i?",":"")<<"\""<<jesc(errors[i])<<"\""; o<<"],\"known_hits\":["; for(size_t i=0;i<known_hits.size();i++) o<<(i?",":"")<<known_hits[i]; o<<"]";
  if(!viol.empty()) o<<",\"violation\":{\"replay\":\""<<jesc(viol)<<"\",\"class\":\""<<vcls<<"\",\"msg\":\""<<jesc(vmsg)<<"\",\"desc\":\""<<jesc(vdesc)<<"\"}";
  o<<"}\n";
  if(out.empty()) fputs(o.str().c_str(),stdout); else { std::ofstream f(out); f<<o.str(); }
  return !errors.empty()?3:viol.empty()?0:1;
}
