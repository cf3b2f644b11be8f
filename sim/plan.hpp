// A plan is one complete simulated execution: inputs, operations, machine,
// faults and schedule.  Replaying a plan is a pure function of it and the code.
#pragma once
#include <algorithm>
#include <array>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <sstream>
#include <string>
#include <vector>
#include "rt.h"
#include "tgt.h"

typedef std::array<double,3> P3;
struct PSet { int dbl=0, ti=0; std::vector<P3> p; };
enum OpKind { OP_TESS, OP_MAKE, OP_SAVE, OP_PRINT, OP_CLI, OP_READ, OP_PARAM, OP_MOVE };
static const char* const op_names[] = {"tess","make","save","print","cli","read","param","move"};
struct Op {
  int kind=OP_TESS, set=0, slot=0, attempts=1; TessArgs a;
  std::string path; std::vector<std::string> argv; std::vector<int> list, offs; int valid=1;  // CLI input: 1 valid 0 corrupt 2 either
};
struct Client { std::vector<Op> ops; };
struct Round { std::vector<Client> clients; };
struct File { std::string path, data; bool dir=false; };
struct Plan {
  std::string prop; uint64_t seed=0;
  std::vector<PSet> sets; std::vector<File> files; std::vector<Round> rounds;
  std::vector<sim::FaultSpec> faults; std::vector<sim::SwitchRec> sw;
  sim::Config cfg; int own_buf=0, loc=0;     // own_buf: the program gave std::cout a buffer of its own; loc: global locale that groups digits (1 always, 2 while parameters are set, 3 during the calls)
  std::string xcls; uint64_t xhash=0;        // expectation, when read from a replay file
};

// the caller changes its points between calls; which points are left does not depend on their order
static void move_points(std::vector<P3>& v,const std::vector<int>& l,bool dbl){
  size_t n=v.size(); if(l.size()<4) return; unsigned a=l[1],b=l[2]; uint64_t s=(uint32_t)l[3]; auto u=[&]{ s=s*6364136223846793005ull+1442695040888963407ull; double x=0.002+0.996*((s>>33)/2147483648.0); return dbl?x:(double)(float)x; };
  std::vector<size_t> rank(n); for(size_t i=0;i<n;i++) rank[i]=i; std::stable_sort(rank.begin(),rank.end(),[&](size_t x,size_t y){ return v[x]<v[y]; });
  switch(l[0]){ case 0: if(n) std::swap(v[a%n],v[b%n]); break; case 1: if(n) v[rank[a%n]][b%3]=u(); break;
    case 2: if(n){ double& x=v[rank[a%n]][b%3]; double y=x+(u()-.5)*1e-3; if(!dbl) y=(float)y; if(y>0.001&&y<0.999) x=y; } break;
    case 3: for(size_t i=0;i<n;i++) if(u()<.5) for(double& x:v[rank[i]]) x=u(); break;
    case 4: for(unsigned i=0;i<=a%3;i++){ double x=u(),y=u(),z=u(); v.push_back({x,y,z}); } break;
    case 5: if(n>1) v.erase(v.begin()+rank[a%n]); break; case 6: std::reverse(v.begin(),v.end()); break;
    case 7: if(n>2) for(size_t i=1;i+1<n;i++) for(double& x:v[rank[i]]) x=u(); break; } }

static std::string esc(const std::string& s){ std::string o; char b[8]; for(unsigned char c:s){ if(c=='\\'||c<=32||c>=127){ snprintf(b,sizeof b,"\\x%02x",c); o+=b; } else o+=c; } return o.empty()?"\\e":o; }
static std::string unesc(const std::string& s){ if(s=="\\e") return ""; std::string o; for(size_t i=0;i<s.size();){ if(s[i]=='\\'&&i+3<s.size()&&s[i+1]=='x'){ o+=(char)strtol(s.substr(i+2,2).c_str(),0,16); i+=4; } else if(s[i]=='\\'&&i+4==s.size()){ o+=(char)strtol(s.substr(i+2,2).c_str(),0,16); i+=4; } else o+=s[i++]; } return o; }

static const char* const ti_names[]={"int","long","short"};
static std::string plan_text(const Plan& p){
  std::ostringstream o; char b[256];
  o<<"votess-sim-plan 1\nprop "<<p.prop<<"\nseed "<<p.seed<<"\n";
  const sim::Config& c=p.cfg;
  o<<"machine hwconc="<<c.hwconc<<" garbage="<<c.garbage<<" race="<<c.race_mode<<" mem="<<c.mem_mode<<" ngpu="<<c.ngpu<<" ngpu2="<<c.ngpu2<<" max_wg="<<c.max_wg<<" cus="<<c.cus<<" aux="<<c.aux_seed<<" own_buf="<<p.own_buf<<" loc="<<p.loc<<"\n";
  o<<"sched strategy="<<sim::strategy_names[c.strategy]<<" seed="<<c.sched_seed<<" quantum="<<c.quantum<<" depth="<<c.pct_depth<<" est="<<c.est_steps<<" maxsw="<<c.max_switches<<"\n";
  for(auto& s:p.sets){ o<<"set "<<(s.dbl?"double":"float")<<" "<<s.p.size()<<" "<<ti_names[s.ti]<<"\n"; for(auto& q:s.p){ snprintf(b,sizeof b,"p %a %a %a\n",q[0],q[1],q[2]); o<<b; } }
  for(auto& f:p.files) o<<"file "<<esc(f.path)<<" "<<(f.dir?1:0)<<" "<<esc(f.data)<<"\n";
  for(auto& r:p.rounds){ o<<"round\n"; for(auto& cl:r.clients){ o<<"client\n"; for(auto& q:cl.ops){ const TessArgs& a=q.a;
    o<<"op "<<op_names[q.kind]<<" set="<<q.set<<" slot="<<q.slot<<" attempts="<<q.attempts<<" valid="<<q.valid<<" k="<<a.k<<" gr="<<a.gr<<" nt="<<a.nthreads<<" ch="<<a.chunking<<" cs="<<a.chunksize<<" re="<<a.recompute<<" p="<<a.p<<" t="<<a.t<<" nd="<<a.ndsize<<" su="<<a.suppress<<" dev="<<a.device<<" mask="<<a.set<<"\n";
    if(!q.path.empty()) o<<"path "<<esc(q.path)<<"\n";
    for(auto& s:q.argv) o<<"arg "<<esc(s)<<"\n";
    if(q.kind==OP_MAKE||q.kind==OP_PARAM||q.kind==OP_MOVE){ o<<"list"; for(int v:q.list) o<<" "<<v; o<<"\noffs"; for(int v:q.offs) o<<" "<<v; o<<"\n"; } } } }
  for(auto& f:p.faults) o<<"fault "<<sim::fault_names[f.kind]<<" "<<f.ord<<" "<<f.arg<<"\n";
  for(auto& s:p.sw) o<<"sw "<<s.step<<" "<<s.tid<<"\n";
  if(!p.xcls.empty()) o<<"expect "<<p.xcls<<" "<<p.xhash<<"\n";
  return o.str();
}
static bool plan_read(const std::string& path,Plan& p){
  std::ifstream f(path); std::string line; if(!std::getline(f,line)||line!="votess-sim-plan 1") return false;
  auto kv=[&](const std::string& s){ std::vector<std::pair<std::string,std::string>> v; std::istringstream i(s); std::string w; while(i>>w){ size_t e=w.find('='); if(e!=std::string::npos) v.push_back({w.substr(0,e),w.substr(e+1)}); } return v; };
  while(std::getline(f,line)){ std::istringstream i(line); std::string w; i>>w;
    if(w=="prop") i>>p.prop; else if(w=="seed") i>>p.seed;
    else if(w=="machine"){ for(auto& e:kv(line)){ long long v=strtoll(e.second.c_str(),0,10); uint64_t u=strtoull(e.second.c_str(),0,10); auto& n=e.first; sim::Config& c=p.cfg; if(n=="hwconc") c.hwconc=v; if(n=="garbage") c.garbage=v; if(n=="race") c.race_mode=v; if(n=="mem") c.mem_mode=v; if(n=="ngpu") c.ngpu=v; if(n=="ngpu2") c.ngpu2=v; if(n=="max_wg") c.max_wg=v; if(n=="cus") c.cus=v; if(n=="aux") c.aux_seed=u; if(n=="own_buf") p.own_buf=v; if(n=="loc") p.loc=v; } }
    else if(w=="sched"){ for(auto& e:kv(line)){ auto& n=e.first; uint64_t u=strtoull(e.second.c_str(),0,10); sim::Config& c=p.cfg; if(n=="strategy"){ for(int k=0;k<sim::S_N;k++) if(e.second==sim::strategy_names[k]) c.strategy=k; } if(n=="seed") c.sched_seed=u; if(n=="quantum") c.quantum=atof(e.second.c_str()); if(n=="depth") c.pct_depth=u; if(n=="est") c.est_steps=u; if(n=="maxsw") c.max_switches=u; } }
    else if(w=="set"){ std::string t; i>>t; PSet s; s.dbl=t=="double"; std::string m; if(i>>m>>m) s.ti=m=="long"?1:m=="short"?2:0; p.sets.push_back(s); }
    else if(w=="p"){ P3 q; std::string x; for(int c=0;c<3;c++){ i>>x; q[c]=strtod(x.c_str(),0); } p.sets.back().p.push_back(q); }
    else if(w=="file"){ File g; std::string a,b; int d; i>>a>>d>>b; g.path=unesc(a); g.dir=d; g.data=unesc(b); p.files.push_back(g); }
    else if(w=="round") p.rounds.push_back({}); else if(w=="client") p.rounds.back().clients.push_back({});
    else if(w=="op"){ std::string k; i>>k; Op q; for(int z=0;z<8;z++) if(k==op_names[z]) q.kind=z; for(auto& e:kv(line)){ auto& n=e.first; long long v=strtoll(e.second.c_str(),0,10); TessArgs& a=q.a; if(n=="set") q.set=v; if(n=="slot") q.slot=v; if(n=="attempts") q.attempts=v; if(n=="valid") q.valid=v; if(n=="k") a.k=v; if(n=="gr") a.gr=v; if(n=="nt") a.nthreads=v; if(n=="ch") a.chunking=v; if(n=="cs") a.chunksize=v; if(n=="re") a.recompute=v; if(n=="p") a.p=v; if(n=="t") a.t=v; if(n=="nd") a.ndsize=v; if(n=="su") a.suppress=v; if(n=="dev") a.device=v; if(n=="mask") a.set=(unsigned)v; } p.rounds.back().clients.back().ops.push_back(q); }
    else if(w=="path"){ std::string a; i>>a; p.rounds.back().clients.back().ops.back().path=unesc(a); }
    else if(w=="arg"){ std::string a; i>>a; p.rounds.back().clients.back().ops.back().argv.push_back(unesc(a)); }
    else if(w=="list"||w=="offs"){ auto& q=p.rounds.back().clients.back().ops.back(); int v; while(i>>v) (w=="list"?q.list:q.offs).push_back(v); }
    else if(w=="fault"){ std::string k; sim::FaultSpec s{}; i>>k>>s.ord>>s.arg; for(int z=0;z<sim::F_N;z++) if(k==sim::fault_names[z]) s.kind=z; p.faults.push_back(s); }
    else if(w=="sw"){ sim::SwitchRec s; i>>s.step>>s.tid; p.sw.push_back(s); }
    else if(w=="expect") i>>p.xcls>>p.xhash; }
  return true;
}
