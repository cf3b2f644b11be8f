// Plan generation: everything drawn from one integer.
#pragma once
#ifndef VASTODDS
#define VASTODDS 250
#endif
#include <climits>
#include <set>
#include <cmath>
#include "exec.hpp"
struct Rng { uint64_t s; Rng(uint64_t x):s(x){ next(); next(); }
  uint64_t next(){ s+=0x9e3779b97f4a7c15ull; uint64_t z=s; z=(z^(z>>30))*0xbf58476d1ce4e5b9ull; z=(z^(z>>27))*0x94d049bb133111ebull; return z^(z>>31);}
  uint64_t below(uint64_t n){ return n?next()%n:0; } int in(int a,int b){ return a+(int)below(b-a+1); } bool one(int n){ return below(n)==0; }
  double unit(){ return (next()>>11)*(1.0/9007199254740992.0);}
  template<class T> T pick(std::initializer_list<T> l){ return l.begin()[below(l.size())]; } };
static uint64_t hash_seed(const std::string& prop,uint64_t seed,uint64_t idx){ uint64_t h=1469598103934665603ull; for(char c:prop) h=(h^(unsigned char)c)*1099511628211ull; h^=seed*0x9e3779b97f4a7c15ull; h*=1099511628211ull; h^=h>>29; h+=idx*0xd1342543de82ef95ull; h^=h>>32; return h; }

static double fit(double v,int dbl){ if(dbl){ if(!(v>1e-9)) v=1e-9; if(!(v<1)) v=std::nextafter(1.0,0.0); return v; } float f=(float)v; if(!(f>1e-6f)) f=1e-6f; if(!(f<1.0f)) f=std::nextafter(1.0f,0.0f); return f; }
// shapes: 0 uniform 1 clustered 2 jittered lattice 3 exact lattice 4 near walls 5 nearly coplanar 6 one grid cell 7 shell 8 with duplicates 9 sparse-and-dense 10 even shell: a cell with n-1 faces 11 against the walls, down to the smallest number there is
static PSet gen_set(Rng& r,int n,int shape,int dbl){
  PSet s; s.dbl=dbl; std::vector<P3>& v=s.p; double cx=r.unit()*.8+.1, cy=r.unit()*.8+.1, cz=r.unit()*.8+.1, w=std::pow(10,-r.unit()*2.5)*.5; int m=1; while(m*m*m<n) m++; double ju=r.unit()*.3+.02, fine=dbl&&r.one(2)?std::pow(10,-2-r.unit()*7):1, fcl=std::max(fine,1e-6);  // differences only double can tell
  double lo=shape!=11?0:dbl?r.pick({1e-10,1e-20,1e-38,1e-60,1e-300,5e-324}):(double)r.pick({1e-8f,1e-12f,1e-20f,1e-37f,1e-45f});
  double pl=r.unit()*.8+.1, rad=r.unit()*.3+.15; int ax=r.below(3);
  std::vector<P3> cen; for(int i=0;i<3;i++) cen.push_back({r.unit(),r.unit(),r.unit()});
  std::set<P3> seen; for(int i=0;(int)v.size()<n;i++){ P3 p;
    switch(shape){
     case 1: { P3& c=cen[r.below(3)]; for(int d=0;d<3;d++) p[d]=c[d]+(r.unit()-.5)*w*fcl; break; }
     case 2: { int a=i%m,b=i/m%m,c=i/m/m%m; p={(a+.5+(r.unit()-.5)*ju*fine)/m,(b+.5+(r.unit()-.5)*ju*fine)/m,(c+.5+(r.unit()-.5)*ju*fine)/m}; break; }
     case 3: { int a=i%m,b=i/m%m,c=i/m/m%m; p={(a+.5)/m,(b+.5)/m,(c+.5)/m}; break; }
     case 4: { for(int d=0;d<3;d++){ double u=r.unit(); int q=r.below(4); p[d]=q==0?u*1e-3:q==1?1-u*1e-3:q==2&&r.one(3)?(r.one(2)?2.0:0.0):u; } break; }
     case 5: { for(int d=0;d<3;d++) p[d]=r.unit(); p[ax]=pl+(r.unit()-.5)*1e-2*fine; break; }
     case 6: { p={cx+(r.unit()-.5)*.02*fcl,cy+(r.unit()-.5)*.02*fcl,cz+(r.unit()-.5)*.02*fcl}; break; }
     case 7: { if(i==0){ p={.5,.5,.5}; break; } double z=2*r.unit()-1,t=6.283185307179586*r.unit(),q=std::sqrt(1-z*z),R=rad*(1+(r.unit()-.5)*.02*fine); p={.5+R*q*std::cos(t),.5+R*q*std::sin(t),.5+R*z}; break; }
     case 8: { if(i&&r.one(4)){ p=v[r.below(v.size())]; break; } for(int d=0;d<3;d++) p[d]=r.unit(); break; }
     case 9: { bool dn=r.one(2); for(int d=0;d<3;d++) p[d]=dn?(d==0?cx:d==1?cy:cz)+(r.unit()-.5)*.05:r.unit(); break; }
     case 10: { if(i==0){ p={.5,.5,.5}; break; } double z=1-2*(i-.5)/(n-1),t=2.399963229728653*i,q=std::sqrt(1-z*z),R=rad*(1+(r.unit()-.5)*.002*fine); p={.5+R*q*std::cos(t),.5+R*q*std::sin(t),.5+R*z}; break; }
     case 11: for(int d=0;d<3;d++) p[d]=r.one(3)?lo:r.one(4)?2.0:r.unit(); break;
     default: for(int d=0;d<3;d++) p[d]=r.unit(); }
    for(int d=0;d<3;d++) p[d]=shape==11&&p[d]==lo?lo:fit(p[d],dbl);
    if(shape!=8){ bool dup=false; if(n>3000) dup=!seen.insert(p).second; else for(auto& q:v) if(q==p) dup=true; if(dup){ if(shape==3||i>n*20){ for(int d=0;d<3;d++) p[d]=fit(r.unit(),dbl); } else continue; } }
    v.push_back(p); }
  for(size_t i=v.size();i>1;i--) std::swap(v[i-1],v[r.below(i)]);
  return s;
}
static int gen_n(Rng& r,int big){ int q=r.below(20); if(q<1) return 1; if(q<2) return r.in(2,4); if(q<12) return r.in(3,24); if(q<17) return r.in(12,45); if(q<19||!big) return r.in(30,big?110:60); return r.in(100,200); }
static int gen_shape(Rng& r,bool degenerate){ return degenerate?r.pick({0,0,1,2,3,4,5,6,7,8,9}):r.pick({0,0,1,2,4,5,6,7,9}); }
static TessArgs gen_args(Rng& r,int n){
  TessArgs a; a.k=r.one(3)?r.in(1,std::max(1,n-1)):r.one(3)?n+r.in(-1,10):r.pick({4,8,12,16,24,32,64}); if(a.k<1) a.k=1;
  a.gr=r.one(6)?r.pick({16,20,24,25,33,41}):r.in(1,9); if(n>60&&a.gr<3) a.gr=3;
  a.nthreads=r.pick({0,0,1,2,2,3,3,4,5,7,8,13}); if(r.one(10)) a.nthreads=n+r.in(0,4); if(a.nthreads>40) a.nthreads=r.in(5,24);
  bool tight=r.one(3); a.p=tight?r.in(6,20):r.pick({32,48,64,128,128,200,255}); a.t=tight?r.in(8,24):r.pick({32,64,96,128,200,256,300,400}); if(r.one(14)) a.p=r.pick({254,255,256,257,300,512,1000}); if(r.one(60)&&n<40) a.t=r.pick({32767,32768,65535,65536,65540,70000,131072});
  a.chunking=0; a.chunksize=8196; if(r.one(3)) a.set&=~(r.one(2)?512u:0u);
  return a;
}
// more neighbours than fit a byte: needs many points
static bool huge(Rng& r,TessArgs& a,int& n,int odds){ if(!r.one(odds)) return false; n=r.in(257,290); a.k=r.in(256,n+3); a.gr=r.in(3,6); if(a.p<48) a.p=64; if(a.t<64) a.t=128; if(a.nthreads>8) a.nthreads=r.in(1,6); return true; }
// a size at which grids, chunks and worker ranges are large; k stays moderate
static bool large(Rng& r,TessArgs& a,int& n,int odds){ if(!r.one(odds)) return false; n=r.one(4)?r.in(1000,2600):r.in(250,1000); a.k=r.pick({8,16,24,32,48}); a.gr=r.pick({6,8,10,12,16,24}); if(a.p<32) a.p=64; if(a.t<32) a.t=96; if(a.p>255) a.p=128; if(a.nthreads>20) a.nthreads=r.in(1,20); return true; }
// point counts and indices that do not fit 13, 15 or 16 bits; each cell is kept cheap
static bool vast(Rng& r,TessArgs& a,int& n,int odds){ if(!r.one(odds)) return false; n=r.pick({8190,16380,32760,65530})+r.in(0,600); a.k=r.in(2,4); a.gr=(int)std::cbrt(n*(.5+r.unit())); a.p=r.pick({12,16}); a.t=r.pick({16,24}); a.recompute=0; if(a.nthreads==0||a.nthreads>6) a.nthreads=r.in(1,6); return true; }
static int gen_chunk(Rng& r,int n){ int q=r.below(12); if(q==0) return 1; if(q==1) return n; if(q==2) return n+1; if(q==3) return std::max(1,n-1); if(q==4) return r.pick({0,-1,-7}); if(q==5) return 1000000; if(q==6) return std::max(1,n/2); if(q==7) return n/2+1; return r.in(1,std::max(1,n-1)); }
static void machine(Rng& r,Plan& p){ const PropCfg& pc=pcfg(p.prop); p.cfg.race_mode=pc.race; p.cfg.mem_mode=pc.mem; p.cfg.hwconc=r.pick({0,1,2,3,4,4,7,16}); p.cfg.garbage=r.in(0,4); p.cfg.aux_seed=r.next(); p.cfg.ngpu=0; p.cfg.max_wg=64; p.cfg.cus=r.in(1,4); }
static void add_round(Plan& p,std::vector<std::vector<Op>> cl){ Round r; for(auto& c:cl){ Client k; k.ops=c; r.clients.push_back(k); } p.rounds.push_back(r); }
static void gpu(Rng& r,Plan& p,TessArgs& a,int n){ p.cfg.ngpu=r.in(1,2); p.cfg.max_wg=r.pick({4,16,64}); a.device=1; a.ndsize=r.pick({1,1,2,3,4,5,8,16,0,-3}); if(r.one(4)) a.ndsize=n; if(a.ndsize>p.cfg.max_wg) a.ndsize=p.cfg.max_wg; if(a.ndsize>20) a.ndsize=r.in(1,16); p.cfg.cus=r.in(1,4); }

static std::string num(Rng& r,double v){ char b[64]; switch(r.below(4)){ case 0: snprintf(b,sizeof b,"%.9g",v); break; case 1: snprintf(b,sizeof b,"%.7e",v); break; case 2: snprintf(b,sizeof b,"%.8f",v); break; default: snprintf(b,sizeof b,"%.6f",v); } double q=strtof(b,nullptr); if(!(q>0&&q<1)) return "0.5"; return b; }
static void gen_cli(Rng& r,Plan& p,bool out_faults){
  int n=r.one(8)?r.in(1,3):r.in(3,28); bool dev=r.one(6); if(!dev&&r.one(5)) n=r.in(30,140); if(!dev&&r.one(40)) n=r.in(200,900); bool vs=!dev&&r.one(200); if(vs) n=r.in(8190,9000); if(dev){ p.cfg.ngpu=1; p.cfg.max_wg=16; } PSet s=gen_set(r,n,n>150?r.pick({0,2}):r.pick({0,0,1,4,9}),0); std::string text; const char* sep=r.pick({" "," ","\t","  "}); const char* nl=r.one(8)?"\r\n":"\n";
  std::vector<std::string> lines; for(auto& q:s.p){ std::string l=r.one(9)?" ":""; std::array<double,3> v; for(int d=0;d<3;d++){ std::string t=num(r,q[d]); v[d]=strtof(t.c_str(),nullptr); l+=(d?sep:"")+t; } if(r.one(9)) l+=" "; if(r.one(24)){ l+=r.pick({" ","\t"}); switch(r.below(4)){ case 0: l+="0.25"; break; case 1: l+="mass 3"; break; case 2: l+=std::string(r.in(1,r.one(3)?9000:300),' '); break; default: for(int z=r.in(1,120);z--;) l+="7.5 "; } } q=v; lines.push_back(l); }
  Op o; o.kind=OP_CLI; o.valid=1; int mut=out_faults?99:r.below(16); size_t at=r.below(lines.size());
  switch(mut){
    case 0: lines[at]=lines[at].substr(0,lines[at].find_last_of(" \t",lines[at].size()-2)); { std::istringstream i(lines[at]); float a,b,c; if(!(i>>a>>b>>c)) o.valid=0; else o.valid=2; } break;
    case 1: lines[at]=r.pick({"abc def ghi","0.1 0.2 x","# comment","0.1,0.2,0.3","nan 0.2 0.3","0.1 0.2"}); o.valid=0; break;
    case 2: { std::istringstream i(lines[at]); std::string t[3]; i>>t[0]>>t[1]>>t[2]; t[r.below(3)]=r.pick({"1.5","-0.1","0.0","1.0","2e3","-1e-3","7","1e30","-1e30"}); lines[at]=t[0]+" "+t[1]+" "+t[2]; o.valid=0; break; }
    case 3: lines.insert(lines.begin()+at,r.pick({"","   "})); o.valid=2; break;
    case 4: { std::istringstream i(lines[at]); std::string t[3]; i>>t[0]>>t[1]>>t[2]; t[r.below(3)]=r.pick({"inf","-inf","NaN","1e999","0x","--1","."}); lines[at]=t[0]+" "+t[1]+" "+t[2]; o.valid=0; break; }
    default: break; }
  for(size_t i=0;i<lines.size();i++) text+=lines[i]+(i+1<lines.size()||!r.one(4)?nl:"");
  if(mut==5){ text=""; o.valid=2; s.p.clear(); }
  if(mut==6){ o.valid=0; if(!text.empty()&&text.back()!='\n') text+='\n'; text+=std::string(r.in(1,3000),r.pick({'z','\0','\xff','{'}))+"\n"; }
  TessArgs& a=o.a; a=TessArgs(); a.device=1; o.argv={"clvotess"}; std::string path="/simfs/in.txt";
  if(mut==7){ path="/simfs/none.txt"; o.valid=0; }
  if(mut==8){ File f; f.path=path; f.dir=true; p.files.push_back(f); o.valid=0; } else if(mut!=7){ File f; f.path=path; f.data=text; p.files.push_back(f); }
  // every spelling of an option; an option given twice counts as given last
  auto put=[&](const char* sh,const char* lg,std::string t){ switch(r.below(6)){ case 0: case 1: o.argv.push_back(sh); o.argv.push_back(t); break; case 2: o.argv.push_back(sh+t); break; case 3: o.argv.push_back(lg); o.argv.push_back(t); break; default: o.argv.push_back(std::string(lg)+"="+t); } };
  auto opt=[&](const char* sh,const char* lg,int v){ if(r.one(12)) put(sh,lg,std::to_string(v+r.in(1,9))); put(sh,lg,std::to_string(v)); };
  auto flag=[&](const char* sh,const char* lg){ for(int q=r.one(6)?r.in(2,3):1;q--;) o.argv.push_back(r.one(2)?sh:lg); };
  auto in=[&]{ if(r.one(2)){ o.argv.push_back("-i"); o.argv.push_back(path); } else o.argv.push_back("--infile="+path); }; bool early=r.one(2); if(early) in();
  if(vs||r.one(2)){ a.k=vs?r.in(1,3):r.one(5)?0:r.in(1,std::max(2,n+4)); opt("-k","--k-init",a.k); if(a.k==0) a.k=std::min<int>(s.p.size(),64); if(a.k<1) a.k=1; }
  if(r.one(2)||n>150){ a.gr=vs?r.in(15,24):r.in(n>150?5:1,12); opt("-g","--grid-resolution",a.gr); }
  if(r.one(2)){ a.nthreads=r.in(0,5); opt("-t","--cpu-nthreads",a.nthreads); }
  if(r.one(3)){ a.chunksize=r.in(vs?500:1,n+2); opt("-c","--chunksize",a.chunksize); }
  if(r.one(3)){ a.chunking=1; flag("-u","--use-chunking"); }
  if(!vs&&r.one(3)){ a.recompute=1; flag("-r","--use-recompute"); }
  if(r.one(3)){ a.p=r.pick({8,12,24,48,64}); opt("-p","--p-maxsize",a.p); }
  if(r.one(3)){ a.t=r.pick({12,24,48,96}); opt("-m","--t-maxsize",a.t); }
  if(dev||r.one(4)){ bool c=r.one(2); a.device=!c; if(r.one(8)) put("-x","--use-device",c?"gpu":"cpu"); put("-x","--use-device",c?"cpu":"gpu"); }
  if(r.one(dev?2:5)){ a.ndsize=r.in(1,8); opt("-d","--gpu-ndsize",a.ndsize); }
  if(!early) in();
  p.sets.push_back(s); add_round(p,{{o}});
}
// what to inject, given how often each seam was reached in a fault-free run
static void draw_faults(Rng& r,Plan& p,const uint64_t* cnt){
  auto ord=[&](int kind){ uint64_t n=cnt[kind]; if(!n) return (uint64_t)0; return r.one(4)?1+r.below(std::min<uint64_t>(n,8)):r.one(4)?n-r.below(std::min<uint64_t>(n,6)):1+r.below(n); };
  auto add=[&](int kind,int64_t arg){ uint64_t o=ord(kind); if(o) p.faults.push_back({kind,o,arg}); };
  const std::string& q=p.prop;
  if(q=="C07"){ int m=r.below(4); if(m!=1){ add(sim::F_ALLOC,0); if(r.one(5)) add(sim::F_ALLOC,0); } if(m==1||m==2) add(sim::F_THREAD,0); }
  if(q=="C08"){ int m=r.below(4); if(m<2) for(int i=r.in(1,3);i--;) add(sim::F_ALLOC,0); if(m==2) add(sim::F_THREAD,0); }
  if(q=="C06"||q=="C14"){ int m=r.below(q=="C06"?3:4); if(m==0) for(int i=r.in(1,3);i--;) add(sim::F_ALLOC,0); if(m==1) add(sim::F_THREAD,0); }
  if(q=="C18") for(int i=r.in(0,4);i--;) p.faults.push_back({r.one(3)?(int)sim::F_WRITEINTR:(int)sim::F_WRITESHORT,1+r.below(cnt[sim::F_WRITESHORT]+3),(int64_t)r.in(1,60)});
  if(q=="C16"){ int m=r.below(3); if(m==0) for(int i=r.in(1,3);i--;) add(sim::F_ALLOC,0); }
  if(q=="C19"||q=="C20"){ int m=r.below(4); if(m==0) add(sim::F_ALLOC,0); if(m==1) add(sim::F_THREAD,0); }
  if(q=="C10"){ static const int ks[]={sim::F_DEVENUM,sim::F_QUEUE,sim::F_BUFFER,sim::F_SUBMIT,sim::F_HOSTACC,sim::F_ASYNC}; add(ks[r.below(6)],0); if(r.one(5)) add(ks[r.below(6)],0); if(r.one(8)) add(sim::F_ALLOC,0); }
  if(q=="C11"){ int m=r.below(8); if(m==0) p.faults.push_back({sim::F_FOPEN,1,(int64_t)r.pick({13,2,24,5})}); else if(m<=2) add(sim::F_READERR,0); if(m>=2&&m<=6){ for(int i=r.in(1,6);i--;) p.faults.push_back({sim::F_READSHORT,1+r.below(cnt[sim::F_READSHORT]+6),(int64_t)r.in(1,r.one(2)?20:400)}); if(r.one(2)) add(sim::F_READINTR,0); } 
    if(m>=5&&r.one(2)) { p.faults.push_back({sim::F_READERR,1+r.below(cnt[sim::F_READERR]+5),0}); } }
  if(q=="C13"){ if(r.one(10)) p.faults.push_back({sim::F_RENAME,1,0}); if(r.one(8)&&cnt[sim::F_ALLOC]) add(sim::F_ALLOC,0); int m=r.below(8); if(m==0) p.faults.push_back({sim::F_FOPEN,1,(int64_t)r.pick({13,2,24,28,30})}); else if(m==1) add(sim::F_WRITEERR,0); else if(m<=3) p.faults.push_back({sim::F_DISKFULL,0,(int64_t)r.below(r.one(2)?40:6000)}); else if(m==4) p.faults.push_back({sim::F_CLOSEERR,1,(int64_t)r.below(1000)});
    if(m>=4){ for(int i=r.in(0,4);i--;) p.faults.push_back({sim::F_WRITESHORT,1+r.below(cnt[sim::F_WRITESHORT]+3),(int64_t)r.in(1,600)}); if(r.one(3)) add(sim::F_WRITEINTR,0); } }
}
static void schedule(Rng& r,Plan& p,uint64_t est){ sim::Config& c=p.cfg; c.sched_seed=r.next(); c.est_steps=est; c.strategy=r.pick({(int)sim::S_RANDOM,(int)sim::S_RANDOM,(int)sim::S_PCT,(int)sim::S_PCT,(int)sim::S_STALL,(int)sim::S_BURST,(int)sim::S_SYNC}); c.quantum=std::max(20.0,est/std::pow(10,1+r.unit()*2.2)); if(r.one(6)) c.quantum=r.in(15,200); c.pct_depth=r.in(1,6); c.max_switches=1500; }

// fine grids make the search visit ~gr^4 cells per point unless few neighbours are asked for: keep plans
// cheap, so that an implementation many times slower still ends far below the step limits
static void tame(Rng& r,const std::string& prop,TessArgs& a,int n){ if(a.gr<13||a.gr>=60) return; double g=std::pow((double)a.gr,4); auto cost=[&]{ double f=a.recompute?4:std::min(1.0,std::pow((a.k+1.0)/std::max(n,1),4/3.0)); return n*g*f; }; if(cost()<4e6) return;
  if(prop!="C03"&&r.one(2)){ a.recompute=0; a.k=std::max(1,n/20); if(cost()<4e6) return; } a.gr=r.in(3,12); }
// the caller chooses the integer type of the indices: any signed one that can address the working arrays
static void index_types(Plan& p){
  Rng r(p.seed*0x9e3779b97f4a7c15ull+77); for(size_t s=0;s<p.sets.size();s++){ if(!r.one(4)) continue; bool fit=true, any=false;
    for(auto& rr:p.rounds) for(auto& c:rr.clients){ double extra=0; for(auto& o:c.ops){ if(o.kind==OP_CLI) fit=false; if(o.kind==OP_MOVE&&o.set==(int)s) extra+=3; if(o.kind==OP_TESS&&o.set==(int)s){ any=true; if(!o.valid&&p.prop=="C20") continue; double n=p.sets[s].p.size()+extra; TessArgs a=o.a, d; if(!(a.set&1)) a.k=d.k; if(!(a.set&2)) a.gr=d.gr; if(!(a.set&64)) a.p=d.p; if(!(a.set&128)) a.t=d.t; double k=std::min<double>(a.k,n), pm=std::min(a.p,255), t=a.t; if(a.recompute){ if(n>31) fit=false; pm=255; t=std::max(t*1.0,320.0); } if(n*std::max({k,4*pm,3*t})>32767||1.0*a.gr*a.gr*a.gr>=32767||n>32000) fit=false; } } }
    if(any) p.sets[s].ti=fit&&r.one(3)?2:1; } }
static Plan gen(const std::string& prop,uint64_t seed){
  Rng r(seed); Plan p; p.prop=prop; p.seed=seed; machine(r,p); int dbl=r.one(4);
  auto one=[&](int n,TessArgs a,int shape){ p.sets.push_back(gen_set(r,n,shape,dbl)); Op o; o.a=a; add_round(p,{{o}}); };
  if(prop=="C01"){ int n=gen_n(r,1); TessArgs a=gen_args(r,n); bool hg=huge(r,a,n,150)||large(r,a,n,50); if(r.one(5)){ a.chunking=1; a.chunksize=gen_chunk(r,n); if(hg&&a.chunksize>0&&a.chunksize<20) a.chunksize+=40; } if(r.one(5)) a.recompute=1; if(r.one(6)) a.device=1; one(n,a,hg?(a.recompute?r.pick({0,2}):r.pick({0,1,2,4,9})):gen_shape(r,true)); }
  else if(prop=="C02"){ int n=gen_n(r,1); TessArgs a=gen_args(r,n); bool hg=huge(r,a,n,250)||large(r,a,n,50); a.chunking=1; a.chunksize=gen_chunk(r,n); if(hg&&a.chunksize>0&&a.chunksize<20) a.chunksize+=40; if(r.one(4)) a.recompute=1; one(n,a,hg?(a.recompute?r.pick({0,2}):r.pick({0,1,2,4,9})):gen_shape(r,true)); }
  else if(prop=="C03"){ int n=gen_n(r,1); if(n<2) n=r.in(1,6); TessArgs a=gen_args(r,n); a.recompute=1; if(r.one(3)){ a.chunking=1; a.chunksize=gen_chunk(r,n); } int m=r.below(4); if(m==0){ a.k=r.in(1,4); } if(m==1){ a.k=r.in(1,std::max(1,n-1)); a.p=r.in(7,14); a.t=r.in(9,16); } if(m==2) a.k=n-1+r.in(0,5); if(a.k<1) a.k=1; bool hg=huge(r,a,n,150); if(!hg&&large(r,a,n,60)){ hg=true; if(a.chunking&&a.chunksize>0&&a.chunksize<20) a.chunksize+=40; if(n>1200) n=r.in(250,1200); } int sh=hg?r.pick({0,2}):gen_shape(r,false); if(!hg&&r.one(3)) sh=7; one(n,a,sh); if(r.one(6)&&n<300){ gpu(r,p,p.rounds[0].clients[0].ops[0].a,n); } }
  else if(prop=="C04"){ int n=gen_n(r,0); TessArgs a=gen_args(r,n); if(r.one(2)){ a.chunking=1; a.chunksize=gen_chunk(r,n); } if(r.one(2)) a.recompute=1; if(a.nthreads<2&&r.one(2)) a.nthreads=r.in(2,6); one(n,a,gen_shape(r,true)); }
  else if(prop=="C05"){ int m=r.in(2,4), rounds=r.in(1,2); for(int i=0;i<m;i++) p.sets.push_back(gen_set(r,r.in(2,r.one(3)?40:16),gen_shape(r,true),r.one(4)));
    for(int q=0;q<rounds;q++){ std::vector<std::vector<Op>> cl; for(int i=0;i<m;i++){ std::vector<Op> v; for(int j=r.in(1,2);j--;){ Op o; o.set=i; o.slot=i*16+q*4+j; int n=p.sets[i].p.size(); o.a=gen_args(r,n); if(o.a.nthreads>6||o.a.nthreads==0) o.a.nthreads=r.in(1,4); if(r.one(3)){ o.a.chunking=1; o.a.chunksize=gen_chunk(r,n); } if(r.one(3)) o.a.recompute=1; if(r.one(3)){ o.a.suppress=0; o.a.set|=512; } if(r.one(6)) o.a.device=1; v.push_back(o); } cl.push_back(v); } if(p.seed%2&&r.one(2)) for(auto& c:cl) for(auto& o:c) o.a=cl[0][0].a; add_round(p,cl); } }
  else if(prop=="C06"){ int m=r.in(1,4), rounds=r.in(1,3); bool mix=r.one(3); p.own_buf=r.one(4); for(int i=0;i<m;i++) p.sets.push_back(gen_set(r,r.in(1,14),gen_shape(r,true),0));
    for(int q=0;q<rounds;q++){ std::vector<std::vector<Op>> cl; for(int i=0;i<m;i++){ if(i&&r.one(4)) continue; std::vector<Op> v; for(int j=r.in(1,2);j--;){ Op o; o.set=i; o.slot=i*16+q*4+j; int n=p.sets[i].p.size(); o.a=gen_args(r,n); o.a.gr=r.in(1,4); o.a.nthreads=r.in(1,3); if(r.one(3)){ o.a.chunking=1; o.a.chunksize=gen_chunk(r,n); } if(r.one(3)) o.a.recompute=1; if(mix&&r.one(2)){ o.a.suppress=0; o.a.set|=512; } if(r.one(5)) o.a.device=1; v.push_back(o); } cl.push_back(v); } add_round(p,cl); }
    if(r.one(5)){ p.cfg.ngpu=1; } }
  else if(prop=="C07"){ int n=r.in(1,30); TessArgs a=gen_args(r,n); if(a.nthreads==0||a.nthreads>9) a.nthreads=r.in(1,8); if(r.one(3)){ a.chunking=1; a.chunksize=gen_chunk(r,n); } if(r.one(3)) a.recompute=1; if(r.one(4)){ a.suppress=0; a.set|=512; } if(r.one(8)) a.device=1; one(n,a,gen_shape(r,false)); p.rounds[0].clients[0].ops[0].attempts=4; }
  else if(prop=="C08"){ int m=r.in(1,3); for(int i=0;i<m;i++){ int n=r.one(30)?0:r.one(6)?r.in(1,3):r.in(2,40); p.sets.push_back(gen_set(r,n,gen_shape(r,true),r.one(3))); } std::vector<Op> v; int k=r.in(2,6); for(int j=0;j<k;j++){ Op o; if(j&&r.one(2)&&v.back().kind==OP_TESS) { o=v.back(); int q=r.below(6); if(q<2) o.a.nthreads=r.in(1,5); else if(q<4) o.set=r.below(m); } else { o.set=r.below(m); int n=p.sets[o.set].p.size(); o.a=gen_args(r,std::max(n,1)); if(r.one(3)){ o.a.chunking=1; o.a.chunksize=gen_chunk(r,std::max(n,1)); } if(r.one(3)) o.a.recompute=1; if(r.one(5)) o.a.device=1; if(r.one(5)){ o.a.suppress=0; o.a.set|=512; } } o.slot=j; v.push_back(o); }
    if(r.one(4)){ PSet s=gen_set(r,r.in(1,12),0,r.one(3)); s.p[r.below(s.p.size())][r.below(3)]=r.pick({0.0,1.0,1.5,-0.25}); p.sets.push_back(s); Op o=v.back(); o.set=p.sets.size()-1; o.valid=0; o.slot=50; v.insert(v.begin()+r.below(v.size()),o); }
    if(r.one(2)) for(int q=r.in(1,3);q--;){ Op o; o.kind=OP_MOVE; size_t at=r.in(1,v.size()); o.set=v[at-1].kind==OP_TESS&&v[at-1].valid?v[at-1].set:r.below(m); o.list={(int)r.below(8),(int)r.below(1000),(int)r.below(1000),(int)r.below(1<<30)}; v.insert(v.begin()+at,o); if(r.one(2)&&v[at-1].kind==OP_TESS&&v[at-1].valid){ Op t=v[at-1]; t.slot=60+q; v.insert(v.begin()+at+1,t); } } add_round(p,{v}); }
  else if(prop=="C09"){ int n=r.one(6)?r.in(1,4):r.in(2,r.one(4)?40:16); TessArgs a=gen_args(r,n); gpu(r,p,a,n); if(r.one(2)){ a.chunking=1; a.chunksize=gen_chunk(r,n); } if(r.one(4)) a.recompute=1; if(a.gr>24) a.gr=r.in(1,9); if(r.one(25)&&n<10) a.gr=r.pick({64,80}); bool hg=huge(r,a,n,300); if(!hg&&r.one(60)){ hg=true; n=r.in(50,350); a.k=r.pick({6,8,12,16}); a.gr=r.in(4,10); a.p=r.pick({32,48,64}); a.t=r.pick({48,64,96}); if(a.chunking) a.chunksize=r.in(20,n+3); } if(!hg&&r.one(2500)){ n=r.in(2,3); a.gr=r.pick({256,257,300}); a.k=1; } one(n,a,hg?r.pick({0,2}):a.gr>=256?6:gen_shape(r,true)); p.rounds[0].clients[0].ops[0].a=a; }
  else if(prop=="C10"){ int n=r.in(1,14); TessArgs a=gen_args(r,n); if(a.gr>16) a.gr=4; a.device=1; if(!r.one(4)) gpu(r,p,a,n); if(a.ndsize>8) a.ndsize=4; if(r.one(3)){ a.chunking=1; a.chunksize=gen_chunk(r,n); } if(r.one(4)) a.recompute=1; if(r.one(4)){ a.suppress=0; a.set|=512; } one(n,a,gen_shape(r,false)); p.rounds[0].clients[0].ops[0].attempts=r.in(2,3); if(a.nthreads==0) p.rounds[0].clients[0].ops[0].a.nthreads=2; if(r.one(4)) p.cfg.ngpu2=p.cfg.ngpu&&!r.one(4)?0:r.in(0,2); }
  else if(prop=="C11") gen_cli(r,p,false);
  else if(prop=="C12"){ gen_cli(r,p,true); }
  else if(prop=="C13"){ std::vector<Op> v; Op o; if(r.one(3)){ int n=r.in(1,30); p.sets.push_back(gen_set(r,n,gen_shape(r,true),0)); o.a=gen_args(r,n); o.a.nthreads=2; } else { o.kind=OP_MAKE; int n=r.one(8)?0:r.one(3)?r.in(1,5):r.one(60)?r.in(4000,12000):r.in(2,r.one(3)?800:60); o.offs={0}; int emp=r.below(4); for(int i=0;i<n;i++){ int m=emp==0?r.in(0,2):emp==1&&r.one(2)?0:r.in(0,25); if(emp==3&&(i==0||i==n-1)) m=0; for(int j=0;j<m;j++) o.list.push_back(r.below(r.one(3)?10:1000000)); o.offs.push_back(o.list.size()); } }
    v.push_back(o); Op s; s.kind=OP_SAVE; s.path=r.one(12)?"/simfs/missing/x.txt":"/simfs/out.txt"; if(r.one(12)){ File f; f.path="/simfs/out.txt"; f.dir=true; p.files.push_back(f); } else if(r.one(4)){ File f; f.path="/simfs/out.txt"; f.data=std::string(r.in(1,20000),'7'); p.files.push_back(f); } v.push_back(s); if(r.one(3)) v.push_back(s); add_round(p,{v}); }
  else if(prop=="C14"){ int n=gen_n(r,0); TessArgs a=gen_args(r,n); if(r.one(3)){ a.chunking=1; a.chunksize=gen_chunk(r,n); } a.recompute=!r.one(3); if(r.one(2)) a.k=r.in(1,3); if(r.one(3)){ a.p=r.pick({7,9,200,255,256,300}); a.t=r.pick({9,12,200,400}); } if(a.nthreads==0&&r.one(2)) a.nthreads=r.in(2,6); one(n,a,gen_shape(r,true)); if(r.one(3)){ Op o=p.rounds[0].clients[0].ops[0]; o.slot=1; p.rounds[0].clients[0].ops.push_back(o); } }
  else if(prop=="C18"){ Op o; if(r.one(3)){ int n=r.in(1,30); p.sets.push_back(gen_set(r,n,gen_shape(r,true),dbl)); o.a=gen_args(r,n); o.a.nthreads=2; o.a.gr=r.in(1,6); if(r.one(3)) o.a.recompute=1; } else { o.kind=OP_MAKE; int n=r.in(1,r.one(4)?120:25); o.offs={0}; for(int i=0;i<n;i++){ int m=r.one(4)?0:r.in(0,20); for(int j=0;j<m;j++) o.list.push_back(r.below(1000)); o.offs.push_back(o.list.size()); } }
    add_round(p,{{o}}); int m=r.in(2,4); for(int q=r.in(1,2);q--;){ std::vector<std::vector<Op>> cl; for(int i=0;i<m;i++){ std::vector<Op> v; for(int j=r.in(1,3);j--;){ Op z; z.kind=r.one(3)?OP_SAVE:OP_READ; z.path="/simfs/out"+std::to_string(i)+".txt"; v.push_back(z); } cl.push_back(v); } add_round(p,cl); } }
  else if(prop=="C19"){ int m=r.in(1,3); bool sh=r.one(3); TessArgs sa; std::vector<std::vector<Op>> cl; for(int i=0;i<m;i++){ std::vector<Op> v; int good=p.sets.size(); p.sets.push_back(gen_set(r,r.in(1,24),gen_shape(r,true),r.one(3))); int badn=r.in(1,2); for(int j=0;j<badn;j++){ PSet s=gen_set(r,r.one(20)?r.in(60,200):r.in(1,24),gen_shape(r,true),r.one(3)); for(int q=r.one(3)?r.in(2,4):1;q--;) s.p[r.one(3)?s.p.size()-1:r.below(s.p.size())][r.below(3)]=r.pick({0.0,1.0,1.5,-0.25,(double)NAN,(double)INFINITY,-(double)INFINITY,1e30,-1e30,-0.0,-1e-40,1.0000001192092896,2.0,255.0}); p.sets.push_back(s); }
      for(int j=r.in(1,4);j--;){ Op o; bool bad=r.below(5)<3; o.valid=!bad; o.set=bad?good+1+r.below(badn):good; int n=p.sets[o.set].p.size(); o.a=gen_args(r,n); if(o.a.nthreads>6) o.a.nthreads=r.in(1,4); if(o.a.nthreads==0&&r.one(2)) o.a.nthreads=2; if(r.one(3)){ o.a.chunking=1; o.a.chunksize=gen_chunk(r,n); } if(r.one(3)) o.a.recompute=1; if(r.one(4)) o.a.device=1; if(r.one(5)){ o.a.suppress=0; o.a.set|=512; } if(sh){ if(i==0&&v.empty()) sa=o.a; o.a=sa; } o.slot=i*16+j; v.push_back(o); } cl.push_back(v); } add_round(p,cl); if(r.one(4)) p.cfg.ngpu=1; for(auto& c:p.rounds[0].clients) for(auto& o:c.ops) if(p.cfg.ngpu){ o.a.ndsize=r.in(1,4); if(o.a.gr>16) o.a.gr=5; if(o.valid) o.a.device=0; } }
  else if(prop=="C16"){ static const char* const keys[]={"k","knn_grid_resolution","cpu_nthreads","use_chunking","chunksize","use_recompute","cc_p_maxsize","cc_t_maxsize","gpu_ndsize","dev_suppress_stdout"}; bool first=true; int no=r.in(1,3);
      for(int q=r.in(1,3);q--;){ auto get=[&](Op& o){ o.set=1; o.list={(int)r.below(6)}; }; auto base=[&]{ Op o; o.kind=OP_PARAM; o.slot=r.below(no); o.path=keys[r.below(first?10:10)]; return o; }; std::vector<Op> v;
        for(int j=r.in(3,12);j--;){ Op o=base(); int w=r.below(20); if(w<9){ o.set=0; int t=r.below(14); t=t<7?t:0; long long x; switch(r.below(6)){ case 0: x=r.in(0,1); break; case 1: x=r.pick({INT_MAX,INT_MIN,-1,1000,999,1000000,123456789,-1234}); break; case 2: x=(long long)r.next(); break; default: x=r.in(-3,100000); } if(t==4) x=(short)x; if(t==0) x=(int)x; if(t==2&&x<0) x=-(x+1); o.list={t,(int)(uint32_t)x,(int)(uint32_t)((uint64_t)x>>32)}; } else if(w<14) get(o); else if(w<16){ o.set=2; o.list={(int)r.below(no)}; } else if(w<18){ o.set=3; o.list={(int)r.below(2)}; o.path=r.pick({"K","kk","cc_p_maxsize_","usechunking"," k","nthreads"}); } else { o.set=5; o.list={(int)r.below(2)}; } v.push_back(o); }
        add_round(p,{v}); std::vector<std::vector<Op>> cl; for(int c=r.in(1,3);c--;){ std::vector<Op> u; for(int j=r.in(1,6);j--;){ Op o=base(); get(o); if(r.one(8)){ o.set=3; o.list={0}; o.path="unknown"; } u.push_back(o); } cl.push_back(u); } add_round(p,cl); } }
  else if(prop=="C20"){ p.sets.push_back(gen_set(r,r.one(8)?1:r.in(2,r.one(4)?60:16),gen_shape(r,true),dbl)); int n=p.sets[0].p.size(); std::vector<Op> v; if(r.one(4)) p.cfg.ngpu=1; int m=r.in(2,4);
      for(int j=0;j<m;j++){ Op o; o.slot=j; o.a=gen_args(r,n); TessArgs& a=o.a; if(a.nthreads==0||a.nthreads>6) a.nthreads=r.in(1,4); if(a.gr>9) a.gr=r.in(1,6); if(r.one(3)){ a.chunking=1; a.chunksize=gen_chunk(r,n); } if(r.one(3)) a.recompute=1; if(r.one(3)) a.device=1; if(p.cfg.ngpu) a.ndsize=r.in(1,4);
        bool bad=j<m-1&&!r.one(4); if(bad){ o.valid=0; for(int q=r.one(4)?2:1;q--;) switch(r.below(6)){ case 0: a.k=r.pick({0,-1,-7,INT_MIN}); break; case 1: a.gr=r.pick({0,-1,-3,-100,1291,1626,2048,2581,46341,65536,100000,INT_MAX,INT_MIN}); break; case 2: a.p=r.pick({0,1,2,3,4,5,-1,-6,-100,INT_MIN}); break; case 3: a.t=r.pick({0,1,2,3,4,5,6,7,-1,-8,-1000,INT_MIN,(int)(4294967296ull/(3ull*n))+1+(int)r.below(40),(int)(4294967296ull/(3ull*n))+1}); if(n<3&&a.t>1000) a.t=1431655766; break; case 4: a.nthreads=r.pick({-1,-2,-100,INT_MIN}); break; default: a.device=1; a.ndsize=r.pick({p.cfg.max_wg+1,1000,100000,INT_MAX,INT_MIN}); a.set|=256; } a.set|=1023u&~512u; }
        v.push_back(o); } std::vector<std::vector<Op>> cl{v}; if(r.one(3)){ int n2=r.in(1,16); p.sets.push_back(gen_set(r,n2,gen_shape(r,true),r.one(3))); std::vector<Op> w; for(int q=r.in(1,2);q--;){ Op o; o.set=1; o.slot=20+q; o.a=gen_args(r,n2); o.a.nthreads=r.in(1,3); if(o.a.gr>9) o.a.gr=r.in(1,6); if(r.one(3)) o.a.recompute=1; w.push_back(o); } cl.push_back(w); } add_round(p,cl); }
  if((prop=="C14"&&r.one(60))||(prop=="C04"&&r.one(200))){ int n=r.in(258,275); p.sets[0]=gen_set(r,n,r.one(4)?7:10,0); auto& ops=p.rounds[0].clients[0].ops; ops.resize(1); TessArgs& a=ops[0].a; a.recompute=1; a.chunking=0; a.k=n-1-r.below(3); a.gr=r.in(2,4); a.p=r.pick({64,128,200,254,255,300}); a.t=r.pick({128,256,400}); if(a.nthreads>6) a.nthreads=r.in(1,6); }
  if((prop=="C08"||prop=="C13"||prop=="C18"||prop=="C01")&&r.one(prop=="C01"?20:6)) p.loc=prop=="C08"?r.in(1,3):1;
  if(p.rounds.empty()) { fprintf(stderr,"no generator for %s\n",prop.c_str()); exit(3); }
  bool vs=((prop=="C01"||prop=="C02")&&!r.below(VASTODDS))||((prop=="C09"||prop=="C03"||prop=="C07"||prop=="C08")&&!r.below(VASTODDS*4));
  if(vs&&prop=="C08"){ std::vector<Op> keep; for(auto& o:p.rounds[0].clients[0].ops) if(o.kind==OP_TESS&&o.valid) keep.push_back(o); p.rounds[0].clients[0].ops=keep; }
  if(vs){ TessArgs& a=p.rounds[0].clients[0].ops[0].a; int n=0; vast(r,a,n,1); if(prop=="C03"){ a.recompute=1; n=n/4; a.gr=std::max(3,a.gr/2); if(a.p<24) a.p=24; } if(prop=="C09"){ n=n<20000?n:8190+r.in(0,200); a.gr=(int)std::cbrt(n*1.0); } else { a.device=0; p.cfg.ngpu=0; } if(a.chunking) a.chunksize=r.pick({8196,8192,n-1,n/2,n/2+1,n/3,4096,n>8196?n-8196:n/5,32768}); if(prop=="C08"){ for(auto& o:p.rounds[0].clients[0].ops){ o.a=a; o.set=0; } } auto& ops=p.rounds[0].clients[0].ops; if(ops.size()>2) ops.resize(2); p.sets[ops[0].set]=gen_set(r,n,r.pick({0,0,2}),prop=="C07"?0:dbl); }
  else if((prop=="C01"||prop=="C02"||prop=="C04")&&r.one(prop=="C04"?160:400)){ int n=r.in(2,6); TessArgs& a=p.rounds[0].clients[0].ops[0].a; a.gr=r.pick({127,128,129,200,255,256,256,257,257,300}); a.k=r.in(1,2); a.recompute=0; if(a.nthreads>8) a.nthreads=r.in(1,4); p.sets[0]=gen_set(r,n,6,0); }
  else if((prop=="C01"||prop=="C02"||prop=="C03"||prop=="C04"||prop=="C09")&&r.one(120)){ int n=r.in(60,prop=="C09"?140:240); TessArgs& a=p.rounds[0].clients[0].ops[0].a; a.gr=r.in(2,5); a.k=r.one(3)?r.in(40,n-1):n-1; a.p=r.pick({128,200,254,255,300}); a.t=r.pick({256,300,400,600}); if(a.nthreads>8) a.nthreads=r.in(1,6); p.sets[0]=gen_set(r,n,10,dbl); }
  if((prop=="C01"&&r.one(120))||((prop=="C02"||prop=="C04"||prop=="C07")&&r.one(300))){ TessArgs& a=p.rounds[0].clients[0].ops[0].a; if(p.sets[0].p.size()<100){ a.nthreads=r.pick({255,256,257,300,511,512}); a.set|=4; } }
  for(auto& rr:p.rounds) for(auto& c:rr.clients) for(auto& o:c.ops) if(o.kind==OP_TESS) tame(r,prop,o.a,(int)p.sets[o.set].p.size());
  if(tgt_index_types()>1) index_types(p);
  return p;
}
