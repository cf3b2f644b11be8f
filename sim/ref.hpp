#pragma once
#include <vector>
#include <array>
#include <algorithm>
#include <cmath>
#include <cstdio>
namespace ref {
typedef double R;
struct V3 { R x,y,z; };
static inline R dot(V3 a,V3 b){return a.x*b.x+a.y*b.y+a.z*b.z;}
static inline V3 cross(V3 a,V3 b){return {a.y*b.z-a.z*b.y,a.z*b.x-a.x*b.z,a.x*b.y-a.y*b.x};}
struct Plane { V3 n; R d; int id; }; // keep side: n.x + d <= 0 ; id<0 => wall
struct Vtx { V3 p; int pl[3]; R err; };
struct Face { int pl; std::vector<Vtx> v; };
struct Cell {
  std::vector<int> neigh; // ids with a face
  bool robust=true; int pneed=6, tneed=8; R minface=1e9; R worst=1e9;
};
static inline V3 solve(const Plane&a,const Plane&b,const Plane&c,R eps,R*err){
  V3 n23=cross(b.n,c.n), n31=cross(c.n,a.n), n12=cross(a.n,b.n);
  R tp=dot(a.n,n23);
  V3 r{ -(a.d*n23.x+b.d*n31.x+c.d*n12.x)/tp, -(a.d*n23.y+b.d*n31.y+c.d*n12.y)/tp, -(a.d*n23.z+b.d*n31.z+c.d*n12.z)/tp};
  R la=std::sqrt(dot(a.n,a.n)),lb=std::sqrt(dot(b.n,b.n)),lc=std::sqrt(dot(c.n,c.n));
  // bound on rounding: numerator terms ~ |d|*|n||n| ; d itself carries eps*|x|^2~eps*1.5
  R mag=(std::fabs(a.d)+.5)*lb*lc+(std::fabs(b.d)+.5)*la*lc+(std::fabs(c.d)+.5)*la*lb + la*lb*lc;
  *err=eps*4*mag/std::fabs(tp);
  return r;
}
// sites in order; returns cell of p among qs (ordered) within unit cube
template<class P3> Cell cell(const P3& p, const std::vector<std::pair<int,P3>>& qs, R eps){
  Cell out;
  std::vector<Plane> pls={ {{-1,0,0},0,-1},{{1,0,0},-1,-2},{{0,-1,0},0,-3},{{0,1,0},-1,-4},{{0,0,-1},0,-5},{{0,0,1},-1,-6} };
  std::vector<Face> fs(6);
  // cube faces
  auto mk=[&](int a,int b,int c){ Vtx v; v.pl[0]=a;v.pl[1]=b;v.pl[2]=c; v.p=solve(pls[a],pls[b],pls[c],eps,&v.err); return v; };
  int ring[3][2]={{2,4},{0,4},{0,2}};
  for(int f=0;f<6;f++){ fs[f].pl=f; int ax=f/2; int u=ring[ax][0], w=ring[ax][1];
    fs[f].v={mk(f,u,w),mk(f,u+1,w),mk(f,u+1,w+1),mk(f,u,w+1)}; }
  for(auto&q:qs){
    Plane b; b.n={q.second[0]-p[0],q.second[1]-p[1],q.second[2]-p[2]};
    R l=std::sqrt(dot(b.n,b.n));
    if(l==0){ out.robust=false; continue; }
    b.d=-( (R)q.second[0]*q.second[0]-(R)p[0]*p[0]+(R)q.second[1]*q.second[1]-(R)p[1]*p[1]+(R)q.second[2]*q.second[2]-(R)p[2]*p[2])/2; b.id=q.first;
    int nb=pls.size();
    bool cut=false;
    R far=0;
    for(auto&f:fs)for(auto&v:f.v){ R s=dot(b.n,v.p)+b.d; R e=l*v.err+eps*6;
      if(std::fabs(s)<e) out.robust=false; out.worst=std::min(out.worst,std::fabs(s)/e);
      if(s>0) cut=true; V3 dd{v.p.x-p[0],v.p.y-p[1],v.p.z-p[2]}; far=std::max(far,dot(dd,dd)); }
    if(!cut){ if(l*l>4*far) break; continue; }
    pls.push_back(b); out.pneed++;
    std::vector<Face> nf; std::vector<Vtx> cap;
    for(auto&f:fs){ Face g; g.pl=f.pl; int m=f.v.size();
      for(int i=0;i<m;i++){ Vtx&a=f.v[i]; Vtx&c=f.v[(i+1)%m];
        R sa=dot(b.n,a.p)+b.d, sc=dot(b.n,c.p)+b.d;
        if(sa<=0) g.v.push_back(a);
        if((sa<=0)!=(sc<=0)){
          int other=-1; for(int x:a.pl)for(int y:c.pl) if(x==y&&x!=f.pl) other=x;
          if(other<0){ out.robust=false; return out; }
          Vtx n; n.pl[0]=f.pl;n.pl[1]=other;n.pl[2]=nb; n.p=solve(pls[f.pl],pls[other],pls[nb],eps,&n.err);
          g.v.push_back(n); cap.push_back(n);
        } }
      if(g.v.size()>=3) nf.push_back(g); }
    // order the cap: each cap vertex joined via shared plane; each appears twice (two faces)
    Face cf; cf.pl=nb; std::vector<Vtx> uniq;
    for(auto&v:cap){ bool dup=false; for(auto&u:uniq){ int a0=std::min(v.pl[0],v.pl[1]),a1=std::max(v.pl[0],v.pl[1]),b0=std::min(u.pl[0],u.pl[1]),b1=std::max(u.pl[0],u.pl[1]); if(a0==b0&&a1==b1)dup=true;} if(!dup)uniq.push_back(v);}
    if(uniq.size()<3){ out.robust=false; return out; }
    std::vector<char> used(uniq.size(),0); cf.v.push_back(uniq[0]); used[0]=1; int link=uniq[0].pl[1];
    while(cf.v.size()<uniq.size()){ bool ok=false; for(size_t i=0;i<uniq.size();i++) if(!used[i]){ if(uniq[i].pl[0]==link||uniq[i].pl[1]==link){ link = uniq[i].pl[0]==link?uniq[i].pl[1]:uniq[i].pl[0]; used[i]=1; cf.v.push_back(uniq[i]); ok=true; break; } } if(!ok){ out.robust=false; return out; } }
    nf.push_back(cf); fs.swap(nf);
    int tv=0; for(auto&f:fs) tv+=f.v.size(); out.tneed=std::max(out.tneed,tv/3);
  }
  for(auto&f:fs) if(pls[f.pl].id>=0) out.neigh.push_back(pls[f.pl].id);
  std::sort(out.neigh.begin(),out.neigh.end());
  return out;
}
template<class P3> Cell site_cell(const std::vector<P3>& pts,int i,int k,R eps,R tieeps){
  std::vector<std::pair<R,int>> d; for(int j=0;j<(int)pts.size();j++) if(j!=i){ R s=0; for(int c=0;c<3;c++) s+=((R)pts[j][c]-pts[i][c])*((R)pts[j][c]-pts[i][c]); d.push_back({s,j}); }
  std::sort(d.begin(),d.end()); bool tie=false;
  if(k<(int)d.size()){ if(d[k].first-d[k-1].first<tieeps) tie=true; d.resize(k); }
  std::vector<std::pair<int,P3>> qs; for(auto&x:d) qs.push_back({x.second,pts[x.second]});
  Cell c=cell(pts[i],qs,eps); if(tie) c.robust=false; return c;
}
}
