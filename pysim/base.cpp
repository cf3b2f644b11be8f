// The C++ library itself, for comparison with what Python sees.
#include <votess.hpp>
#include <cstring>
extern "C" __attribute__((visibility("default"))) int base_tess(const float* xyz,int n,const int* a,int dev,int* offs,int* list,int cap){
  try { std::vector<std::array<float,3>> s(n); for(int i=0;i<n;i++) s[i]={xyz[3*i],xyz[3*i+1],xyz[3*i+2]};
    class votess::vtargs v; const char* names[]={"k","knn_grid_resolution","cpu_nthreads","use_chunking","chunksize","use_recompute","cc_p_maxsize","cc_t_maxsize","gpu_ndsize"}; for(int i=0;i<9;i++) if(a[i]!=-99999) v[names[i]]=a[i];
    auto d=votess::tesellate<int,float>(s,v,dev?votess::device::gpu:votess::device::cpu); if((int)d.list.size()>cap) return -2; memcpy(offs,d.offs.data(),d.offs.size()*4); if(!d.list.empty()) memcpy(list,d.list.data(),d.list.size()*4); return (int)d.offs.size()-1;
  } catch(...) { return -1; } }
