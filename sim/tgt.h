// The public API of votess as the harness uses it: compiled, instrumented, from
// /repo's working tree.
#pragma once
#include <cstddef>
#include <cstdint>
struct TessArgs {
  int k=64, gr=16, nthreads=0, chunking=0, chunksize=8196, recompute=0, p=32, t=32, ndsize=1, suppress=1, device=0;
  unsigned set=~0u;             // which of the above are assigned (others keep their default)
};
struct TgtStatus { int exc; char what[200]; };   // exc: 0 none 1 bad_alloc 2 system_error 3 std::exception 4 other
typedef void (*row_sink)(void* ctx, size_t row, size_t rows, const int* v, size_t n);
extern "C" {
int   tgt_index_types();                           // 3: int, long and short indices; 1: int only
void* tgt_points(int is_double, int index_type, const double* xyz, size_t n);
void  tgt_points_set(void* pts, const double* xyz, size_t n);   // the caller overwrites its points, in place
void  tgt_points_get(void* pts, double* xyz);      // back out, as double
size_t tgt_points_size(void* pts);
void* tgt_points_raw(void* pts, size_t* bytes);
void  tgt_points_free(void* pts);
void* tgt_args(const TessArgs* a);                 // a parameter object that several calls use
void* tgt_tess(void* pts, const TessArgs* a, TgtStatus* st, void* args);      // a result or null; args: the parameter object to pass, or null for one of its own
void* tgt_make(const int* list, size_t nl, const int* offs, size_t no);
void  tgt_rows(void* res, row_sink s, void* ctx);
void  tgt_save(void* res, const char* path, TgtStatus* st);
void  tgt_print(void* res, TgtStatus* st);
void  tgt_free(void* res);
void* tgt_vt(void* copy_of);                        // a parameter object
void  tgt_vt_set(void* vt, const char* key, int type, long long v, TgtStatus* st);
long long tgt_vt_get(void* vt, const char* key, int type, TgtStatus* st);
int   votess_cli_main(int argc, char** argv);
}
