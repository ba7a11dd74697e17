#pragma once
#ifndef VC_OMP
#define VC_OMP
// threads: sequential semantics, the number of threads and the current thread are ghost values chosen by the harness
#ifdef VC_OMP_GHOST
extern int vc_omp_max, vc_omp_tid;
#else
static int vc_omp_max = 1, vc_omp_tid = 0;
#endif
inline int omp_get_max_threads() { return vc_omp_max; }
inline int omp_get_num_threads() { return vc_omp_max; }
inline int omp_get_thread_num() { return vc_omp_tid; }
inline void omp_set_num_threads(int) {}
inline double omp_get_wtime() { return 0; }
#endif
