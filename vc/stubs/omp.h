/* declarations only: clang-18 here ships no omp.h; gcc's is not clang-compatible */
#ifndef VC_OMP_H
#define VC_OMP_H
int omp_get_num_threads(void); int omp_get_thread_num(void); int omp_get_max_threads(void);
void omp_set_num_threads(int); int omp_in_parallel(void); double omp_get_wtime(void);
#endif
