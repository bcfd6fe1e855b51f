// The checks compile the OpenMP configuration that the repository's build uses, with every `#pragma omp` ignored:
// a parallel loop is read as the sequential loop it annotates.
#pragma once
#ifdef __cplusplus
extern "C" {
#endif
static inline int omp_get_num_procs(void) { return 8; }
static inline int omp_get_max_threads(void) { return 8; }
static inline int omp_get_num_threads(void) { return 1; }
static inline int omp_get_thread_num(void) { return 0; }
static inline void omp_set_num_threads(int n) { (void) n; }
#ifdef __cplusplus
}
#endif
