// Declarations-only stand-in for gcc's omp.h, which clang cannot parse.
// Used only when /repo is compiled to LLVM IR for verification.
#pragma once
#ifdef __cplusplus
extern "C" {
#endif
typedef struct { unsigned char _x[4] __attribute__((__aligned__(4))); } omp_lock_t;
typedef struct { unsigned char _x[16] __attribute__((__aligned__(8))); } omp_nest_lock_t;
void omp_set_num_threads(int);
int omp_get_num_threads(void);
int omp_get_max_threads(void);
int omp_get_thread_num(void);
int omp_get_num_procs(void);
int omp_in_parallel(void);
void omp_set_dynamic(int);
int omp_get_dynamic(void);
void omp_set_nested(int);
int omp_get_nested(void);
void omp_init_lock(omp_lock_t *);
void omp_destroy_lock(omp_lock_t *);
void omp_set_lock(omp_lock_t *);
void omp_unset_lock(omp_lock_t *);
int omp_test_lock(omp_lock_t *);
double omp_get_wtime(void);
double omp_get_wtick(void);
#ifdef __cplusplus
}
#endif
