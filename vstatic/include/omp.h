/* declarations only: lets clang parse the extension sources (the sandbox's clang has no omp.h) */
#ifndef VSTATIC_OMP_H
#define VSTATIC_OMP_H
typedef struct { int _x; } omp_lock_t;
extern int omp_get_thread_num(void);
extern int omp_get_num_threads(void);
extern int omp_get_max_threads(void);
extern int omp_get_num_procs(void);
extern int omp_in_parallel(void);
extern void omp_set_num_threads(int);
extern double omp_get_wtime(void);
extern void omp_init_lock(omp_lock_t *);
extern void omp_destroy_lock(omp_lock_t *);
extern void omp_set_lock(omp_lock_t *);
extern void omp_unset_lock(omp_lock_t *);
#endif
