/* Declarations of the OpenMP runtime API, so that the analysis front end does
   not depend on the compiler-specific attributes of the installed omp.h. */
#ifndef CQ_OMP_H
#define CQ_OMP_H
#ifdef __cplusplus
extern "C" {
#define CQ_NT throw()
#else
#define CQ_NT __attribute__((__nothrow__))
#endif
typedef struct { int x[4]; } omp_lock_t;
typedef struct { int x[6]; } omp_nest_lock_t;
typedef enum { omp_sched_static = 1, omp_sched_dynamic = 2, omp_sched_guided = 3, omp_sched_auto = 4 } omp_sched_t;
void omp_set_num_threads(int) CQ_NT; int omp_get_num_threads(void) CQ_NT; int omp_get_max_threads(void) CQ_NT;
int omp_get_thread_num(void) CQ_NT; int omp_get_num_procs(void) CQ_NT; int omp_in_parallel(void) CQ_NT;
void omp_set_dynamic(int) CQ_NT; int omp_get_dynamic(void) CQ_NT; void omp_set_nested(int) CQ_NT; int omp_get_nested(void) CQ_NT;
void omp_init_lock(omp_lock_t *) CQ_NT; void omp_destroy_lock(omp_lock_t *) CQ_NT; void omp_set_lock(omp_lock_t *) CQ_NT;
void omp_unset_lock(omp_lock_t *) CQ_NT; int omp_test_lock(omp_lock_t *) CQ_NT;
void omp_init_nest_lock(omp_nest_lock_t *) CQ_NT; void omp_destroy_nest_lock(omp_nest_lock_t *) CQ_NT;
void omp_set_nest_lock(omp_nest_lock_t *) CQ_NT; void omp_unset_nest_lock(omp_nest_lock_t *) CQ_NT; int omp_test_nest_lock(omp_nest_lock_t *) CQ_NT;
double omp_get_wtime(void) CQ_NT; double omp_get_wtick(void) CQ_NT;
void omp_set_schedule(omp_sched_t, int) CQ_NT; void omp_get_schedule(omp_sched_t *, int *) CQ_NT;
int omp_get_thread_limit(void) CQ_NT; void omp_set_max_active_levels(int) CQ_NT; int omp_get_max_active_levels(void) CQ_NT;
int omp_get_level(void) CQ_NT; int omp_get_ancestor_thread_num(int) CQ_NT; int omp_get_team_size(int) CQ_NT; int omp_get_active_level(void) CQ_NT;
int omp_in_final(void) CQ_NT; int omp_get_cancellation(void) CQ_NT;
#ifdef __cplusplus
}
#endif
#endif
