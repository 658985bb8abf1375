#ifndef SIM_GOMP_H
#define SIM_GOMP_H
typedef struct { int nthreads, dyn, levels, sched, chunk, limit, procs; } gomp_icv_t;   /* an OpenMP program's settings */
typedef struct { void *team; int id, n, single, ws; void *loop; gomp_icv_t icv; } gomp_where_t;
void gomp_sim_settings(gomp_icv_t v, int granted);
gomp_where_t gomp_sim_where(void);      /* the calling thread's place in its program */
void gomp_sim_config(int max_threads, int granted);
uint64_t gomp_sim_regions(void);
void gomp_sim_step(bool on);           /* single-step the threads of the team */
void gomp_sim_enter(void);              /* the calling task's own part */
void gomp_sim_leave(void);
/* for simulated applications */
void GOMP_parallel(void (*fn)(void *), void *data, unsigned num, unsigned flags);
void GOMP_barrier(void);
bool GOMP_single_start(void);
void GOMP_critical_start(void); void GOMP_critical_end(void);
void GOMP_critical_name_start(void **key); void GOMP_critical_name_end(void **key);
void GOMP_atomic_start(void); void GOMP_atomic_end(void);
bool GOMP_loop_dynamic_start(long s, long e, long i, long c, long *a, long *b);
bool GOMP_loop_dynamic_next(long *a, long *b);
void GOMP_loop_end(void); void GOMP_loop_end_nowait(void);
unsigned GOMP_sections_start(unsigned n); unsigned GOMP_sections_next(void); void GOMP_sections_end(void);
void omp_set_num_threads(int n); void omp_set_dynamic(int d); void omp_set_max_active_levels(int n); void omp_set_schedule(int k, int c);
int omp_get_num_threads(void); int omp_get_thread_num(void); int omp_get_level(void);
#endif
