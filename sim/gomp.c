/* Simulated OpenMP runtime: the libgomp ABI on top of simulated tasks. The team
 * size granted, and every interleaving, is decided by the simulator. */
#include "sim.h"
#include "gomp.h"
#define MAX_WS 64
struct ws { bool init; long next, end, incr, chunk; int kind, done; unsigned long long unext, uend, uincr; bool up; int sec; };
typedef struct team {
	void (*fn)(void *); void *data;
	int n, finished, arrived; unsigned gen;
	int singles; void *copy;
	uint32_t allowed, seen;      /* instruction sets: of the call that made the team */
	struct ws ws[MAX_WS];
	struct team *outer;
} team_t;
typedef struct { team_t *t; int id, single_n, ws_n; struct ws *cur; int crit; unsigned own; gomp_icv_t icv; } me_t;
static __thread me_t me;
static int granted = 1; static gomp_icv_t initial = { 1, 0, 1, 1, 0, 1024, 1 };
static uint64_t parallel_regions;
static struct { void **key; int owner; } crit[32]; static int ncrit;
static int atomic_owner, threads_used; static unsigned epoch;
void gomp_sim_config(int max, int grant) { gomp_icv_t d = { max, 0, 1, 1, 0, 1024, max }; gomp_sim_settings(d, grant); }
void gomp_sim_settings(gomp_icv_t v, int grant) { initial = v; granted = grant; ncrit = 0; atomic_owner = 0; parallel_regions = 0; threads_used = 0; epoch++; }
uint64_t gomp_sim_regions(void) { return parallel_regions; }
static gomp_icv_t *icv(void) { if (me.own != epoch) { me.own = epoch; me.icv = initial; } return &me.icv; }
gomp_where_t gomp_sim_where(void) { gomp_where_t w; memset(&w, 0, sizeof w); w.team = me.t; w.id = me.id; w.n = me.t ? me.t->n : 1; w.single = me.single_n; w.ws = me.ws_n; w.loop = me.cur; w.icv = *icv(); return w; }

static bool stepped; static __thread bool step_now;   /* team threads are single-stepped */
void gomp_sim_step(bool on) { stepped = on; }
void gomp_sim_enter(void) { stack_scrub(); if (stepped) { step_now = true; step_on(NULL); } }
void gomp_sim_leave(void) { if (step_now) { step_off(); step_now = false; } }
static void yield(const char *w) { bool s = step_now; if (s) step_off(); STAT("omp.sync_points"); task_yield(w); if (s) step_on(NULL); }
static void wait_for(bool (*f)(void *), void *p, const char *w) { bool s = step_now; if (s) step_off(); task_wait(f, p, w); if (s) step_on(NULL); }
struct start { team_t *t; int id; gomp_icv_t icv; };
static void team_main(void *p) {
	struct start *s = p;
	memset(&me, 0, sizeof me);
	me.t = s->t; me.id = s->id; me.own = epoch; me.icv = s->icv;
	g_in_call = "parallel region";
	isa_allowed = s->t->allowed; isa_seen = 0;
	yield("thread start");
	gomp_sim_enter();
	s->t->fn(s->t->data);
	gomp_sim_leave();
	s->t->seen |= isa_seen;
	s->t->finished++;
}
static bool team_done(void *p) { team_t *t = p; return t->finished == t->n - 1; }
void GOMP_parallel(void (*fn)(void *), void *data, unsigned num, unsigned flags) {
	(void)flags;
	const char *in = g_in_call;
	bool st = step_now;
	if (st) gomp_sim_leave();
	team_t t; me_t save = me;
	memset(&t, 0, sizeof t);
	t.fn = fn; t.data = data; t.outer = me.t; t.allowed = isa_allowed;
	gomp_icv_t v = *icv();
	int want = num ? (int)num : v.nthreads, n = want < granted ? want : granted, active = 0;
	for (team_t *o = me.t; o; o = o->outer) active += o->n > 1;
	if (g_in_call && num && (int)num > v.nthreads) violation("team-size", "%s asks for %u threads where the caller's setting is %d", g_in_call, num, v.nthreads);
	if (active >= v.levels || n < 1 || !in_task()) n = 1;
	if (threads_used + n > v.limit) n = v.limit - threads_used > 1 ? v.limit - threads_used : 1;
	t.n = n; threads_used += n - 1;
	if (n > 1 && active) STAT("omp.nested_teams");
	parallel_regions++;
	STAT("omp.parallel_regions");
	if (n < want) STAT("fault.fewer_threads_granted");
	EV("parallel", want, n, 0);
	struct start *s = calloc(n, sizeof *s);
	for (int i = 1; i < n; i++) { s[i].t = &t; s[i].id = i; s[i].icv = v; task_spawn(team_main, &s[i]); }
	memset(&me, 0, sizeof me);
	me.t = &t; me.id = 0; me.own = epoch; me.icv = v;
	yield("region start");
	if (st) gomp_sim_enter();
	fn(data);
	if (st) gomp_sim_leave();
	wait_for(team_done, &t, "end of parallel region");
	free(s);
	threads_used -= n - 1;
	isa_seen |= t.seen;
	me = save;
	g_in_call = in;
	if (st) gomp_sim_enter();
}
struct bw { team_t *t; unsigned gen; };
static bool passed(void *p) { struct bw *b = p; return b->t->gen != b->gen; }
void GOMP_barrier(void) {
	team_t *t = me.t;
	if (!t || t->n == 1) return;
	struct bw b = { t, t->gen };
	STAT("omp.barriers");
	if (++t->arrived == t->n) { t->arrived = 0; t->gen++; yield("barrier passed"); return; }
	const char *in = g_in_call;
	wait_for(passed, &b, "barrier");
	g_in_call = in;
}
bool GOMP_barrier_cancel(void) { GOMP_barrier(); return false; }
bool GOMP_single_start(void) {
	yield("single");
	if (!me.t) return true;
	if (me.single_n++ == me.t->singles) { me.t->singles++; EV("single", me.id, 0, 0); return true; }
	return false;
}
void *GOMP_single_copy_start(void) { if (GOMP_single_start()) return NULL; GOMP_barrier(); return me.t->copy; }
void GOMP_single_copy_end(void *p) { if (me.t) me.t->copy = p; GOMP_barrier(); }
static void *anon;
struct cw { void **key; };
static int crit_find(void **key) {
	for (int i = 0; i < ncrit; i++) if (crit[i].key == key) return i;
	if (ncrit == 32) sim_error("too many critical sections");
	crit[ncrit].key = key; crit[ncrit].owner = 0;
	return ncrit++;
}
static bool crit_free(void *p) { return crit[crit_find(p)].owner == 0; }
void GOMP_critical_name_start(void **key) {
	yield("critical");
	wait_for(crit_free, key, "critical section");
	crit[crit_find(key)].owner = me.id + 1;
}
void GOMP_critical_name_end(void **key) { crit[crit_find(key)].owner = 0; yield("critical left"); }
void GOMP_critical_start(void) { GOMP_critical_name_start(&anon); }
void GOMP_critical_end(void) { GOMP_critical_name_end(&anon); }
static bool atomic_free(void *p) { (void)p; return atomic_owner == 0; }
void GOMP_atomic_start(void) { yield("atomic"); wait_for(atomic_free, NULL, "atomic"); atomic_owner = me.id + 1; }
void GOMP_atomic_end(void) { atomic_owner = 0; yield("atomic left"); }
void GOMP_flush_all(void) { yield("flush"); }
bool GOMP_cancel(int w, bool c) { (void)w; (void)c; return false; }
bool GOMP_cancellation_point(int w) { (void)w; return false; }

/* work sharing */
static struct ws lone;
static struct ws *ws_enter(void) {
	if (!me.t) { memset(&lone, 0, sizeof lone); return me.cur = &lone; }
	struct ws *w = &me.t->ws[me.ws_n++ % MAX_WS];
	return me.cur = w;
}
static void ws_leave(void) {
	struct ws *w = me.cur;
	if (w && me.t && ++w->done == me.t->n) memset(w, 0, sizeof *w);
	me.cur = NULL;
}
enum { K_STATIC, K_DYNAMIC, K_GUIDED };
static bool ws_next(long *a, long *b) {
	struct ws *w = me.cur;
	yield("loop");
	if (w->incr > 0 ? w->next >= w->end : w->next <= w->end) return false;
	long c = w->chunk > 0 ? w->chunk : 1;
	if (w->kind == K_GUIDED && me.t) { long left = (w->end - w->next) / w->incr; long g = left / (2 * me.t->n); if (g > c) c = g; }
	long e = w->next + c * w->incr;
	if (w->incr > 0 ? e > w->end : e < w->end) e = w->end;
	*a = w->next; *b = e; w->next = e;
	EV("iterations", me.id, *a, *b);
	return true;
}
static bool loop_start(int kind, long s, long e, long i, long c, long *a, long *b) {
	struct ws *w = ws_enter();
	if (kind == K_STATIC) { kind = K_DYNAMIC; if (c <= 0) { long n = i ? (e - s + i - (i > 0 ? 1 : -1)) / i : 0; int t = me.t ? me.t->n : 1; c = (n + t - 1) / t; } }
	if (!w->init) { w->init = true; w->kind = kind; w->next = s; w->end = e; w->incr = i; w->chunk = c; }
	return ws_next(a, b);
}
#define LOOP(name, kind) \
bool GOMP_loop_##name##_start(long s, long e, long i, long c, long *a, long *b) { return loop_start(kind, s, e, i, c, a, b); } \
bool GOMP_loop_##name##_next(long *a, long *b) { return ws_next(a, b); }
LOOP(static, K_STATIC) LOOP(dynamic, K_DYNAMIC) LOOP(guided, K_GUIDED) LOOP(nonmonotonic_dynamic, K_DYNAMIC) LOOP(nonmonotonic_guided, K_GUIDED)
#define RLOOP(name) \
bool GOMP_loop_##name##_start(long s, long e, long i, long *a, long *b) { return loop_start(K_DYNAMIC, s, e, i, 1, a, b); } \
bool GOMP_loop_##name##_next(long *a, long *b) { return ws_next(a, b); }
RLOOP(runtime) RLOOP(nonmonotonic_runtime) RLOOP(maybe_nonmonotonic_runtime)
typedef unsigned long long ull;
static bool uloop_start(int kind, bool up, ull s, ull e, ull i, ull c, ull *a, ull *b) {
	long la, lb;
	long inc = up ? (long)i : -(long)(0 - i);
	bool r = loop_start(kind, (long)s, (long)e, inc, (long)c, &la, &lb);
	if (r) { *a = la; *b = lb; }
	return r;
}
static bool uloop_next(ull *a, ull *b) { long la, lb; bool r = ws_next(&la, &lb); if (r) { *a = la; *b = lb; } return r; }
#define ULOOP(name, kind) \
bool GOMP_loop_ull_##name##_start(bool up, ull s, ull e, ull i, ull c, ull *a, ull *b) { return uloop_start(kind, up, s, e, i, c, a, b); } \
bool GOMP_loop_ull_##name##_next(ull *a, ull *b) { return uloop_next(a, b); }
ULOOP(static, K_STATIC) ULOOP(dynamic, K_DYNAMIC) ULOOP(guided, K_GUIDED) ULOOP(nonmonotonic_dynamic, K_DYNAMIC) ULOOP(nonmonotonic_guided, K_GUIDED)
#define URLOOP(name) \
bool GOMP_loop_ull_##name##_start(bool up, ull s, ull e, ull i, ull *a, ull *b) { return uloop_start(K_DYNAMIC, up, s, e, i, 1, a, b); } \
bool GOMP_loop_ull_##name##_next(ull *a, ull *b) { return uloop_next(a, b); }
URLOOP(runtime) URLOOP(nonmonotonic_runtime) URLOOP(maybe_nonmonotonic_runtime)
void GOMP_loop_end_nowait(void) { ws_leave(); }
void GOMP_loop_end(void) { ws_leave(); GOMP_barrier(); }
bool GOMP_loop_end_cancel(void) { GOMP_loop_end(); return false; }
/* combined parallel loops */
struct ploop { void (*fn)(void *); void *data; int kind; long s, e, i, c; };
static void ploop_main(void *p) {
	struct ploop *l = p;
	struct ws *w = ws_enter();
	if (!w->init) {
		w->init = true; w->kind = l->kind == K_STATIC ? K_DYNAMIC : l->kind; w->next = l->s; w->end = l->e; w->incr = l->i; w->chunk = l->c;
		if (l->kind == K_STATIC && l->c <= 0) { long n = (l->e - l->s + l->i - (l->i > 0 ? 1 : -1)) / l->i; int t = me.t ? me.t->n : 1; w->chunk = (n + t - 1) / t; }
	}
	l->fn(l->data);
}
static void ploop(int kind, void (*fn)(void *), void *data, unsigned n, long s, long e, long i, long c, unsigned f) {
	struct ploop l = { fn, data, kind, s, e, i, c };
	GOMP_parallel(ploop_main, &l, n, f);
}
#define PLOOP(name, kind) void GOMP_parallel_loop_##name(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, long c, unsigned f) { ploop(kind, fn, d, n, s, e, i, c, f); }
PLOOP(static, K_STATIC) PLOOP(dynamic, K_DYNAMIC) PLOOP(guided, K_GUIDED) PLOOP(nonmonotonic_dynamic, K_DYNAMIC) PLOOP(nonmonotonic_guided, K_GUIDED)
#define PRLOOP(name) void GOMP_parallel_loop_##name(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, unsigned f) { ploop(K_DYNAMIC, fn, d, n, s, e, i, 1, f); }
PRLOOP(runtime) PRLOOP(nonmonotonic_runtime) PRLOOP(maybe_nonmonotonic_runtime)
/* sections */
unsigned GOMP_sections_next(void) { struct ws *w = me.cur; yield("section"); return w->sec < w->end ? (unsigned)++w->sec : 0; }
unsigned GOMP_sections_start(unsigned n) { struct ws *w = ws_enter(); if (!w->init) { w->init = true; w->end = n; } return GOMP_sections_next(); }
void GOMP_sections_end(void) { ws_leave(); GOMP_barrier(); }
void GOMP_sections_end_nowait(void) { ws_leave(); }
struct psec { void (*fn)(void *); void *data; unsigned n; };
static void psec_main(void *p) { struct psec *s = p; struct ws *w = ws_enter(); if (!w->init) { w->init = true; w->end = s->n; } s->fn(s->data); }
void GOMP_parallel_sections(void (*fn)(void *), void *d, unsigned n, unsigned c, unsigned f) { struct psec s = { fn, d, c }; GOMP_parallel(psec_main, &s, n, f); }
void GOMP_ordered_start(void) { sim_error("ordered loops are not simulated"); }
void GOMP_ordered_end(void) { }
/* tasks: executed at once by the creating thread, a legal schedule */
void GOMP_task(void (*fn)(void *), void *data, void (*cpyfn)(void *, void *), long argsize, long align, bool if_c, unsigned flags, void **dep, int prio) {
	(void)if_c; (void)flags; (void)dep; (void)prio;
	yield("task");
	if (cpyfn) {
		char *b = malloc(argsize + align), *a = (char *)(((uintptr_t)b + align - 1) & ~(uintptr_t)(align - 1));
		cpyfn(a, data); fn(a); free(b);
	} else fn(data);
}
void GOMP_taskwait(void) { yield("taskwait"); }
void GOMP_taskyield(void) { yield("taskyield"); }
void GOMP_taskgroup_start(void) { }
void GOMP_taskgroup_end(void) { }
void GOMP_taskloop(void (*fn)(void *), void *data, void (*cpyfn)(void *, void *), long argsize, long align, unsigned flags, unsigned long tasks, int prio, long a, long b, long step) {
	(void)flags; (void)tasks; (void)prio; (void)step;
	yield("taskloop");
	char *m = malloc(argsize + align), *arg = (char *)(((uintptr_t)m + align - 1) & ~(uintptr_t)(align - 1));
	if (cpyfn) cpyfn(arg, data); else memcpy(arg, data, argsize);
	((long *)arg)[0] = a; ((long *)arg)[1] = b;
	fn(arg); free(m);
}
/* user API */
int omp_get_num_threads(void) { return me.t ? me.t->n : 1; }
int omp_get_thread_num(void) { return me.t ? me.id : 0; }
int omp_get_max_threads(void) { return icv()->nthreads; }
int omp_get_num_procs(void) { return initial.procs; }
int omp_in_parallel(void) { for (team_t *o = me.t; o; o = o->outer) if (o->n > 1) return 1; return 0; }
void omp_set_num_threads(int n) { if (n > 0) icv()->nthreads = n; }
void omp_set_dynamic(int d) { icv()->dyn = !!d; }
int omp_get_dynamic(void) { return icv()->dyn; }
int omp_get_thread_limit(void) { return icv()->limit; }
int omp_get_level(void) { int n = 0; for (team_t *o = me.t; o; o = o->outer) n++; return n; }
int omp_get_active_level(void) { int n = 0; for (team_t *o = me.t; o; o = o->outer) n += o->n > 1; return n; }
int omp_get_team_size(int l) { int n = omp_get_level(); if (l < 0 || l > n) return -1; if (!l) return 1; team_t *o = me.t; while (n-- > l) o = o->outer; return o->n; }
void omp_set_nested(int n) { icv()->levels = n ? 8 : 1; }
int omp_get_nested(void) { return icv()->levels > 1; }
int omp_get_max_active_levels(void) { return icv()->levels; }
int omp_get_supported_active_levels(void) { return 8; }
void omp_set_max_active_levels(int n) { if (n >= 0) icv()->levels = n; }
void omp_set_schedule(int k, int c) { icv()->sched = k; icv()->chunk = c; }
void omp_get_schedule(int *k, int *c) { *k = icv()->sched; *c = icv()->chunk; }
int omp_get_cancellation(void) { return 0; }
int omp_get_proc_bind(void) { return 0; }
int omp_get_num_places(void) { return 0; }
int omp_get_num_teams(void) { return 1; }
int omp_get_team_num(void) { return 0; }
int omp_is_initial_device(void) { return 1; }
int omp_in_final(void) { return 0; }
double omp_get_wtime(void) { return 0; }
double omp_get_wtick(void) { return 1e-9; }
typedef struct { int owner; } lock_t;
static bool lock_free(void *p) { return !((lock_t *)p)->owner; }
void omp_init_lock(lock_t *l) { l->owner = 0; }
void omp_destroy_lock(lock_t *l) { l->owner = 0; }
void omp_set_lock(lock_t *l) { yield("lock"); wait_for(lock_free, l, "lock"); l->owner = 1; }
void omp_unset_lock(lock_t *l) { l->owner = 0; yield("unlock"); }
int omp_test_lock(lock_t *l) { yield("test lock"); if (l->owner) return 0; return l->owner = 1; }
