/* Stand-ins for the allocator and operating-system entry points that library
 * code could call; installed by renaming the undefined symbols of the system
 * under test. */
#include "sim.h"
#include "shim.h"
bool shim_fail;                /* every allocation and system call fails */
uint64_t shim_calls;           /* calls made by the system under test */
const char *shim_last;
static bool refuse(const char *n) {
	sys_guard_off();
	shim_calls++; shim_last = n;
	EV("os-call", shim_fail, 0, 0);
	if (shim_fail) { STAT("fault.refused_allocation_or_syscall"); errno = ENOMEM; }
	return shim_fail;
}
void *shim_malloc(size_t n) { return refuse("malloc") ? NULL : malloc(n); }
void *shim_calloc(size_t n, size_t m) { return refuse("calloc") ? NULL : calloc(n, m); }
void *shim_realloc(void *p, size_t n) { return refuse("realloc") ? NULL : realloc(p, n); }
void *shim_reallocarray(void *p, size_t n, size_t m) { return refuse("reallocarray") ? NULL : reallocarray(p, n, m); }
void *shim_aligned_alloc(size_t a, size_t n) { return refuse("aligned_alloc") ? NULL : aligned_alloc(a, n); }
void *shim_memalign(size_t a, size_t n) { return refuse("memalign") ? NULL : aligned_alloc(a, n); }
int   shim_posix_memalign(void **p, size_t a, size_t n) { return refuse("posix_memalign") ? ENOMEM : posix_memalign(p, a, n); }
void *shim_valloc(size_t n) { return refuse("valloc") ? NULL : aligned_alloc(4096, n); }
char *shim_strdup(const char *s) { return refuse("strdup") ? NULL : strdup(s); }
void  shim_free(void *p) { if (p) { shim_calls++; shim_last = "free"; free(p); } }
void *shim_mmap(void) { refuse("mmap"); errno = ENOMEM; return (void *)-1; }
#define SYS(n) long shim_##n(void) { refuse(#n); errno = ENOSYS; return -1; }
SYS(munmap) SYS(mprotect) SYS(brk) SYS(sbrk) SYS(open) SYS(openat) SYS(read) SYS(write) SYS(close) SYS(syscall) SYS(getpid)
SYS(clock_gettime) SYS(gettimeofday) SYS(time) SYS(sysconf) SYS(getrandom) SYS(nanosleep) SYS(usleep) SYS(sched_yield) SYS(pthread_create) SYS(rand) SYS(random)
void *shim_fopen(void) { refuse("fopen"); errno = EMFILE; return NULL; }
/* The environment: every variable is set, in every other run. */
const char *sim_getenv(void) {
	static const char *v[] = { "1", "0", "40", "plain" };
	if (!g_in_run || !(g_index & 1)) return NULL;
	STAT("fault.environment_variable"); EV("getenv", g_index >> 1 & 3, 0, 0);
	return v[g_index >> 1 & 3];
}
char *shim_getenv(const char *n) { (void)n; return (char *)sim_getenv(); }
char *shim_secure_getenv(const char *n) { (void)n; return (char *)sim_getenv(); }
/* Synchronisation the library does not use today, on simulated tasks. */
typedef struct { int owner; int depth; } smutex;   /* lives in the first bytes of the real object, zero-initialised */
static bool mfree(void *p) { return ((smutex *)p)->owner == 0; }
int shim_pthread_mutex_init(void *m, void *a) { (void)a; memset(m, 0, sizeof(smutex)); return 0; }
int shim_pthread_mutex_destroy(void *m) { (void)m; return 0; }
int shim_pthread_mutex_lock(void *m) {
	smutex *s = m; int me = task_self() + 2;
	task_yield("mutex lock");
	if (s->owner == me) violation("deadlock", "a lock is taken again by the task that holds it");
	task_wait(mfree, s, "mutex");
	s->owner = me;
	return 0;
}
int shim_pthread_mutex_trylock(void *m) { smutex *s = m; if (s->owner) return EBUSY; s->owner = task_self() + 2; return 0; }
int shim_pthread_mutex_unlock(void *m) { ((smutex *)m)->owner = 0; task_yield("mutex unlock"); return 0; }
static bool once_done(void *p) { return *(int *)p == 2; }
int shim_pthread_once(int *o, void (*f)(void)) {
	task_yield("once");
	if (*o == 2) return 0;
	if (*o == 1) { if (interrupt_hook || !in_task()) violation("deadlock", "one-time initialisation entered again while it is in progress"); task_wait(once_done, o, "one-time initialisation"); return 0; }
	*o = 1; f(); *o = 2;
	return 0;
}
