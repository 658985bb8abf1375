/* Simulator core: choice tape, events, statistics, arenas, tasks, driver. */
#include "sim.h"
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/prctl.h>
#include <ucontext.h>
#include <setjmp.h>
#include <pthread.h>
#include <semaphore.h>
#include <sched.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <sys/personality.h>
#include <sys/resource.h>

const char *g_prop = "?", *g_variant = "?";
uint64_t g_seed, g_index;
bool g_in_run;
bool g_thorough, g_tracing;
const char *volatile g_in_call;

/* ------------------------------------------------------------------ tape */
#define TAPE_MAX (1u << 20)
static uint32_t *tape, *tape_in;
static uint32_t tape_n, tape_in_n;
static bool replaying, exhausted;
static uint64_t rng_s;

uint64_t mix64(uint64_t z) {
	z += 0x9E3779B97F4A7C15ull;
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
	z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
	return z ^ (z >> 31);
}
static uint64_t rng(void) { rng_s += 0x9E3779B97F4A7C15ull; return mix64(rng_s); }
static uint32_t record(uint32_t v) {
	if (tape_n >= TAPE_MAX) { exhausted = true; return 0; }
	tape[tape_n++] = v;
	return v;
}
static bool next_in(uint32_t *v) {
	if (!replaying) return false;
	*v = tape_n < tape_in_n ? tape_in[tape_n] : 0;
	return true;
}
bool tape_exhausted(void) { return exhausted; }
uint32_t choose(uint32_t n) {
	uint32_t v;
	if (n <= 1) return 0;
	if (next_in(&v)) return record(v < n ? v : v % n);
	return record((uint32_t)(((rng() >> 32) * n) >> 32));
}
bool chance(uint32_t num, uint32_t den) {
	uint32_t v;
	if (num == 0) return false;
	if (next_in(&v)) return record(v != 0);
	return record((((rng() >> 32) * den) >> 32) < num);
}
uint32_t choose_range(uint32_t lo, uint32_t hi) { return lo + choose(hi - lo + 1); }
uint32_t choose_log(uint32_t max) {
	uint32_t bits = 0, v, lo, hi;
	while (bits < 32 && (max >> bits)) bits++;
	if (next_in(&v)) return record(v <= max ? v : v % (max + 1u));
	uint32_t b = (uint32_t)(rng() % (bits + 1));
	lo = b ? 1u << (b - 1) : 0; hi = b ? (uint32_t)((1ull << b) - 1) : 0;
	if (hi > max) hi = max;
	return record(lo + (uint32_t)(rng() % ((uint64_t)hi - lo + 1)));
}
uint32_t choose_geo(uint32_t mean, uint32_t max) {
	uint32_t v, k;
	if (next_in(&v)) return record(v <= max ? v : max);
	for (k = 0; k < max && mean && rng() % (mean + 1ull); ) {
		/* jump in blocks to keep long means cheap */
		if (mean > 64) {
			double u = (double)(rng() >> 11) / 9007199254740992.0;
			double l = 0, y = u <= 1e-9 ? 1e-9 : u;
			while (y < 0.5) { y *= 2; l += 0.69314718056; }
			l += (1 - y) + (1 - y) * (1 - y) / 2 + (1 - y) * (1 - y) * (1 - y) / 3;
			double r = l * mean;
			k = r > max ? max : (uint32_t)r;
			break;
		}
		k++;
	}
	return record(k);
}
uint32_t choose_w(const uint8_t *w, uint32_t n) {
	uint32_t v, sum = 0, i;
	if (next_in(&v)) return record(v < n ? v : v % n);
	for (i = 0; i < n; i++) sum += w[i];
	uint32_t r = (uint32_t)(((rng() >> 32) * sum) >> 32);
	for (i = 0; i < n && r >= w[i]; i++) r -= w[i];
	return record(i < n ? i : n - 1);
}
uint32_t choose_u32(void) {
	uint32_t v;
	if (next_in(&v)) return record(v);
	return record((uint32_t)(rng() >> 32));
}
void fill_random(uint8_t *p, size_t n, uint64_t seed) {
	uint64_t s = mix64(seed ^ 0xB64);
	size_t i;
	for (i = 0; i < n; i++) {
		if ((i & 7) == 0) s = mix64(s + i);
		p[i] = (uint8_t)(s >> ((i & 7) * 8));
	}
}

/* ---------------------------------------------------------------- events */
static uint64_t g_hash, g_shash;
static uint64_t run_steps, total_steps, run_events, total_events;
static bool run_nontrivial;
static char *tracebuf; static size_t tracelen, tracecap;

uint64_t strhash(const char *s) {
	uint64_t h = 1469598103934665603ull;
	while (*s) h = (h ^ (uint8_t)*s++) * 1099511628211ull;
	return h | 1;
}
static void trace_raw(const char *s, size_t n) {
	if (tracelen + n + 1 > tracecap) return;
	memcpy(tracebuf + tracelen, s, n);
	tracelen += n;
	tracebuf[tracelen] = 0;
}
void trace_note(const char *fmt, ...) {
	if (!g_tracing) return;
	char b[600]; va_list ap;
	va_start(ap, fmt);
	int n = vsnprintf(b, sizeof b - 1, fmt, ap);
	va_end(ap);
	if (n > (int)sizeof b - 2) n = sizeof b - 2;
	b[n++] = '\n';
	trace_raw(b, n);
}
void ev_(uint64_t th, const char *tag, uint64_t a, uint64_t b, uint64_t c) {
	g_hash = mix64(g_hash ^ th) + a;
	g_hash = mix64(g_hash ^ (b + 0x51ED27)) + c;
	run_events++;
	if (g_tracing)
		trace_note("  %-22s %llu %llu %llu", tag, (unsigned long long)a, (unsigned long long)b, (unsigned long long)c);
}
void ev_bytes(const char *tag, const void *p, size_t n) {
	const uint8_t *q = p; uint64_t h = n; size_t i;
	for (i = 0; i < n; i++) h = (h ^ q[i]) * 1099511628211ull;
	g_hash = mix64(g_hash ^ h ^ strhash(tag));
}
#define MAX_STATS 256
static const char *stat_name[MAX_STATS];
uint64_t stat_val[MAX_STATS];
static int nstats;
int stat_id(const char *name) {
	for (int i = 0; i < nstats; i++) if (!strcmp(stat_name[i], name)) return i;
	if (nstats == MAX_STATS) sim_error("too many statistics");
	stat_name[nstats] = strdup(name);
	return nstats++;
}
typedef struct { uint64_t *t; size_t cap, n; } set_t;
static void set_add(set_t *s, uint64_t v) {
	if (!v) v = 1;
	if (s->n * 2 >= s->cap) {
		if (s->cap >= (1u << 22)) return;
		size_t oc = s->cap; uint64_t *ot = s->t;
		s->cap = oc ? oc * 2 : 1024;
		s->t = calloc(s->cap, 8);
		s->n = 0;
		for (size_t i = 0; i < oc; i++) if (ot[i]) set_add(s, ot[i]);
		free(ot);
	}
	size_t i = mix64(v) & (s->cap - 1);
	while (s->t[i] && s->t[i] != v) i = (i + 1) & (s->cap - 1);
	if (!s->t[i]) { s->t[i] = v; s->n++; }
}
static set_t set_sig, set_cov, set_sched;
static bool collecting = true;
void cover(uint64_t f) { if (collecting) set_add(&set_cov, mix64(f)); }
void sched_note(uint64_t x) { g_shash = mix64(g_shash ^ x); }
void nontrivial(void) { run_nontrivial = true; }
void sim_steps(uint64_t n) { run_steps += n; }

/* -------------------------------------------------------------- verdicts */
struct shm { int status; char cls[96]; char msg[700]; uint32_t tape_n; uint64_t hash; };
static struct shm *shm;
static const char *viol_path;
static enum { M_RUN, M_REPLAY, M_CHILD } mode;
static char trace_path[512];

static void write_all(int fd, const char *p, size_t n) {
	while (n) { ssize_t r = write(fd, p, n); if (r <= 0) return; p += r; n -= r; }
}
static void write_replay(const char *path, const char *cls, const char *msg, const uint32_t *t, uint32_t n, const char *trace) {
	int fd = open(path, O_WRONLY | O_CREAT | O_TRUNC, 0644);
	char b[1200]; int k;
	if (fd < 0) return;
	k = snprintf(b, sizeof b, "B64SIM 1\nproperty %s\nvariant %s\nclass %s\nmessage %s\nseed %llu\nindex %llu\nthorough %d\ntape %u\n",
		g_prop, g_variant, cls, msg, (unsigned long long)g_seed, (unsigned long long)g_index, g_thorough, n);
	write_all(fd, b, k);
	for (uint32_t i = 0; i < n; i++) { k = snprintf(b, sizeof b, "%u%c", t[i], (i % 20 == 19 || i + 1 == n) ? '\n' : ' '); write_all(fd, b, k); }
	write_all(fd, "end\n", 4);
	if (trace) { write_all(fd, "trace\n", 6); write_all(fd, trace, strlen(trace)); }
	close(fd);
}
static void verdict(const char *cls, const char *msg) {
	if (mode == M_CHILD) {
		shm->status = 1;
		snprintf(shm->cls, sizeof shm->cls, "%s", cls);
		snprintf(shm->msg, sizeof shm->msg, "%s", msg);
		shm->tape_n = tape_n;
		memcpy((uint32_t *)(shm + 1), tape, tape_n * 4);
		shm->hash = g_hash;
		_exit(1);
	}
	if (mode == M_RUN) write_replay(viol_path, cls, msg, tape, tape_n, NULL);
	if (mode == M_REPLAY && trace_path[0]) {
		trace_note("VIOLATED %s: %s", cls, msg);
		write_replay(trace_path, cls, msg, tape, tape_n, tracebuf);
	}
	char b[1200];
	int k = snprintf(b, sizeof b, "VIOLATED class=%s hash=%016llx seed=%llu index=%llu variant=%s msg=%s\n", cls,
		(unsigned long long)g_hash, (unsigned long long)g_seed, (unsigned long long)g_index, g_variant, msg);
	write_all(1, b, k);
	_exit(1);
}
void violation(const char *cls, const char *fmt, ...) {
	char msg[700]; va_list ap;
	va_start(ap, fmt);
	vsnprintf(msg, sizeof msg, fmt, ap);
	va_end(ap);
	for (char *p = msg; *p; p++) if (*p == '\n') *p = ' ';
	verdict(cls, msg);
	abort();
}
void sim_error(const char *fmt, ...) {
	char msg[700]; va_list ap;
	va_start(ap, fmt);
	int k = vsnprintf(msg, sizeof msg, fmt, ap);
	va_end(ap);
	write_all(2, "SIM-ERROR ", 10);
	write_all(2, msg, k < 700 ? k : 699);
	write_all(2, "\n", 1);
	_exit(3);
}

/* ---------------------------------------------------------- process image */
extern char __start_sut_text[] __attribute__((weak)), __stop_sut_text[] __attribute__((weak));
extern char __start_sut_data[] __attribute__((weak)), __stop_sut_data[] __attribute__((weak));
extern char __start_sut_bss[] __attribute__((weak)), __stop_sut_bss[] __attribute__((weak));
static char *data_image; static size_t data_len, bss_len;
static void image_save(void) {
	data_len = __stop_sut_data - __start_sut_data;
	bss_len = __stop_sut_bss - __start_sut_bss;
	data_image = malloc(data_len + 1);
	if (data_len) memcpy(data_image, __start_sut_data, data_len);
}
extern void (*__start_sut_init[])(void) __attribute__((weak)), (*__stop_sut_init[])(void) __attribute__((weak));
/* A new process: data as loaded, then its constructors, if any, run; on machine m when given. */
void sut_reset_on(const machine_t *m) {
	if (data_len) memcpy(__start_sut_data, data_image, data_len);
	if (bss_len) memset(__start_sut_bss, 0, bss_len);
	for (void (**f)(void) = __start_sut_init; f < __stop_sut_init; f++) if (*f) {
		const char *pc = g_in_call;
		g_in_call = "start-up of the library";
		STAT("runs.constructors");
		if (m) { isa_allowed = ~0u; step_on(m); }
		(*f)();
		if (m) step_off();
		g_in_call = pc;
	}
}
void sut_reset(void) { sut_reset_on(NULL); }
bool sut_data_dirty(void) {
	if (data_len && memcmp(__start_sut_data, data_image, data_len)) return true;
	for (size_t i = 0; i < bss_len; i++) if (__start_sut_bss[i]) return true;
	return false;
}
bool in_sut_text(uintptr_t pc) { return pc >= (uintptr_t)__start_sut_text && pc < (uintptr_t)__stop_sut_text; }
bool in_sut_data(uintptr_t a) {
	return (a >= (uintptr_t)__start_sut_data && a < (uintptr_t)__stop_sut_data) ||
	       (a >= (uintptr_t)__start_sut_bss && a < (uintptr_t)__stop_sut_bss);
}

/* ---------------------------------------------------------------- arenas */
static arena_t arenas[24]; static int narenas; static long pagesz;
#if UINTPTR_MAX > 0xffffffffu
static uintptr_t next_addr = 0x1000000000ull;
#else
static uintptr_t next_addr = 0x50000000ul;
#endif
#ifndef MAP_FIXED_NOREPLACE
#define MAP_FIXED_NOREPLACE 0x100000
#endif
static uint8_t *map_guarded(size_t cap, int fd, int prot) {
	size_t tot = cap + 2 * 65536;
	uint8_t *p = mmap((void *)next_addr, tot, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE | MAP_NORESERVE, -1, 0);
	if (p != (void *)next_addr) {
		if (p != MAP_FAILED) munmap(p, tot);
		p = mmap(NULL, tot, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	}
	if (p == MAP_FAILED) sim_error("mmap: %s", strerror(errno));
	next_addr += (tot + 0xfffff) & ~(uintptr_t)0xfffff;
	if (mmap(p + 65536, cap, prot, (fd < 0 ? MAP_ANONYMOUS | MAP_PRIVATE : MAP_SHARED) | MAP_FIXED, fd, 0) != p + 65536)
		sim_error("mmap arena: %s", strerror(errno));
	return p + 65536;
}
arena_t *arena_new(const char *name, size_t cap, bool ro) {
	if (narenas == 24) sim_error("too many arenas");
	arena_t *a = &arenas[narenas++];
	pagesz = sysconf(_SC_PAGESIZE);
	if (pagesz < 4096) pagesz = 4096;
	a->name = name;
	a->cap = (cap + 2 * ARENA_SLACK + 128 + 65535) & ~(size_t)65535;
	int fd = -1;
	if (ro) {
		fd = memfd_create("arena", MFD_CLOEXEC);
		if (fd < 0 || ftruncate(fd, a->cap)) sim_error("memfd: %s", strerror(errno));
	}
	a->rw = map_guarded(a->cap, fd, PROT_READ | PROT_WRITE);
	a->ro = ro ? map_guarded(a->cap, fd, PROT_READ) : a->rw;
	if (fd >= 0) close(fd);
	return a;
}
static inline uint64_t junk_word(uint64_t junk, size_t i) { uint64_t v = (junk + (i >> 3)) * 0x9E3779B97F4A7C15ull; return v ^ v >> 29; }
static uint8_t junk_at(uint64_t junk, size_t i) { uint64_t v = junk_word(junk, i); return ((uint8_t *)&v)[i & 7]; }
static void junk_region(arena_t *a, size_t lo, size_t hi) {
	size_t i = lo;
	for (; i < hi && (i & 7); i++) a->rw[i] = junk_at(a->junk, i);
	for (; i + 8 <= hi; i += 8) { uint64_t v = junk_word(a->junk, i); memcpy(a->rw + i, &v, 8); }
	for (; i < hi; i++) a->rw[i] = junk_at(a->junk, i);
}
static size_t junk_differs(arena_t *a, size_t lo, size_t hi) {     /* first changed byte, or hi */
	size_t i = lo;
	for (; i < hi && (i & 7); i++) if (a->rw[i] != junk_at(a->junk, i)) return i;
	for (; i + 8 <= hi; i += 8) {
		uint64_t v = junk_word(a->junk, i);
		if (memcmp(&v, a->rw + i, 8)) break;
	}
	for (; i < hi; i++) if (a->rw[i] != junk_at(a->junk, i)) return i;
	return hi;
}
static void junk_bounds(arena_t *a, size_t *llo, size_t *rhi) {
	*llo = a->off > ARENA_SLACK ? a->off - ARENA_SLACK : 0;
	*rhi = a->off + a->len + ARENA_SLACK; if (*rhi > a->cap) *rhi = a->cap;
}
uint8_t *arena_place(arena_t *a, size_t len, enum place pl, uint32_t align, uint64_t junk) {
	size_t llo, rhi;
	if (len + 2 * ARENA_SLACK + 64 > a->cap) sim_error("arena %s too small for %zu", a->name, len);
	a->len = len; a->pl = pl; a->junk = junk;
	if (align >= 64 && len + 2 * ARENA_SLACK + align > a->cap) align &= 63;
	a->off = pl == PL_RIGHT ? a->cap - len : pl == PL_LEFT ? 0 : ARENA_SLACK + align;
	junk_bounds(a, &llo, &rhi);
	junk_region(a, llo, a->off);
	junk_region(a, a->off + len, rhi);
	if (a->ro == a->rw) memset(a->rw + a->off, (int)(mix64(junk) & 0xff), len);      /* what is not written is not right by chance */
	return a->rw + a->off;
}
/* any alignment, now and then just before a page boundary or anywhere in a page */
uint32_t arena_align(void) { if (!chance(1, 6)) return choose(64); return choose(3) ? 4096 - choose_log(100) : choose(4096); }
uint8_t *arena_ro(arena_t *a) { return a->ro + a->off; }
void arena_check(arena_t *a, const char *what) {
	size_t llo, rhi, i;
	junk_bounds(a, &llo, &rhi);
	if ((i = junk_differs(a, llo, a->off)) < a->off)
		violation("oob-write", "%s: byte %zu before the %s buffer was changed", what, a->off - i, a->name);
	if ((i = junk_differs(a, a->off + a->len, rhi)) < rhi)
		violation("oob-write", "%s: byte %zu after the end of the %s buffer (%zu bytes) was changed", what, i - a->off - a->len, a->name, a->len);
}
bool arena_precise;
static void arena_access(uintptr_t p, size_t n, bool write) {
	for (int i = 0; i < narenas; i++) {
		arena_t *a = &arenas[i];
		for (int v = 0; v < (a->ro == a->rw ? 1 : 2); v++) {
			uintptr_t base = (uintptr_t)(v ? a->ro : a->rw), buf = base + a->off;
			if (p + n <= base - 65536 || p >= base + a->cap + 65536) continue;
			STAT("checks.access_in_bounds");
			if (p >= buf && p + n <= buf + a->len) return;
			violation("oob-access", "%s: %s of %zu bytes at offset %ld of the %s buffer of %zu bytes", g_in_call, write ? "write" : "read", n, (long)(p - buf), a->name, a->len);
		}
	}
}
const char *arena_fault(uintptr_t p) {
	static char b[200];
	for (int i = 0; i < narenas; i++) {
		arena_t *a = &arenas[i];
		for (int v = 0; v < 2; v++) {
			uintptr_t base = (uintptr_t)(v ? a->ro : a->rw), buf = base + a->off;
			if (p < base - 65536 || p >= base + a->cap + 65536) continue;
			if (p >= base && p < base + a->cap) snprintf(b, sizeof b, "write to read-only %s buffer at offset %ld of %zu", a->name, (long)(p - buf), a->len);
			else snprintf(b, sizeof b, "access outside the %s buffer, offset %ld of %zu", a->name, (long)(p - buf), a->len);
			return b;
		}
	}
	return NULL;
}

/* --------------------------------------------------------- crash handlers */
static bool want_tty_crash;
/* While the guard is up, every system call this thread makes, by whatever means,
 * is not executed: it fails with ENOSYS and is counted. */
#if (defined __x86_64__ || defined __i386__) && !defined PR_SET_SYSCALL_USER_DISPATCH
#define PR_SET_SYSCALL_USER_DISPATCH 59
#endif
static volatile char sys_guard;       /* the selector: 0 allow, 1 block */
uint64_t sys_guard_hits; long sys_guard_last;
#if defined __x86_64__ || defined __i386__
static void sys_trap(int sig, siginfo_t *si, void *uc) {
	(void)sig;
	sys_guard = 0;
	sys_guard_hits++; sys_guard_last = si->si_syscall;
#ifdef __x86_64__
	((ucontext_t *)uc)->uc_mcontext.gregs[REG_RAX] = -ENOSYS;
#else
	((ucontext_t *)uc)->uc_mcontext.gregs[REG_EAX] = -ENOSYS;
#endif
}
#endif
bool sys_guard_on(void) {
	static int have = -1;
	sys_guard_hits = 0;
#if defined __x86_64__ || defined __i386__
	if (have < 0) {
		struct sigaction sa; memset(&sa, 0, sizeof sa);
		sa.sa_sigaction = sys_trap; sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
		sigaction(SIGSYS, &sa, NULL);
		have = prctl(PR_SET_SYSCALL_USER_DISPATCH, 1, 0, 0, &sys_guard) == 0;
	}
	if (have > 0) sys_guard = 1;
#endif
	return have > 0;
}
void sys_guard_off(void) { sys_guard = 0; }
static void crash_handler(int sig, siginfo_t *si, void *uc) {
	(void)uc;
	sys_guard = 0;
	const char *n = sig == SIGSEGV ? "SIGSEGV" : sig == SIGBUS ? "SIGBUS" : sig == SIGILL ? "SIGILL" : sig == SIGFPE ? "SIGFPE" : sig == SIGABRT ? "SIGABRT" : "SIGPROF";
	if (sig == SIGPROF) {
		if (g_in_call) violation("hang", "no return from %s within the CPU time limit", g_in_call);
		sim_error("simulator hang (index %llu)", (unsigned long long)g_index);
	}
	if (!g_in_call || want_tty_crash) sim_error("%s outside the system under test, addr %p index %llu", n, si->si_addr, (unsigned long long)g_index);
	const char *w = (sig == SIGSEGV || sig == SIGBUS) ? arena_fault((uintptr_t)si->si_addr) : NULL;
	if (w) violation("oob-access", "%s: %s", g_in_call, w);
	violation(sig == SIGSEGV ? "crash:SIGSEGV" : sig == SIGILL ? "crash:SIGILL" : sig == SIGBUS ? "crash:SIGBUS" : sig == SIGFPE ? "crash:SIGFPE" : "crash:SIGABRT",
		"%s in %s", n, g_in_call);
}
static void altstack(void) {
	stack_t ss = { .ss_size = 65536 };
	ss.ss_sp = malloc(ss.ss_size);
	sigaltstack(&ss, NULL);
}
static void handlers(void) {
	struct sigaction sa; int sigs[] = { SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGABRT, SIGPROF };
	memset(&sa, 0, sizeof sa);
	sa.sa_sigaction = crash_handler;
	sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
	for (unsigned i = 0; i < sizeof sigs / sizeof *sigs; i++) sigaction(sigs[i], &sa, NULL);
	signal(SIGPIPE, SIG_IGN);
}
static unsigned cpu_limit = 20;
static void arm(unsigned s) {
	struct itimerval it = { { 0, 0 }, { s, 0 } };
	setitimer(ITIMER_PROF, &it, NULL);
}
/* What lies below the stack when the system under test is entered is part of
 * the run, so that reading an uninitialised variable is deterministic too. */
__attribute__((noinline)) void stack_scrub(void) {
	uint64_t a[1024], v = mix64(run_events ^ 0x57AC);
	if (v & 3) for (int i = 0; i < 1024; i++) a[i] = v;
	else memset(a, (int)(v >> 8) & 1 ? 0 : 0xff, sizeof a);
	__asm__ volatile ("" : : "r"(a) : "memory");
}
/* S09: work is counted in steps or accesses and must be linear in the block;
 * the stack below the caller is painted, and what is no longer paint was used. */
uint64_t work_done, work_limit; bool work_stepped;
#define PAINT 196608
#define STACK_LIMIT 65536
static uint64_t paint_at;
static __attribute__((noinline)) void stack_paint(void) {
	uint64_t a[PAINT / 8];
	for (size_t i = 0; i < PAINT / 8; i++) a[i] = 0x9A19D00D57AC4B19ull;
	paint_at = (uintptr_t)a;
	__asm__ volatile ("" : : "r"(a) : "memory");
}
static __attribute__((noinline)) void stack_check(const char *what, size_t n) {
	volatile uint64_t *a = (volatile uint64_t *)(uintptr_t)paint_at; size_t i = 0;
	__asm__ volatile ("" : "+r"(a));
	while (i < (PAINT - STACK_LIMIT) / 8 && a[i] == 0x9A19D00D57AC4B19ull) i++;
	if (i < (PAINT - STACK_LIMIT) / 8) violation("stack", "%s of a block of %zu used more than %d bytes of stack", what, n, STACK_LIMIT);
	STAT("calls_with_stack_measured");
}
static uint64_t work_n, stepped_in_run;
void work_over(void) { uint64_t d = work_done; work_limit = 0; violation("work", "%s of a block of %zu takes more than %llu %s", g_in_call ? g_in_call : "call", (size_t)work_n, (unsigned long long)d - 1, work_stepped ? "instructions" : "memory accesses"); }
void work_begin(size_t n, bool stepped) {
	stack_paint();
	if (stepped && stepped_in_run > 300000) stepped = false;     /* enough for one run */
	work_stepped = stepped; work_n = n; work_done = 0;
	work_limit = 20000 + (uint64_t)n * (stepped ? 24 : 10);
	if (stepped) step_on(NULL);
}
void work_end(const char *what, size_t n) {
	if (work_stepped) { step_off(); stepped_in_run += work_done; }
	if (work_done) { STAT("calls_with_work_counted"); sim_steps(work_done); EV("work", n, work_done, 0); }
	work_limit = 0;
	stack_check(what, n);
}
void run_call_enter(const char *what) { stack_scrub(); g_in_call = what; }
void run_call_leave(void) { g_in_call = NULL; }

/* ----------------------------------------------------------------- tasks */
typedef struct task {
	pthread_t th; sem_t sem;
	void (*fn)(void *); void *arg;
	enum { T_FREE, T_READY, T_WAIT, T_DONE } st;
	bool (*ready)(void *); void *rarg; const char *why;
	uint32_t prio; jmp_buf jb;
	const char *in_call;
	void *alt;
	bool killed;
} task_t;
static task_t *tasks[MAX_TASKS]; static int ntasks;
static __thread int self = -1;
__thread int access_off;
static sem_t main_sem;
static bool running;
static enum pol pol; static uint32_t mean_q, hot_num, quantum, pct_left;
uint64_t step_budget; static uint64_t budget_used;
void (*interrupt_hook)(void), (*death_hook)(void);
static pthread_attr_t tattr;

void sched_config(enum pol p, uint32_t mean, uint32_t hot) { pol = p; mean_q = mean; hot_num = hot; quantum = mean ? 1 + choose_geo(mean, mean * 20) : 0; pct_left = 0; }
void preempt_arm(uint32_t after) { quantum = after; }
bool in_task(void) { return self >= 0; }
int task_self(void) { return self; }
static int runnable(int *c, int me) {
	int n = 0;
	/* the current task first: continuing is the simplest choice */
	for (int k = -1; k < ntasks; k++) {
		int i = k < 0 ? me : k;
		if (i < 0 || (k >= 0 && i == me)) continue;
		task_t *t = tasks[i];
		if (t->st == T_WAIT && t->ready(t->rarg)) c[n++] = i;
		else if (t->st == T_READY) c[n++] = i;
	}
	return n;
}
static int pick(int me) {
	static int c[MAX_TASKS + 1]; int n = runnable(c, me), r;
	if (!n) {
		for (int i = 0; i < ntasks; i++) if (tasks[i]->st != T_DONE) {
			if (!g_in_call) g_in_call = "task";
			violation("deadlock", "all unfinished tasks wait; task %d for %s", i, tasks[i]->why ? tasks[i]->why : "?");
		}
		return -1;
	}
	if (n == 1) return c[0];
	if (pol == POL_RR) {
		for (int k = 1; k <= ntasks; k++) for (int j = 0; j < n; j++) if (c[j] == (me + k) % ntasks) return c[j];
	}
	if (pol == POL_PCT) {
		r = c[0];
		for (int j = 1; j < n; j++) if (tasks[c[j]]->prio > tasks[r]->prio) r = c[j];
		return r;
	}
	return c[choose(n)];
}
static void hand_over(int me, int next) {
	if (next == me) return;
	task_t *t = me >= 0 ? tasks[me] : NULL;
	if (t) t->in_call = g_in_call;
	STAT("sched.switches");
	sched_note(((uint64_t)(me + 1) << 32) | (uint32_t)(next + 1));
	EV("switch", me + 1, next + 1, 0);
	if (next >= 0) { g_in_call = tasks[next]->in_call; tasks[next]->st = T_READY; sem_post(&tasks[next]->sem); }
	else sem_post(&main_sem);
	if (t && t->st != T_DONE) { while (sem_wait(&t->sem)) ; }
	else if (me < 0) { while (sem_wait(&main_sem)) ; }
}
void task_yield(const char *why) {
	int me = self;
	if (me < 0 || access_off) return;
	tasks[me]->why = why;
	if (pol == POL_PCT && chance(1, 3)) tasks[me]->prio = choose(1000);
	if (mean_q) quantum = 1 + choose_geo(mean_q, mean_q * 20);
	hand_over(me, pick(me));
	if (tasks[me]->killed) task_exit();
}
void task_kill(int i) { tasks[i]->killed = true; if (i == self) task_exit(); }
void task_wait(bool (*ready)(void *), void *arg, const char *why) {
	int me = self;
	if (me < 0) { if (!ready(arg)) sim_error("main thread would block on %s", why); return; }
	tasks[me]->st = T_WAIT; tasks[me]->ready = ready; tasks[me]->rarg = arg; tasks[me]->why = why;
	int n = pick(me);
	if (n == me) tasks[me]->st = T_READY;
	hand_over(me, n);
	if (tasks[me]->killed) task_exit();
}
void task_exit(void) { longjmp(tasks[self]->jb, 1); }
static void *task_main(void *p) {
	task_t *t = p;
	for (int i = 0; i < ntasks; i++) if (tasks[i] == t) self = i;
	stack_t ss = { .ss_size = 65536, .ss_sp = t->alt };
	sigaltstack(&ss, NULL);
	while (sem_wait(&t->sem)) ;
	if (!t->killed && !setjmp(t->jb)) t->fn(t->arg);
	step_off();
	t->st = T_DONE;
	g_in_call = NULL;
	int n = pick(self);
	hand_over(self, n);
	return NULL;
}
int task_spawn(void (*fn)(void *), void *arg) {
	static bool init;
	if (!init) { init = true; pthread_attr_init(&tattr); pthread_attr_setstacksize(&tattr, 512 * 1024); sem_init(&main_sem, 0, 0); }
	if (ntasks == MAX_TASKS) sim_error("too many tasks");
	if (!tasks[ntasks]) { tasks[ntasks] = calloc(1, sizeof(task_t)); tasks[ntasks]->alt = malloc(65536); sem_init(&tasks[ntasks]->sem, 0, 0); }
	task_t *t = tasks[ntasks];
	t->fn = fn; t->arg = arg; t->st = T_READY; t->why = NULL; t->in_call = NULL; t->killed = false;
	t->prio = pol == POL_PCT ? choose(1000) : 0;
	ntasks++;
	if (pthread_create(&t->th, &tattr, task_main, t)) sim_error("pthread_create: %s", strerror(errno));
	return ntasks - 1;
}
void tasks_run(void) {
	if (!ntasks) return;
	running = true;
	int n = pick(-1);
	hand_over(-1, n);
	for (int i = 0; i < ntasks; i++) pthread_join(tasks[i]->th, NULL);
	ntasks = 0; running = false;
}

/* conflict table: addresses touched by more than one task, with a write */
#define HOT_CAP (1u << 17)
static struct { uintptr_t a; uint32_t epoch; int16_t task; uint8_t wr; } *hot; static uint32_t hot_epoch, hot_n;
static bool is_hot(uintptr_t g, bool wr) {
	uint32_t i = (uint32_t)(mix64(g) >> 20) & (HOT_CAP - 1);
	while (hot[i].epoch == hot_epoch && hot[i].a != g) i = (i + 1) & (HOT_CAP - 1);
	if (hot[i].epoch != hot_epoch) {
		if (hot_n > HOT_CAP / 2) return false;
		hot_n++;
		hot[i].epoch = hot_epoch; hot[i].a = g; hot[i].task = (int16_t)self; hot[i].wr = wr;
		return false;
	}
	bool h = hot[i].task != self && (wr || hot[i].wr);
	hot[i].task = (int16_t)self; hot[i].wr |= wr;
	return h;
}
static void due(const char *why) {
	sched_note(budget_used);
	if (death_hook) death_hook();
	if (interrupt_hook) { void (*h)(void) = interrupt_hook; STAT("fault.interrupt"); h(); }
	else { STAT("fault.preemption"); task_yield(why); }
}
static void spend(void) {
	run_steps++;
	if (++budget_used > step_budget && step_budget) violation("hang", "%s did not finish within the step budget", g_in_call ? g_in_call : "task");
}
void sim_access(const void *p, size_t n, bool write) {
	work_spend(1 + n / 16);
	if (arena_precise && g_in_call) arena_access((uintptr_t)p, n, write);
	if (self < 0 || access_off) return;
	spend();
	uintptr_t a = (uintptr_t)p;
	if (hot_num) {
		bool h;
		if (in_sut_data(a)) h = true;
		else { h = is_hot(a >> 3, write); if (((a + n - 1) >> 3) != (a >> 3)) h |= is_hot((a + n - 1) >> 3, write); }
		if (h && chance(hot_num, 8)) { STAT("sched.conflict_points"); due("conflicting access"); return; }
	}
	if (quantum && --quantum == 0) due("preempted");
}
void sim_breakpoint(void) { if (self < 0 || access_off) return; spend(); due("preempted"); }
void sim_step_point(uintptr_t pc) {
	(void)pc;
	if (self < 0 || access_off) return;
	spend();
	if (quantum && --quantum == 0) due("preempted");
}

/* ---------------------------------------------------------------- driver */
static void run_begin(void) {
	tape_n = 0; exhausted = false;
	g_hash = strhash(g_prop) ^ strhash(g_variant); g_shash = 0;
	run_steps = run_events = 0; run_nontrivial = false;
	rng_s = mix64(g_seed * 0x9E3779B97F4A7C15ull ^ mix64(strhash(g_prop) ^ mix64(strhash(g_variant) + g_index)));
	sut_reset();
	bp_stop();
	g_in_call = NULL; interrupt_hook = death_hook = NULL; quantum = 0; mean_q = 0; hot_num = 0;
	work_limit = 0; stepped_in_run = 0; step_budget = 0; budget_used = 0; access_off = 0;
	if (!hot) hot = calloc(HOT_CAP, sizeof *hot);
	hot_epoch++; hot_n = 0;
}
static void run_once(void) { run_begin(); g_in_run = true; scenario(); g_in_run = false; g_in_call = NULL; }
static double now(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static void set_dump(const char *base, const char *ext, set_t *s) {
	char p[600]; snprintf(p, sizeof p, "%s.%s", base, ext);
	FILE *f = fopen(p, "wb"); if (!f) return;
	for (size_t i = 0; i < s->cap; i++) if (s->t[i]) fwrite(&s->t[i], 8, 1, f);
	fclose(f);
}
static void json_str(FILE *f, const char *s) {
	fputc('"', f);
	for (; *s; s++) { if (*s == '"' || *s == '\\') fputc('\\', f); if (*s == '\n') fputs("\\n", f); else if ((unsigned char)*s < 32) fputc(' ', f); else fputc(*s, f); }
	fputc('"', f);
}
static int load(const char *path) {
	FILE *f = fopen(path, "r"); char line[1500]; static char prop[64], var[64], cls[100];
	if (!f) { fprintf(stderr, "cannot open %s\n", path); exit(2); }
	tape_in_n = 0;
	while (fgets(line, sizeof line, f)) {
		unsigned long long v; unsigned n;
		if (sscanf(line, "property %63s", prop) == 1) g_prop = prop;
		else if (sscanf(line, "variant %63s", var) == 1) g_variant = var;
		else if (sscanf(line, "class %99s", cls) == 1) ;
		else if (sscanf(line, "seed %llu", &v) == 1) g_seed = v;
		else if (sscanf(line, "index %llu", &v) == 1) g_index = v;
		else if (sscanf(line, "thorough %llu", &v) == 1) g_thorough = v;
		else if (sscanf(line, "tape %u", &n) == 1) {
			for (unsigned i = 0; i < n && i < TAPE_MAX; i++) { unsigned x; if (fscanf(f, "%u", &x) != 1) break; tape_in[tape_in_n++] = x; }
			break;
		}
	}
	fclose(f);
	return 0;
}
/* run a candidate tape in a child; true when it violates with the same class */
static double shrink_end; static uint64_t shrink_tries; static char want_cls[96];
static uint32_t *best; static uint32_t best_n;
static bool try_tape(const uint32_t *t, uint32_t n) {
	if (now() > shrink_end) return false;
	shrink_tries++;
	shm->status = 0;
	memcpy(tape_in, t, n * 4); tape_in_n = n;
	fflush(stdout);
	pid_t p = fork();
	if (p == 0) {
		mode = M_CHILD; replaying = true; g_tracing = false;
		int fd = open("/dev/null", O_WRONLY); dup2(fd, 2);
		arm(cpu_limit > 3 ? 3 : cpu_limit);
		run_once();
		_exit(0);
	}
	int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) ;
	if (shm->status != 1 || strcmp(shm->cls, want_cls)) return false;
	uint32_t m = shm->tape_n; uint32_t *u = (uint32_t *)(shm + 1);
	while (m && u[m - 1] == 0) m--;
	/* accept only when simpler: shorter, or same length and lexicographically smaller */
	if (m > best_n) return false;
	if (m == best_n && memcmp(u, best, m * 4) == 0) return false;
	if (m == best_n) { uint32_t i = 0; while (i < m && u[i] == best[i]) i++; if (u[i] > best[i]) return false; }
	memcpy(best, u, m * 4); best_n = m;
	return true;
}
static void shrink(double seconds) {
	uint32_t *c = malloc(TAPE_MAX * 4);
	best = malloc(TAPE_MAX * 4);
	shrink_end = now() + seconds;
	best_n = tape_in_n; memcpy(best, tape_in, best_n * 4);
	/* establish the class */
	want_cls[0] = 0;
	{
		shm->status = 0;
		pid_t p = fork();
		if (p == 0) { mode = M_CHILD; replaying = true; arm(cpu_limit); run_once(); _exit(0); }
		int st; waitpid(p, &st, 0);
		if (shm->status != 1) { printf("SHRINK not-reproduced\n"); exit(4); }
		strcpy(want_cls, shm->cls);
	}
	/* coarse truncation */
	for (uint32_t cut = best_n / 2; cut >= 1; cut /= 2) while (best_n > cut) { memcpy(c, best, (best_n - cut) * 4); uint32_t o = best_n; if (!try_tape(c, best_n - cut) || best_n >= o) break; }
	for (int round = 0; round < 6 && now() < shrink_end; round++) {
		uint64_t h0 = best_n; for (uint32_t i = 0; i < best_n; i++) h0 = mix64(h0 ^ best[i]);
		/* delete chunks */
		for (uint32_t sz = best_n / 2 > 64 ? 64 : (best_n / 2 ? best_n / 2 : 1); sz >= 1; sz = sz == 1 ? 0 : (sz > 8 ? sz / 2 : sz - 1)) {
			for (int64_t i = (int64_t)best_n - sz; i >= 0 && now() < shrink_end; i -= (sz > 4 ? sz / 2 : 1)) {
				if ((uint64_t)i + sz > best_n) continue;
				memcpy(c, best, i * 4); memcpy(c + i, best + i + sz, (best_n - i - sz) * 4);
				try_tape(c, best_n - sz);
			}
			if (!sz) break;
		}
		/* zero chunks */
		for (uint32_t sz = 8; sz >= 1; sz /= 2)
			for (uint32_t i = 0; i + sz <= best_n && now() < shrink_end; i += sz) {
				bool nz = false; for (uint32_t k = 0; k < sz; k++) nz |= best[i + k] != 0;
				if (!nz) continue;
				memcpy(c, best, best_n * 4); memset(c + i, 0, sz * 4);
				try_tape(c, best_n);
			}
		/* reduce single values */
		for (uint32_t i = 0; i < best_n && now() < shrink_end; i++) {
			uint32_t lo = 0;
			while (i < best_n && best[i] > lo && now() < shrink_end) {
				uint32_t v = best[i], m = lo + (v - lo) / 2;
				memcpy(c, best, best_n * 4); c[i] = m;
				if (try_tape(c, best_n)) continue;
				if (i >= best_n || best[i] != v) break;
				lo = m + 1;
			}
		}
		uint64_t h1 = best_n; for (uint32_t i = 0; i < best_n; i++) h1 = mix64(h1 ^ best[i]);
		if (h0 == h1) break;
	}
	memcpy(tape_in, best, best_n * 4); tape_in_n = best_n;
}

int main(int argc, char **argv) {
	const char *cmd = argc > 1 ? argv[1] : "", *out = NULL, *file = NULL;
	double tmax = 10; uint64_t start = 0, stride = 1, maxn = ~0ull; double shrink_s = 20; int cpu = -1; unsigned recheck = 64;
#if defined(__x86_64__) || defined(__i386__)
	if (!getenv("B64SIM_NOASLR")) {
		setenv("B64SIM_NOASLR", "1", 1);
		int p = personality(0xffffffff);
		if (p != -1 && !(p & ADDR_NO_RANDOMIZE) && personality(p | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
	}
#endif
	for (int i = 2; i < argc; i++) {
		char *a = argv[i], *v = strchr(a, '=');
		if (!v) continue;
		v++;
#define OPT(n) (!strncmp(a, n "=", sizeof n))
		if (OPT("prop")) g_prop = v; else if (OPT("variant")) g_variant = v; else if (OPT("seed")) g_seed = strtoull(v, 0, 10);
		else if (OPT("start")) start = strtoull(v, 0, 10); else if (OPT("stride")) stride = strtoull(v, 0, 10);
		else if (OPT("time")) tmax = atof(v); else if (OPT("max")) maxn = strtoull(v, 0, 10); else if (OPT("out")) out = v;
		else if (OPT("viol")) viol_path = v; else if (OPT("file")) file = v; else if (OPT("thorough")) g_thorough = atoi(v);
		else if (OPT("shrink")) shrink_s = atof(v); else if (OPT("cpu")) cpu = atoi(v); else if (OPT("limit")) cpu_limit = atoi(v);
		else if (OPT("trace")) snprintf(trace_path, sizeof trace_path, "%s", v); else if (OPT("recheck")) recheck = atoi(v);
	}
	if (cpu >= 0) {
		cpu_set_t cs, ns; int n = 0;
		if (!sched_getaffinity(0, sizeof cs, &cs)) {
			int k = cpu % (CPU_COUNT(&cs) ? CPU_COUNT(&cs) : 1);
			CPU_ZERO(&ns);
			for (int i = 0; i < CPU_SETSIZE; i++) if (CPU_ISSET(i, &cs) && n++ == k) CPU_SET(i, &ns);
			sched_setaffinity(0, sizeof ns, &ns);
		}
	}
	tape = mmap(NULL, TAPE_MAX * 4, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	tape_in = mmap(NULL, TAPE_MAX * 4, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	shm = mmap(NULL, sizeof *shm + TAPE_MAX * 4, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	tracecap = 1 << 20; tracebuf = malloc(tracecap); tracebuf[0] = 0;
	if (file) load(file);
	image_save(); altstack(); handlers();
	scenario_init();
	if (!strcmp(cmd, "replay")) {
		mode = M_REPLAY; replaying = true; g_tracing = trace_path[0] != 0;
		arm(cpu_limit);
		run_once();
		printf("HELD hash=%016llx\n", (unsigned long long)g_hash);
		return 0;
	}
	if (!strcmp(cmd, "shrink")) {
		shrink(shrink_s);
		write_replay(out ? out : file, want_cls, "(minimised)", tape_in, tape_in_n, NULL);
		printf("SHRUNK class=%s choices=%u tries=%llu\n", want_cls, tape_in_n, (unsigned long long)shrink_tries);
		return 0;
	}
	if (!strcmp(cmd, "hash")) {  /* print the event hash of the given runs, for cross-process comparison */
		for (uint64_t k = 0; k < maxn; k++) { g_index = start + k * stride; arm(cpu_limit); g_tracing = trace_path[0] != 0; tracelen = 0; tracebuf[0] = 0; run_once(); if (g_tracing) printf("%s", tracebuf); printf("HASH %llu %016llx\n", (unsigned long long)g_index, (unsigned long long)g_hash); }
		return 0;
	}
	if (strcmp(cmd, "run")) { fprintf(stderr, "usage: sim run|replay|shrink|hash key=value...\n"); return 2; }
	double t0 = now(); uint64_t runs = 0, nontriv = 0, rechecks = 0, nh = 0; static uint64_t hi[64], hh[64];
	char *samples[3] = { 0 }; int ns = 0;
	for (g_index = start; runs < maxn && now() - t0 < tmax; g_index += stride) {
		arm(cpu_limit);
		replaying = false;
		run_once();
		uint64_t h = g_hash;
		runs++; total_steps += run_steps; total_events += run_events;
		if (run_nontrivial) { nontriv++; set_add(&set_sig, g_hash); }
		if (g_shash) set_add(&set_sched, g_shash);
		if (recheck && (runs <= 2 || runs % recheck == 0 || (run_nontrivial && ns < 3))) {
			/* same choices again: must be the same execution, event by event */
			uint64_t saved[MAX_STATS]; memcpy(saved, stat_val, sizeof saved);
			bool sample = run_nontrivial && ns < 3; collecting = false;
			uint32_t n = tape_n; memcpy(tape_in, tape, n * 4); tape_in_n = n;
			replaying = true; tracelen = 0; tracebuf[0] = 0; g_tracing = sample;
			run_once();
			g_tracing = false; collecting = true;
			memcpy(stat_val, saved, sizeof saved);
			if (h != g_hash || n != tape_n) sim_error("nondeterministic run: index %llu hash %016llx then %016llx", (unsigned long long)g_index, (unsigned long long)h, (unsigned long long)g_hash);
			rechecks++;
			if (sample) { if (tracelen > 1400) { tracebuf[1400] = 0; } samples[ns++] = strdup(tracebuf); }
		}
		if (nh < 64 && (runs & (runs - 1)) == 0) { hi[nh] = g_index; hh[nh++] = h; }
	}
	arm(0);
	double t1 = now();
	if (out) {
		FILE *f = fopen(out, "w");
		fprintf(f, "{\"prop\":\"%s\",\"variant\":\"%s\",\"runs\":%llu,\"nontrivial\":%llu,\"rechecks\":%llu,\"steps\":%llu,\"events\":%llu,\"wall\":%.3f,\"stats\":{", g_prop, g_variant,
			(unsigned long long)runs, (unsigned long long)nontriv, (unsigned long long)rechecks, (unsigned long long)total_steps, (unsigned long long)total_events, t1 - t0);
		for (int i = 0; i < nstats; i++) fprintf(f, "%s\"%s\":%llu", i ? "," : "", stat_name[i], (unsigned long long)stat_val[i]);
		fprintf(f, "},\"hashes\":[");
		for (uint64_t i = 0; i < nh; i++) fprintf(f, "%s[%llu,\"%016llx\"]", i ? "," : "", (unsigned long long)hi[i], (unsigned long long)hh[i]);
		fprintf(f, "],\"samples\":[");
		for (int i = 0; i < ns; i++) { if (i) fputc(',', f); json_str(f, samples[i]); }
		fprintf(f, "]}\n");
		fclose(f);
		set_dump(out, "sig", &set_sig); set_dump(out, "cov", &set_cov); set_dump(out, "sched", &set_sched);
	}
	return 0;
}
