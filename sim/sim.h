/* Deterministic simulator for aklomp/base64: core interfaces.
 *
 * One run is a pure function of (scenario, variant, choice tape). In generation
 * mode the tape is drawn from a PRNG seeded by (VERIF_SEED, property, variant,
 * run index); in replay mode it is read from a file. Nothing else may decide
 * anything: no clocks, no addresses, no real scheduling. */
#ifndef SIM_H
#define SIM_H
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <stdint.h>
#include <stddef.h>
#include <stdbool.h>
#include <stdarg.h>
#include <string.h>
#include <stdio.h>
#include <stdlib.h>
#include <errno.h>

/* ---------------- choices ---------------- */
/* Every choice is recorded; 0 is always the simplest alternative. */
uint32_t choose(uint32_t n);                       /* uniform in [0, n) */
bool     chance(uint32_t num, uint32_t den);       /* true with num/den */
uint32_t choose_range(uint32_t lo, uint32_t hi);   /* inclusive */
uint32_t choose_log(uint32_t max);                 /* 0..max, log-uniform magnitude */
uint32_t choose_geo(uint32_t mean, uint32_t max);  /* >= 0, geometric */
uint32_t choose_w(const uint8_t *w, uint32_t n);   /* weighted index */
uint32_t choose_u32(void);                         /* raw 32 bits (data seeds) */
bool     tape_exhausted(void);

/* Deterministic filler, not a choice. */
uint64_t mix64(uint64_t x);
void     fill_random(uint8_t *p, size_t n, uint64_t seed);

/* ---------------- events, statistics ---------------- */
void ev_(uint64_t taghash, const char *tag, uint64_t a, uint64_t b, uint64_t c);
uint64_t strhash(const char *s);
#define EV(tag, a, b, c) do { static uint64_t h_; if (!h_) h_ = strhash(tag); \
	ev_(h_, tag, (uint64_t)(a), (uint64_t)(b), (uint64_t)(c)); } while (0)
void ev_bytes(const char *tag, const void *p, size_t n);
void trace_note(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
int  stat_id(const char *name);
extern uint64_t stat_val[];
#define STATN(name, k) do { static int id_ = -1; if (id_ < 0) id_ = stat_id(name); stat_val[id_] += (k); } while (0)
#define STAT(name) STATN(name, 1)
void cover(uint64_t feature);          /* distinct states/features reached */
void sched_note(uint64_t x);           /* folded into the run's interleaving hash */
void nontrivial(void);                 /* marks the run as non-trivial */
void sim_steps(uint64_t n);            /* simulated time, in steps */

/* ---------------- verdicts ---------------- */
void violation(const char *cls, const char *fmt, ...) __attribute__((noreturn, format(printf, 2, 3)));
void sim_error(const char *fmt, ...) __attribute__((noreturn, format(printf, 1, 2)));

/* ---------------- SUT process image ---------------- */
void sut_reset(void);                  /* restart of the process: globals as loaded */
bool in_sut_text(uintptr_t pc);
bool in_sut_data(uintptr_t a);
bool sut_data_dirty(void);

/* ---------------- memory arenas ---------------- */
enum place { PL_LOOSE, PL_RIGHT, PL_LEFT };
typedef struct arena {
	const char *name;
	uint8_t *rw, *ro;      /* two views of the same memory; ro may equal rw */
	size_t cap;            /* usable bytes, page multiple */
	size_t off, len;       /* current buffer */
	enum place pl;
	uint64_t junk;
} arena_t;
#define ARENA_SLACK 512
arena_t *arena_new(const char *name, size_t cap, bool readonly_view);
uint8_t *arena_place(arena_t *a, size_t len, enum place pl, uint32_t align, uint64_t junk); /* rw address; fills slack */
uint32_t arena_align(void);
uint8_t *arena_ro(arena_t *a);
void     arena_check(arena_t *a, const char *what);  /* slack unchanged */
extern bool arena_precise;             /* instrumented accesses may touch nothing of an arena but its current buffer */
const char *arena_fault(uintptr_t addr);             /* which arena a faulting address belongs to */

/* ---------------- tasks: real threads, one baton ---------------- */
#define MAX_TASKS 640
enum pol { POL_RANDOM, POL_PCT, POL_RR };
void sched_config(enum pol pol, uint32_t mean_quantum, uint32_t hot_num);
int  task_spawn(void (*fn)(void *), void *arg);
void tasks_run(void);                  /* from the main thread: until all tasks ended */
bool in_task(void);
int  task_self(void);
void task_yield(const char *why);      /* scheduling point: anyone may run next */
void task_wait(bool (*ready)(void *), void *arg, const char *why);
void task_exit(void) __attribute__((noreturn));
void sim_access(const void *p, size_t n, bool write);  /* instrumented memory access */
void sim_step_point(uintptr_t pc);                     /* single-stepped instruction */
extern __thread int access_off;        /* >0: no scheduling points */
extern uint64_t step_budget;           /* run aborts with a hang violation beyond it */
extern void (*interrupt_hook)(void);   /* called at a due preemption instead of a switch */
void task_kill(int i);                 /* it never runs again; itself: at once */
extern void (*death_hook)(void);       /* called at a due preemption: may end the task or jump out of its call */
void preempt_arm(uint32_t after);      /* for interrupt_hook */

/* ---------------- single stepping, simulated CPU (x86) ---------------- */
typedef struct machine {
	bool on;
	uint32_t max_leaf;
	bool amd_style;                /* leaves above the maximum read as zero */
	uint32_t l1_ecx, l1_edx, l7_ebx, l7_ecx, l7_edx;
	bool osxsave;
	uint64_t xcr0;
	uint32_t junk_seed;
} machine_t;
enum { ISA_SSE2 = 1, ISA_SSE3 = 2, ISA_SSSE3 = 4, ISA_SSE41 = 8, ISA_SSE42 = 16, ISA_AVX = 32, ISA_AVX2 = 64,
       ISA_BMI = 128, ISA_AVX512F = 256, ISA_AVX512VL = 512, ISA_VBMI = 1024, ISA_FMA = 2048, ISA_AES = 4096, ISA_OTHER = 8192,
       ISA_V256 = 1 << 16, ISA_V512 = 1 << 17, ISA_VEC = 1 << 18 };
bool step_supported(void);
void step_on(const machine_t *m);      /* this thread only */
void step_off(void);
extern __thread uint32_t isa_seen;     /* classes of instructions executed in SUT text since cleared */
extern __thread uint64_t isa_pc;       /* last pc of the highest class */
extern __thread uint64_t sut_steps;    /* SUT instructions stepped in this thread */
extern bool machine_strict;              /* violation when an instruction is not supported by the machine */
extern __thread uint32_t isa_allowed;  /* violation when an instruction is outside; ~0: everything */
const char *isa_name(uint32_t isa);

/* ---------------- breakpoints in shipped code (ARM, AArch64) ---------------- */
bool bp_supported(void);
void bp_learn(bool on);                /* between on and off: which instructions are executed */
void bp_start(int n);                  /* keep n breakpoints planted among those */
void bp_stop(void);
void bp_rearm(void);                   /* after a jump out of the handler */
void sim_breakpoint(void);             /* one is hit: a due preemption */

/* ---------------- scenario interface ---------------- */
extern const char *g_prop, *g_variant;
extern uint64_t g_seed, g_index;
extern bool g_in_run;   /* inside a simulated run, not in its start-up */
extern bool g_thorough, g_tracing;
void sut_reset_on(const machine_t *m);  /* as sut_reset, start-up code runs on this machine */
void scenario(void);                   /* one run; provided by the scenario dispatcher */
void scenario_init(void);              /* once per process */
void run_call_enter(const char *what); /* marks: inside SUT code */
void run_call_leave(void);
bool sys_guard_on(void);               /* system calls of this thread are trapped and fail; false: not possible here */
void sys_guard_off(void);
extern uint64_t sys_guard_hits; extern long sys_guard_last;
void stack_scrub(void);
/* S09: what a call costs */
extern uint64_t work_done, work_limit; extern bool work_stepped;
void work_begin(size_t n, bool stepped);
void work_end(const char *what, size_t n);
void work_over(void) __attribute__((noreturn));
static inline void work_spend(uint64_t k) { if (work_limit && (work_done += k) > work_limit) work_over(); }
extern const char *volatile g_in_call;
#endif
