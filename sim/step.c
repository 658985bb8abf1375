/* Single stepping of shipped (uninstrumented) code with the trap flag, inside
 * the process: every instruction of the system under test is a scheduling
 * point, its instruction-set class is monitored, and CPUID/XGETBV answer from a
 * simulated machine. x86 only; elsewhere these are stubs. */
#include "sim.h"
#include <signal.h>
__thread uint32_t isa_seen, isa_allowed = ~0u;
bool machine_strict;
__thread uint64_t isa_pc, sut_steps;
static __thread const machine_t *mach;

const char *isa_name(uint32_t isa) {
	static char b[200];
	static const char *const n[] = { "SSE2", "SSE3", "SSSE3", "SSE4.1", "SSE4.2", "AVX", "AVX2", "BMI", "AVX512F", "AVX512VL", "AVX512VBMI", "FMA", "AES/CLMUL", "other" };
	b[0] = 0;
	for (unsigned i = 0; i < sizeof n / sizeof *n; i++) if (isa >> i & 1) { strcat(b, n[i]); strcat(b, " "); }
	return b;
}
#if defined(__x86_64__) || defined(__i386__)
#include <ucontext.h>
#ifdef __x86_64__
#define PC REG_RIP
#define AX REG_RAX
#define BX REG_RBX
#define CX REG_RCX
#define DX REG_RDX
#define M64 1
#else
#define PC REG_EIP
#define AX REG_EAX
#define BX REG_EBX
#define CX REG_ECX
#define DX REG_EDX
#define M64 0
#endif

static uint32_t classify(const uint8_t *p) {
	bool p66 = false, pf2 = false, pf3 = false;
	for (;; p++) {
		uint8_t b = *p;
		if (b == 0x66) p66 = true;
		else if (b == 0xf2) { pf2 = true; pf3 = false; }
		else if (b == 0xf3) { pf3 = true; pf2 = false; }
		else if (b == 0x2e || b == 0x36 || b == 0x3e || b == 0x26 || b == 0x64 || b == 0x65 || b == 0xf0 || b == 0x67) ;
		else break;
	}
	if (M64 && (*p & 0xf0) == 0x40) p++;
	if (*p == 0x62 && (M64 || (p[1] & 0xc0) == 0xc0)) {
		uint32_t r = ISA_AVX512F | ISA_VEC;
		uint8_t map = p[1] & 7, pp = p[2] & 3, w = p[2] >> 7, ll = (p[3] >> 5) & 3, bb = (p[3] >> 4) & 1, op = p[4];
		bool regform = (p[5] & 0xc0) == 0xc0;
		if (!(bb && regform) && ll != 2) {
			/* scalar EVEX (LIG) would be AVX512F; vector ones need VL */
			bool scalar = map == 1 && (pp == 2 || pp == 3) && (op == 0x10 || op == 0x11 || (op >= 0x2a && op <= 0x2d) || (op >= 0x51 && op <= 0x5f));
			if (!scalar) r |= ISA_AVX512VL;
		}
		if (ll == 2) r |= ISA_V512;
		if (map == 2 && pp == 1 && ((w == 0 && (op == 0x8d || op == 0x75 || op == 0x7d)) || (w == 1 && op == 0x83))) r |= ISA_VBMI;
		return r;
	}
	if ((*p == 0xc5 || *p == 0xc4) && (M64 || (p[1] & 0xc0) == 0xc0)) {
		uint8_t map, L, op;
		if (*p == 0xc5) { map = 1; L = p[1] >> 2 & 1; op = p[2]; }
		else { map = p[1] & 31; L = p[2] >> 2 & 1; op = p[3]; }
		uint32_t r = ISA_AVX | (L ? ISA_V256 : 0) | ISA_VEC;
		uint8_t modrm = *p == 0xc5 ? p[3] : p[4];
		if (map == 1 && op == 0x77) return ISA_AVX;                       /* vzeroupper/all */
		if (map == 1 && ((op >= 0x41 && op <= 0x4b) || (op >= 0x90 && op <= 0x99)) && L <= 1 && (op >= 0x90 || op == 0x41 || op == 0x42 || (op >= 0x44 && op <= 0x47) || op == 0x4a || op == 0x4b))
			return ISA_AVX512F;                                       /* mask instructions */
		if (map == 1 && L) {
			if ((op >= 0x60 && op <= 0x6d) || (op >= 0x70 && op <= 0x76) || (op >= 0xd1 && op != 0xe6 && op != 0xe7 && op != 0xf0 && op != 0xd6)) r |= ISA_AVX2;
		} else if (map == 2) {
			if (op == 0xf2 || op == 0xf3 || op == 0xf5 || op == 0xf6 || op == 0xf7) return ISA_BMI;
			if (op >= 0x96 && op <= 0xbf && (op & 15) >= 6) return ISA_FMA | ISA_AVX;
			if (op >= 0xdb && op <= 0xdf) return r | ISA_AES;
			if (op == 0x58 || op == 0x59 || op == 0x5a || op == 0x78 || op == 0x79 || op == 0x16 || op == 0x36 || (op >= 0x45 && op <= 0x47) || op == 0x8c || op == 0x8e || (op >= 0x90 && op <= 0x93)) r |= ISA_AVX2;
			if (op == 0x18 || op == 0x19) { if ((modrm & 0xc0) == 0xc0) r |= ISA_AVX2; }
			if (L && (op <= 0x0b || (op >= 0x1c && op <= 0x1e) || (op >= 0x20 && op <= 0x25) || (op >= 0x28 && op <= 0x2b) || (op >= 0x30 && op <= 0x40))) r |= ISA_AVX2;
		} else if (map == 3) {
			if (op == 0xf0) return ISA_BMI;
			if (op == 0x44) return r | ISA_AES;
			if (op <= 0x02 || op == 0x38 || op == 0x39 || op == 0x46) r |= ISA_AVX2;
			if ((op >= 0x30 && op <= 0x33)) return ISA_AVX512F;       /* kshift */
			if (L && (op == 0x0e || op == 0x0f || op == 0x42 || op == 0x4c)) r |= ISA_AVX2;
		}
		return r;
	}
	if (*p != 0x0f) return 0;
	uint8_t op = p[1];
	if (op == 0x38) {
		uint8_t o = p[2];
		if (o <= 0x0b || (o >= 0x1c && o <= 0x1e)) return ISA_SSSE3 | ISA_VEC;
		if (o == 0x37) return ISA_SSE42 | ISA_VEC;
		if (o == 0x10 || o == 0x14 || o == 0x15 || o == 0x17 || (o >= 0x20 && o <= 0x41)) return ISA_SSE41 | ISA_VEC;
		if (o >= 0xdb && o <= 0xdf) return ISA_AES;
		if ((o == 0xf0 || o == 0xf1) && pf2) return ISA_SSE42;
		return ISA_OTHER;
	}
	if (op == 0x3a) {
		uint8_t o = p[2];
		if (o == 0x0f) return ISA_SSSE3 | ISA_VEC;
		if (o >= 0x60 && o <= 0x63) return ISA_SSE42 | ISA_VEC;
		if (o == 0x44 || o == 0xdf) return ISA_AES;
		return ISA_SSE41 | ISA_VEC;
	}
	if (op == 0xb8 && pf3) return ISA_SSE42;    /* popcnt: reported together with SSE4.2 on real machines */
	if ((op == 0xf0 && pf2) || ((pf2 || pf3) && (op == 0x12 || op == 0x16)) || ((p66 || pf2) && (op == 0x7c || op == 0x7d || op == 0xd0))) return ISA_SSE3 | ISA_VEC;
	if ((op >= 0x10 && op <= 0x17) || (op >= 0x28 && op <= 0x2f) || (op >= 0x50 && op <= 0x7f && op != 0x77) || (op >= 0xd1 && op != 0xff)) return ISA_SSE2;
	return 0;
}
/* architectural dependencies of a reported feature */
static uint32_t closure(const machine_t *m) {
	uint32_t r = ISA_VEC | ISA_V256 | ISA_V512, avx = 0, a512 = 0;
	if (M64) r |= ISA_SSE2;
	if (m->max_leaf >= 1) {
		uint32_t c = m->l1_ecx, d = m->l1_edx;
		if (d >> 26 & 1) r |= ISA_SSE2;
		if (c & 1) r |= ISA_SSE3;
		if (c >> 9 & 1) r |= ISA_SSSE3;
		if (c >> 19 & 1) r |= ISA_SSE41;
		if (c >> 20 & 1) r |= ISA_SSE42;
		if (c >> 28 & 1) avx |= ISA_AVX;
		if (c >> 12 & 1) avx |= ISA_AVX | ISA_FMA;
		if ((c >> 25 & 1) || (c >> 1 & 1)) r |= ISA_AES;
	}
	if (m->max_leaf >= 7) {
		if (m->l7_ebx >> 5 & 1) avx |= ISA_AVX | ISA_AVX2;
		if ((m->l7_ebx >> 3 & 1) || (m->l7_ebx >> 8 & 1)) avx |= ISA_BMI;
		if (m->l7_ebx >> 16 & 1) a512 |= ISA_AVX512F;
		if (m->l7_ebx >> 31 & 1) a512 |= ISA_AVX512F | ISA_AVX512VL;
		if (m->l7_ecx >> 1 & 1) a512 |= ISA_AVX512F | ISA_VBMI;
		if (a512) avx |= ISA_AVX | ISA_AVX2 | ISA_FMA;
	}
	if (avx || a512) r |= ISA_SSE42;
	if (r & ISA_SSE42) r |= ISA_SSE41;
	if (r & ISA_SSE41) r |= ISA_SSSE3;
	if (r & ISA_SSSE3) r |= ISA_SSE3;
	if (r & ISA_SSE3) r |= ISA_SSE2;
	if (m->osxsave) {
		if ((m->xcr0 & 6) == 6) r |= avx;
		if ((m->xcr0 & 0xe6) == 0xe6) r |= a512;
	}
	return r;
}
static __thread uint32_t mach_allowed;
static void do_cpuid(const machine_t *m, greg_t *g) {
	uint32_t leaf = (uint32_t)g[AX], sub = (uint32_t)g[CX], a = 0, b = 0, c = 0, d = 0;
	STAT("cpu.cpuid");
	EV("cpuid", leaf, leaf == 7 ? sub : 0, 0);
	if (leaf >= 0x80000000u) { if (leaf == 0x80000000u) a = 0x80000008u; }
	else {
		if (leaf > m->max_leaf) {
			STAT("cpu.leaf_out_of_range");
			if (m->amd_style) leaf = 0xffff; else { leaf = m->max_leaf; }  /* Intel: data of the highest basic leaf */
		}
		if (leaf == 0) { a = m->max_leaf; b = 0x756e6547; d = 0x49656e69; c = 0x6c65746e; if (m->amd_style) { b = 0x68747541; d = 0x69746e65; c = 0x444d4163; } }
		else if (leaf == 1) { a = 0x000906ea; b = 0x00100800; c = (m->l1_ecx & ~(1u << 27)) | (m->osxsave ? 1u << 27 : 0); d = m->l1_edx; }
		else if (leaf == 7) { if (sub == 0) { a = 0; b = m->l7_ebx; c = m->l7_ecx; d = m->l7_edx; } else { b = c = d = (uint32_t)mix64(m->junk_seed + sub); a = 0; } }
		else if (leaf != 0xffff) { uint64_t x = mix64(m->junk_seed ^ leaf), y = mix64(x); a = (uint32_t)x; b = (uint32_t)(x >> 32); c = (uint32_t)y; d = (uint32_t)(y >> 32); }
	}
	g[AX] = a; g[BX] = b; g[CX] = c; g[DX] = d;
}
static void trap(int sig, siginfo_t *si, void *u) {
	ucontext_t *uc = u; greg_t *g = uc->uc_mcontext.gregs;
	(void)sig; (void)si;
	int e = errno;
	for (;;) {
		const uint8_t *pc = (const uint8_t *)g[PC];
		bool sut = in_sut_text((uintptr_t)pc);
		work_spend(1);
		if (mach && mach->on) {
			if (pc[0] == 0x0f && pc[1] == 0xa2) { do_cpuid(mach, g); g[PC] += 2; if (sut) { sut_steps++; sim_step_point((uintptr_t)pc); } continue; }
			if (pc[0] == 0x0f && pc[1] == 0x01 && pc[2] == 0xd0) {
				STAT("cpu.xgetbv");
				EV("xgetbv", g[CX], 0, 0);
				if (!mach->osxsave) violation("illegal-instruction", "XGETBV executed although the operating system has not enabled it (OSXSAVE clear)");
				if ((uint32_t)g[CX] == 0) { g[AX] = (uint32_t)mach->xcr0; g[DX] = (uint32_t)(mach->xcr0 >> 32); }
				else violation("illegal-instruction", "XGETBV of register %u", (uint32_t)g[CX]);
				g[PC] += 3; if (sut) { sut_steps++; sim_step_point((uintptr_t)pc); } continue;
			}
		}
		if (sut) {
			uint32_t k = classify(pc);
			sut_steps++;
			if (k & ~isa_seen) isa_pc = (uintptr_t)pc;
			isa_seen |= k;
			if (machine_strict && mach && mach->on && (k & ~mach_allowed))
				violation("illegal-instruction", "instruction of set %son a machine that does not support it", isa_name(k & ~mach_allowed));
			if (k & ~isa_allowed)
				violation("wrong-codec", "instruction of set %soutside the codec that was asked for", isa_name(k & ~isa_allowed));
			sim_step_point((uintptr_t)pc);
		}
		break;
	}
	errno = e;
}
bool step_supported(void) { return true; }
void step_on(const machine_t *m) {
	static bool init;
	if (!init) {
		struct sigaction sa;
		memset(&sa, 0, sizeof sa);
		sa.sa_sigaction = trap; sa.sa_flags = SA_SIGINFO | SA_NODEFER;
		sigaction(SIGTRAP, &sa, NULL);
		init = true;
	}
	mach = m;
	if (m && m->on) mach_allowed = closure(m);
#ifdef __x86_64__
	__asm__ __volatile__("pushfq\n\torq $0x100, (%%rsp)\n\tpopfq" ::: "memory", "cc");
#else
	__asm__ __volatile__("pushfl\n\torl $0x100, (%%esp)\n\tpopfl" ::: "memory", "cc");
#endif
}
void step_off(void) {
#ifdef __x86_64__
	__asm__ __volatile__("pushfq\n\tandq $~0x100, (%%rsp)\n\tpopfq" ::: "memory", "cc");
#else
	__asm__ __volatile__("pushfl\n\tandl $~0x100, (%%esp)\n\tpopfl" ::: "memory", "cc");
#endif

}
bool bp_supported(void) { return false; }
void bp_learn(bool on) { (void)on; }
void bp_start(int n) { (void)n; }
void bp_stop(void) { }
void bp_rearm(void) { }
#else
bool step_supported(void) { return false; }
void step_on(const machine_t *m) { (void)m; (void)mach; }
void step_off(void) { }
/* Where there is no trap flag: breakpoints planted in the shipped code. First
 * the instructions a program executes when alone are learned (a breakpoint on
 * every one, removed at its first hit); then a few of them, each at a chosen
 * occurrence, are where the execution is interrupted or preempted. */
#if defined(__aarch64__) || defined(__arm__)
#include <ucontext.h>
#include <sys/mman.h>
#include <errno.h>
#ifdef __aarch64__
#define TRAP_INSN 0xd4200000u
#define UPC(u) ((u)->uc_mcontext.pc)
#else
#define TRAP_INSN 0xe1200070u
#define UPC(u) ((u)->uc_mcontext.arm_pc)
#endif
extern char __start_sut_text[], __stop_sut_text[];
static uint32_t *orig, *learned, nlearned; static uint8_t *isinsn, *planted; static uint32_t ninsn;   /* per 4-byte unit of the text */
static struct { uint32_t at, cur, count; bool on; } bp[8]; static int nbp; static uint32_t bp_mean;
static bool learning;
static void put(uint32_t i, uint32_t w) {
	uint32_t *t = (uint32_t *)__start_sut_text + i;
	*(volatile uint32_t *)t = w;
	__builtin___clear_cache((char *)t, (char *)(t + 1));
}
static void plant(uint32_t i) { if (planted[i]++ == 0) put(i, TRAP_INSN); }
static void unplant(uint32_t i) { if (--planted[i] == 0) put(i, orig[i]); }
static void bp_choose(int k) {
	if (!nlearned) return;
	uint32_t i = learned[choose(nlearned)];
	bp[k].at = bp[k].cur = i;
	bp[k].count = isinsn[i] == 2 && choose(2) ? choose_geo(bp_mean, bp_mean * 10) : 0;
	bp[k].on = true;
	plant(i);
}
static void trap(int sig, siginfo_t *si, void *u) {
	ucontext_t *uc = u; int e = errno;
	uintptr_t pc = UPC(uc);
	(void)sig; (void)si;
	if (!in_sut_text(pc)) sim_error("trap outside the system under test");
	uint32_t i = (uint32_t)(pc - (uintptr_t)__start_sut_text) / 4;
	if (learning) {   /* a whole stretch of straight code at a time */
		for (; i < ninsn && planted[i]; i++) { unplant(i); learned[nlearned++] = i; if (isinsn[i] != 2) break; }
		errno = e;
		return;
	}
	bool quiet = task_self() < 0 || access_off; int fire = 0;
	for (int k = 0; k < nbp; k++) if (bp[k].on && bp[k].cur == i) {
		unplant(i);
		if (bp[k].cur != bp[k].at) { bp[k].cur = bp[k].at; plant(bp[k].at); }      /* stepped over it: back */
		else if ((bp[k].count || quiet) && isinsn[i] == 2) { if (!quiet) bp[k].count--; bp[k].cur = i + 1; plant(i + 1); }
		else { bp[k].on = false; if (!quiet) fire++; else bp[k].on = false; }
	}
	if (fire) {
		STAT("fault.breakpoint");
		EV("breakpoint", i, fire, 0);
		sim_breakpoint();
		for (int k = 0; k < nbp; k++) if (!bp[k].on) bp_choose(k);
	}
	errno = e;
}
static bool bp_init(void) {
	static int st;
	if (st) return st > 0;
	st = -1;
	char p[700]; unsigned long a; int lin;
	snprintf(p, sizeof p, "%s.insns", program_invocation_name);
	FILE *f = fopen(p, "r");
	if (!f) return false;
	size_t n = (__stop_sut_text - __start_sut_text) / 4;
	orig = malloc(n * 4 + 4); learned = malloc(n * 4 + 4); isinsn = calloc(n + 1, 1); planted = calloc(n + 1, 1);
	ninsn = (uint32_t)n;
	memcpy(orig, __start_sut_text, n * 4);
	while (fscanf(f, "%lx %d", &a, &lin) == 2) if (a >= (unsigned long)__start_sut_text && a < (unsigned long)__stop_sut_text && a % 4 == 0) isinsn[(a - (unsigned long)__start_sut_text) / 4] = lin ? 2 : 1;
	fclose(f);
	for (uint32_t i = 0; i < ninsn; i++) if (isinsn[i] == 2 && (i + 1 >= ninsn || !isinsn[i + 1])) isinsn[i] = 1;
	uintptr_t b = (uintptr_t)__start_sut_text & ~4095ul, e = ((uintptr_t)__stop_sut_text + 4095) & ~4095ul;
	if (mprotect((void *)b, e - b, PROT_READ | PROT_WRITE | PROT_EXEC)) return false;
	struct sigaction sa;
	memset(&sa, 0, sizeof sa);
	sa.sa_sigaction = trap; sa.sa_flags = SA_SIGINFO | SA_NODEFER;
	sigaction(SIGTRAP, &sa, NULL);
	st = 1;
	return true;
}
bool bp_supported(void) { return bp_init(); }
void bp_learn(bool on) {
	learning = on;
	for (uint32_t i = 0; i < ninsn; i++) if (on ? isinsn[i] : planted[i]) { if (on) { plant(i); nlearned = 0; } else unplant(i); }
}
void bp_start(int n) {
	static const uint16_t means[] = { 2, 5, 15, 50 };
	nbp = n; bp_mean = means[choose(4)];
	for (int k = 0; k < n; k++) { bp[k].on = false; bp_choose(k); }
}
void bp_stop(void) {
	for (uint32_t i = 0; i < ninsn; i++) while (planted[i]) unplant(i);
	for (int k = 0; k < 8; k++) bp[k].on = false;
	nbp = 0; learning = false;
}
void bp_rearm(void) { for (int k = 0; k < nbp; k++) if (!bp[k].on) bp_choose(k); }
#else
bool bp_supported(void) { return false; }
void bp_learn(bool on) { (void)on; }
void bp_start(int n) { (void)n; }
void bp_stop(void) { }
void bp_rearm(void) { }
#endif
#endif
