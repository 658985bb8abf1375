#include "abi.h"
#include <errno.h>
#define MAXR 24
typedef struct { uint64_t r[MAXR]; uint64_t ctl[4]; } regs_t;
/* out: registers and control state after the call; ctl[] is also filled with the state before it (in) */
extern uintptr_t abi_tramp(void *fn, const uintptr_t *args, regs_t *in, regs_t *out);
#if defined(__x86_64__)
static const char *const names[] = { "rbx", "rbp", "r12", "r13", "r14", "r15" };
enum { NR = 6, NC = 3 };
static const char *const cnames[] = { "direction flag", "MXCSR", "x87 control and tag words" };
#define CTL(at) "pushfq; pop %rax; and $0x400, %eax; mov %rax, " #at "(%rcx); stmxcsr " #at "+8(%rcx); fnstenv -64(%rsp); fldenv -64(%rsp); movzwl -64(%rsp), %eax; movzwl -56(%rsp), %r10d; shl $16, %r10d; or %r10d, %eax; mov %rax, " #at "+16(%rcx);"
asm(".text\n.globl abi_tramp\nabi_tramp:\n"
    "push %rbx; push %rbp; push %r12; push %r13; push %r14; push %r15; sub $24, %rsp\n"
    "mov %rcx, (%rsp); mov %rdi, %r11\n"
    "mov %rdx, %rcx\n" CTL(192) "mov %rcx, %rdx\n"
    "mov (%rdx), %rbx; mov 8(%rdx), %rbp; mov 16(%rdx), %r12; mov 24(%rdx), %r13; mov 32(%rdx), %r14; mov 40(%rdx), %r15\n"
    "mov 32(%rsi), %r8; mov 24(%rsi), %rcx; mov 16(%rsi), %rdx; mov (%rsi), %rdi; mov 8(%rsi), %rsi\n"
    "call *%r11\n"
    "mov (%rsp), %rcx\n"
    "mov %rbx, (%rcx); mov %rbp, 8(%rcx); mov %r12, 16(%rcx); mov %r13, 24(%rcx); mov %r14, 32(%rcx); mov %r15, 40(%rcx); mov %rax, 8(%rsp)\n"
    CTL(192) "cld\n"
    "mov 8(%rsp), %rax\n"
    "add $24, %rsp; pop %r15; pop %r14; pop %r13; pop %r12; pop %rbp; pop %rbx; ret\n");
static uint64_t mask(int i) { return i == 1 ? 0xffc0 : ~0ull; }      /* the sticky exception flags may be set */
#elif defined(__i386__)
static const char *const names[] = { "ebx", "ebp", "esi", "edi" };
enum { NR = 4, NC = 2 };
static const char *const cnames[] = { "direction flag", "x87 control and tag words" };
#define CTL(at) "pushf; pop %eax; and $0x400, %eax; mov %eax, " #at "(%ecx); fnstenv -64(%esp); fldenv -64(%esp); movzwl -64(%esp), %eax; movzwl -56(%esp), %edx; shl $16, %edx; or %edx, %eax; mov %eax, " #at "+8(%ecx);"
asm(".text\n.globl abi_tramp\nabi_tramp:\n"
    "push %ebx; push %ebp; push %esi; push %edi; sub $28, %esp\n"        /* 16 + 28 + return address: 48; aligned for the call */
    "mov 56(%esp), %ecx\n" CTL(192)
    "mov 52(%esp), %edx\n"
    "mov (%edx), %eax; mov %eax, (%esp); mov 4(%edx), %eax; mov %eax, 4(%esp); mov 8(%edx), %eax; mov %eax, 8(%esp); mov 12(%edx), %eax; mov %eax, 12(%esp); mov 16(%edx), %eax; mov %eax, 16(%esp)\n"
    "mov 48(%esp), %eax\n"
    "mov (%ecx), %ebx; mov 8(%ecx), %ebp; mov 16(%ecx), %esi; mov 24(%ecx), %edi\n"
    "call *%eax\n"
    "mov 60(%esp), %ecx\n"
    "mov %ebx, (%ecx); mov %ebp, 8(%ecx); mov %esi, 16(%ecx); mov %edi, 24(%ecx); mov %eax, 24(%esp)\n"
    CTL(192) "cld\n"
    "mov 24(%esp), %eax\n"
    "add $28, %esp; pop %edi; pop %esi; pop %ebp; pop %ebx; ret\n");
static uint64_t mask(int i) { (void)i; return 0xffffffff; }
#elif defined(__aarch64__)
static const char *const names[] = { "x19", "x20", "x21", "x22", "x23", "x24", "x25", "x26", "x27", "x28", "x29", "d8", "d9", "d10", "d11", "d12", "d13", "d14", "d15" };
enum { NR = 19, NC = 1 };
static const char *const cnames[] = { "FPCR" };
asm(".text\n.globl abi_tramp\nabi_tramp:\n"
    "sub sp, sp, #192\n"
    "stp x19, x20, [sp]; stp x21, x22, [sp, #16]; stp x23, x24, [sp, #32]; stp x25, x26, [sp, #48]; stp x27, x28, [sp, #64]; stp x29, x30, [sp, #80]\n"
    "stp d8, d9, [sp, #96]; stp d10, d11, [sp, #112]; stp d12, d13, [sp, #128]; stp d14, d15, [sp, #144]; str x3, [sp, #160]\n"
    "mrs x9, fpcr; str x9, [x2, #192]\n"
    "ldp x19, x20, [x2]; ldp x21, x22, [x2, #16]; ldp x23, x24, [x2, #32]; ldp x25, x26, [x2, #48]; ldp x27, x28, [x2, #64]; ldr x29, [x2, #80]\n"
    "ldr d8, [x2, #88]; ldr d9, [x2, #96]; ldr d10, [x2, #104]; ldr d11, [x2, #112]; ldr d12, [x2, #120]; ldr d13, [x2, #128]; ldr d14, [x2, #136]; ldr d15, [x2, #144]\n"
    "mov x16, x0; mov x15, x1; ldp x0, x1, [x15]; ldp x2, x3, [x15, #16]; ldr x4, [x15, #32]\n"
    "blr x16\n"
    "ldr x3, [sp, #160]\n"
    "stp x19, x20, [x3]; stp x21, x22, [x3, #16]; stp x23, x24, [x3, #32]; stp x25, x26, [x3, #48]; stp x27, x28, [x3, #64]; str x29, [x3, #80]\n"
    "str d8, [x3, #88]; str d9, [x3, #96]; str d10, [x3, #104]; str d11, [x3, #112]; str d12, [x3, #120]; str d13, [x3, #128]; str d14, [x3, #136]; str d15, [x3, #144]\n"
    "mrs x9, fpcr; str x9, [x3, #192]\n"
    "ldp x19, x20, [sp]; ldp x21, x22, [sp, #16]; ldp x23, x24, [sp, #32]; ldp x25, x26, [sp, #48]; ldp x27, x28, [sp, #64]; ldp x29, x30, [sp, #80]\n"
    "ldp d8, d9, [sp, #96]; ldp d10, d11, [sp, #112]; ldp d12, d13, [sp, #128]; ldp d14, d15, [sp, #144]\n"
    "add sp, sp, #192; ret\n");
static uint64_t mask(int i) { (void)i; return ~0ull; }
#elif defined(__arm__)
static const char *const names[] = { "r4", "r5", "r6", "r7", "r8", "r9", "r10", "r11", "d8", "d9", "d10", "d11", "d12", "d13", "d14", "d15" };
enum { NR = 16, NC = 1 };
static const char *const cnames[] = { "FPSCR" };
#define R_LD "ldr r4, [r2]; ldr r5, [r2, #8]; ldr r6, [r2, #16]; ldr r7, [r2, #24]; ldr r8, [r2, #32]; ldr r9, [r2, #40]; ldr r10, [r2, #48]; ldr r11, [r2, #56]\n"
#define R_ST "str r4, [r3]; str r5, [r3, #8]; str r6, [r3, #16]; str r7, [r3, #24]; str r8, [r3, #32]; str r9, [r3, #40]; str r10, [r3, #48]; str r11, [r3, #56]\n"
#define F(op, b) #op " d8, [" #b ", #64]; " #op " d9, [" #b ", #72]; " #op " d10, [" #b ", #80]; " #op " d11, [" #b ", #88]; " #op " d12, [" #b ", #96]; " #op " d13, [" #b ", #104]; " #op " d14, [" #b ", #112]; " #op " d15, [" #b ", #120]\n"
asm(".text\n.syntax unified\n.arm\n.fpu neon\n.globl abi_tramp\n.type abi_tramp, %function\nabi_tramp:\n"
    "push {r4-r11, lr}\nvpush {d8-d15}\nsub sp, sp, #12\nstr r3, [sp, #4]\n"       /* 36 + 64 + 12: a multiple of 16 */
    "vmrs r12, fpscr\nstr r12, [r2, #192]\n" R_LD F(vldr, r2)
    "mov r12, r0\nldr r0, [r1, #16]\nstr r0, [sp]\nldr r0, [r1]\nldr r2, [r1, #8]\nldr r3, [r1, #12]\nldr r1, [r1, #4]\n"
    "blx r12\n"
    "ldr r3, [sp, #4]\n" R_ST F(vstr, r3) "vmrs r12, fpscr\nstr r12, [r3, #192]\n"
    "add sp, sp, #12\nvpop {d8-d15}\npop {r4-r11, pc}\n");
static uint64_t mask(int i) { (void)i; return 0x07f79f00; }          /* not the flags, not the sticky ones */
#elif defined(__s390x__)
static const char *const names[] = { "r6", "r7", "r8", "r9", "r10", "r11", "r12", "r13", "f8", "f9", "f10", "f11", "f12", "f13", "f14", "f15" };
enum { NR = 16, NC = 1 };
static const char *const cnames[] = { "FPC" };
#define SF(op, b, o) #op " %f8, " #o "+0(" #b ")\n" #op " %f9, " #o "+8(" #b ")\n" #op " %f10, " #o "+16(" #b ")\n" #op " %f11, " #o "+24(" #b ")\n" #op " %f12, " #o "+32(" #b ")\n" #op " %f13, " #o "+40(" #b ")\n" #op " %f14, " #o "+48(" #b ")\n" #op " %f15, " #o "+56(" #b ")\n"
asm(".text\n.globl abi_tramp\n.type abi_tramp, @function\nabi_tramp:\n"
    "stmg %r6, %r15, 48(%r15)\nlay %r15, -240(%r15)\n" SF(std, %r15, 160) "stg %r5, 224(%r15)\n"
    "stfpc 192(%r4)\n"
    "lmg %r6, %r13, 0(%r4)\n" SF(ld, %r4, 64)
    "lgr %r1, %r2\nlgr %r14, %r3\nlg %r2, 0(%r14)\nlg %r3, 8(%r14)\nlg %r4, 16(%r14)\nlg %r5, 24(%r14)\nlg %r6, 32(%r14)\n"
    "basr %r14, %r1\n"
    "lg %r5, 224(%r15)\nstmg %r6, %r13, 0(%r5)\n" SF(std, %r5, 64) "stfpc 192(%r5)\n"
    SF(ld, %r15, 160) "lay %r15, 240(%r15)\nlmg %r6, %r15, 48(%r15)\nbr %r14\n");
static uint64_t mask(int i) { (void)i; return 0xff07ffffull << 32 | 0xffffffff; }
#endif
uintptr_t abi_call(const char *name, void *fn, uintptr_t a, uintptr_t b, uintptr_t c, uintptr_t d, uintptr_t e) {
	static regs_t in, out;
	uintptr_t args[5] = { a, b, c, d, e };
	memset(&in, 0, sizeof in); memset(&out, 0, sizeof out);
	for (int i = 0; i < NR; i++) {
		in.r[i] = mix64(g_index * 64 + (uint64_t)i);
		if (sizeof(void *) == 4 && names[i][0] != 'd') in.r[i] &= 0xffffffff;
	}
#ifdef __s390x__
	in.r[0] = e; /* r6 is the fifth argument and preserved */
#endif
	int err = (int)(mix64(g_index + 77) & 0xffff) + 1000;
	errno = err;
	uintptr_t r = abi_tramp(fn, args, &in, &out);
	if (errno != err) violation("left-behind", "%s left errno at %d", name, errno);
	for (int i = 0; i < NR; i++) if (in.r[i] != out.r[i]) violation("left-behind", "%s did not preserve %s", name, names[i]);
	for (int i = 0; i < NC; i++) if ((in.ctl[i] ^ out.ctl[i]) & mask(i)) violation("left-behind", "%s changed the %s", name, cnames[i]);
	STAT("calls_with_registers_watched");
	return r;
}
