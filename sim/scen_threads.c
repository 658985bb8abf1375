/* T01: caller threads at instruction-level interleavings. T02: calls interrupted
 * by handlers that use the library. T03: forced codecs among other users.
 * T04 (cpu_*): simulated x86 machines. T05: callers that vanish in mid-call.
 * The oracle of T01..T03 and T05 is the library itself, each program run alone. */
#include "sim.h"
#include "sut.h"
#include "model.h"
#include "shim.h"
#include "scen.h"
#include <setjmp.h>
#define MAXT 4
#define MAXOPS 6
#define MAXIN 3000
#define MAXOUT 4200
enum { OP_ENC, OP_DEC, OP_SENC, OP_SDEC };
typedef struct {
	int op, codec; bool damaged;
	uint32_t len; uint8_t in[MAXOUT];
	uint32_t ncut; uint16_t cut[8];
	/* alone */
	uint32_t nres; struct { int ret; size_t len; uint32_t at; } res[12];
	uint8_t out[MAXOUT + 64]; uint32_t isa;
	uint8_t ibuf[MAXOUT + 16], obuf[MAXOUT + 64] __attribute__((aligned(16)));   /* what the calls work on: fixed addresses */
} op_t;
typedef struct { int n; op_t *ops[MAXOPS]; int cur; } prog_t;
static prog_t T[MAXT], N[3];
static op_t *pool; static int npool;
#define POOL 40
static bool stepping, monitor_isa; static machine_t host;
static int P;

void threads_init(void) { pool = malloc(sizeof(op_t) * POOL); P = g_prop[2] - '0'; }
static void gen_op(op_t *o, int flagmode) {
	uint32_t n, kind = choose(DATA_KINDS), seed = choose_u32();
	memset(o, 0, offsetof(op_t, in));
	o->op = choose(4); o->nres = 0; o->isa = 0;
	switch (choose(5)) { case 0: n = choose(12); break; case 1: n = choose_log(MAXIN); break; default: n = 30 + choose(stepping ? 200 : 500); break; }
	o->damaged = false;
	if (flagmode == 0) o->codec = 0;
	else { o->codec = chance(flagmode == 1 ? 1 : 4, flagmode == 1 ? 3 : 6) ? (P != 3 && choose(3) ? pick_codec() : (int)choose(ncodecs)) : 0; if (codecs[o->codec].present_only) o->codec = 0; }
	if (o->op == OP_ENC || o->op == OP_SENC) { o->len = n; fill_data(o->in, n, kind, seed); }
	else {
		static uint8_t t[MAXIN + 8];
		if (n > MAXIN) n = MAXIN;
		fill_data(t, n, kind, seed);
		o->len = (uint32_t)model_encode(t, n, o->in);
		if (o->len && chance(1, 8)) { o->damaged = true; o->in[choose(o->len)] = "*=A\xff"[choose(4)]; }
	}
	o->ncut = o->op >= OP_SENC ? choose(4) : 0;
	for (uint32_t i = 0; i < o->ncut; i++) o->cut[i] = (uint16_t)choose_log(o->len);
	trace_note("  op %d codec=%s len=%u cuts=%u damaged=%d", o->op, codecs[o->codec].name, o->len, o->ncut, o->damaged);
}
static void gen_prog(prog_t *p, int maxops, int flagmode) {
	p->n = 1 + choose(maxops); p->cur = 0;
	for (int i = 0; i < p->n; i++) { if (npool == POOL) sim_error("op pool"); p->ops[i] = &pool[npool++]; gen_op(p->ops[i], flagmode); }
}
/* One result of the library: recorded when alone, compared otherwise. */
typedef struct { op_t *o; bool record; uint32_t k, at; uint8_t *buf; int who; } rc_t;
static const char *opname[] = { "base64_encode", "base64_decode", "stream encode", "stream decode" };
static void result(rc_t *r, int ret, size_t len) {
	op_t *o = r->o;
	if (r->record) {
		o->res[r->k].ret = ret; o->res[r->k].len = len; o->res[r->k].at = r->at;
		if (len <= MAXOUT && r->at + len <= MAXOUT + 64) memcpy(o->out + r->at, r->buf, len); else o->res[r->k].len = (size_t)-1;
		if (o->res[r->k].len != (size_t)-1) r->at += len;
		r->k++; o->nres = r->k;
		return;
	}
	if (r->k >= o->nres) sim_error("result count");
	size_t want = o->res[r->k].len;
	EV("result", r->who, (uint64_t)(ret & 0xff) << 32 | (uint32_t)len, o->op);
	if (want == (size_t)-1) { r->k++; return; }      /* alone it was already out of any range */
	if (ret != o->res[r->k].ret || len != want)
		violation(P == 3 ? "codec-leak" : "differs", "%s (%s, %u bytes) by %d: call %u gave %d/%zu, alone it gives %d/%zu", opname[o->op], codecs[o->codec].name, o->len, r->who, r->k, ret, len, o->res[r->k].ret, want);
	if (memcmp(r->buf, o->out + o->res[r->k].at, len))
		violation(P == 3 ? "codec-leak" : "differs", "%s (%s, %u bytes) by %d: call %u delivered other bytes than alone", opname[o->op], codecs[o->codec].name, o->len, r->who, r->k);
	r->k++;
}
static void unavailable(op_t *o, int ret, size_t len, bool dec) {
	if (P != 3 || !codecs[o->codec].flag || codecs[o->codec].available) return;
	STAT("probe.unavailable_codec");
	if (dec && ret != -1) violation("unavailable", "%s with %s, which is not in this build, returned %d, not -1", opname[o->op], codecs[o->codec].name, ret);
	if (len) violation("unavailable", "%s with %s, which is not in this build, reported length %zu", opname[o->op], codecs[o->codec].name, len);
}
static void monitors_on(op_t *o, bool record) {
	(void)record;
	stack_scrub();
	if (!stepping) return;
	isa_seen = 0;
	isa_allowed = monitor_isa && codecs[o->codec].flag && codecs[o->codec].available ? codecs[o->codec].isa : ~0u;
	step_on(&host);
}
static void run_op(op_t *o, bool record, int who) {
	uint8_t *buf = o->obuf, *in = o->ibuf;
	rc_t r = { o, record, 0, 0, buf, who };
	size_t len = (size_t)0x5EAD5EAD; int ret = 1, flags = codecs[o->codec].flag;
	const char *pc = g_in_call;
	memcpy(in, o->in, o->len); memset(in + o->len, 0x77, 16);
	uint32_t acc = 0;
	switch (o->op) {
	case OP_ENC:
		g_in_call = "base64_encode";
		monitors_on(o, record); base64_encode((char *)in, o->len, (char *)buf, &len, flags); if (stepping) step_off();
		g_in_call = pc; unavailable(o, 1, len, false); result(&r, 1, len); break;
	case OP_DEC:
		g_in_call = "base64_decode";
		monitors_on(o, record); ret = base64_decode((char *)in, o->len, (char *)buf, &len, flags); if (stepping) step_off();
		g_in_call = pc; unavailable(o, ret, len, true); result(&r, ret, len); break;
	default: {
		struct base64_state st; uint32_t pos = 0; bool enc = o->op == OP_SENC;
		memset(&st, 0xA5, sizeof st);
		g_in_call = "stream init";
		monitors_on(o, record);
		if (enc) base64_stream_encode_init(&st, flags); else base64_stream_decode_init(&st, flags);
		if (stepping) { acc |= isa_seen; step_off(); }
		for (uint32_t i = 0; i <= o->ncut; i++) {
			uint32_t n = i < o->ncut ? o->cut[i] : o->len - pos; if (n > o->len - pos) n = o->len - pos;
			if (!record) task_yield("between calls");
			len = (size_t)0x5EAD5EAD; ret = 1;
			g_in_call = opname[o->op];
			monitors_on(o, record);
			if (enc) base64_stream_encode(&st, (char *)in + pos, n, (char *)buf, &len); else ret = base64_stream_decode(&st, (char *)in + pos, n, (char *)buf, &len);
			if (stepping) { acc |= isa_seen; step_off(); }
			g_in_call = pc; unavailable(o, ret, len, !enc); result(&r, ret, len);
			pos += n;
		}
		if (enc) {
			len = (size_t)0x5EAD5EAD;
			g_in_call = "base64_stream_encode_final";
			monitors_on(o, record); base64_stream_encode_final(&st, (char *)buf, &len); if (stepping) { acc |= isa_seen; step_off(); }
			g_in_call = pc; unavailable(o, 1, len, false); result(&r, 1, len);
		}
		isa_seen = acc;
	} }
	if (stepping && monitor_isa) {
		/* which codec ran, as far as its instructions tell */
		uint32_t sig = isa_seen & (ISA_SSSE3 | ISA_SSE41 | ISA_AVX | ISA_AVX2 | ISA_AVX512F);
		STAT("isa.monitored_operations");
		if (record) o->isa = sig;
		else if (sig != o->isa) violation("codec-changed", "%s (%s): executed instruction sets %x, alone %x", opname[o->op], codecs[o->codec].name, sig, o->isa);
		const codec_t *c = &codecs[o->codec]; bool enc = o->op == OP_ENC || o->op == OP_SENC;
		if (c->flag && c->available && o->len >= 400 && !o->damaged && o->ncut == 0) {
			uint32_t need = c->flag == BASE64_FORCE_AVX512 ? (enc ? ISA_AVX512F : ISA_AVX | ISA_AVX512F) : c->flag == BASE64_FORCE_AVX2 ? ISA_AVX2 : c->flag == BASE64_FORCE_AVX ? ISA_AVX : c->flag == BASE64_FORCE_PLAIN ? 0 : ISA_SSSE3;
			if (need && !(sig & need)) violation("codec-not-used", "%s of %u bytes forced to %s executed none of its instructions", opname[o->op], o->len, c->name);
		}
	}
}
static void alone(prog_t *p) {
	sut_reset_on(stepping ? &host : NULL);
	for (int i = 0; i < p->n; i++) run_op(p->ops[i], true, -1);
}
static void thread_main(void *p) {
	prog_t *g = p;
	int who = task_self();
	for (int i = 0; i < g->n; i++) {
		g->cur = i;
		run_op(g->ops[i], false, who);
		task_yield("between operations");
	}
}
/* T02 */
static int depth, max_depth, irq_left; static uint32_t irq_mean;
static void irq(void) {
	if (depth >= max_depth || irq_left <= 0) return;
	prog_t *g = &N[depth];
	uint32_t save_isa = isa_seen, save_allowed = isa_allowed;
	const char *pc = g_in_call;
	irq_left--; depth++;
	STATN("fault.nested_interrupt", depth > 1);
	nontrivial();
	sched_note(0x1000 + g->cur);
	EV("interrupt", depth, g->cur, 0);
	bool st = stepping;
	if (depth < max_depth) preempt_arm(1 + choose_geo(irq_mean, irq_mean * 10)); else { stepping = false; access_off++; }
	run_op(g->ops[g->cur % g->n], false, 100 + depth);
	if (depth >= max_depth) { stepping = st; access_off--; }
	g->cur++;
	depth--;
	isa_seen = save_isa; isa_allowed = save_allowed; g_in_call = pc;
	if (irq_left > 0) preempt_arm(1 + choose_geo(irq_mean, irq_mean * 10));
}
static void irq_main(void *p) {
	interrupt_hook = irq;
	preempt_arm(1 + choose_geo(irq_mean, irq_mean * 10));
	thread_main(p);
	interrupt_hook = NULL;
}
/* T05: at a due preemption a caller jumps out of its call, its thread ends, or
 * (as in the child after fork) every other thread is gone. */
enum { DIE_JUMP, DIE_EXIT, DIE_FORK };
static int die_mode, deaths_left; static uint32_t die_den;
static prog_t *prog_of[MAX_TASKS]; static jmp_buf *out_of[MAX_TASKS]; static int nlaunched;
static void mortal_main(void *p);
static void launch(prog_t *g) {
	int i = task_spawn(mortal_main, g);
	prog_of[i] = g; out_of[i] = NULL; nlaunched = i + 1;
}
static void death(void) {
	int me = task_self();
	if (deaths_left <= 0 || me < 0 || !out_of[me] || !chance(1, die_den)) return;
	deaths_left--;
	nontrivial();
	EV("death", die_mode, me, deaths_left);
	jmp_buf *j = out_of[me]; prog_t *g = prog_of[me];
	switch (die_mode) {
	case DIE_JUMP: STAT("fault.jump_out_of_call"); g_in_call = NULL; longjmp(*j, 1);
	case DIE_EXIT: STAT("fault.thread_gone"); out_of[me] = NULL; if (choose(4)) launch(g); task_kill(me); break;
	default:
		STAT("fault.all_other_threads_gone");
		for (int i = 0, n = nlaunched; i < n; i++) if (i != me && prog_of[i]) { g = prog_of[i]; prog_of[i] = NULL; out_of[i] = NULL; task_kill(i); if (choose(2)) launch(g); }
	}
}
static void mortal_main(void *p) {
	prog_t *g = p;
	int who = task_self();
	jmp_buf here;
	volatile int i = 0;
	if (setjmp(here)) { step_off(); bp_rearm(); }           /* the call is tried again from its beginning */
	for (; i < g->n; i++) {
		out_of[who] = &here;
		run_op(g->ops[i], false, who);
		task_yield("between operations");
	}
	prog_of[who] = NULL; out_of[who] = NULL;
}
static void full_machine(machine_t *m) {
	int l = host_level();
	memset(m, 0, sizeof *m);
	m->on = true; m->max_leaf = 0x16; m->l1_edx = 0x1f8bfbff;
	m->l1_ecx = 1 | (l >= 1 ? 1u << 9 : 0) | (l >= 2 ? 1u << 19 : 0) | (l >= 3 ? 1u << 20 : 0) | (l >= 4 ? (1u << 28) | (1u << 26) : 0);
	m->osxsave = l >= 4; m->xcr0 = l >= 7 ? 0xe7 : 7;
	m->l7_ebx = (l >= 5 ? 1u << 5 : 0) | (l >= 7 ? (1u << 16) | (1u << 31) | (1u << 30) : 0); m->l7_ecx = l >= 7 ? 2 : 0;
}
#ifdef INSTRUMENTED
#define IS_INSTR 1
#else
#define IS_INSTR 0
#endif
void threads_scenario(void) {
	npool = 0; depth = 0;
	stepping = !IS_INSTR && step_supported() && (P != 3 || chance(1, 6));
	monitor_isa = P == 3 && stepping;
	if (stepping) {
		full_machine(&host);
		STAT("runs.single_stepped");
		if (chance(1, 2)) {   /* a lesser machine, so that other codecs are the default */
			static const uint32_t drop[] = { 0, 1u << 31, 1u << 5, 1u << 5 };
			uint32_t k = choose(4);
			if (k) host.l7_ebx &= ~(drop[k] | (1u << 31));
			if (k == 3) host.l1_ecx &= ~(1u << 28);
		}
	}
	bool bps = !stepping && !IS_INSTR && bp_supported();
	if (!stepping) STAT(IS_INSTR ? "runs.instrumented" : bps ? "runs.breakpoints" : "runs.between_calls");
	int nt = P == 2 ? 1 : P == 3 ? 1 + choose(3) : P == 5 ? 1 + choose(4) : 2 + choose(3);
	int flagmode = P == 3 ? 2 : chance(1, 3);
	for (int i = 0; i < nt; i++) { trace_note("thread %d", i); gen_prog(&T[i], stepping || bps ? 2 : 4, flagmode); }
	if (P == 2) for (int i = 0; i < 2; i++) { trace_note("handler level %d", i + 1); gen_prog(&N[i], 3, flagmode); }
	/* alone */
	if (bps) bp_learn(true);
	for (int i = 0; i < nt; i++) alone(&T[i]);
	if (bps) bp_learn(false);
	if (P == 2) for (int i = 0; i < 2; i++) for (int k = 0; k < N[i].n; k++) { sut_reset_on(stepping ? &host : NULL); run_op(N[i].ops[k], true, -1); N[i].cur = 0; }
	isa_allowed = ~0u;
	/* together, in a process where the library has not been used yet (or, sometimes, has) */
	sut_reset_on(stepping ? &host : NULL);
	if (chance(1, 6)) { STAT("runs.warm_start"); uint8_t b[8]; size_t l; if (stepping) { isa_allowed = ~0u; step_on(&host); } base64_encode("abc", 3, (char *)b, &l, 0); if (stepping) step_off(); }
	else STAT("runs.first_use");
	step_budget = 3000000;
	if (P == 2) {
		static const uint16_t means[] = { 3, 20, 60, 200, 600 };
		irq_mean = means[choose(5)]; irq_left = 1 + choose(6); max_depth = 1 + choose(2);
		sched_config(POL_RANDOM, 0, 0);
		task_spawn(irq_main, &T[0]);
	} else {
		static const uint16_t means[] = { 40, 2, 8, 150, 600 };
		static const uint8_t hots[] = { 0, 4, 8 };
		enum pol pl = (enum pol)choose(2);
		uint32_t mq = means[choose(5)], hot = hots[choose(3)];
		sched_config(pl, mq, IS_INSTR ? hot : 0);
		nontrivial();
		if (P == 5) {
			die_mode = choose(3); deaths_left = die_mode == DIE_FORK ? 1 + choose(3) : 1 + choose_log(30); die_den = 1 + choose(4); nlaunched = 0;
			death_hook = death;
			for (int i = 0; i < nt; i++) launch(&T[i]);
		}
		else for (int i = 0; i < nt; i++) task_spawn(thread_main, &T[i]);
	}
	if (bps) bp_start(1 + choose(P == 2 ? 2 : 4));
	tasks_run();
	if (bps) bp_stop();
	interrupt_hook = death_hook = NULL;
	uint64_t f = 0; for (int i = 0; i < nt; i++) for (int k = 0; k < T[i].n; k++) f = f * 37 + T[i].ops[k]->op * 11 + T[i].ops[k]->codec;
	cover(f);
}

/* ---------------------------------------------------------------- T04 */
static machine_t M;
static uint32_t vec_usable;
void cpu_init(void) { pool = malloc(sizeof(op_t) * POOL); if (!step_supported()) sim_error("no single stepping here"); }
static void random_machine(machine_t *m) {
	memset(m, 0, sizeof *m);
	m->on = true;
	m->junk_seed = choose_u32();
	m->amd_style = choose(2);
	switch (choose(4)) { case 0: m->max_leaf = choose(3); break; case 1: m->max_leaf = choose(9); break; default: m->max_leaf = 7 + choose(0x1a); break; }
	uint32_t c = 0, b7 = 0, c7 = 0;
	if (choose(3)) {          /* a plausible processor generation, some features masked */
		static const uint32_t ecx[] = { 0, 1, 1 | 1u << 9, 1 | 1u << 9 | 1u << 19, 1 | 1u << 9 | 1u << 19 | 1u << 20 | 1u << 23, 1 | 1u << 9 | 1u << 19 | 1u << 20 | 1u << 23 | 1u << 28 | 1u << 26 };
		uint32_t g = choose(9);
		c = ecx[g < 5 ? g : 5];
		if (g >= 6) b7 |= 1u << 5 | 1u << 3 | 1u << 8;
		if (g >= 7) b7 |= 1u << 16 | 1u << 17 | 1u << 30 | 1u << 31 | 1u << 28;
		if (g >= 8) c7 |= 1u << 1 | 1u << 6;
		int mask = choose(4);
		while (mask-- > 0) { static const uint8_t bits[] = { 9, 19, 20, 28, 0 }; switch (choose(3)) { case 0: c &= ~(1u << bits[choose(5)]); break; case 1: b7 &= ~(choose(2) ? 1u << 31 : choose(2) ? 1u << 5 : 1u << 16); break; default: c7 &= ~2u; } STAT("cpu.masked_feature"); }
	} else {                  /* every bit on its own */
		c = choose_u32() & ~(1u << 27); b7 = choose_u32(); c7 = choose_u32();
		STAT("cpu.arbitrary_feature_bits");
	}
	int l = host_level();     /* never more than this host can execute */
	if (l < 7) { b7 &= ~(1u << 31); c7 &= ~2u; }
	if (l < 5) b7 &= ~(1u << 5);
	if (l < 4) c &= ~(1u << 28);
	m->l1_ecx = c; m->l1_edx = 0x0f8bfbff & (choose(4) ? ~0u : ~(0u)); m->l7_ebx = b7; m->l7_ecx = c7; m->l7_edx = choose_u32();
	m->osxsave = choose(4) != 1;
	if (choose(2)) m->xcr0 = 1; else m->xcr0 = 1 | (uint64_t)choose(256);
	static const uint16_t xs[] = { 7, 0xe7, 3, 1, 0xe3, 0x67, 0xa7, 0xc7, 0x27, 5, 0x2e7, 0x207 };
	if (choose(4)) m->xcr0 = xs[choose(12)];
	if (!m->osxsave) m->xcr0 = 0xe7;        /* must not matter */
	/* which compiled-in vector codecs this machine can run, by its own reports */
	vec_usable = 0;
	bool x = m->osxsave && m->max_leaf >= 1;
	for (int i = 1; i < ncodecs; i++) {
		bool u = false;
		switch (codecs[i].flag) {
		case BASE64_FORCE_SSSE3: u = m->max_leaf >= 1 && (c >> 9 & 1); break;
		case BASE64_FORCE_SSE41: u = m->max_leaf >= 1 && (c >> 19 & 1); break;
		case BASE64_FORCE_SSE42: u = m->max_leaf >= 1 && (c >> 20 & 1); break;
		case BASE64_FORCE_AVX: u = x && (m->xcr0 & 6) == 6 && (c >> 28 & 1); break;
		case BASE64_FORCE_AVX2: u = x && m->max_leaf >= 7 && (m->xcr0 & 6) == 6 && (c >> 28 & 1) && (b7 >> 5 & 1); break;
		case BASE64_FORCE_AVX512: u = x && m->max_leaf >= 7 && (m->xcr0 & 0xe6) == 0xe6 && (c >> 28 & 1) && (b7 >> 5 & 1) && (b7 >> 16 & 1) && (b7 >> 30 & 1) && (b7 >> 31 & 1) && (c7 >> 1 & 1); break;
		}
		if (u && codecs[i].available) vec_usable |= 1u << i;
	}
	trace_note("machine: max_leaf=%u style=%s leaf1.ecx=%08x leaf7.ebx=%08x leaf7.ecx=%08x osxsave=%d xcr0=%llx", m->max_leaf, m->amd_style ? "AMD" : "Intel", c, b7, c7, m->osxsave, (unsigned long long)m->xcr0);
	EV("machine", ((uint64_t)m->max_leaf << 32) | c, ((uint64_t)b7 << 32) | c7, m->xcr0 | (uint64_t)m->osxsave << 32);
	cover(((uint64_t)vec_usable << 8) | (m->max_leaf >= 7 ? 2 : m->max_leaf >= 1) | (m->osxsave << 4) | ((m->xcr0 & 0xe6) << 24));
}
static uint32_t sigs[2]; static bool have_sig[2];
static void cpu_op(int k) {
	static uint8_t in[4000], out[4000], want[4000], data[4000];
	int op = choose(4); bool enc = op == 0 || op == 2;
	uint32_t n = k == 0 && choose(2) ? choose(8) : choose(3) ? 400 + choose(200) : choose(600), len = n;
	size_t o = 0, t = 0; int ret = 1;
	fill_data(data, n, choose(DATA_KINDS), choose_u32());
	if (enc) { memcpy(in, data, n); } else len = (uint32_t)model_encode(data, n, in);
	isa_seen = 0; isa_allowed = ~0u;
	memset(out, 0, sizeof out);
	g_in_call = enc ? "encode with default flags" : "decode with default flags";
	step_on(&M);
	if (op == 0) base64_encode((char *)in, len, (char *)out, &o, 0);
	else if (op == 1) ret = base64_decode((char *)in, len, (char *)out, &o, 0);
	else {
		struct base64_state st;
		if (enc) { base64_stream_encode_init(&st, 0); base64_stream_encode(&st, (char *)in, len, (char *)out, &o); base64_stream_encode_final(&st, (char *)out + o, &t); o += t; }
		else { base64_stream_decode_init(&st, 0); ret = base64_stream_decode(&st, (char *)in, len, (char *)out, &o); }
	}
	step_off();
	g_in_call = NULL;
	uint32_t sig = isa_seen & (ISA_SSSE3 | ISA_SSE41 | ISA_SSE42 | ISA_AVX | ISA_AVX2 | ISA_AVX512F | ISA_V256 | ISA_V512);
	EV("op", op << 16 | n, o, sig);
	size_t wl = enc ? model_encode(data, n, want) : n;
	if (!enc) memcpy(want, data, n);
	if (ret != 1 || o != wl || memcmp(out, want, wl)) violation("wrong-result", "%s of %u bytes is wrong on this machine", enc ? "encoding" : "decoding", n);
	if (n >= 400) {
		bool vec = isa_seen & ISA_VEC;
		if (vec_usable && !vec) violation("no-vector-codec", "%s of %u bytes ran without vector instructions although this machine can use a compiled-in vector codec (mask %x)", enc ? "encoding" : "decoding", n, vec_usable);
		STATN("probe.vector_codec_ran", vec); STATN("probe.plain_codec_ran", !vec);
		if (isa_seen & ISA_AVX512F) STAT("probe.avx512_ran"); else if (isa_seen & ISA_AVX2) STAT("probe.avx2_ran"); else if (isa_seen & ISA_AVX) STAT("probe.avx_ran"); else if (isa_seen & ISA_SSSE3) STAT("probe.sse_ran");
		int w = !enc;
		if (have_sig[w] && (sigs[w] & (ISA_SSSE3 | ISA_AVX | ISA_AVX2 | ISA_AVX512F)) != (sig & (ISA_SSSE3 | ISA_AVX | ISA_AVX2 | ISA_AVX512F)))
			violation("codec-changed", "a later call uses other instruction sets (%x) than an earlier one (%x)", sig, sigs[w]);
		have_sig[w] = true; sigs[w] = sig;
	}
}
void cpu_scenario(void) {
	machine_strict = true;
	random_machine(&M);
	sut_reset_on(&M);
	have_sig[0] = have_sig[1] = false;
	nontrivial();
	int n = 2 + choose(4);
	uint64_t s0 = sut_steps;
	for (int i = 0; i < n; i++) cpu_op(i);
	sim_steps(sut_steps - s0);
	sched_note(M.l1_ecx ^ mix64(M.l7_ebx) ^ M.xcr0);
}
