/* P01..P03 (and T03 in these builds): whole-buffer calls of a parallel build on the simulated OpenMP
 * runtime, against the serial model. */
#include "sim.h"
#include "sut.h"
#include "model.h"
#include "shim.h"
#include "gomp.h"
#include "scen.h"
#include <sys/mman.h>
#ifndef INSTRUMENTED
#define INSTRUMENTED 0
#endif
#define MAXB 260000
#define NC 3
#define NAPP 6
typedef struct {
	int codec, no; bool enc, avail, ok;
	uint32_t len; size_t want, cap;
	uint8_t *in, *exp, *out;
	arena_t *ain, *aout;
	int ret; size_t outlen;
} call_t;
static call_t C[NAPP];
static int P, team; static bool huge, stepping, t01;
static uint8_t *raw;
static void huge_init(void);
static void t03_init(void);
static void t03_scenario(void);
static void p04_scenario(void);
static void huge_scenario(void);
void omp_init(void) {
	P = g_prop[0] == 'T' ? 0 : g_prop[2] - '0'; t01 = !strcmp(g_prop, "T01");
	{ size_t n = strlen(g_variant); huge = n && g_variant[n - 1] == 'h'; }
	if (huge) { huge_init(); return; }
	for (int i = 0; i < (P == 4 ? NAPP : NC); i++) {
		C[i].ain = arena_new(i ? "another caller's input" : "input", MAXB * 4 / 3 + 70000, true);
		C[i].aout = arena_new(i ? "another caller's output" : "output", MAXB * 4 / 3 + 70000, false);
		C[i].in = malloc(MAXB * 4 / 3 + 1000); C[i].exp = malloc(MAXB * 4 / 3 + 1000);
	}
	raw = malloc(MAXB + 1000);
	if (!P) t03_init();
}
static uint32_t pick_size(bool enc, int n) {
	uint32_t s;
	/* in bytes of input to the call */
	switch (choose(13) / 2) {
	case 6: { uint32_t b = 1u << choose_range(14, INSTRUMENTED || stepping ? 16 : 18); static const uint8_t q[] = { 4, 3, 6, 5 }; s = b / 4 * q[choose(4)] + choose(9); s -= 4; } break;    /* round binary sizes */
	case 0: s = 19990 + choose(24); break;                                       /* around the threshold */
	case 1: { uint32_t u = (enc ? 3u : 4u) * (uint32_t)n; s = (20000 / u + 1 + choose(4)) * u + choose(9); s = s > 4 ? s - 4 : s; } break;
	case 2: s = 20000 + choose_log(INSTRUMENTED || stepping ? 30000 : 200000); break;
	case 3: { uint32_t u = (enc ? 48u : 64u) * (uint32_t)n; s = (20000 / u + 1 + choose(3)) * u + choose(7); s = s > 3 ? s - 3 : s; } break;
	case 4: s = 20000 + choose(200); break;
	default: s = choose_log(26000); break;
	}
	if (s > MAXB) s = MAXB;
	return s;
}
static void damage_text(call_t *c, int n) {
	size_t part = c->len > 4 ? (c->len - 1) / (4u * n) * 4 : 0, part2 = c->len / (4u * n) * 4;
	int times = chance(1, 4) ? 2 : 1;
	while (times-- > 0 && c->len) {
		size_t p, q;
		/* where: around the parts' edges, the end, anywhere */
		switch (choose(5)) {
		case 0: p = (size_t)choose(n + 1) * part + choose(9); p = p > 4 ? p - 4 : 0; break;
		case 1: p = (size_t)choose(n + 1) * part2 + choose(9); p = p > 4 ? p - 4 : 0; break;
		case 2: { uint32_t k = choose_log(40 + 8 * n); p = k < c->len ? c->len - 1 - k : 0; } break;
		default: p = choose(c->len); break;
		}
		if (p >= c->len) p = c->len - 1;
		static const uint8_t bad[] = { '=', '*', 0, 0xff, '\n', ' ', '-', '_', 0x80, '@', '[', '`', '{', ',', '.', ':' };
		int kind = choose(8);
		STAT("fault.damaged_text");
		EV("damage", kind, p, c->len);
		switch (kind) {
		case 0: c->in[p] = choose(3) ? bad[choose(sizeof bad)] : (uint8_t)choose(256); break;
		case 1: c->in[p] = '='; break;
		case 2: c->len = (uint32_t)p; break;                                      /* truncated */
		case 3: p |= 3; if (p < c->len) { c->in[p] = '='; if (choose(2)) c->in[p - 1] = '='; STAT("fault.padding_in_the_middle"); } break;
		case 4: q = 1 + choose(5); if (p + q < c->len) { memmove(c->in + p, c->in + p + q, c->len - p - q); c->len -= (uint32_t)q; } break;      /* lost */
		case 5: q = 1 + choose(9); for (size_t k = 0; k < q; k++) c->in[c->len++] = choose(2) ? '=' : (uint8_t)"QA+/"[choose(4)]; break;   /* trailing data */
		case 6: c->in[p] ^= (uint8_t)(1u << choose(8)); break;
		case 7: q = 1 + choose(4); if (q > c->len - p) q = c->len - p; memmove(c->in + p + q, c->in + p, c->len - p); c->len += (uint32_t)q; break;    /* duplicated */
		}
	}
}
static void gen(call_t *c, int no) {
	c->no = no;
	c->enc = P == 1 ? true : P == 2 ? false : false;
	if (no == 1) c->enc = choose(2);
	uint32_t s = pick_size(c->enc, team), kind, seed, n;
	c->codec = chance(1, 2) ? 0 : P == 3 && no == 0 && chance(1, 8) ? (int)choose(ncodecs) : pick_codec();
	if (codecs[c->codec].present_only) c->codec = 0;
	c->avail = codecs[c->codec].available;
	kind = choose(DATA_KINDS); seed = choose_u32();
	if (c->enc) {
		n = s; fill_data(c->in, n, kind, seed); c->len = n;
		c->want = model_encode(c->in, n, c->exp); c->cap = (size_t)(n + 2) / 3 * 4; c->ok = true;
	} else {
		n = s / 4 * 3; if (s & 3 && n) n -= choose(3); if (n > MAXB - 100) n = MAXB - 100;
		fill_data(raw, n, kind, seed);
		c->len = (uint32_t)model_encode(raw, n, c->in);
		if (P == 3 && no == 0 && chance(7, 8)) damage_text(c, team);
		dmodel_t m; dmodel_init(&m);
		c->ok = dmodel_feed(&m, c->in, c->len, c->exp) && dmodel_complete(&m);
		c->want = m.hi; c->cap = (size_t)(c->len + 3) / 4 * 3;
	}
	trace_note("call %d: %s codec=%s len=%u %s", no, c->enc ? "encode" : "decode", codecs[c->codec].name, c->len, c->ok ? "" : "(not well-formed)");
	EV("call", c->enc, c->codec, c->len);
	uint8_t *p = arena_place(c->ain, c->len, choose(2) ? PL_RIGHT : PL_LEFT, choose(4), 0x1117 + no);
	memcpy(p, c->in, c->len);
	c->out = arena_place(c->aout, c->cap, choose(2) ? PL_RIGHT : PL_LEFT, choose(4), 0x0777 + no);
	memset(c->out, 0xC3, c->cap);
}
static void caller(void *p) {
	call_t *c = p;
	char *src = (char *)arena_ro(c->ain);
	c->outlen = (size_t)0x5EAD5EAD5EAD5EADull; c->ret = 1;
	g_in_call = c->enc ? "base64_encode" : "base64_decode";
	gomp_sim_enter();
	if (c->enc) base64_encode(src, c->len, (char *)c->out, &c->outlen, codecs[c->codec].flag);
	else c->ret = base64_decode(src, c->len, (char *)c->out, &c->outlen, codecs[c->codec].flag);
	gomp_sim_leave();
	g_in_call = NULL;
	EV("returned", c->no, c->ret, c->outlen);
}
static void check(call_t *c) {
	const char *w = c->enc ? "base64_encode" : "base64_decode";
	if (P == 3 && c->no == 0) {
		if (c->outlen > c->cap) violation("length", "%s of %u characters reported length %zu, more than the documented %zu (or did not set it)", w, c->len, c->outlen, c->cap);
		if (!c->avail) { STAT("probe.unavailable_codec"); if (c->ret != -1) violation("verdict", "%s with %s, which is not in this build, returned %d", w, codecs[c->codec].name, c->ret); return; }
		STATN("probe.rejected", !c->ok); STATN("probe.accepted", c->ok);
		if (c->ok && c->ret != 1) violation("verdict", "%s rejected (%d) well-formed text of %u characters", w, c->ret, c->len);
		if (!c->ok && c->ret != 0) violation("verdict", "%s returned %d for text of %u characters that is not well-formed", w, c->ret, c->len);
		if (c->ok && (c->outlen != c->want || memcmp(c->out, c->exp, c->want))) violation("accepted-wrong", "%s accepted text of %u characters and delivered other bytes than it denotes", w, c->len);
		arena_check(c->aout, w);
		return;
	}
	if (!c->avail) return;
	if (c->no) return;       /* the second caller is there to disturb; its own results are for another run */
	if (c->ret != 1) violation("verdict", "%s of %u %s returned %d", w, c->len, c->enc ? "bytes" : "characters of valid text", c->ret);
	if (c->outlen != c->want) violation("length", "%s of %u reported length %zu, not %zu", w, c->len, c->outlen, c->want);
	for (size_t i = 0; i < c->want; i++) if (c->out[i] != c->exp[i])
		violation("bytes", "%s of %u: output byte %zu of %zu is %02x, not %02x (team of %d)", w, c->len, i, c->want, c->out[i], c->exp[i], team);
	arena_check(c->aout, w);
	arena_check(c->ain, w);
}
void omp_scenario(void) {
	if (huge) { huge_scenario(); return; }
	if (!P) { t03_scenario(); return; }
	if (P == 4) { p04_scenario(); return; }
	static const uint16_t mx[] = { 4, 2, 3, 8, 16, 5, 7, 1, 64, 12, 31, 200, 32, 24, 48, 96, 128, 256, 300, 600 };
	int max = mx[choose_w((const uint8_t[]){ 12, 8, 8, 8, 6, 6, 6, 2, 2, 4, 2, 1, 2, 1, 1, 1, 1, 2, 1, 1 }, 20)];
	team = chance(1, 3) ? 1 + (int)choose(max) : max;
	stepping = !INSTRUMENTED && step_supported() && chance(1, 40);
	int calls = chance(1, 8) && max <= 300 ? 2 : 1;
	trace_note("threads: %d requested, %d granted", max, team);
	for (int i = 0; i < calls; i++) gen(&C[i], i);
	if (stepping && (C[0].len > 24000 || C[0].codec == 1 || host_level() < 1)) stepping = false;
	if (stepping) STAT("runs.single_stepped"); else STAT(INSTRUMENTED ? "runs.instrumented" : "runs.sync_points_only");
	gomp_sim_config(max, team);
	gomp_sim_step(stepping);
	if (chance(1, 4)) {         /* the process has used the library before, perhaps with another codec forced */
		uint8_t b[16]; size_t l;
		access_off++;
		base64_encode("abcdef", 6, (char *)b, &l, codecs[pick_codec()].flag);
		access_off--;
	}
	static const uint16_t means[] = { 1500, 8, 60, 300, 6000 };
	enum pol pl = (enum pol)choose(2);
	uint32_t mq = means[choose(5)];
	if (calls > 1 || team > 32) mq = mq < 300 ? 300 : mq;
	if (stepping && mq < 60) mq = 60;
	sched_config(pl, mq, INSTRUMENTED ? (uint32_t)"\0\4\10"[choose(3)] : 0);
	step_budget = 60000000;
	if (team > 1 && C[0].len >= 20000) nontrivial();
	for (int i = 0; i < calls; i++) task_spawn(caller, &C[i]);
	tasks_run();
	for (int i = 0; i < calls; i++) check(&C[i]);
	if (gomp_sim_regions()) STAT("probe.parallel_path"); else STAT("probe.serial_path");
	cover((uint64_t)team << 32 | (C[0].len % (12u * team)) << 4 | (unsigned)C[0].codec);
}

/* ---- T03: forced codecs, whole-buffer and streaming calls of one or two callers */
#define SIG (ISA_SSSE3 | ISA_AVX | ISA_AVX2 | ISA_AVX512F)
static uint32_t def_sig[2];
static void t03_stream(int codec, bool enc, bool record) {
	static uint8_t in[4][1000], out[4][1400], want[1400];
	struct base64_state st; size_t o = 0x5EAD5EAD, t = 0; int ret = 1, k = task_self() & 3;
	uint32_t n = record ? 600 : 1 + choose(700), len = n;
	const codec_t *cd = &codecs[codec];
	bool step = record || stepping;
	step = step && step_supported();
	fill_random(in[k], n, record ? 5 : choose_u32());
	if (!enc) { memcpy(want, in[k], n); len = (uint32_t)model_encode(want, n, out[k]); memcpy(in[k], out[k], len > 1000 ? 1000 : len); if (len > 1000) { len = 1000; n = 750; } }
	g_in_call = enc ? "stream encode" : "stream decode";
	isa_seen = 0; isa_allowed = cd->flag && cd->available ? cd->isa : ~0u;
	if (step) step_on(NULL);
	if (enc) base64_stream_encode_init(&st, cd->flag); else base64_stream_decode_init(&st, cd->flag);
	if (step) step_off();
	if (!record) task_yield("between calls");
	if (step) step_on(NULL);
	if (enc) base64_stream_encode(&st, (char *)in[k], len, (char *)out[k], &o); else ret = base64_stream_decode(&st, (char *)in[k], len, (char *)out[k], &o);
	if (enc && o <= 1390) base64_stream_encode_final(&st, (char *)out[k] + o, &t);
	if (step) step_off();
	isa_allowed = ~0u;
	const char *w = g_in_call; g_in_call = NULL;
	if (record) { def_sig[enc] = isa_seen & SIG; return; }
	EV("stream", enc << 8 | codec, n, o + t);
	if (!cd->available) {
		STAT("probe.unavailable_codec");
		if (o + t || (!enc && ret != -1)) violation("unavailable", "%s with %s, which is not in this build, returned %d and %zu bytes", w, cd->name, ret, o + t);
		return;
	}
	size_t wl = enc ? model_encode(in[k], n, want) : n; o += t;
	if (!enc) { dmodel_t m; dmodel_init(&m); dmodel_feed(&m, in[k], len, want); }
	if (ret != 1 || o != wl || memcmp(out[k], want, wl)) violation(t01 ? "differs" : "codec-leak", "%s (%s) of %u bytes among other users of the library is wrong", w, cd->name, n);
	if (step && !t01 && !cd->flag && n >= 400 && (isa_seen & SIG) != def_sig[enc]) violation("codec-changed", "%s with default flags executed instruction sets %x, before any forcing %x", w, isa_seen & SIG, def_sig[enc]);
}
static void t03_init(void) {
	if (!step_supported()) return;
	t03_stream(0, true, true); t03_stream(0, false, true);
}
static void t03_call(call_t *c) {
	c->enc = choose(2);
	c->codec = choose(3) && !(t01 && choose(4)) ? (int)choose(ncodecs) : 0;
	if (codecs[c->codec].present_only) c->codec = 0;
	c->avail = codecs[c->codec].available;
	uint32_t s;
	switch (choose(4)) {
	case 0: s = choose_log(2000); break;
	case 1: s = 19990 + choose(24); break;
	default: s = 20000 + choose(stepping ? 3000 : INSTRUMENTED ? 20000 : 60000); break;
	}
	uint32_t n = c->enc ? s : s / 4 * 3;
	fill_data(raw, n, choose(DATA_KINDS), choose_u32());
	if (c->enc) { memcpy(c->in, raw, n); c->len = n; c->want = model_encode(c->in, n, c->exp); c->cap = (size_t)(n + 2) / 3 * 4; c->ok = true; }
	else {
		c->len = (uint32_t)model_encode(raw, n, c->in);
		if (chance(1, 6)) damage_text(c, team);
		dmodel_t m; dmodel_init(&m);
		c->ok = dmodel_feed(&m, c->in, c->len, c->exp) && dmodel_complete(&m);
		c->want = m.hi; c->cap = (size_t)(c->len + 3) / 4 * 3;
	}
	trace_note("caller %d: %s codec=%s len=%u", c->no, c->enc ? "encode" : "decode", codecs[c->codec].name, c->len);
	EV("call", c->no << 1 | c->enc, c->codec, c->len);
	memcpy(arena_place(c->ain, c->len, PL_RIGHT, 0, 0x1117 + c->no), c->in, c->len);
	c->out = arena_place(c->aout, c->cap, PL_RIGHT, 0, 0x0777 + c->no);
	memset(c->out, 0xC3, c->cap);
	const codec_t *cd = &codecs[c->codec];
	isa_seen = 0; isa_allowed = cd->flag && c->avail ? cd->isa : ~0u;
	caller(c);
	isa_allowed = ~0u;
	const char *w = c->enc ? "base64_encode" : "base64_decode";
	if (!c->avail) {
		STAT("probe.unavailable_codec");
		if (c->outlen) violation("unavailable", "%s of %u bytes with %s, which is not in this build, reported length %zu", w, c->len, cd->name, c->outlen);
		if (!c->enc && c->ret != -1) violation("unavailable", "%s of %u characters with %s, which is not in this build, returned %d, not -1", w, c->len, cd->name, c->ret);
		return;
	}
	if (c->ret != c->ok) violation(t01 ? "differs" : "codec-leak", "%s (%s) of %u returned %d, not %d", w, cd->name, c->len, c->ret, c->ok);
	if (c->ok && (c->outlen != c->want || memcmp(c->out, c->exp, c->want))) violation(t01 ? "differs" : "codec-leak", "%s (%s) of %u delivered the wrong bytes (length %zu, not %zu)", w, cd->name, c->len, c->outlen, c->want);
	if (!stepping || t01 || c->len < 400 || !c->ok) return;
	STAT("isa.monitored_operations");
	uint32_t sig = isa_seen & SIG;
	uint32_t need = cd->flag == BASE64_FORCE_AVX512 ? (c->enc ? ISA_AVX512F : ISA_AVX | ISA_AVX512F) : cd->flag == BASE64_FORCE_AVX2 ? ISA_AVX2 : cd->flag == BASE64_FORCE_AVX ? ISA_AVX : cd->flag == BASE64_FORCE_PLAIN || !cd->flag ? 0 : ISA_SSSE3;
	if (need && !(sig & need)) violation("codec-not-used", "%s of %u forced to %s executed none of its instructions", w, c->len, cd->name);
	if (!cd->flag && sig != def_sig[c->enc]) violation("codec-changed", "%s of %u with default flags executed instruction sets %x, before any forcing %x", w, c->len, sig, def_sig[c->enc]);
}
static int t03_ops[NAPP];
static void t03_caller(void *p) {
	call_t *c = p;
	for (int i = 0; i < t03_ops[c->no]; i++) {
		int k = choose(3) || t01 ? 0 : (int)choose(ncodecs);
		if (chance(1, t01 ? 6 : 3)) { if (codecs[k].present_only) k = 0; t03_stream(k, choose(2), false); }
		else t03_call(c);
		task_yield("between operations");
	}
}
static void t03_scenario(void) {
	static const uint8_t mx[] = { 4, 2, 3, 8, 5, 1, 16 };
	int max = chance(1, 50) ? 70 : mx[choose(7)];
	team = chance(1, 4) ? 1 + (int)choose(max) : max;
	stepping = !INSTRUMENTED && step_supported() && chance(1, 12);
	if (stepping) STAT("runs.single_stepped"); else STAT(INSTRUMENTED ? "runs.instrumented" : "runs.sync_points_only");
	sut_reset();
	if (chance(1, 3)) { STAT("runs.warm_start"); uint8_t b[16]; size_t l; base64_encode("abcdef", 6, (char *)b, &l, codecs[pick_codec()].flag); }
	gomp_sim_config(max, team);
	gomp_sim_step(stepping);
	int calls = t01 ? 2 + (int)choose(2) : chance(1, 3) ? 2 : 1;
	static const uint16_t means[] = { 1500, 300, 6000 };
	sched_config((enum pol)choose(2), means[choose(3)], INSTRUMENTED ? (uint32_t)"\0\4\10"[choose(3)] : 0);
	step_budget = 60000000;
	if (team > 1 || calls > 1) nontrivial();
	for (int i = 0; i < calls; i++) { C[i].no = i; t03_ops[i] = 1 + choose(stepping ? 2 : 4); task_spawn(t03_caller, &C[i]); }
	tasks_run();
	if (gomp_sim_regions()) STAT("probe.parallel_path"); else STAT("probe.serial_path");
	cover((uint64_t)team << 32 | C[0].codec << 8 | calls << 4 | (C[0].len >= 20000) << 1 | C[0].enc);
}

/* ---- P04: applications with teams, settings and locks of their own */
typedef struct { uint8_t what, arg; } step_t;
enum { A_CALL, A_SINGLE, A_CRITICAL, A_NAMED, A_LOOP, A_SECTIONS, A_BARRIER, A_FIRST, A_SET, A_REGION, A_KINDS };
typedef struct { int no, nsteps, first, width; step_t steps[10]; int done[10][8]; int inner; } app_t;
static app_t A[2];
static void *app_lock;
static const char *const app_what[] = { "a call by every thread", "a call in a single construct", "a call in a critical section", "a call in a named critical section",
	"calls from a shared loop", "calls from sections", "a barrier", "a call by the first thread", "a call after changing settings", "a parallel region" };
static void same_place(const gomp_where_t *a, const char *what) {
	gomp_where_t b = gomp_sim_where();
	if (a->team != b.team || a->id != b.id || a->n != b.n) violation("caller-team", "after %s the caller is thread %d of %d, before it was %d of %d", what, b.id, b.n, a->id, a->n);
	if (a->single != b.single || a->ws != b.ws || a->loop != b.loop) violation("caller-team", "%s took part in the constructs of the caller's team", what);
	if (memcmp(&a->icv, &b.icv, sizeof b.icv)) violation("settings", "%s changed the caller's settings: threads %d to %d, dynamic %d to %d, levels %d to %d, schedule %d,%d to %d,%d", what,
		a->icv.nthreads, b.icv.nthreads, a->icv.dyn, b.icv.dyn, a->icv.levels, b.icv.levels, a->icv.sched, a->icv.chunk, b.icv.sched, b.icv.chunk);
}
static void app_call(int no, const char *where) {
	call_t *c = &C[no];
	c->no = no; c->enc = choose(2);
	c->codec = chance(1, 2) ? 0 : chance(1, 12) ? (int)choose(ncodecs) : pick_codec();
	if (codecs[c->codec].present_only) c->codec = 0;
	c->avail = codecs[c->codec].available;
	uint32_t s = choose(4) ? 19990 + choose(choose(4) ? 300 : INSTRUMENTED ? 10000 : 40000) : choose_log(20000), n = c->enc ? s : s / 4 * 3 - choose(3);
	if (n > MAXB) n = 0;
	fill_data(raw, n, choose(DATA_KINDS), choose_u32());
	if (c->enc) { memcpy(c->in, raw, n); c->len = n; c->want = model_encode(c->in, n, c->exp); c->cap = (size_t)(n + 2) / 3 * 4; c->ok = true; }
	else {
		c->len = (uint32_t)model_encode(raw, n, c->in);
		if (chance(1, 4)) damage_text(c, team);
		dmodel_t m; dmodel_init(&m);
		c->ok = dmodel_feed(&m, c->in, c->len, c->exp) && dmodel_complete(&m);
		c->want = m.hi; c->cap = (size_t)(c->len + 3) / 4 * 3;
	}
	trace_note("thread %d: %s codec=%s len=%u%s", no, c->enc ? "encode" : "decode", codecs[c->codec].name, c->len, c->ok ? "" : " (not well-formed)");
	EV("call", no << 1 | c->enc, c->codec, c->len);
	memcpy(arena_place(c->ain, c->len, PL_RIGHT, 0, 0x1117 + no), c->in, c->len);
	c->out = arena_place(c->aout, c->cap, PL_RIGHT, 0, 0x0777 + no);
	memset(c->out, 0xC3, c->cap);
	gomp_where_t w = gomp_sim_where();
	caller(c);
	char what[120]; snprintf(what, sizeof what, "%s with %s (%s)", c->enc ? "base64_encode" : "base64_decode", codecs[c->codec].name, where);
	same_place(&w, what);
	if (!c->avail) { STAT("probe.unavailable_codec"); if (c->outlen || (!c->enc && c->ret != -1)) violation("verdict", "%s, which is not in this build, returned %d and length %zu", what, c->ret, c->outlen); return; }
	if (c->ret != c->ok) violation("verdict", "%s of %u returned %d, not %d", what, c->len, c->ret, c->ok);
	if (c->ok && (c->outlen != c->want || memcmp(c->out, c->exp, c->want))) violation("bytes", "%s of %u delivered the wrong bytes (length %zu, not %zu)", what, c->len, c->outlen, c->want);
	arena_check(c->aout, what);
	arena_check(c->ain, what);
}
static void app_once(app_t *a, int k, int i) { if (a->done[k][i]++) violation("caller-team", "part %d of the application's construct ran twice", i); }
static void app_steps(app_t *a, int n) {
	int id = omp_get_thread_num(), me = a->first + id;
	for (int k = 0; k < a->nsteps; k++) {
		step_t *s = &a->steps[k]; long b, e;
		if (omp_get_thread_num() != id || omp_get_num_threads() != n) violation("caller-team", "thread %d of %d has become %d of %d", id, n, omp_get_thread_num(), omp_get_num_threads());
		switch (s->what) {
		case A_CALL: app_call(me, app_what[A_CALL]); break;
		case A_SINGLE: if (GOMP_single_start()) { app_once(a, k, 0); app_call(me, app_what[A_SINGLE]); } GOMP_barrier(); break;
		case A_CRITICAL: GOMP_critical_start(); app_call(me, app_what[A_CRITICAL]); GOMP_critical_end(); break;
		case A_NAMED: GOMP_critical_name_start(&app_lock); app_call(me, app_what[A_NAMED]); GOMP_critical_name_end(&app_lock); break;
		case A_LOOP:
			if (GOMP_loop_dynamic_start(0, 1 + s->arg, 1, 1, &b, &e)) do for (; b < e; b++) { app_once(a, k, (int)b); app_call(me, app_what[A_LOOP]); } while (GOMP_loop_dynamic_next(&b, &e));
			GOMP_loop_end();
			break;
		case A_SECTIONS: for (unsigned x = GOMP_sections_start(1u + s->arg); x; x = GOMP_sections_next()) { app_once(a, k, (int)x - 1); app_call(me, app_what[A_SECTIONS]); } GOMP_sections_end(); break;
		case A_BARRIER: GOMP_barrier(); break;
		case A_FIRST: if (!id) app_call(me, app_what[A_FIRST]); break;
		case A_SET: omp_set_num_threads(1 + s->arg); app_call(me, app_what[A_SET]); break;
		}
		a->done[k][7]++;
	}

	a->inner++;
}
static void app_region(void *p) { app_t *a = p; app_steps(a, omp_get_num_threads()); }
static void app_main(void *p) {
	app_t *a = p;
	int regions = 1 + (int)choose(2);
	if (chance(1, 3)) app_call(a->first, "before any parallel region");
	for (int i = 0; i < regions; i++) {
		memset(a->done, 0, sizeof a->done); a->inner = 0;
		a->nsteps = 1 + (int)choose(4);
		for (int k = 0; k < a->nsteps; k++) { a->steps[k].what = (uint8_t)choose(A_REGION); a->steps[k].arg = (uint8_t)choose(4); }
		gomp_where_t w = gomp_sim_where();
		int n = 0;
		GOMP_parallel(app_region, a, (unsigned)(1 + choose(a->width)), 0);
		g_in_call = NULL;
		same_place(&w, "a parallel region of the application");
		n = a->inner;
		for (int k = 0; k < a->nsteps; k++) {
			step_t *s = &a->steps[k]; int parts = s->what == A_SINGLE ? 1 : s->what == A_LOOP || s->what == A_SECTIONS ? 1 + s->arg : 0;
			for (int j = 0; j < parts; j++) if (a->done[k][j] != 1) violation("caller-team", "part %d of the application's construct was never run", j);
			if (a->done[k][7] != n) violation("caller-team", "a construct of the application was passed by %d of %d threads", a->done[k][7], n);
		}
		if (n > 1) STAT("probe.calls_from_a_team");
		if (chance(1, 2)) { omp_set_num_threads(1 + choose(6)); omp_set_dynamic(choose(2)); omp_set_max_active_levels(1 + choose(3)); omp_set_schedule(1 + choose(4), choose(5)); STAT("sched.settings_changed"); }
		if (chance(1, 2)) app_call(a->first, "after a parallel region");
	}
}
static void p04_scenario(void) {
	gomp_icv_t v = { 1 + (int)choose(6), (int)choose(2), chance(1, 2) ? 1 : 2 + (int)choose(2), 1 + (int)choose(4), (int)choose(3), chance(1, 4) ? 1 + (int)choose(8) : 1024, 1 + (int)choose(8) };
	team = v.nthreads; stepping = false;
	int grant = chance(1, 3) ? 1 + (int)choose(4) : 8, roots = chance(1, 3) ? 2 : 1;
	trace_note("settings: %d threads, dynamic %d, levels %d, limit %d; %d granted", v.nthreads, v.dyn, v.levels, v.limit, grant);
	sut_reset();
	app_lock = NULL;
	gomp_sim_settings(v, grant);
	gomp_sim_step(false);
	static const uint16_t means[] = { 1500, 300, 6000, 60 };
	sched_config((enum pol)choose(2), means[choose(4)], INSTRUMENTED ? (uint32_t)"\0\4\10"[choose(3)] : 0);
	step_budget = 100000000;
	nontrivial();
	STAT(INSTRUMENTED ? "runs.instrumented" : "runs.sync_points_only");
	for (int i = 0; i < roots; i++) { memset(&A[i], 0, sizeof A[i]); A[i].no = i; A[i].first = i * NAPP / roots; A[i].width = NAPP / roots; task_spawn(app_main, &A[i]); }
	tasks_run();
	if (gomp_sim_regions()) STAT("probe.parallel_path"); else STAT("probe.serial_path");
	cover((uint64_t)v.nthreads << 32 | v.levels << 24 | grant << 16 | roots << 8 | A[0].steps[0].what << 4 | A[0].steps[1].what);
}

/* ---- 32-bit address arithmetic: and 64-bit: inputs beyond 1 and 4 GiB, on memory that repeats */
#define PERIOD_RAW (3u * 85 * 4096)
#define PERIOD_ENC (4u * 85 * 4096)
static uint8_t *h_raw, *h_enc, *h_out;
#if UINTPTR_MAX > 0xffffffffu
#define H_RAW ((size_t)4400 << 20)
#define H_ENC ((size_t)5900 << 20)
#define H_OUT ((P == 1 ? H_RAW / 3 * 4 : H_ENC / 4 * 3) + ((size_t)8 << 20))
#define BITS 64
#else
#define H_RAW ((size_t)1160 << 20)
#define H_ENC ((size_t)1500 << 20)
#define H_OUT ((size_t)1560 << 20)
#define BITS 32
#endif
static uint8_t *repeat(int fd, size_t period, size_t total, size_t *got) {
	uint8_t *b = mmap(NULL, total + period, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (b == MAP_FAILED) return NULL;
	*got = 0;
	for (size_t o = 0; o < total; o += period) { if (mmap(b + o, period, PROT_READ, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) return NULL; *got = o + period; }
	return b;
}
static size_t h_len; static uint8_t *pat_raw, *pat_enc;
static void huge_init(void) {
	size_t period = P == 1 ? PERIOD_RAW : PERIOD_ENC, got;
	pat_raw = malloc(PERIOD_RAW); pat_enc = malloc(PERIOD_ENC);
	fill_random(pat_raw, PERIOD_RAW, 77);
	model_encode(pat_raw, PERIOD_RAW, pat_enc);
	int fd = memfd_create("pattern", 0);
	if (fd < 0 || write(fd, P == 1 ? pat_raw : pat_enc, period) != (ssize_t)period) sim_error("memfd: %s", strerror(errno));
	h_raw = repeat(fd, period, P == 1 ? H_RAW : H_ENC, &got);
	if (!h_raw) sim_error("cannot map the input");
	h_len = got;
	h_out = mmap(NULL, H_OUT + (1u << 20), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (h_out == MAP_FAILED) sim_error("cannot map the output");
	madvise(h_out, H_OUT, MADV_HUGEPAGE);
}
static size_t hl; static uint8_t *h_at;
static void huge_caller(void *p) {
	(void)p;
	size_t o = 0x5EAD5EAD; int r = 1;
	h_at = h_out;
	g_in_call = P == 1 ? "base64_encode" : "base64_decode";
	if (P == 1) base64_encode((char *)h_raw, hl, (char *)h_at, &o, 0); else r = base64_decode((char *)h_raw, hl, (char *)h_at, &o, 0);
	g_in_call = NULL;
	EV("returned", r, o, 0);
	size_t want = P == 1 ? (hl + 2) / 3 * 4 : hl / 4 * 3, per = P == 1 ? PERIOD_ENC : PERIOD_RAW; uint8_t *pat = P == 1 ? pat_enc : pat_raw;
	if (r != 1 || o != want) violation("length", "%s of %zu bytes on a %d-bit machine: result %d, length %zu, not %zu", P == 1 ? "encoding" : "decoding", hl, BITS, r, o, want);
	size_t full = P == 1 ? hl / 3 * 4 : want;
	for (size_t i = 0; i < full; i += per) {
		size_t n = full - i < per ? full - i : per;
		if (memcmp(h_at + i, pat, n)) violation("bytes", "%s of %zu bytes on a %d-bit machine: output differs in the block at %zu", P == 1 ? "encoding" : "decoding", hl, BITS, i);
	}
	if (P == 1 && hl % 3) {
		uint8_t t[4]; model_encode(h_raw + hl / 3 * 3, hl % 3, t);
		if (memcmp(h_at + full, t, 4)) violation("bytes", "encoding of %zu bytes on a 32-bit machine: the last group differs", hl);
	}
}
static void huge_scenario(void) {
	static const uint8_t teams[] = { 16, 8, 13, 32 };
	team = teams[choose(4)];
	hl = h_len - choose(100000);
	if (P == 2) hl &= ~(size_t)3;
	trace_note("%zu bytes, team of %d", hl, team);
	STAT(BITS == 32 ? "runs.beyond_1GiB_on_32bit" : "runs.beyond_4GiB_on_64bit");
	EV("huge", hl, team, 0);
	memset(h_out, 0, 4096);
	gomp_sim_config(team, team);
	gomp_sim_step(false);
	sched_config(POL_RANDOM, 0, 0);
	nontrivial();
	task_spawn(huge_caller, NULL);
	tasks_run();
	madvise(h_out, H_OUT, MADV_DONTNEED);
	sched_note(hl); cover(hl ^ (uint64_t)team << 40);
}
