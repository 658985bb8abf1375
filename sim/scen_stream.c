/* S01..S07: streams of data cut into blocks, interleaved, damaged, abandoned,
 * checkpointed and crashed, against byte-wise models. */
#include "sim.h"
#include "sut.h"
#include "model.h"
#include "shim.h"
#include "scen.h"
#include "abi.h"

#define MAXS 4
#define BIG 3000000
enum { DIR_ENC, DIR_DEC };
typedef struct {
	int id, dir, codec; bool checked;         /* checked: verdicts on this stream count for the property */
	uint8_t *in; size_t len, pos;             /* what is fed */
	uint8_t *want; size_t want_cap;           /* encoder: full text; decoder: denoted bytes so far */
	size_t want_len, got;
	dmodel_t dm;
	struct base64_state *st; arena_t *starena;
	int sched; uint32_t param;
	bool fin, failed, damaged;
	bool mute;                                /* results no longer compared */
	bool reported;                            /* S04: the decoder itself has reported an error */
	int lives, after;                         /* calls made after the end or failure */
	struct base64_state twin;                 /* S04: a fresh state given the same calls */
} stream_t;
static stream_t S[MAXS];
static arena_t *a_src, *a_out, *a_out2, *a_both, *a_st[MAXS];
static uint8_t *inbuf[MAXS], *wantbuf[MAXS], *tmpbuf;
static enum prop { S01 = 1, S02, S03, S04, S05, S06, S07, S08, S09 } P;
/* S08: every call through a trampoline that watches what it leaves behind. S09: its work and stack are measured. */
static uint32_t stepped_work;       /* single-stepped: longest data */
#define A(x) ((uintptr_t)(x))
#define WORK(what, n, call) ({ size_t n_ = (n); work_begin(n_, stepped_work != 0); call; work_end(what, n_); })
#define base64_stream_encode_init(s, f) (P == S08 ? (void)abi_call("base64_stream_encode_init", (void *)base64_stream_encode_init, A(s), A(f), 0, 0, 0) : P == S09 ? WORK("base64_stream_encode_init", 0, base64_stream_encode_init(s, f)) : base64_stream_encode_init(s, f))
#define base64_stream_decode_init(s, f) (P == S08 ? (void)abi_call("base64_stream_decode_init", (void *)base64_stream_decode_init, A(s), A(f), 0, 0, 0) : P == S09 ? WORK("base64_stream_decode_init", 0, base64_stream_decode_init(s, f)) : base64_stream_decode_init(s, f))
#define base64_stream_encode(s, i, n, o, l) (P == S08 ? (void)abi_call("base64_stream_encode", (void *)base64_stream_encode, A(s), A(i), n, A(o), A(l)) : P == S09 ? WORK("base64_stream_encode", n, base64_stream_encode(s, i, n, o, l)) : base64_stream_encode(s, i, n, o, l))
#define base64_stream_decode(s, i, n, o, l) (P == S08 ? (int)abi_call("base64_stream_decode", (void *)base64_stream_decode, A(s), A(i), n, A(o), A(l)) : P == S09 ? ({ int r_; WORK("base64_stream_decode", n, r_ = base64_stream_decode(s, i, n, o, l)); r_; }) : base64_stream_decode(s, i, n, o, l))
#define base64_stream_encode_final(s, o, l) (P == S08 ? (void)abi_call("base64_stream_encode_final", (void *)base64_stream_encode_final, A(s), A(o), A(l), 0, 0) : P == S09 ? WORK("base64_stream_encode_final", 0, base64_stream_encode_final(s, o, l)) : base64_stream_encode_final(s, o, l))
#define base64_encode(i, n, o, l, f) (P == S08 ? (void)abi_call("base64_encode", (void *)base64_encode, A(i), n, A(o), A(l), A(f)) : P == S09 ? WORK("base64_encode", n, base64_encode(i, n, o, l, f)) : base64_encode(i, n, o, l, f))
#define base64_decode(i, n, o, l, f) (P == S08 ? (int)abi_call("base64_decode", (void *)base64_decode, A(i), n, A(o), A(l), A(f)) : P == S09 ? ({ int r_; WORK("base64_decode", n, r_ = base64_decode(i, n, o, l, f)); r_; }) : base64_decode(i, n, o, l, f))
static bool tight, big_run, vast, stepped_boot, strict_boot, fresh_process; static machine_t boot_machine;
static uint32_t g_calls;

void stream_init(void) {
	a_src = arena_new("input", BIG + 70000, true);
	a_out = arena_new("output", BIG + BIG / 3 + 70000, false);
	a_both = arena_new("input and output", BIG + BIG + BIG / 3 + 140000, false);
	a_out2 = arena_new("second output", BIG + BIG / 3 + 70000, false);
	for (int i = 0; i < MAXS; i++) {
		char *n = malloc(16); snprintf(n, 16, "state[%d]", i);
		a_st[i] = arena_new(n, 256, false);
		inbuf[i] = malloc(BIG * 4 / 3 + 4096); wantbuf[i] = malloc(BIG * 4 / 3 + 4096);
	}
	tmpbuf = malloc(BIG * 4 / 3 + 4096);
	P = (enum prop)(g_prop[2] - '0');
	arena_precise = P == S05;
}

static enum place pick_place(void) {
	if (!tight) return PL_LOOSE;
	static const uint8_t w[] = { 1, 5, 3 };
	return (enum place)choose_w(w, 3);
}
/* Where input and output of a call lie: mostly far apart, sometimes neighbours. */
typedef struct { uint8_t *src, *ro, *out; arena_t *as, *ao; } place_t;
static place_t place_both(size_t n, size_t cap, uint64_t junk) {
	place_t p;
	if (!tight && chance(1, 5)) {
		bool behind = choose(2); uint32_t gap = choose(3) ? 0 : choose(40), al = arena_align();
		uint8_t *b = arena_place(a_both, n + gap + cap, PL_LOOSE, al, junk);
		memset(b, (int)(mix64(junk + 9) & 0xff), n + gap + cap);
		p.src = behind ? b : b + cap + gap; p.out = behind ? b + n + gap : b; p.ro = p.src;
		p.as = p.ao = a_both;
		STAT("runs.neighbouring_buffers");
		return p;
	}
	p.as = a_src; p.ao = a_out;
	p.src = arena_place(a_src, n, pick_place(), arena_align(), junk);
	p.ro = arena_ro(a_src);
	p.out = arena_place(a_out, cap, pick_place(), arena_align(), junk + 1);
	return p;
}
static void mem_check(arena_t *a, const char *what) { if (tight) arena_check(a, what); }
static uint8_t pick_bad_char(uint8_t old) {
	static const uint8_t near[] = { '+' - 1, '+' + 1, '/' - 1, '0' - 1, '9' + 1, 'A' - 1, 'Z' + 1, 'a' - 1, 'z' + 1, '-', '_', ' ', '\n', '\r', 0, 0xff, 0x80, 0x7f, '=', '.', ',', '@', '[', '`', '{' };
	switch (choose(5)) {
	case 0: return '=';
	case 1: return (uint8_t)choose(256);
	case 2: return near[choose(sizeof near)];
	case 3: return old | 0x80;
	default: return (uint8_t)(old ^ (1u << choose(8)));
	}
}
static size_t pick_pos(size_t len) {      /* a position in a text, biased to both ends and round limits */
	if (!len) return 0;
	switch (choose(4)) {
	case 0: return choose((uint32_t)len);
	case 1: { uint32_t k = choose_log(200); return k < len ? len - 1 - k : 0; }
	case 2: { uint32_t k = choose_log(1000); return k < len ? k : len - 1; }
	default: return choose((uint32_t)len);
	}
}
static size_t damage(uint8_t *t, size_t len, size_t cap, int n) {
	while (n-- > 0) {
		size_t p = pick_pos(len), q, k;
		int kind = choose(9);
		STAT("fault.damaged_text");
		EV("damage", kind, p, len);
		switch (kind) {
		default:
		case 0: case 1: if (len) t[p] = pick_bad_char(t[p]); break;
		case 2: k = 1 + choose_log(20); if (k > len - p) k = len - p; memmove(t + p, t + p + k, len - p - k); len -= k; break;         /* lost */
		case 3: k = 1 + choose_log(8); if (len + k > cap) break; memmove(t + p + k, t + p, len - p); for (q = 0; q < k; q++) t[p + q] = choose(3) ? (uint8_t)"AZaz09+/"[choose(8)] : pick_bad_char('A'); len += k; break;
		case 4: k = 1 + choose_log(20); if (k > len - p) k = len - p; if (len + k > cap) break; memmove(t + p + k, t + p, len - p); len += k; break;  /* duplicated */
		case 5: len = p; break;                                                                    /* truncated */
		case 6: if (len > 1) { q = pick_pos(len); uint8_t c = t[p]; t[p] = t[q]; t[q] = c; } break;    /* reordered */
		case 7: k = 1 + choose_log(12); if (len + k > cap) break; for (q = 0; q < k; q++) t[len++] = choose(2) ? '=' : (uint8_t)"QA=/+z"[choose(6)]; break; /* trailing data */
		case 8: if (len) t[p] = '='; break;
		}
	}
	return len;
}
static uint32_t pick_len_any(void);
static uint32_t pick_len(void) { uint32_t n = pick_len_any(); return stepped_work && n > stepped_work ? n % stepped_work : n; }
static uint32_t pick_len_any(void) {
	if (vast && chance(1, 2)) { STAT("runs.vast_block"); return choose_range(200000, BIG * 3 / 4 - 100); }
	if (big_run && chance(1, 2)) return choose_range(1000, 200000);
	switch (choose(9) ? choose(4) : choose(12) ? 4 : 5) {
	case 5: {                                     /* round binary sizes, thrice and four times them, and their neighbours */
		uint32_t k = choose_range(4, 20), b = 1u << k; int d = (int)choose(9) - 4;
		switch (choose(5)) { case 1: b *= 3; break; case 2: b += b / 2; break; case 3: if (k > 2) b = (b - 1) / 3; break; case 4: b = (b - 1) / 4 * 3; break; }
		if (b > BIG * 3 / 4 - 200) b >>= 2;
		STAT("runs.round_size");
		return b + d;
	}
	case 4: return choose_log(60000);
	case 0: return choose_log(40);
	case 1: return choose_log(700);
	case 2: { static const uint16_t base[] = { 3, 4, 6, 8, 12, 16, 24, 32, 48, 64, 96, 128, 192, 256, 384, 512, 768, 1024 }; uint32_t b = base[choose(18)] * choose_range(1, 6); int d = (int)choose(9) - 4; return (int)b + d < 0 ? 0 : b + d; }
	default: return choose_log(5000);
	}
}
/* the next block length for a stream */
static size_t pick_block(stream_t *s) {
	size_t left = s->len - s->pos, n;
	if (chance(1, 10)) { STAT("sched.empty_block"); return 0; }
	switch (s->sched) {
	case 0: return left;
	case 1: n = 1; break;
	case 2: n = s->param; break;
	case 3: n = choose(s->param + 1); break;
	case 4: n = choose_log((uint32_t)(left > 20000 ? left : 20000)); break;
	case 5: { static const uint16_t b[] = { 1, 2, 3, 4, 5, 7, 8, 9, 11, 12, 15, 16, 17, 19, 20, 23, 24, 25, 28, 31, 32, 33, 44, 45, 46, 47, 48, 49, 63, 64, 65, 88, 95, 96, 97, 127, 128, 129, 191, 192, 193, 255, 256, 257, 384, 511, 512, 513 };
		n = b[choose(sizeof b / sizeof *b)] + choose(3); } break;
	case 8: n = (size_t)(choose(4) ? 1 : 3) << choose_range(2, 17); n += choose(3); break;    /* round binary sizes */
	case 7:                                       /* a little, then all but a little */
		if (s->pos == 0) n = choose(70); else if (left > 100) n = left - choose(70); else n = choose(9);
		break;
	default: /* cuts around the end */
		if (left > 8) n = left - choose(9); else n = choose((uint32_t)left + 1);
		break;
	}
	return n > left ? left : n;
}
static struct base64_state *place_state(stream_t *s, const struct base64_state *from) {
	struct base64_state tmp;
	if (from) tmp = *from; else memset(&tmp, 0xA5, sizeof tmp);
	uint8_t *p = arena_place(s->starena, sizeof tmp, tight ? (choose(2) ? PL_LEFT : PL_RIGHT) : PL_LOOSE, choose(4) * 8, 0x57A7E + s->id);
	s->st = (struct base64_state *)p;
	*s->st = tmp;
	return s->st;
}
/* The first library call after a process start, on a simulated machine when one is set up. */
static bool guarded;
static void enter(const char *w) {
	run_call_enter(w);
	if (shim_fail) shim_calls = 0;
	g_calls++;
	if ((fresh_process || strict_boot) && stepped_boot) step_on(&boot_machine);
	if (P == S07) guarded = sys_guard_on();
}
static void leave(const char *w) {
	if (P == S07) { sys_guard_off(); if (guarded) STAT("calls_with_syscalls_trapped"); }
	if ((fresh_process || strict_boot) && stepped_boot) { step_off(); }
	run_call_leave();
	if (P == S07 && shim_calls) violation("os-call", "%s called %s", w, shim_last);
	if (P == S07 && sys_guard_hits) violation("os-call", "%s made system call number %ld", w, sys_guard_last);
}
static void bad(stream_t *s, const char *cls, const char *fmt, ...) __attribute__((format(printf, 3, 4)));
static void bad(stream_t *s, const char *cls, const char *fmt, ...) {
	char m[500]; va_list ap;
	va_start(ap, fmt); vsnprintf(m, sizeof m, fmt, ap); va_end(ap);
	/* a wrong result breaks S01, S02 or S03; the other properties have their own oracles */
	if (!s->checked || P > S03) { s->mute = true; STAT("unchecked_mismatch"); return; }
	violation(cls, "stream %d (%s, %s): %s", s->id, s->dir == DIR_ENC ? "encode" : "decode", codecs[s->codec].name, m);
}
static void setup_stream(stream_t *s, int id, int dir, bool valid) {
	s->id = id; s->dir = dir; s->codec = pick_codec(); s->pos = s->got = 0;
	s->in = inbuf[id]; s->want = wantbuf[id]; s->starena = a_st[id];
	s->fin = s->failed = s->damaged = s->mute = s->reported = false; s->after = 0;
	uint32_t n = pick_len(), kind = choose(DATA_KINDS), seed = choose_u32();
	static const uint8_t w[] = { 3, 2, 3, 4, 3, 6, 4, 2, 1 };
	s->sched = choose_w(w, 9); s->param = 1 + choose_log(300);
	if (n > 200000 && s->sched != 0 && s->sched < 6) s->sched = choose(4) ? 7 : 4;
	if (n > (chance(1, 20) ? 30000u : 1500u) && (s->sched == 1 || (s->param < 200 && (s->sched == 2 || s->sched == 3)))) s->sched = 4;
	trace_note("stream %d: %s codec=%s data-len=%u kind=%u blocks=%d/%u", id, dir ? "decode" : "encode", codecs[s->codec].name, n, kind, s->sched, s->param);
	if (dir == DIR_ENC) {
		s->len = n; fill_data(s->in, n, kind, seed);
		s->want_len = model_encode(s->in, n, s->want);
	} else {
		if (n > BIG * 3 / 4 - 100) n = BIG * 3 / 4 - 100;
		fill_data(tmpbuf, n, kind, seed);
		s->len = model_encode(tmpbuf, n, s->in);
		s->want_len = 0;
		dmodel_init(&s->dm);
		if (!valid) { s->damaged = true; s->len = damage(s->in, s->len, s->len + 1000 > BIG ? s->len : s->len + 1000, 1 + choose(3)); nontrivial(); }
	}
	place_state(s, s->lives ? s->st : NULL);
	EV("init", id, dir, codecs[s->codec].flag);
	enter(dir == DIR_ENC ? "base64_stream_encode_init" : "base64_stream_decode_init");
	if (dir == DIR_ENC) base64_stream_encode_init(s->st, codecs[s->codec].flag);
	else base64_stream_decode_init(s->st, codecs[s->codec].flag);
	leave("init");
	mem_check(s->starena, "init");
	if (P == S04) {
		memset(&s->twin, 0, sizeof s->twin);
		if (dir == DIR_ENC) base64_stream_encode_init(&s->twin, codecs[s->codec].flag);
		else base64_stream_decode_init(&s->twin, codecs[s->codec].flag);
	}
	s->lives++;
}
#define SENTINEL ((size_t)0x5EAD5EAD5EADull)
static void twin_block(stream_t *s, const uint8_t *src, size_t n, int ret, const uint8_t *out, size_t outlen) {
	size_t o2 = SENTINEL, cap = s->dir == DIR_ENC ? (n + 2) / 3 * 4 : (n + 3) / 4 * 3; int r2 = 1;
	uint8_t *p = arena_place(a_out2, cap, PL_LOOSE, 0, 77);
	run_call_enter("calls on a fresh state");
	if (s->dir == DIR_ENC) base64_stream_encode(&s->twin, (const char *)src, n, (char *)p, &o2);
	else r2 = base64_stream_decode(&s->twin, (const char *)src, n, (char *)p, &o2);
	run_call_leave();
	if (ret != r2 || outlen != o2 || (outlen <= cap && memcmp(out, p, outlen)))
		violation("not-fresh", "stream %d (%s, %s, life %d): re-initialised state gave %d/%zu, a fresh one %d/%zu", s->id, s->dir ? "decode" : "encode", codecs[s->codec].name, s->lives, ret, outlen, r2, o2);
}
static uint32_t len_class(size_t n) { uint32_t b = 0; while (n >> b) b++; return b * 64 + (uint32_t)(n % 48); }
static void enc_block(stream_t *s, size_t n) {
	size_t outlen = SENTINEL, cap = (n + 2) / 3 * 4;
	uint64_t junk = mix64(g_calls * 2 + 1);
	place_t pl = place_both(n, cap, junk); uint8_t *src = pl.src, *out = pl.out;
	memcpy(src, s->in + s->pos, n);
	cover(((uint64_t)s->codec << 40) | ((uint64_t)(s->pos % 3) << 36) | len_class(n));
	if (s->pos % 3 && n) nontrivial();
	enter("base64_stream_encode");
	base64_stream_encode(s->st, (char *)pl.ro, n, (char *)out, &outlen);
	leave("base64_stream_encode");
	fresh_process = false;
	s->pos += n;
	EV("encode", s->id, n, outlen);
	mem_check(pl.ao, "encode"); mem_check(s->starena, "encode"); mem_check(pl.as, "encode");
	if (!s->mute && outlen > cap) { bad(s, "length", "block of %zu bytes reported %zu characters", n, outlen); return; }
	if (P == S04) twin_block(s, src, n, 1, out, outlen);
	if (s->mute) return;
	size_t lo = s->pos / 3 * 4, hi = lo + s->pos % 3, tot = s->got + outlen;
	if (tot < lo || tot > hi) { bad(s, "length", "after %zu bytes %zu characters were delivered, not %zu to %zu", s->pos, tot, lo, hi); return; }
	if (memcmp(out, s->want + s->got, outlen)) {
		size_t i = 0; while (out[i] == s->want[s->got + i]) i++;
		bad(s, "wrong-output", "character %zu of the text is 0x%02x, not 0x%02x (block of %zu bytes ending at %zu)", s->got + i, out[i], s->want[s->got + i], n, s->pos);
		return;
	}
	ev_bytes("out", out, outlen);
	s->got = tot;
}
static void enc_final(stream_t *s) {
	size_t outlen = SENTINEL, cap = s->want_len - s->got;
	uint8_t *out = arena_place(a_out, cap, pick_place(), arena_align(), mix64(g_calls));
	enter("base64_stream_encode_final");
	base64_stream_encode_final(s->st, (char *)out, &outlen);
	leave("base64_stream_encode_final");
	fresh_process = false;
	EV("final", s->id, outlen, 0);
	mem_check(a_out, "final"); mem_check(s->starena, "final");
	s->fin = true;
	if (P == S04) {
		size_t o2 = SENTINEL; char b[64] = { 0 };
		run_call_enter("finalising a fresh state");
		base64_stream_encode_final(&s->twin, b, &o2);
		run_call_leave();
		if (o2 != outlen || (o2 <= cap && memcmp(b, out, o2))) violation("not-fresh", "stream %d: finalising a re-initialised state differs from a fresh one", s->id);
	}
	if (s->mute) return;
	if (outlen != cap) { bad(s, "length", "finalising delivered %zu characters, not %zu", outlen, cap); return; }
	if (memcmp(out, s->want + s->got, outlen)) { bad(s, "wrong-output", "finalising delivered wrong characters"); return; }
	s->got += outlen;
}
static void dec_block(stream_t *s, size_t n, const uint8_t *from) {
	size_t outlen = SENTINEL, cap = (n + 3) / 4 * 3;
	uint64_t junk = mix64(g_calls * 2 + 1);
	place_t pl = place_both(n, cap, junk); uint8_t *src = pl.src, *out = pl.out;
	memcpy(src, from, n);
	int phase = s->dm.phase;
	cover(((uint64_t)s->codec << 40) | ((uint64_t)s->dm.pos << 36) | ((uint64_t)phase << 44) | (1ull << 50) | len_class(n));
	if (n && (s->dm.pos || phase)) nontrivial();
	bool ok = dmodel_feed(&s->dm, src, n, s->want);
	enter("base64_stream_decode");
	int ret = base64_stream_decode(s->st, (char *)pl.ro, n, (char *)out, &outlen);
	leave("base64_stream_decode");
	fresh_process = false;
	EV("decode", s->id, n, (uint64_t)(ret & 0xff) << 32 | (uint32_t)outlen);
	mem_check(pl.ao, "decode"); mem_check(s->starena, "decode"); mem_check(pl.as, "decode");
	if (P == S04) {
		twin_block(s, src, n, ret, out, outlen);
		if (s->reported && (ret != 0 || outlen)) violation("not-final", "stream %d (%s): a call after a reported failure returned %d and delivered %zu bytes", s->id, codecs[s->codec].name, ret, outlen);
		if (!s->reported && phase == D_END && n && ret != 0 && !s->mute) violation("not-final", "stream %d (%s): a block of %zu characters after the end of the stream was reported as %d", s->id, codecs[s->codec].name, n, ret);
		if (ret == 0) s->reported = s->failed = true;
	}
	if (s->mute) return;
	if (ret != (ok ? 1 : 0)) {
		bad(s, ok ? "false-error" : "missed-error", "block of %zu characters at position %zu, %s, was reported as %d", n, s->pos, ok ? "all valid" : "with an invalid character", ret);
		return;
	}
	if (outlen > cap) { bad(s, "length", "block of %zu characters reported %zu bytes", n, outlen); return; }
	size_t tot = s->got + outlen;
	if (tot > s->dm.hi || (ok && tot < s->dm.lo)) { bad(s, "length", "%zu bytes delivered, not %zu to %zu, at position %zu", tot, s->dm.lo, s->dm.hi, s->pos + n); return; }
	if (memcmp(out, s->want + s->got, outlen)) {
		size_t i = 0; while (out[i] == s->want[s->got + i]) i++;
		bad(s, "wrong-output", "byte %zu is 0x%02x, not 0x%02x", s->got + i, out[i], s->want[s->got + i]);
		return;
	}
	ev_bytes("out", out, outlen);
	s->got = tot;
	if (!ok) { s->failed = true; if (phase != D_ERR) STAT("probe.error_detected"); }
	if (s->dm.phase == D_END) STAT("probe.ended_in_padding");
	if (phase == D_PAD1) STAT("probe.cut_between_padding");
}
/* whole-buffer calls, as one more kind of step in a schedule */
static void oneshot(int id, bool enc, bool valid, bool checked) {
	stream_t t0, *t = &t0;
	memset(t, 0, sizeof *t);
	t->id = id; t->dir = enc ? DIR_ENC : DIR_DEC; t->codec = pick_codec(); t->checked = checked;
	uint32_t n = pick_len(), kind = choose(DATA_KINDS), seed = choose_u32();
	static uint8_t *w; if (!w) w = malloc(BIG * 4 / 3 + 4096);
	size_t outlen = SENTINEL, len;
	uint64_t junk = mix64(g_calls * 2 + 1);
	if (enc) {
		size_t cap = (n + 2) / 3 * 4;
		place_t pl = place_both(n, cap, junk); uint8_t *src = pl.src, *out = pl.out;
		fill_data(src, n, kind, seed);
		len = model_encode(src, n, w);
		enter("base64_encode");
		base64_encode((char *)pl.ro, n, (char *)out, &outlen, codecs[t->codec].flag);
		leave("base64_encode");
		fresh_process = false;
		EV("encode-whole", n, outlen, t->codec);
		mem_check(pl.ao, "encode-whole"); mem_check(pl.as, "encode-whole");
		if (outlen != len) { bad(t, "length", "whole-buffer encoding of %u bytes reported %zu characters", n, outlen); return; }
		if (memcmp(out, w, len)) { bad(t, "wrong-output", "whole-buffer encoding of %u bytes is wrong", n); return; }
		return;
	}
	static uint8_t *tx; if (!tx) tx = malloc(BIG * 4 / 3 + 4096);
	if (n > BIG / 2) n = BIG / 2;
	fill_data(w, n, kind, seed);
	len = model_encode(w, n, tx);
	int rounds = valid ? 1 : 1 + choose_log(stepped_work ? 2 : 12);
	for (int r = 0; r < rounds; r++) {
		uint8_t keep = 0; size_t kp = 0, l2 = len; bool single = false;
		if (!valid) {
			nontrivial();
			if (len && choose(4)) { single = true; kp = pick_pos(len); keep = tx[kp]; tx[kp] = pick_bad_char(keep); STAT("fault.damaged_text"); cover((5ull << 50) | ((uint64_t)t->codec << 40) | (tx[kp] << 8) | (kp % 64)); }
			else { l2 = damage(tx, len, len + 100, 1 + choose(2)); rounds = r; }
		}
		size_t cap = (l2 + 3) / 4 * 3;
		place_t pl = place_both(l2, cap, junk); uint8_t *src = pl.src, *out = pl.out;
		memcpy(src, tx, l2);
		dmodel_t m; dmodel_init(&m);
		bool ok = dmodel_feed(&m, src, l2, w) && dmodel_complete(&m);
		outlen = SENTINEL;
		enter("base64_decode");
		int ret = base64_decode((char *)pl.ro, l2, (char *)out, &outlen, codecs[t->codec].flag);
		leave("base64_decode");
		fresh_process = false;
		EV("decode-whole", l2, outlen, ret);
		mem_check(pl.ao, "decode-whole"); mem_check(pl.as, "decode-whole");
		if (ret != (ok ? 1 : 0)) { bad(t, ok ? "false-error" : "missed-error", "whole-buffer decoding of %zu characters, %s, was reported as %d", l2, ok ? "well-formed" : "not well-formed", ret); return; }
		if (outlen > m.hi || (ok && outlen != m.hi)) { bad(t, "length", "whole-buffer decoding reported %zu bytes, not %zu", outlen, m.hi); return; }
		if (memcmp(out, w, outlen)) { bad(t, "wrong-output", "whole-buffer decoding delivered wrong bytes"); return; }
		if (single) tx[kp] = keep;
	}
}
static bool step_stream(stream_t *s) {   /* false when the stream has nothing left to do */
	if (s->dir == DIR_ENC) {
		if (s->fin) return false;
		if (s->pos == s->len && !chance(1, 6)) { enc_final(s); return true; }
		size_t n = pick_block(s);
		if (fresh_process && stepped_boot && n > 100) n = 100;
		enc_block(s, n);
		return true;
	}
	if (!s->failed && s->pos < s->len) {
		size_t n = pick_block(s);
		if (fresh_process && stepped_boot && n > 100) n = 100;
		dec_block(s, n, s->in + s->pos);
		s->pos += n;
		return true;
	}
	/* at the end, or failed */
	if (s->after >= (P == S04 ? 6 : 2) || chance(1, 4)) return false;
	s->after++;
	if (!s->failed && (P == S01 || P == S02)) { STAT("probe.empty_after_end"); dec_block(s, 0, s->in); return true; }
	if (s->failed && P < S04) return false;        /* finality is S04 */
	if (!s->failed && s->dm.phase == D_TEXT && P < S04) return false;
	/* feed more after a failure or after the end */
	uint8_t extra_in[300]; size_t n = choose(4) == 0 ? 0 : 1 + choose_log(280);
	switch (choose(3)) {
	case 0: for (size_t i = 0; i < n; i++) extra_in[i] = (uint8_t)"QUJD"[i & 3]; break;
	case 1: for (size_t i = 0; i < n; i++) extra_in[i] = '='; break;
	default: fill_random(extra_in, n, choose_u32()); break;
	}
	STAT("fault.blocks_after_end_or_failure");
	nontrivial();
	dec_block(s, n, extra_in);
	return true;
}
static void check_end(stream_t *s) {
	if (s->dir == DIR_DEC && !s->damaged && !s->failed && !s->mute && s->pos == s->len && s->got != s->dm.hi)
		bad(s, "length", "%zu bytes delivered of %zu", s->got, s->dm.hi);
}
void ckpt_scenario(void);
void stream_scenario(void) {
	if (P == S06) { ckpt_scenario(); return; }
	memset(S, 0, sizeof S);
	g_calls = 0;
	tight = P == S05;
	shim_fail = P == S07; shim_calls = 0;
	big_run = chance(1, g_thorough || P == S09 ? 16 : 40);
	vast = big_run && chance(1, 6);
	stepped_boot = false; fresh_process = true;
	stepped_work = 0;
#ifndef INSTRUMENTED
	if (P == S09 && step_supported() && chance(1, 3)) { stepped_work = big_run && chance(1, 2) ? 60000 : 20000; STAT("runs.single_stepped"); }
#endif
	int n = 1 + choose(big_run ? 2 : MAXS);
	for (int i = 0; i < n; i++) {
		int dir; bool valid, checked = true;
		switch (P) {
		case S01: dir = chance(1, 5) ? DIR_DEC : DIR_ENC; valid = choose(2); checked = dir == DIR_ENC; break;
		case S02: dir = chance(1, 6) ? DIR_ENC : DIR_DEC; valid = true; checked = dir == DIR_DEC; break;
		case S03: dir = DIR_DEC; valid = false; break;
		case S04: dir = chance(1, 8) ? DIR_ENC : DIR_DEC; valid = chance(1, 4); break;
		default:  dir = choose(2); valid = chance(1, 2); break;
		}
		S[i].checked = checked;
		setup_stream(&S[i], i, dir, valid);
	}
	int live = n; bool done[MAXS] = { 0 };
	uint32_t last = 0;
	for (int guard = 0; live && guard < 60000 && !tape_exhausted(); guard++) {
		int act[MAXS], na = 0;
		for (int i = 0; i < n; i++) if (!done[i]) act[na++] = i;
		int k = act[choose(na)];
		stream_t *s = &S[k];
		sched_note(k + 1);
		if ((uint32_t)k != last) { STAT("sched.stream_switches"); last = k; }
		if (P != S04 && chance(1, big_run ? 30 : 8)) {
			bool e = P == S01 ? true : P == S02 || P == S03 ? false : choose(2);
			oneshot(9, e, P == S02 ? true : P == S03 ? chance(1, 12) : choose(2), true);
		}
		bool more = step_stream(s);
		if (P == S04 && s->lives < 4 && chance(1, more ? 24 : 2)) {
			/* abandon whatever happened and start over, in either direction */
			STAT("fault.reinitialised"); nontrivial();
			setup_stream(s, s->id, choose(3) ? DIR_DEC : DIR_ENC, choose(2));
			more = true;
		}
		if (!more && P != S04 && s->lives < 3 && !big_run && !s->mute && chance(1, 6)) {
			/* the state object serves another stream */
			check_end(s);
			STAT("sched.state_reused"); nontrivial();
			setup_stream(s, s->id, s->dir, P == S01 || P == S02 ? true : P == S03 ? false : choose(2));
			more = true;
		}
		if (!more) {
			done[k] = true; live--;
			check_end(s);
		}
	}
	sim_steps(g_calls);
	shim_fail = false;
}

/* ---- S06: phase A runs each stream undisturbed; phase B runs the same blocks
 * with checkpoints, crashes, moves and changes of machine, and must deliver the
 * same output and verdicts. */
typedef struct {
	int dir, codec, nb; uint32_t *cut;        /* block lengths */
	uint8_t *in; size_t len;
	uint8_t *out; size_t outlen;              /* phase A: everything delivered */
	int *ret; size_t *upto;                   /* phase A: verdict, and total delivered, per block */
	int next; size_t pos, got; bool fin;
	struct base64_state *st; int slot;
	struct { struct base64_state st; int next; size_t pos, got; bool fin; } cp;
} ck_t;
#define MAXB 400
static ck_t C[MAXS];
static int ck_call(ck_t *c, const uint8_t *src, size_t n, bool final, uint8_t *out, size_t *outlen) {
	int r = 1;
	machine_strict = strict_boot && !codecs[c->codec].flag;
	enter(final ? "base64_stream_encode_final" : c->dir == DIR_ENC ? "base64_stream_encode" : "base64_stream_decode");
	if (final) base64_stream_encode_final(c->st, (char *)out, outlen);
	else if (c->dir == DIR_ENC) base64_stream_encode(c->st, (const char *)src, n, (char *)out, outlen);
	else r = base64_stream_decode(c->st, (const char *)src, n, (char *)out, outlen);
	leave("");
	machine_strict = false;
	if (!final) fresh_process = false;
	return r;
}
static void pick_machine(machine_t *m) {
	memset(m, 0, sizeof *m);
	m->on = true;
	uint32_t lvl = choose(8); if (lvl > host_level()) lvl = host_level();      /* none, SSSE3, SSE4.1, SSE4.2, AVX, AVX2, AVX512 */
	m->max_leaf = lvl >= 5 ? 0x16 : 1 + choose(12);
	m->l1_edx = 0x1f8bfbff; m->l1_ecx = 1 | (lvl >= 1 ? 1u << 9 : 0) | (lvl >= 2 ? 1u << 19 : 0) | (lvl >= 3 ? 1u << 20 : 0) | (lvl >= 4 ? (1u << 28) | (1u << 26) : 0);
	m->osxsave = lvl >= 4; m->xcr0 = lvl >= 6 ? 0xe7 : 7;
	m->l7_ebx = (lvl >= 5 ? 1u << 5 : 0) | (lvl >= 6 ? (1u << 16) | (1u << 31) | (1u << 30) : 0);
	m->l7_ecx = lvl >= 6 ? 2 : 0;
}
/* Moves a state to another place, maybe one that a finished stream has used. */
static void ck_state(ck_t *c, int n, const struct base64_state *from) {
	struct base64_state t = *from;
	int free_[MAXS + 1], nf = 0;
	free_[nf++] = c->slot;
	for (int k = 0; k < MAXS; k++) {
		bool used = k == c->slot;
		for (int j = 0; j < n; j++) if (&C[j] != c && C[j].slot == k && C[j].next < C[j].nb) used = true;
		if (!used) free_[nf++] = k;
	}
	int k = free_[choose(nf)];
	memset(a_st[c->slot]->rw, 0x5A, 700);      /* nothing of the old copy remains */
	memset(a_st[k]->rw, 0x5A, 700);
	c->slot = k;
	uint8_t *p = arena_place(a_st[k], sizeof t, PL_LOOSE, choose(3) ? 0 : choose(5) * 8, 0x57A7E);
	c->st = (struct base64_state *)p; *c->st = t;
}
static void ck_save(ck_t *c) { c->cp.st = *c->st; c->cp.next = c->next; c->cp.pos = c->pos; c->cp.got = c->got; c->cp.fin = c->fin; }
void ckpt_scenario(void) {
	int n = 1 + choose(3);
	g_calls = 0; tight = false; shim_fail = false; stepped_boot = strict_boot = false; fresh_process = true;
	static bool init;
	if (!init) { init = true; for (int i = 0; i < MAXS; i++) { C[i].cut = malloc(MAXB * 4); C[i].ret = malloc(MAXB * 4); C[i].upto = malloc(MAXB * sizeof(size_t)); C[i].in = inbuf[i]; C[i].out = wantbuf[i]; } }
	big_run = chance(1, 60); vast = big_run && chance(1, 8);
	for (int i = 0; i < n; i++) {
		ck_t *c = &C[i];
		stream_t t; memset(&t, 0, sizeof t);
		c->dir = choose(2); c->codec = choose(3) ? 0 : pick_codec();
		uint32_t len = pick_len(), kind = choose(DATA_KINDS), seed = choose_u32();
		static const uint8_t w[] = { 3, 2, 3, 4, 3, 6, 4, 2, 1 };
		t.sched = choose_w(w, 9); t.param = 1 + choose_log(300);
		if (c->dir == DIR_ENC) { fill_data(c->in, len, kind, seed); c->len = len; }
		else { if (len > BIG / 2) len = BIG / 2; fill_data(tmpbuf, len, kind, seed); c->len = model_encode(tmpbuf, len, c->in); if (chance(1, 4)) c->len = damage(c->in, c->len, c->len + 500, 1); }
		t.len = c->len;
		struct base64_state st0; memset(&st0, 0xA5, sizeof st0);
		sut_reset(); fresh_process = true;            /* undisturbed means alone */
		c->slot = i;
		arena_place(a_st[i], sizeof st0, PL_LOOSE, 0, 1);
		c->st = (struct base64_state *)(a_st[i]->rw + a_st[i]->off); *c->st = st0;
		enter("init");
		if (c->dir == DIR_ENC) base64_stream_encode_init(c->st, codecs[c->codec].flag); else base64_stream_decode_init(c->st, codecs[c->codec].flag);
		leave("");
		c->next = 0; c->pos = c->got = 0; c->fin = false;
		ck_save(c);
		trace_note("stream %d: %s codec=%s length=%zu", i, c->dir ? "decode" : "encode", codecs[c->codec].name, c->len);
		/* phase A */
		c->nb = 0; c->outlen = 0;
		while (t.pos < t.len && c->nb < MAXB - 2) {
			size_t b = c->nb == MAXB - 3 ? t.len - t.pos : pick_block(&t), o = SENTINEL;
			c->cut[c->nb] = (uint32_t)b;
			c->ret[c->nb] = ck_call(c, c->in + t.pos, b, false, c->out + c->outlen, &o);
			if (o > BIG * 4 / 3) { c->nb = 0; break; }
			c->outlen += o; c->upto[c->nb++] = c->outlen; t.pos += b;
			if (c->ret[c->nb - 1] != 1) break;
		}
		if (c->dir == DIR_ENC) {
			size_t o = SENTINEL;
			ck_call(c, NULL, 0, true, c->out + c->outlen, &o);
			if (o > 4) o = 0;
			c->cut[c->nb] = 0; c->ret[c->nb] = 1; c->outlen += o; c->upto[c->nb++] = c->outlen;
		}
		*c->st = c->cp.st;   /* back to the start */
	}
	/* phase B */
	sut_reset(); fresh_process = true;
	int crashes = 0;
	for (int guard = 0; guard < 4000 && !tape_exhausted(); guard++) {
		int act[MAXS], na = 0;
		for (int i = 0; i < n; i++) if (C[i].next < C[i].nb) act[na++] = i;
		if (!na) break;
		int k = act[choose(na)];
		ck_t *c = &C[k];
		sched_note(k + 1);
		if (chance(1, 4)) { ck_save(c); STAT("checkpoints"); EV("checkpoint", k, c->pos, c->got); }
		if (crashes < 6 && chance(1, 8)) {
			STAT("fault.process_crash"); nontrivial(); crashes++;
			sut_reset();
			fresh_process = true;
			stepped_boot = step_supported() && chance(1, 3);
			EV("crash", stepped_boot, 0, 0); sched_note(99);
			if (stepped_boot) { pick_machine(&boot_machine); sut_reset_on(&boot_machine); STAT("fault.moved_to_other_machine"); }
			for (int i = 0; i < n; i++) {
				if (C[i].next != C[i].cp.next) STAT("probe.blocks_replayed");
				C[i].next = C[i].cp.next; C[i].pos = C[i].cp.pos; C[i].got = C[i].cp.got; C[i].fin = C[i].cp.fin; C[i].slot = i;
			}
			for (int i = 0; i < n; i++) {
				if (C[i].next >= C[i].nb) continue;
				ck_state(&C[i], n, &C[i].cp.st);
			}
			/* short enough: every instruction until the end, or the next crash, is watched */
			size_t rest = 0;
			for (int i = 0; i < n; i++) if (C[i].next < C[i].nb) rest += C[i].len - C[i].pos;
			strict_boot = stepped_boot && rest < 700 && chance(2, 3);
			if (strict_boot) STAT("runs.other_machine_watched");
			continue;
		}
		if (chance(1, 7)) { ck_state(c, n, c->st); STAT("fault.state_moved"); nontrivial(); EV("moved", k, 0, 0); }
		bool final = c->dir == DIR_ENC && c->next == c->nb - 1;
		size_t b = c->cut[c->next], o = SENTINEL, cap = final ? 4 : c->dir == DIR_ENC ? (b + 2) / 3 * 4 : (b + 3) / 4 * 3;
		bool fp = fresh_process; if (b > 200) { if (stepped_boot && fp && !strict_boot) { /* detect on an empty block first: stepping long blocks is slow */ struct base64_state tmp = *c->st; size_t oo = 0; struct base64_state *sv = c->st; c->st = &tmp; uint8_t e[16]; if (!final) ck_call(c, e, 0, false, e, &oo); c->st = sv; } }
		uint8_t *src = arena_place(a_src, b, PL_LOOSE, arena_align(), guard + 1);
		memcpy(src, c->in + c->pos, b);
		uint8_t *out = arena_place(a_out, cap, PL_LOOSE, arena_align(), guard + 2);
		cover((9ull << 50) | ((uint64_t)c->dir << 48) | ((uint64_t)c->codec << 40) | ((uint64_t)fp << 39) | ((uint64_t)(c->pos % 12) << 32) | len_class(b));
		int r = ck_call(c, arena_ro(a_src), b, final, out, &o);
		if (final) EV("final", k, b, o); else EV("block", k, b, o);
		const char *what = c->dir == DIR_ENC ? "encoder" : "decoder";
		if (r != c->ret[c->next]) violation("resume", "stream %d: resumed %s (%s) reported %d for block %d, the undisturbed one %d", k, what, codecs[c->codec].name, r, c->next, c->ret[c->next]);
		if (o > cap) violation("resume", "stream %d: resumed %s reported %zu output characters for a block of %zu", k, what, o, b);
		size_t cmp = r == 1 ? o : c->got + o > c->outlen ? c->outlen - c->got : o;   /* the failing block may deliver any prefix */
		if (c->got + cmp > c->outlen || memcmp(out, c->out + c->got, cmp)) violation("resume", "stream %d: resumed %s (%s) delivered other output than the undisturbed one, at block %d", k, what, codecs[c->codec].name, c->next);
		c->got += o; c->pos += b;
		if (++c->next == c->nb && r == 1 && c->got != c->outlen) violation("resume", "stream %d: resumed %s delivered %zu in all, the undisturbed one %zu", k, what, c->got, c->outlen);
	}
	sim_steps(g_calls);
}
