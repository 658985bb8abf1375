/* S01, S02, S03, S05, S07 with blocks beyond 4 GiB (64-bit) or 1 GiB (32-bit), on
 * memory that repeats: counters and lengths kept in too few bits come out. */
#include "sim.h"
#include "sut.h"
#include "model.h"
#include "scen.h"
#include "shim.h"
#include <sys/mman.h>
#define K 85u
#define PER_RAW ((size_t)3 * K * 4096)
#define PER_ENC ((size_t)4 * K * 4096)
#if UINTPTR_MAX > 0xffffffffu
#define H_RAW ((size_t)4400 << 20)
#define H_ENC ((size_t)4500 << 20)
#else
#define H_RAW ((size_t)1160 << 20)
#define H_ENC ((size_t)1500 << 20)
#endif
static int P;
static uint8_t *pr, *pe;                 /* one period: data, text */
typedef struct {
	uint8_t *in_end, *out_end;       /* ends of the repeated input and output, guarded */
	size_t in_len, out_len, in_per, out_per;
	uint8_t *tail;                   /* last period of the input: private, can be damaged */
} side_t;
static side_t S[2];                      /* decoding, encoding */
static bool enc;
static uint8_t *repeat(const uint8_t *pat, size_t per, size_t total, int prot, size_t *got, uint8_t **last) {
	int fd = memfd_create("pattern", MFD_CLOEXEC);
	if (fd < 0 || write(fd, pat, per) != (ssize_t)per) sim_error("memfd: %s", strerror(errno));
	size_t n = (total + per - 1) / per;
	uint8_t *b = mmap(NULL, n * per + (2u << 20), PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (b == MAP_FAILED) sim_error("cannot reserve %zu bytes", n * per);
	b += 1u << 20;
	for (size_t i = 0; i < n; i++) {
		bool l = last && i == n - 1;
		if (mmap(b + i * per, per, l ? PROT_READ | PROT_WRITE : prot, (l ? MAP_PRIVATE : MAP_SHARED) | MAP_FIXED, fd, 0) == MAP_FAILED) sim_error("cannot map the pattern: %s", strerror(errno));
	}
	close(fd);
	*got = n * per;
	if (last) *last = b + (n - 1) * per;
	return b + n * per;
}
void huge_stream_init(void) {
	P = g_prop[2] - '0';
	pr = malloc(PER_RAW); pe = malloc(PER_ENC);
	fill_random(pr, PER_RAW, 77);
	model_encode(pr, PER_RAW, pe);
	for (int e = 0; e < 2; e++) {
		if (P == 7 ? sizeof(void *) == 4 && e == 0 : e != (P == 1)) continue;     /* 32 bits have no room for both */
		S[e].in_per = e ? PER_RAW : PER_ENC; S[e].out_per = e ? PER_ENC : PER_RAW;
		S[e].in_end = repeat(e ? pr : pe, S[e].in_per, e ? H_RAW : H_ENC, PROT_READ, &S[e].in_len, &S[e].tail);
		S[e].out_end = repeat(e ? pe : pr, S[e].out_per, (e ? H_RAW / 3 * 4 : H_ENC / 4 * 3) + S[e].out_per, PROT_READ | PROT_WRITE, &S[e].out_len, NULL);
	}
}
/* around every call */
static bool guarded;
static void enter(const char *w) { shim_calls = 0; run_call_enter(w); if (P == 7) { shim_fail = true; guarded = sys_guard_on(); } }
static void leave(const char *w) {
	if (P == 7) { sys_guard_off(); shim_fail = false; if (guarded) STAT("calls_with_syscalls_trapped"); }
	run_call_leave();
	if (P == 7 && shim_calls) violation("os-call", "%s called %s", w, shim_last);
	if (P == 7 && guarded && sys_guard_hits) violation("os-call", "%s made system call number %ld", w, sys_guard_last);
}
static void check_out(const char *w, const uint8_t *out, size_t n, size_t g0) {
	const uint8_t *pat = enc ? pe : pr; size_t out_per = S[enc].out_per;
	size_t m = n < out_per ? n : out_per;
	for (size_t i = 0; i < m; ) {
		size_t at = (g0 + i) % out_per, k = out_per - at < m - i ? out_per - at : m - i;
		if (memcmp(out + i, pat + at, k)) violation("wrong-output", "%s of a huge block: output differs near %zu", w, g0 + i);
		i += k;
	}
}
static void poison(void) { memset(S[enc].out_end - S[enc].out_per, 0xC3, S[enc].out_per); }
static void one(int codec, unsigned op) {
	enc = P == 7 ? sizeof(void *) == 4 || (op >> 1 & 1) : P == 1;
	side_t *d = &S[enc];
	const size_t in_len = d->in_len, out_per = d->out_per;
	uint8_t *const out_end = d->out_end;
	bool stream = op & 1;
	size_t n = in_len - choose(100000), o = 0x5EAD5EAD, got = 0, pos = 0;
	uint8_t keep = 0; size_t hurt = SIZE_MAX;
	if (!enc) n &= ~(size_t)3;
	const char *in = (const char *)(d->in_end - n);
	size_t g = (size_t)(in - (char *)(d->in_end - in_len)) % d->in_per;
	/* the text starts at a group of the pattern */
	size_t skip = enc ? (3 - g % 3) % 3 : (4 - g % 4) % 4;
	in += skip; n -= skip; g += skip;
	size_t og = enc ? g / 3 * 4 : g / 4 * 3;
	if (P == 3) {        /* damage within the last 4 kB to 1 MiB */
		hurt = n - 1 - choose_log(1000000);
		keep = ((uint8_t *)in)[hurt]; ((uint8_t *)in)[hurt] = "*\0-\xff"[choose(4)];
		STAT("fault.damaged_text");
		EV("damage", hurt, 0, 0);
	}
	trace_note("%s %s of %zu bytes, codec=%s", stream ? "blockwise" : "whole", enc ? "encoding" : "decoding", n, codecs[codec].name);
	EV("huge", n, stream, codec);
	cover((uint64_t)codec << 48 | (uint64_t)stream << 40 | n % 4096);
	struct base64_state st;
	const char *w = !stream ? enc ? "base64_encode" : "base64_decode" : enc ? "base64_stream_encode" : "base64_stream_decode";
	if (!stream) {
		size_t cap = enc ? (n + 2) / 3 * 4 : n / 4 * 3, rem = n % 3;
		uint8_t *out = out_end - cap;
		int r = 1;
		poison();
		enter(w);
		if (enc) base64_encode(in, n, (char *)out, &o, codecs[codec].flag); else r = base64_decode(in, n, (char *)out, &o, codecs[codec].flag);
		leave(w);
		EV("returned", r, o, 0);
		if (P == 5) return;
		if (P == 3) {
			if (r != 0) violation("missed-error", "%s of %zu characters returned %d although character %zu is invalid", w, n, r, hurt);
			if (o > hurt / 4 * 3 + 2) violation("length", "%s: invalid character at %zu, %zu bytes delivered", w, hurt, o);
			check_out(w, out, o < out_per ? o : out_per / 2, og);
		} else {
			if (r != 1 || o != cap) violation("length", "%s (%s) of %zu %s: returned %d, length %zu, not %zu", w, codecs[codec].name, n, enc ? "bytes" : "characters", r, o, cap);
			if (enc && rem) { uint8_t t[4]; model_encode((const uint8_t *)in + n - rem, rem, t); if (memcmp(out + cap - 4, t, 4)) violation("wrong-output", "%s of %zu bytes: last group", w, n); o -= 4; }
			check_out(w, out + o - (o < out_per ? o : out_per), o < out_per ? o : out_per, og + o - (o < out_per ? o : out_per));
		}
		goto end;
	}
	enter("init");
	if (enc) base64_stream_encode_init(&st, codecs[codec].flag); else base64_stream_decode_init(&st, codecs[codec].flag);
	leave("init");
	size_t cut[3] = { choose(8), 0, choose(8) };
	cut[1] = n - cut[0] - cut[2];
	for (int b = 0; b < 3; b++) {
		size_t cap = enc ? (cut[b] + 2) / 3 * 4 : (cut[b] + 3) / 4 * 3;
		uint8_t *out = out_end - cap;
		int r = 1;
		if (b == 1) poison();
		o = 0x5EAD5EAD;
		enter(w);
		if (enc) base64_stream_encode(&st, in + pos, cut[b], (char *)out, &o); else r = base64_stream_decode(&st, in + pos, cut[b], (char *)out, &o);
		leave(w);
		EV("block", cut[b], o, r);
		bool hit = hurt >= pos && hurt < pos + cut[b];
		pos += cut[b];
		if (P == 5) continue;
		if (r != (hit ? 0 : 1)) violation(hit ? "missed-error" : "false-error", "%s (%s), block of %zu characters: returned %d", w, codecs[codec].name, cut[b], r);
		size_t lo = enc ? pos / 3 * 4 : pos / 4 * 3, hi = enc ? lo + pos % 3 : pos * 3 / 4, lim = hurt == SIZE_MAX ? hi : hurt / 4 * 3 + 2;
		if (!enc) hi = lo + (pos % 4 ? pos % 4 - 1 : 0);
		if (o > cap || got + o > (hit ? lim : hi) || (!hit && got + o < lo)) violation("length", "%s (%s), block of %zu: %zu delivered in all after %zu", w, codecs[codec].name, cut[b], got + o, pos);
		if (hit) { check_out(w, out, o < out_per ? o : out_per / 2, og + got); goto end; }
		check_out(w, out + o - (o < out_per ? o : out_per), o < out_per ? o : out_per, og + got + o - (o < out_per ? o : out_per));
		got += o;
	}
	if (enc) {
		char t[8];
		enter("base64_stream_encode_final");
		base64_stream_encode_final(&st, t, &o);
		leave("base64_stream_encode_final");
		uint8_t want[4]; size_t rem = n % 3;
		if (rem) model_encode((const uint8_t *)in + n - rem, rem, want);
		size_t tot = (n + 2) / 3 * 4;
		if (o > 4 || got + o != tot || (rem && o && memcmp(t, want + 4 - o, o))) violation("length", "finalising after %zu bytes: %zu characters in all, not %zu", n, got + o, tot);
	}
end:
	if (P == 3) ((uint8_t *)in)[hurt] = keep;
}
void huge_stream_scenario(void) {
	nontrivial();
	STAT("runs.huge_blocks");
	unsigned op = choose(4);       /* every run does every operation with some codec */
	for (int c = 0; c < ncodecs; c++) {
		if (!codecs[c].available) continue;
		if (c == 0 && choose(2)) continue;
		sched_note(c);
		one(c, op++);
	}
	sim_steps(ncodecs);
}
