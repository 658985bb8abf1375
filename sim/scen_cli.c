/* U01..U08: the command-line tool on a simulated operating system. */
#include "sim.h"
#include "clienv.h"
#include "model.h"
#include "sut.h"
#include "scen.h"
#include <limits.h>
extern int cli0_main(int, char **), cli1_main(int, char **);
#define BIG (3 * 1024 * 1024 + 64)
static uint8_t *data, *text, *exp_, *tmp;
static int U;
void cli_init(void) {
	U = g_prop[2] - '0';
	data = malloc(BIG); text = malloc(BIG * 4); exp_ = malloc(BIG * 4); tmp = malloc(BIG * 4);
	sut_init();
}
/* sizes around the tool's buffers and the C library's */
static uint32_t pick_size(bool enc) {
	uint32_t raw = CLI_RAW, b;
	(void)enc;
	if (raw > 100000) {
		switch (choose(12)) {
		case 0: b = raw * choose_range(1, 2) + choose(9); STAT("runs.buffer_boundary"); return b > 4 ? b - 4 : b;
		case 1: return 4080 + choose(40);
		case 2: return choose_log(60000);
		case 3: case 4: return 300 + choose(1400);
		default: return choose_log(3000);
		}
	}
	switch (choose(5)) {
	case 0: return choose_log(60);
	case 1: b = raw * choose_range(1, 5) + choose(9); return b > 4 ? b - 4 : b;
	case 2: return choose_log(2000);
	case 3: return choose(raw * 3);
	default: return choose_log(400);
	}
}
static void pick_rate(rate_t *r, size_t len, bool eintr) {
	static const uint16_t ks[] = { 2, 3, 4, 5, 7, 8, 16, 19, 23, 24, 31, 33, 48, 63, 64, 76, 77, 100, 1000 };
	memset(r, 0, sizeof *r);
	r->kind = choose(7);
	r->k = ks[choose(19)];
	if (len > 20000) { if (r->kind == 1 || r->kind == 6) r->kind = 5; r->k = r->k * 97 + 1000; }
	if (eintr) switch (choose(4)) { case 0: r->eintr = 0; break; case 1: r->eintr = 2; break; case 2: r->eintr = 6; break; case 3: r->eintr = 12; break; }
	if (len > 20000 && r->eintr > 6) r->eintr = 6;
	if (eintr && chance(1, 6)) r->zero = (1 + choose(6));
	if (eintr && chance(1, 10)) { r->burst_at = choose_log(12); r->burst = 20 + choose_log(3000); }
}
static size_t wrapped(const uint8_t *t, size_t n, uint64_t w, uint8_t *o) {
	size_t k = 0;
	for (size_t i = 0; i < n; i++) { o[k++] = t[i]; if (w && (i + 1) % w == 0) o[k++] = '\n'; }
	if (w && n % w) o[k++] = '\n';
	return k;
}
static uint64_t pick_wrap(void) {
	static const uint32_t ws[] = { 76, 0, 1, 2, 3, 4, 5, 7, 8, 19, 31, 32, 33, 64, 75, 77, 100, 1000, 65536, 2147483647 };
	if (chance(1, 12)) {       /* wider than 32 bits can say */
		static const int64_t wide[] = { 0x80000000, 0xffffffff, 0x100000000, 0x100000001, 0x10000004c, 0x7fffffffffffffff, 0x7fffffff00000008, 0x200000010 };
		STAT("runs.width_beyond_32_bits");
		return (uint64_t)wide[choose(8)];
	}
	return choose(4) ? ws[choose(20)] : 1 + choose_log(200);
}
/* newlines (or garbage) strewn into a text */
static size_t strew(const uint8_t *t, size_t n, uint8_t *o, bool garbage) {
	size_t k = 0; int style = choose(5); uint64_t w = pick_wrap();
	uint32_t den = 1 + choose(20), burst = 1 + choose(3);
	if (n > 20000 && den < 8) den = 8;
	if (garbage && style < 1) style = 3;
	uint32_t limit = n > 20000 ? 400 : 2000;
	/* one stretch that fills whole buffers of the tool */
	size_t long_at = SIZE_MAX; uint32_t long_n = 0;
	if (style > 1 && chance(1, CLI_RAW > 100000 ? 40 : 5)) { long_at = choose((uint32_t)n + 1); long_n = chance(1, 2) ? choose(CLI_RAW * 3) : choose_range(1, 3) * CLI_RAW + choose(5) - 2; STAT("runs.long_stretch"); }
	switch (style) {
	case 0: return wrapped(t, n, w, o);
	case 1: memcpy(o, t, n); if (n > 1 && t[n - 1] == '=' && choose(2)) { memmove(o + n, o + n - 1, 1); o[n - 1] = garbage ? '*' : '\n'; n++; } return n;
	default: break;
	}
	for (size_t i = 0; i <= n; i++) {
		if (i == long_at) { memset(o + k, garbage ? " \n\r*"[choose(4)] : '\n', long_n); k += long_n; }
		bool here = style == 4 ? (i + 6 >= n || i < 3) && chance(1, 2) : limit && chance(1, den);
		if (here) {
			uint32_t c = choose(burst) + 1;
			if (limit) limit--;
			while (c--) {
				if (!garbage) o[k++] = '\n';
				else {
					static const uint8_t g[] = { '\n', '"', '\'', ' ', '\r', '\t', '-', '_', '*', 0, 0xff, 0x80, 0xab, 0xaf, ',', '.', ':', '@', '[', '`', '{', '!', '~', 0x7f };
					uint8_t x = choose(3) ? g[choose(sizeof g)] : (uint8_t)choose(256);
					if (model_value(x) >= 0) x = '\n';
					o[k++] = x;
					STAT("fault.garbage_byte");
				}
			}
		}
		if (i < n) o[k++] = t[i];
	}
	return k;
}
static char *argv_[20]; static char wrapbuf[40];
static int args(bool dec, bool strip, bool ignore, bool wrap_given, uint64_t wrap, const char *file) {
	int n = 0;
	argv_[n++] = "base64";
	bool first = file && chance(1, 8);               /* operands and options in any order */
	if (first) argv_[n++] = (char *)file;
	if (chance(1, 6)) {                               /* all in one word */
		static char w[40]; char *q = w;
		*q++ = '-';
		if (dec) *q++ = 'd'; if (!strip) *q++ = 'n'; if (ignore) *q++ = 'i';
		*q = 0;
		if (wrap_given) sprintf(q, "w%llu", (unsigned long long)wrap);
		if (w[1]) argv_[n++] = w;
		if (file && !first) argv_[n++] = (char *)file;
		argv_[n] = NULL;
		return n;
	}
	int wrap_at = choose(2), style = choose(4);
	for (int turn = 0; turn < 2; turn++) {
		if (wrap_given && turn == wrap_at) {
			snprintf(wrapbuf, sizeof wrapbuf, style == 1 ? "-w%llu" : style == 2 ? "--wrap=%llu" : "%llu", (unsigned long long)wrap);
			if (style == 0 || style == 3) argv_[n++] = style ? "--wrap" : "-w";
			argv_[n++] = wrapbuf;
		}
		if (turn) break;
		if (dec) argv_[n++] = choose(2) ? "--decode" : "-d";
		if (!strip) argv_[n++] = choose(2) ? "--no-strip-newlines" : "-n";
		if (ignore) argv_[n++] = choose(2) ? "--ignore-garbage" : "-i";
	}
	if (file && !first) { if (chance(1, 8)) argv_[n++] = "--"; argv_[n++] = (char *)file; }
	argv_[n] = NULL;
	return n;
}
static void failures(proc_t *p) {
	static const int werr[] = { EIO, ENOSPC, EAGAIN, EPIPE, EFBIG, EDQUOT }, rerr[] = { EIO, EINTR, EAGAIN, EISDIR, ENOMEM, ESTALE }, oerr[] = { ENOENT, EACCES, EMFILE, EINTR }, cerr[] = { EIO, ENOSPC, EDQUOT };
	p->nfail = 1 + choose(2);
	for (int i = 0; i < p->nfail; i++) {
		fail_t *f = &p->fail[i];
		static const uint8_t w[] = { 6, 8, 1, 1, 2 };
		f->kind = choose_w(w, F_KINDS);
		f->at = choose(2) ? choose(4) : choose_log(400);
		f->count = choose(3) == 0 ? 1000000 : choose(2) ? 1 : 1 + choose(5);
		switch (f->kind) {
		case F_READ: f->err = rerr[choose(6)]; break;
		case F_WRITE: f->err = werr[choose(6)]; break;
		case F_CLOSE: f->err = cerr[choose(3)]; f->at = 0; f->count = 1; break;
		case F_MALLOC: f->err = ENOMEM; f->at = choose(3); break;
		default: f->err = oerr[choose(4)]; f->at = 0; break;
		}
		trace_note("fail: %s from operation %u, %u times, errno %d", (const char *[]){ "read", "write", "malloc", "open", "close" }[f->kind], f->at, f->count, f->err);
	}
	if (chance(1, 6)) { p->full_at = 1 + choose_log((uint32_t)(p->expect_len > 1 ? p->expect_len : 1)); trace_note("disk full after %llu bytes", (unsigned long long)p->full_at); }
}
static void budget(proc_t *p) { p->op_budget = 4 * ((uint64_t)p->len + p->expect_len) + 3000; }
static uint8_t bad_byte(void) {
	static const uint8_t bad[] = { '=', '*', '-', '_', ' ', '\r', 0, 0xff, 0x80, '@', '[', '`', '{', '.', ',', '"', 0x8a, '\v', '\f', '\t' };
	return choose(3) ? bad[choose(sizeof bad)] : (uint8_t)choose(256);
}
static size_t damage(uint8_t *t, size_t n) {
	int times = 1 + choose(2);
	while (times-- > 0) {
		size_t p = n ? (choose(2) ? choose((uint32_t)n) : choose(2) ? n - 1 - choose_log((uint32_t)(n > 60 ? 60 : n) - 1 + (n == 0)) : (size_t)CLI_RAW * choose_range(1, 3) % n) : 0, k;
		if (n && p >= n) p = n - 1;
		STAT("fault.damaged_text");
		switch (choose(7)) {
		case 0: if (n) t[p] = bad_byte(); break;
		case 1: if (n) t[p] = '='; break;
		case 2: if (n) t[p] ^= 0x80; break;
		case 3: k = 1 + choose(5); while (k--) t[n++] = choose(2) ? (uint8_t)"Aa0+/Q"[choose(6)] : bad_byte(); break;          /* after the end */
		case 4: if (n) { memmove(t + p + 1, t + p, n - p); t[p] = bad_byte(); n++; } break;
		case 5: if (n) { memmove(t + p, t + p + 1, n - p - 1); n--; } break;
		case 6: k = model_encode((const uint8_t *)"abcd", 1 + choose(4), t + n); n += k; break;                               /* two texts */
		}
		EV("damage", p, n, 0);
	}
	return n;
}
static void one(void) {
	proc_t *p = &proc[0];
	uint32_t n = pick_size(true);
	bool dec = U == 1 ? false : U == 3 ? choose(2) : true, strip = true, ignore = false, wrap_given = chance(3, 4);
	uint64_t wrap = wrap_given ? pick_wrap() : 76; size_t tl;
	if (n > BIG - 64) n = BIG - 64;
	if (dec && CLI_RAW > 100000 && n > 1500000) n -= n / 4;
	fill_data(data, n, choose(DATA_KINDS), choose_u32());
	bool must_fail = false, any_fail = U == 3 || (U == 4 && chance(1, 4));
	if (!dec) {
		tl = model_encode(data, n, text);
		p->data = data; p->len = n;
		p->expect_len = wrapped(text, tl, wrap, exp_); p->expect = exp_;
	} else {
		wrap_given = chance(1, 8);
		tl = model_encode(data, n, tmp);
		ignore = U == 5 || (U != 2 && chance(1, 4)) || (U == 2 && chance(1, 10));
		strip = U == 5 ? chance(7, 8) : !chance(1, 4);
		size_t tn;
		if (U == 4) tl = damage(tmp, tl);
		if (strip || ignore) tn = strew(tmp, tl, text, U == 5 || (ignore && U != 2 && choose(2))); else { memcpy(text, tmp, tl); tn = tl; }
		p->data = text; p->len = tn;
		if (U == 4) {
			dmodel_t m; size_t k = 0;
			/* what counts: the text without what the options skip */
			for (size_t i = 0; i < tn; i++) if (!(ignore ? model_value(text[i]) < 0 : strip && text[i] == '\n')) tmp[k++] = text[i];
			dmodel_init(&m);
			must_fail = !dmodel_feed(&m, tmp, k, exp_);
			p->expect = exp_; p->expect_len = m.hi;
			STATN("probe.damage_detectable", must_fail);
		} else { p->expect = data; p->expect_len = n; }
	}
	static const char *names[] = { NULL, "-", "in.b64", "some file" };
	const char *file = names[choose(4)];
	p->file = file && strcmp(file, "-") ? file : NULL;
	pick_rate(&p->rd, p->len, false); pick_rate(&p->wr, p->expect_len, true);
	{ static const uint16_t bs[] = { 4096, 1024, 512, 128, 32, 65535 }; p->blksize = bs[choose(6)]; }
	env_kinds(p);
	if (any_fail) failures(p);
	budget(p);
	p->argc = args(dec, strip, ignore, wrap_given, wrap, file); p->argv = argv_; p->main = cli0_main;
	char a[300] = ""; for (int i = 0; i < p->argc; i++) { strcat(a, argv_[i]); strcat(a, " "); }
	trace_note("%s: %zu bytes in, %zu expected; reads kind %d/%u, writes kind %d/%u eintr %u/16", a, p->len, p->expect_len, p->rd.kind, p->rd.k, p->wr.kind, p->wr.k, p->wr.eintr);
	EV("input", p->len, p->expect_len, (uint64_t)dec << 8 | strip << 4 | ignore);
	sched_config(POL_RANDOM, 0, 0);
	task_spawn(proc_main, p);
	tasks_run();
	cover(((uint64_t)p->status << 60) ^ mix64(p->nth[0] * 64 + p->nth[1]) >> 8);
	if (U == 1 || U == 2) env_mem_check();
	STATN("probe.exit_nonzero", p->status != 0); STATN("probe.exit_zero", p->status == 0);
	if (p->status && !p->errbytes) violation("silent-failure", "the tool exited %d without a message on standard error", p->status);
	if (U == 4) {
		if (must_fail && p->status == 0) violation("damage-accepted", "damaged text of %zu characters was accepted (exit 0)", p->len);
		return;
	}
	if (!p->err_injected && p->status) violation(U == 3 ? "spurious-failure" : "exit-status", "the tool exited %d although nothing failed: %s", p->status, p->errtext);
	if (p->status == 0 && p->close_failed) violation("false-success", "the tool exited 0 although the output device reported an error when it was closed");
	if (p->status == 0 && p->out != p->expect_len) violation(U == 3 ? "false-success" : "output", "the tool exited 0 after writing %zu of %zu bytes", p->out, p->expect_len);
}
/* ---- U07: what a command line means, against a small model of it */
enum { O_RUN, O_HELP, O_REJECT, O_EITHER };
typedef struct { int kind; bool dec, strip, ignore, either; uint64_t wrap; const char *operand; int operands; const char *why; } meaning_t;
static int width(const char *v, uint64_t *w) {          /* 1 valid, 0 not, -1 no opinion */
	const char *q = v; uint64_t n = 0; bool over = false;
	while (*q == ' ' || (*q >= 9 && *q <= 13)) q++;
	bool odd = q != v, minus = *q == '-';
	if (*q == '+' || *q == '-') { odd = true; q++; }
	if (*q < '0' || *q > '9') return 0;
	bool zero = true;
	for (; *q >= '0' && *q <= '9'; q++) { if (*q != '0') zero = false; if (n > LLONG_MAX / 10 || (n == LLONG_MAX / 10 && *q - '0' > LLONG_MAX % 10)) over = true; else n = n * 10 + (uint64_t)(*q - '0'); }
	if (*q) return 0;
	if (minus && !zero) return 0;
	*w = n;
	return over || odd ? -1 : 1;
}
static meaning_t meaning(int argc, char **argv) {
	static const struct { const char *name; char c; } longs[] = { { "decode", 'd' }, { "help", 'h' }, { "ignore-garbage", 'i' }, { "no-strip-newlines", 'n' }, { "wrap", 'w' } };
	meaning_t m = { O_RUN, false, true, false, false, 76, NULL, 0, "" };
	bool rest = false; int late = 0;
	for (int i = 1; i < argc; i++) {
		char *a = argv[i];
		if (rest || a[0] != '-' || !a[1]) { m.operands++; m.operand = a; continue; }
		if (!strcmp(a, "--")) { rest = true; continue; }
		char todo[200]; int k = 0; const char *val = NULL; bool bad = false, missing = false;
		if (a[1] == '-') {
			size_t nl = strcspn(a + 2, "="); int f = -1;
			for (int j = 0; j < 5; j++) if (strlen(longs[j].name) == nl && !strncmp(longs[j].name, a + 2, nl)) f = j;
			if (f < 0) { bad = true; for (int j = 0; j < 5; j++) if (!strncmp(longs[j].name, a + 2, nl)) { m.either = true; } }       /* abbreviations: no opinion */
			else {
				todo[k++] = longs[f].c;
				if (longs[f].c == 'w') { if (a[2 + nl]) val = a + 3 + nl; else if (i + 1 < argc) val = argv[++i]; else missing = true; }
				else if (a[2 + nl]) bad = true;
			}
		} else for (char *c = a + 1; *c && !bad; c++) {
			if (!strchr("dhinw", *c)) { bad = true; break; }
			todo[k++] = *c;
			if (*c == 'w') { if (c[1]) val = c + 1; else if (i + 1 < argc) val = argv[++i]; else missing = true; break; }
		}
		for (int j = 0; j < k; j++) {
			switch (todo[j]) {
			case 'd': m.dec = true; break;
			case 'i': m.ignore = true; break;
			case 'n': m.strip = false; break;
			case 'h': if (!late) late = O_HELP; else if (late == O_REJECT) m.either = true; break;
			case 'w': {
				uint64_t w = 0; int ok = missing ? 0 : width(val, &w);
				if (ok < 0) m.either = true;
				if (ok > 0) m.wrap = w;
				if (!ok) { if (late == O_HELP) m.either = true; else late = O_REJECT; m.why = missing ? "an option without its argument" : "a wrap width that is not one"; }
				break; }
			}
		}
		if (bad) { if (late == O_HELP) m.either = true; else late = O_REJECT; m.why = "an unknown option"; }
	}
	if (late == O_HELP) m.kind = O_HELP;
	if (late == O_REJECT) m.kind = O_REJECT;
	if (m.operands > 1) { if (late == O_HELP) ; else { m.kind = O_REJECT; m.why = "more than one operand"; } }
	if (m.either) m.kind = O_EITHER;
	if (m.operand && !strcmp(m.operand, "-")) m.operand = NULL;
	return m;
}
static char argbuf[16][48];
static void words(proc_t *p, const char *good) {
	static const char *widths[] = { "0", "1", "4", "76", "77", "10", "007", "64", "", "-1", "x", "7x", "0x10", "1.5", "-", "1e3", "-76", "12,", "+5", " 8", "9 ", "99999999999999999999", "7-", "/", "2147483648", "-d", "--" };
	static const char *shorts[] = { "-d", "-i", "-n", "-di", "-dn", "-ni", "-din", "-nid", "-dd", "-D", "-x", "-dx", "-W", "-d=", "-1", "-?", "-:", "-dxi", "-e" };
	static const char *longs[] = { "--decode", "--ignore-garbage", "--no-strip-newlines", "--decoder", "--encode", "--version", "--decode=1", "--no-strip-newline", "--strip-newlines", "--ignore-garbage=", "--help=", "--=", "--wrapped=3" };
	int n = 0, k = choose(6);
	static char *names[] = { "base64", "/usr/local/bin/base64", "b", "" };
	argv_[n++] = names[choose(4)];
	bool tidy = choose(2);                              /* mostly well-formed */
	while (k-- > 0 && n < 10) {
		char *b = argbuf[n];
		const char *w = widths[choose(tidy ? 8 : 27)]; char wb[32];
		if (chance(1, 3)) { snprintf(wb, sizeof wb, "%s%llu", (const char *[]){ "", "", "0", "000" }[choose(4)], (unsigned long long)pick_wrap()); w = wb; }
		switch (choose(tidy ? 11 : 13)) {
		case 0: case 1: case 2: strcpy(b, shorts[choose(tidy ? 9 : 19)]); break;
		case 3: case 4: strcpy(b, longs[choose(tidy ? 3 : 13)]); break;
		case 5: snprintf(b, 48, "-w%s", w); break;
		case 6: snprintf(b, 48, "--wrap=%s", w); break;
		case 7: strcpy(b, choose(2) ? "-w" : "--wrap"); if (tidy || choose(6)) { argv_[n++] = b; b = argbuf[n]; strcpy(b, w); } break;
		case 8: snprintf(b, 48, "-%s%sw%s", choose(2) ? "d" : "", choose(2) ? "i" : "", w); break;
		case 9: if (choose(3)) { k++; if (choose(4)) k--; } strcpy(b, "-d"); break;
		case 10: if (choose(2)) strcpy(b, "-d"); else { static const char *h[] = { "-h", "--help", "-dh", "-ih" }; strcpy(b, h[choose(4)]); } break;
		case 11: strcpy(b, "--"); break;
		case 12: strcpy(b, choose(3) ? "other" : choose(2) ? "-" : ""); break;
		}
		argv_[n++] = b;
	}
	/* the operand: before, between or after the options */
	if (choose(3)) {
		char *b = argbuf[n], *at = b; int pos = choose(2) ? n : 1 + choose(n);
		strcpy(b, good);
		if (good[0] == '-' && good[1]) { pos = n; argv_[n++] = "--"; pos = n; }
		for (int i = n; i > pos; i--) argv_[i] = argv_[i - 1];
		argv_[pos] = at; n++;
		if (!tidy && chance(1, 8)) argv_[n++] = (char *)good;
	}
	argv_[n] = NULL; p->argc = n; p->argv = argv_; p->main = cli0_main;
}
static void tool(proc_t *p) { sched_config(POL_RANDOM, 0, 0); task_spawn(proc_main, p); tasks_run(); }
static void cmdline(void) {
	proc_t *p = &proc[0];
	static const char *names[] = { "in.b64", "-", "some file", "-w", "--help", "-d", "76", "decode" };
	const char *good = names[choose(8)], *file = strcmp(good, "-") ? good : NULL;
	words(p, good);
	meaning_t m = meaning(p->argc, p->argv);
	char a[600] = ""; for (int i = 1; i < p->argc; i++) { strcat(a, "'"); strcat(a, p->argv[i]); strcat(a, "' "); }
	p->file = m.operand && file && !strcmp(m.operand, file) ? file : NULL;
	bool absent = m.kind == O_RUN && m.operand && !p->file;
	uint32_t n = pick_size(true), seed = choose_u32(); if (n > 300000) n = 3000;
	fill_data(data, n, choose(DATA_KINDS), seed);
	size_t tl; bool must_fail = false;
	if (!m.dec) {
		/* input that looks encoded, or not */
		p->data = data; p->len = n;
		tl = model_encode(data, n, text);
		p->expect_len = wrapped(text, tl, m.wrap, exp_);
	} else {
		tl = model_encode(data, n, tmp);
		size_t tn = choose(4) ? strew(tmp, tl, text, choose(3) == 0) : (memcpy(text, tmp, tl), tl), k = 0;
		p->data = text; p->len = tn;
		for (size_t i = 0; i < tn; i++) if (!(m.ignore ? model_value(text[i]) < 0 : m.strip && text[i] == '\n')) tmp[k++] = text[i];
		dmodel_t dm; dmodel_init(&dm);
		must_fail = !dmodel_feed(&dm, tmp, k, exp_);
		p->expect_len = dm.hi;
	}
	p->expect = exp_;
	trace_note("base64 %s: %s; %zu bytes in, %zu expected", a, (const char *[]){ "runs", "help", "rejected", "no opinion" }[m.kind], p->len, p->expect_len);
	EV("meaning", m.kind, p->len, p->expect_len);
	cover((uint64_t)m.kind | m.dec << 3 | m.strip << 4 | m.ignore << 5 | (uint64_t)m.wrap << 8 | (uint64_t)p->argc << 50);
	if (p->argc > 1) nontrivial();
	if (m.kind == O_HELP) {
		static char whole[8192];
		p->any_out = true; budget(p); p->op_budget += 9000;
		proc_t q = *p;
		tool(p);
		if (p->status) violation("help", "asked for help (%s), the tool exited %d", a, p->status);
		static const char *must[] = { "--decode", "--help", "--ignore-garbage", "--no-strip-newlines", "--wrap", "-d", "-h", "-i", "-n", "-w" };
		memcpy(whole, p->help, sizeof whole); size_t wl = p->out;
		for (int i = 0; i < 10; i++) if (!strstr(whole, must[i])) violation("help", "the help text does not mention %s", must[i]);
		if (p->nth[F_READ]) violation("input-consumed", "asked for help (%s), the tool read its input", a);
		STAT("probe.help");
		*p = q;
		pick_rate(&p->wr, wl, false);
		p->expect_len = wl; failures(p); p->op_budget += 9000;
		tool(p);
		if (p->out > wl || memcmp(p->help, whole, p->out < sizeof whole ? p->out : sizeof whole)) violation("help", "the help text differs when writing is difficult");
		if (p->status == 0 && p->out != wl) violation("false-success", "the tool exited 0 after writing %zu of %zu bytes of its help text", p->out, wl);
		if (p->status && !p->err_injected) violation("help", "asked for help (%s), the tool exited %d", a, p->status);
		if (p->status && !p->errbytes) violation("silent-failure", "the tool exited %d without a message on standard error", p->status);
		return;
	}
	if (m.kind == O_EITHER) p->any_out = true;
	pick_rate(&p->rd, p->len, false); pick_rate(&p->wr, p->expect_len, true);
	{ static const uint16_t bs[] = { 4096, 512, 64 }; p->blksize = bs[choose(3)]; }
	env_kinds(p);
	if (chance(1, 10)) failures(p);
	budget(p); if (m.kind == O_EITHER) p->op_budget += 8 * p->len + 20000;
	tool(p);
	if (p->status && !p->errbytes) violation("silent-failure", "the tool exited %d without a message on standard error", p->status);
	if (m.kind == O_EITHER) { STAT("probe.no_opinion"); return; }
	if (m.kind == O_REJECT || absent) {
		const char *why = absent ? "a file that is not there" : m.why;
		if (p->status == 0) violation("accepted", "base64 %s was accepted (exit 0) in spite of %s", a, why);
		if (p->out) violation("accepted", "base64 %s produced output in spite of %s", a, why);
		if (p->nth[F_READ] || p->decoy) violation("input-consumed", "base64 %s read its input in spite of %s", a, why);
		STAT("probe.rejected");
		return;
	}
	STAT("probe.accepted");
	if (p->decoy) violation("wrong-input", "base64 %s read standard input", a);
	if (p->status == 0 && must_fail) violation("damage-accepted", "base64 %s accepted text with characters it must not skip", a);
	if (p->status == 0 && p->close_failed) violation("false-success", "the tool exited 0 although the output device reported an error when it was closed");
	if (p->status == 0 && p->out != p->expect_len) violation("output", "base64 %s exited 0 after writing %zu of %zu bytes", a, p->out, p->expect_len);
	if (p->status && !p->err_injected && !must_fail) violation("exit-status", "base64 %s exited %d although nothing failed: %s", a, p->status, p->errtext);
}
/* far more than the tool's buffers, far less than the input */
static void limits(proc_t *p) {
	p->blocks_limit = 64;
	p->held_limit = 2000000 + 32ull * CLI_RAW;
	p->lag_limit = 600000 + 2 * 65536 + 16ull * CLI_RAW;
}
/* U01, U02, U08 on more than 4 GiB: input and expected output repeat. */
static void gigabytes(void) {
	proc_t *p = &proc[0];
	static const uint32_t raws[] = { 57, 75, 0, 57, 22800, 48 };
	uint32_t raw = raws[choose(6)], per = 22800u * (46 + choose(3)), rest = 0;
	uint64_t wrap = raw / 3 * 4; size_t tl, el;
	bool dec = U == 8 ? choose(2) : U == 2, ignore = false, strip = true;
	fill_random(data, per, choose_u32());
	tl = model_encode(data, per, text);
	el = wrapped(text, tl, wrap, exp_);
	/* both sides go beyond 4 GiB */
	uint64_t times = (0x100000000ull + choose(0x1000000)) / per + 1;
	if (!dec && choose(4)) {              /* any width, also lines of gigabytes, and any length */
		static const uint64_t far[] = { 0x7fffffff, 0x80000000, 0xb2d05e00, 0xffffffff, 0x100000000, 0x10000004c, 0x7fffffffffffffff, 0x80000001 };
		wrap = choose(3) ? far[choose(8)] : pick_wrap();
		if (wrap && wrap < 16) wrap += 16;
		rest = choose(per);
		uint64_t t;
		p->hlen = (uint64_t)per * times + rest;
		t = (p->hlen + 2) / 3 * 4;
		p->per_in = per; p->data = data; p->expect = text; p->per_exp = tl;
		p->htext = (uint64_t)tl * times; p->htail = exp_; model_encode(data, rest, exp_);
		p->hwrap = wrap ? wrap : 1ull << 63; p->hexpect = t + (wrap ? t / wrap + (t % wrap != 0) : 0);
		if (!wrap) p->hexpect = t;
		STAT("runs.any_width_beyond_4_GiB");
	} else {
		p->per_in = dec ? el : per; p->data = dec ? exp_ : data;
		p->per_exp = dec ? per : el; p->expect = dec ? data : exp_;
		p->hlen = p->per_in * times; p->hexpect = p->per_exp * times;
	}
	if (dec) { ignore = chance(1, 3); strip = wrap ? true : choose(2); }
	p->rd.kind = choose(2) ? 0 : 5; p->wr.kind = choose(2) ? 0 : 2; p->wr.k = 70001;
	env_kinds(p);
	p->blksize = 65535; p->op_budget = p->hlen / 64 + p->hexpect / 64;
	p->argc = args(dec, strip, ignore, !dec, wrap, NULL); p->argv = argv_; p->main = cli0_main;
	trace_note("%llu bytes in, %llu expected, wrap %llu", (unsigned long long)p->hlen, (unsigned long long)p->hexpect, (unsigned long long)wrap);
	EV("input", p->hlen, p->hexpect, wrap);
	STAT("runs.beyond_4_GiB"); nontrivial();
	if (U == 8) limits(p);
	tool(p);
	if (p->status) violation("exit-status", "the tool exited %d although nothing failed: %s", p->status, p->errtext);
	if (p->hout != p->hexpect) violation("output", "the tool exited 0 after writing %llu of %llu bytes", (unsigned long long)p->hout, (unsigned long long)p->hexpect);
}
/* U08: what the tool keeps does not grow with its input */
static void bounded(void) {
	proc_t *p = &proc[0];
	bool dec = choose(2), strip = true, ignore = false, wrap_given = chance(3, 4);
	uint32_t n = 900000 + choose_log(1500000);
	uint64_t wrap = wrap_given ? pick_wrap() : 76; size_t tl, tn = 0;
	fill_data(data, n, choose(DATA_KINDS), choose_u32());
	if (!dec) {
		tl = model_encode(data, n, text);
		p->data = data; p->len = n;
		p->expect_len = wrapped(text, tl, wrap, exp_); p->expect = exp_;
	} else {
		wrap_given = chance(1, 8);
		tl = model_encode(data, n, tmp);
		ignore = choose(2);
		switch (choose(3)) {
		case 0: strip = !ignore; memcpy(text, tmp, tn = tl); break;
		case 1: tn = wrapped(tmp, tl, wrap ? wrap : 76, text); break;
		default: {      /* noise all over */
			uint32_t every = 1 + choose(40), many = 1 + choose_log(tl < 1000000 ? 5 : 2);
			while (tl + tl / every * many > BIG * 3) many = 1, every *= 2;
			for (size_t i = 0; i < tl; i++) { text[tn++] = tmp[i]; if (i % every == 0) for (uint32_t j = 0; j < many; j++) text[tn++] = ignore ? (uint8_t)" \n\r*-_"[(i + j) % 6] : '\n'; }
			STAT("fault.garbage_byte");
			break; }
		}
		p->data = text; p->len = tn; p->expect = data; p->expect_len = n;
	}
	const char *file = (const char *[]){ NULL, "-", "in.b64" }[choose(3)];
	p->file = file && strcmp(file, "-") ? file : NULL;
	pick_rate(&p->rd, p->len, false); pick_rate(&p->wr, p->expect_len, true);
	{ static const uint16_t bs[] = { 4096, 1024, 512, 65535 }; p->blksize = bs[choose(4)]; }
	env_kinds(p);
	limits(p);
	budget(p);
	p->argc = args(dec, strip, ignore, wrap_given, wrap, file); p->argv = argv_; p->main = cli0_main;
	char a[300] = ""; for (int i = 0; i < p->argc; i++) { strcat(a, argv_[i]); strcat(a, " "); }
	trace_note("%s: %zu bytes in, %zu expected; at most %llu bytes in %u allocations, %llu bytes of output held back", a, p->len, p->expect_len, (unsigned long long)p->held_limit, p->blocks_limit, (unsigned long long)p->lag_limit);
	EV("input", p->len, p->expect_len, (uint64_t)dec << 8 | strip << 4 | ignore);
	tool(p);
	EV("kept", p->held_max, p->blocks_max, p->lag_max);
	cover(p->blocks_max | (uint64_t)p->held_max << 8);
	env_mem_check();
	if (p->status) violation("exit-status", "the tool exited %d although nothing failed: %s", p->status, p->errtext);
	if (p->out != p->expect_len) violation("output", "the tool exited 0 after writing %zu of %zu bytes", p->out, p->expect_len);
}
static void pair(void) {
	proc_t *e = &proc[0], *d = &proc[1];
	uint32_t n = pick_size(true); if (n > 200000) n = CLI_RAW + choose(100);
	static const uint32_t caps[] = { 65536, 4096, 1, 2, 3, 5, 7, 16, 64, 100, 512 };
	fill_data(data, n, choose(DATA_KINDS), choose_u32());
	uint64_t wrap = pick_wrap(); size_t tl = model_encode(data, n, text);
	e->data = data; e->len = n; e->expect_len = wrapped(text, tl, wrap, exp_); e->expect = exp_; e->pipe_out = true;
	d->len = e->expect_len; d->expect = data; d->expect_len = n; d->pipe_in = true;
	uint32_t cap = caps[choose(11)]; if (n > 20000 && cap < 4096) cap = 4096;
	env_pipe_cap(cap);
	pick_rate(&e->rd, e->len, false); pick_rate(&e->wr, e->expect_len, true);
	pick_rate(&d->rd, d->len, false); pick_rate(&d->wr, d->expect_len, true);
	{ static const uint16_t bs[] = { 4096, 512, 64, 32 }; e->blksize = bs[choose(4)]; d->blksize = bs[choose(4)]; }
	env_kinds(e); env_kinds(d);
	e->sigpipe_ignored = choose(2); d->sigpipe_ignored = choose(2);
	budget(e); budget(d);
	int death = choose(3);
	if (death) {
		proc_t *v = death == 1 ? e : d;
		v->die_at = 1 + (choose(2) ? choose(6) : choose_log((uint32_t)(v->len < 300 ? 300 : 1000)));
		v->die_part = choose(5);
	}
	static char *ea[6], *da[6]; static char wb[24];
	snprintf(wb, sizeof wb, "%llu", (unsigned long long)wrap);
	ea[0] = "base64"; ea[1] = "-w"; ea[2] = wb; ea[3] = NULL; e->argc = 3; e->argv = ea; e->main = cli0_main;
	bool ig = chance(1, 4);
	da[0] = "base64"; da[1] = "-d"; da[2] = ig ? "-i" : NULL; da[3] = NULL; d->argc = ig ? 3 : 2; d->argv = da; d->main = cli1_main;
	trace_note("pipe of %u bytes, %u bytes of input, wrap %llu; %s dies at operation %llu; SIGPIPE %s", cap, n, (unsigned long long)wrap, death == 0 ? "nobody" : death == 1 ? "encoder" : "decoder", (unsigned long long)(death == 1 ? e->die_at : d->die_at), e->sigpipe_ignored ? "ignored" : "fatal");
	EV("pair", n, cap, death);
	sched_config((enum pol)choose(3), 0, 0);
	nontrivial();
	task_spawn(proc_main, e); task_spawn(proc_main, d);
	tasks_run();
	cover((uint64_t)e->status << 8 | d->status | (uint64_t)e->dead << 16 | (uint64_t)d->dead << 17 | (uint64_t)cap << 20 | (uint64_t)(e->out % 64) << 48);
	if (!e->dead && e->status == 0 && e->out != e->expect_len) violation("false-success", "the encoder exited 0 after writing %zu of %zu characters", e->out, e->expect_len);
	if (!e->dead && !d->dead) {
		if (e->status || d->status) violation("exit-status", "undisturbed pipeline: encoder exits %d, decoder exits %d", e->status, d->status);
		if (d->out != n) violation("output", "undisturbed pipeline delivered %zu of %u bytes", d->out, n);
		STAT("probe.pipeline_complete");
	} else if (!d->dead && e->out == e->expect_len && d->status == 0 && d->out != n) violation("output", "the decoder had the whole text and exited 0 after delivering %zu of %u bytes", d->out, n);
	if (d->dead && !e->dead && e->status && !e->errbytes) violation("silent-failure", "the encoder exited %d without a message", e->status);
	if (d->dead) STAT("probe.decoder_died"); if (e->dead && !e->killed_by_sigpipe) STAT("probe.encoder_died"); if (e->killed_by_sigpipe) STAT("probe.encoder_killed_by_sigpipe");
}
void cli_scenario(void) {
	env_reset();
	nproc = CLI_PAIR ? 2 : 1;
	if (CLI_PAIR) pair(); else if (CLI_HUGE) gigabytes(); else if (U == 7) cmdline(); else if (U == 8) bounded(); else one();
}
#if !CLI_PAIR
int cli1_main(int c, char **v) { (void)c; (void)v; return 1; }
#endif
