#include "clienv.h"
#include <sys/uio.h>
#include <sys/stat.h>
#include <stdio_ext.h>
#include <fcntl.h>
#include <signal.h>
#include <setjmp.h>
#include <poll.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <time.h>
proc_t proc[2]; int nproc;
FILE *cli0_stdin, *cli0_stdout, *cli0_stderr, *cli1_stdin, *cli1_stdout, *cli1_stderr;
static jmp_buf exit_jb[2];
static struct { uint8_t *buf; uint32_t cap, n, head; bool wclosed, rclosed; } pipe_;
typedef struct blk { struct blk *next; size_t n; int who; bool freed; } blk_t;
#define SLACK 256
#define RAW(b) ((uint8_t *)(b) + sizeof(blk_t))
static blk_t *blocks;
static int filefd[2];

static proc_t *cur(void) { int t = task_self(); return &proc[t >= 0 && t < 2 ? t : 0]; }
static int who(proc_t *p) { return (int)(p - proc); }

/* ---- memory */
static uint8_t canary(size_t i) { return (uint8_t)(0x5b ^ i * 31); }
static void blk_check(blk_t *b) {
	uint8_t *r = RAW(b);
	for (size_t i = 0; i < SLACK; i++) {
		if (r[i] != canary(i)) violation("memory", "the tool wrote %zu bytes before an allocation of %zu", SLACK - i, b->n);
		if (r[SLACK + b->n + i] != canary(i)) violation("memory", "the tool wrote %zu bytes beyond an allocation of %zu", i + 1, b->n);
	}
	if (b->freed) for (size_t i = 0; i < b->n; i++) if (r[SLACK + i] != 0xDD) violation("memory", "the tool wrote to memory it had freed");
}
static void took(proc_t *p, size_t n) {
	p->held += n; p->blocks++;
	if (p->held > p->held_max) p->held_max = p->held;
	if (p->blocks > p->blocks_max) p->blocks_max = p->blocks;
	uint64_t in = p->per_in ? p->hin : p->pos;
	if (p->blocks_limit && p->blocks > p->blocks_limit) violation("memory-growth", "the tool has %u allocations in use after reading %llu bytes", p->blocks, (unsigned long long)in);
	if (p->held_limit && p->held > p->held_limit) violation("memory-growth", "the tool has %llu bytes of memory in use after reading %llu bytes", (unsigned long long)p->held, (unsigned long long)in);
}
static void gave(size_t n, int w) { proc[w].held -= n; proc[w].blocks--; }
/* before more is read: what was read has been written, up to a fixed amount */
static void lag(proc_t *p) {
	uint64_t in = p->per_in ? p->hin : p->pos > p->seen ? p->pos : p->seen, len = p->per_in ? p->hlen : p->len, out = p->per_in ? p->hout : p->out, exp = p->per_in ? p->hexpect : p->expect_len;
	uint64_t due = len ? (uint64_t)((double)exp * (double)in / (double)len) : 0;
	if (due <= out) return;
	if (due - out > p->lag_max) p->lag_max = due - out;
	if (p->lag_limit && due - out > p->lag_limit) violation("holds-back", "the tool has read %llu bytes, whose output is %llu bytes, and asks for more with only %llu bytes written", (unsigned long long)in, (unsigned long long)due, (unsigned long long)out);
}
static void *grab(proc_t *p, size_t n) {
	blk_t *b = malloc(sizeof *b + n + 2 * SLACK);
	if (!b) sim_error("out of memory");
	b->n = n; b->who = who(p); b->freed = false; b->next = blocks; blocks = b;
	took(p, n);
	uint8_t *r = RAW(b);
	for (size_t i = 0; i < SLACK; i++) r[i] = r[SLACK + n + i] = canary(i);
	memset(r + SLACK, 0xA7, n);
	return r + SLACK;
}
static int failing(proc_t *p, int kind) {
	uint64_t n = p->nth[kind]++;
	for (int i = 0; i < p->nfail; i++) {
		fail_t *f = &p->fail[i];
		if (f->kind == kind && n >= f->at && n - f->at < f->count) {
			static const char *names[] = { "fault.read_error", "fault.write_error", "fault.allocation_failure", "fault.open_failure", "fault.close_failure" };
			static int ids[F_KINDS]; if (!ids[kind]) ids[kind] = stat_id(names[kind]) + 1;
			stat_val[ids[kind] - 1]++;
			p->injected++; p->err_injected = true; nontrivial();
			EV("fail", kind, n, f->err);
			return f->err;
		}
	}
	return 0;
}
void *cli_malloc(size_t n) {
	proc_t *p = cur(); int e = failing(p, F_MALLOC);
	EV("malloc", who(p), n, e);
	if (e) { errno = e; return NULL; }
	return grab(p, n);
}
void cli_free(void *q) {
	if (!q) return;
	for (blk_t **at = &blocks, *b; (b = *at); at = &b->next) if (RAW(b) + SLACK == (uint8_t *)q) {
		if (b->freed) violation("memory", "the tool freed the same memory twice");
		blk_check(b);
		gave(b->n, b->who);
		if (b->n > 100000) { *at = b->next; free(b); return; }        /* big ones are not kept to see who writes to them */
		memset(q, 0xDD, b->n); b->freed = true;
		return;
	}
	violation("memory", "the tool freed memory it had not allocated");
}
void *cli_calloc(size_t a, size_t b) { void *q = cli_malloc(a * b); if (q) memset(q, 0, a * b); return q; }
void *cli_realloc(void *o, size_t n) {
	void *q = cli_malloc(n);
	if (q && o) for (blk_t *b = blocks; b; b = b->next) if (RAW(b) + SLACK == (uint8_t *)o) { memcpy(q, o, b->n < n ? b->n : n); cli_free(o); break; }
	return q;
}
void *cli_reallocarray(void *o, size_t a, size_t b) { return cli_realloc(o, a * b); }
void *cli_aligned_alloc(size_t a, size_t n) { (void)a; return cli_malloc(n); }
int cli_posix_memalign(void **o, size_t a, size_t n) { (void)a; void *q = cli_malloc(n); if (!q) return ENOMEM; *o = q; return 0; }

/* ---- operations */
static bool pipe_readable(void *x) { (void)x; return pipe_.n || pipe_.wclosed; }
static bool pipe_writable(void *x) { (void)x; return pipe_.n < pipe_.cap || pipe_.rclosed; }
static void die(proc_t *p) {
	if (p->dead) return;
	p->dead = true;
	STAT("fault.process_killed"); nontrivial();
	EV("killed", who(p), p->ops, 0);
	if (p->pipe_out) pipe_.wclosed = true;
	if (p->pipe_in) pipe_.rclosed = true;
}
static bool op(proc_t *p, const char *what) {          /* false: the process is dead, pretend */
	if (p->dead) { if (++p->ops > 50 * p->op_budget + 100000) violation("hang", "dead process"); return false; }
	if (nproc > 1) task_yield(what);
	sim_steps(1);
	if (++p->ops > p->op_budget) violation("no-progress", "the tool made %llu I/O operations for %zu bytes of input and %zu of output (%llu interruptions or failures)", (unsigned long long)p->ops, p->len, p->expect_len, (unsigned long long)p->injected);
	return true;
}
static size_t how_much(rate_t *r, size_t n) {
	size_t k = n;
	if (n <= 1) return n;
	switch (r->kind) {
	case 0: break;
	case 1: k = 1; break;
	case 2: k = r->k; break;
	case 3: k = 1 + choose(r->k); break;
	case 4: k = choose_log((uint32_t)(n > 100000 ? 100000 : n)); if (n > 40000) k += 4000; break;
	case 5: if (chance(1, 4)) k = n - 1 - choose((uint32_t)(n - 1)); break;
	case 6: k = choose(2) ? n - 1 : 1 + choose(4); break;
	}
	if (k < 1) k = 1;
	return k > n ? n : k;
}
static ssize_t os_read(proc_t *p, void *buf, size_t n) {
	int e;
	if (!op(p, "read")) return 0;
	if (p->die_at && p->ops >= p->die_at) { die(p); return 0; }
	if ((e = failing(p, F_READ))) { EV("read-error", who(p), e, 0); errno = e; return -1; }
	if (!n) return 0;
	lag(p);
	size_t k, avail;
	if (p->per_in) {
		avail = p->hlen - p->hin < n ? (size_t)(p->hlen - p->hin) : n;
		size_t at = (size_t)(p->hin % p->per_in);
		if (avail > p->per_in - at) avail = p->per_in - at;
		k = how_much(&p->rd, avail);
		memcpy(buf, p->data + at, k);
		p->hin += k;
		EV("read", who(p), n, k);
		return (ssize_t)k;
	}
	if (p->pipe_in) {
		if (!pipe_.n && !pipe_.wclosed) { STAT("pipe.read_blocks"); task_wait(pipe_readable, p, "empty pipe"); }
		if (p->die_at && p->ops >= p->die_at) { die(p); return 0; }
		if (!pipe_.n) { EV("read-eof", who(p), 0, 0); return 0; }
		k = avail = pipe_.n < n ? pipe_.n : n;
		k = how_much(&p->rd, k);
		for (size_t i = 0; i < k; i++) ((uint8_t *)buf)[i] = pipe_.buf[(pipe_.head + i) % pipe_.cap];
		pipe_.head = (pipe_.head + k) % pipe_.cap; pipe_.n -= k;
	} else if (p->back) {                /* it went back to before where it was to begin */
		k = avail = (size_t)-p->back < n ? (size_t)-p->back : n;
		k = how_much(&p->rd, k);
		for (size_t i = 0; i < k; i++) ((uint8_t *)buf)[i] = (uint8_t)"c2tpcHBlZCE="[((size_t)(p->skip + p->back) + i) % 12];
		p->back += (int64_t)k;
	} else {
		k = avail = p->len - p->pos < n ? p->len - p->pos : n;
		k = how_much(&p->rd, k);
		memcpy(buf, p->data + p->pos, k);
		p->pos += k;
	}
	if (k < avail) { STAT("fault.short_read"); nontrivial(); }
	EV("read", who(p), n, k);
	sched_note(0x100000000ull + k);
	cover((uint64_t)(p->pos % 48) << 32 | (k < 64 ? k : 64));
	return (ssize_t)k;
}
static void accept(proc_t *p, const uint8_t *b, size_t n) {
	if (p->per_exp) {                    /* a stream of gigabytes */
		if (p->hwrap) {
			for (size_t i = 0; i < n; ) {
				uint64_t line = p->hout / (p->hwrap + 1), in = p->hout % (p->hwrap + 1), t = line * p->hwrap + in;
				if (p->hout >= p->hexpect) violation("output", "the tool wrote more than the %llu bytes of the correct output", (unsigned long long)p->hexpect);
				if (in == p->hwrap || (p->hout == p->hexpect - 1 && p->hwrap != 1ull << 63)) {
					if (b[i] != '\n') violation("output", "byte %llu of %llu is not a newline", (unsigned long long)p->hout, (unsigned long long)p->hexpect);
					i++; p->hout++; continue;
				}
				bool tail = t >= p->htext;
				size_t at = tail ? (size_t)(t - p->htext) : (size_t)(t % p->per_exp), k = n - i;
				if (!tail && k > p->per_exp - at) k = p->per_exp - at;
				if (!tail && k > p->htext - t) k = (size_t)(p->htext - t);
				if (k > p->hwrap - in) k = (size_t)(p->hwrap - in);
				uint64_t stop = p->hexpect - (p->hwrap != 1ull << 63) - p->hout;
				if (k > stop) k = (size_t)stop;
				if (memcmp(b + i, (tail ? p->htail : p->expect) + at, k)) violation("output", "output differs at or after byte %llu of %llu", (unsigned long long)p->hout, (unsigned long long)p->hexpect);
				i += k; p->hout += k;
			}
			return;
		}
		if (p->hout + n > p->hexpect) violation("output", "the tool wrote more than the %llu bytes of the correct output", (unsigned long long)p->hexpect);
		for (size_t i = 0; i < n; ) {
			size_t at = (size_t)(p->hout % p->per_exp), k = p->per_exp - at < n - i ? p->per_exp - at : n - i;
			if (memcmp(b + i, p->expect + at, k)) violation("output", "output differs at or after byte %llu of %llu", (unsigned long long)p->hout, (unsigned long long)p->hexpect);
			i += k; p->hout += k;
		}
		return;
	}
	if (p->any_out) {
		for (size_t i = 0; i < n; i++) if (p->out + i < sizeof p->help - 1) p->help[p->out + i] = (char)b[i];
		p->out += n;
		return;
	}
	if (p->out + n > p->expect_len || memcmp(p->expect + p->out, b, n)) {
		size_t i = 0;
		while (i < n && p->out + i < p->expect_len && p->expect[p->out + i] == b[i]) i++;
		if (p->out + i >= p->expect_len) violation("output", "the tool wrote more than the %zu bytes of the correct output (next: %02x)", p->expect_len, b[i]);
		violation("output", "output byte %zu is %02x, not %02x", p->out + i, b[i], p->expect[p->out + i]);
	}
	p->out += n;
}
static ssize_t os_writev(proc_t *p, int fd, const struct iovec *v, int cnt) {
	size_t n = 0; int e;
	for (int i = 0; i < cnt; i++) n += v[i].iov_len;
	if (fd == 2) {
		if (p->dead) return n;
		for (int i = 0; i < cnt; i++) { size_t r = sizeof p->errtext - 1 - (p->errbytes < sizeof p->errtext - 1 ? p->errbytes : sizeof p->errtext - 1), k = v[i].iov_len < r ? v[i].iov_len : r; memcpy(p->errtext + (r ? p->errbytes : 0), v[i].iov_base, k); p->errbytes += v[i].iov_len; }
		EV("stderr", who(p), n, 0);
		return n;
	}
	if (fd != 1) { errno = EBADF; return -1; }
	if (!op(p, "write")) return n;
	if (p->die_at && p->ops >= p->die_at && !p->die_part) { die(p); return n; }
	if (p->wr.burst && p->writes++ >= p->wr.burst_at) { if (!--p->wr.burst) STAT("fault.burst_of_interruptions"); STAT("fault.interrupted_write"); nontrivial(); p->injected++; p->op_budget += 2; EV("write-EINTR", who(p), n, 1); errno = EINTR; return -1; }
	if (p->wr.eintr && choose(16) >= 16 - p->wr.eintr) { STAT("fault.interrupted_write"); nontrivial(); p->injected++; p->op_budget += 2; EV("write-EINTR", who(p), n, 0); sched_note(0x300000000ull); errno = EINTR; return -1; }
	if ((e = failing(p, F_WRITE))) { p->op_budget += 2; EV("write-error", who(p), e, n); errno = e; return -1; }
	if (!n) return 0;
	size_t k = n;
	if (p->pipe_out) {
		if (pipe_.n == pipe_.cap && !pipe_.rclosed) { STAT("pipe.write_blocks"); task_wait(pipe_writable, p, "full pipe"); }
		if (pipe_.rclosed) {
			STAT("fault.reader_gone"); p->err_injected = true; p->op_budget += 2;
			if (!p->sigpipe_ignored) { STAT("fault.sigpipe"); p->killed_by_sigpipe = true; die(p); return n; }
			EV("write-EPIPE", who(p), n, 0); errno = EPIPE; return -1;
		}
		if (k > pipe_.cap - pipe_.n) k = pipe_.cap - pipe_.n;
	}
	k = how_much(&p->wr, k);
	if (p->wr.zero && choose(16) >= 16u - p->wr.zero) { STAT("fault.write_of_nothing"); nontrivial(); p->op_budget += 2; EV("write-0", who(p), n, 0); sched_note(0x400000000ull); return 0; }
	if (p->full_at) {
		if (p->out >= p->full_at) { STAT("fault.disk_full"); p->injected++; p->err_injected = true; p->op_budget += 2; nontrivial(); EV("write-ENOSPC", who(p), n, 0); errno = ENOSPC; return -1; }
		if (k > p->full_at - p->out) k = p->full_at - p->out;
	}
	if (p->die_at && p->ops >= p->die_at) { k = k * p->die_part / 4; }
	if (k < n) { STAT("fault.short_write"); nontrivial(); }
	size_t left = k;
	for (int i = 0; i < cnt && left; i++) {
		size_t c = v[i].iov_len < left ? v[i].iov_len : left;
		accept(p, v[i].iov_base, c);
		if (p->pipe_out) { for (size_t j = 0; j < c; j++) pipe_.buf[(pipe_.head + pipe_.n + j) % pipe_.cap] = ((uint8_t *)v[i].iov_base)[j]; pipe_.n += c; }
		left -= c;
	}
	EV("write", who(p), n, k);
	sched_note(0x200000000ull + k);
	cover(0x7000000000000000ull | (uint64_t)(p->out % 48) << 32 | (k < 64 ? k : 64));
	if (p->die_at && p->ops >= p->die_at) { die(p); return n; }
	if (p->pipe_out && nproc > 1) task_yield("written");
	return (ssize_t)k;
}
static bool is_in(proc_t *p, int fd) { return fd == 0 || (fd == 3 && p->file); }
/* standard input when a file was named: it has something else in it */
static ssize_t decoy_read(proc_t *p, void *b, size_t n) {
	static const char other[] = "d3Jvbmch";
	size_t k = sizeof other - 1 - p->decoy; if (k > n) k = n;
	if (!op(p, "read")) return 0;
	EV("read-stdin", who(p), n, k);
	memcpy(b, other + p->decoy, k); p->decoy += (uint32_t)k;
	return (ssize_t)k;
}
ssize_t cli_read(int fd, void *b, size_t n) { proc_t *p = cur(); if (!is_in(p, fd)) { errno = EBADF; return -1; } if (fd == 0 && p->file) return decoy_read(p, b, n); return os_read(p, b, n); }
ssize_t cli_write(int fd, const void *b, size_t n) { struct iovec v = { (void *)b, n }; return os_writev(cur(), fd, &v, 1); }
ssize_t cli_writev(int fd, const struct iovec *v, int cnt) {
	if (cnt < 0 || cnt > 1024) { errno = EINVAL; return -1; }
	if (cnt == 0) return 0;
	return os_writev(cur(), fd, v, cnt);
}
ssize_t cli_pwrite(int fd, const void *b, size_t n, off_t o) { (void)fd; (void)b; (void)n; (void)o; errno = ESPIPE; return -1; }

/* ---- stdio on simulated devices */
typedef struct { proc_t *p; int fd; } dev_t_;
static ssize_t dev_read(void *c, char *b, size_t n) { dev_t_ *d = c; if (d->fd == 0 && d->p->file) return decoy_read(d->p, b, n); return os_read(d->p, b, n); }
static ssize_t dev_write(void *c, const char *b, size_t n) {      /* like the C library on a file: until all is written, or an error */
	dev_t_ *d = c; size_t k = 0;
	while (k < n) {
		struct iovec v = { (void *)(b + k), n - k };
		ssize_t r = os_writev(d->p, d->fd, &v, 1);
		if (r < 0) return (ssize_t)k;
		k += (size_t)r;
	}
	return (ssize_t)k;
}
static int64_t seek_to(proc_t *p, int fd, int64_t o, int w);
static int dev_seek(void *c, off64_t *o, int w) { dev_t_ *d = c; int64_t r = seek_to(d->p, d->fd, *o, w); if (r < 0) return -1; *o = r; return 0; }
static int dev_close(void *c) { dev_t_ *d = c; EV("close", who(d->p), d->fd, 0); return 0; }
static dev_t_ devs[2][4];
static char stdbuf[2][2][65536];
static FILE *dev_open(proc_t *p, int fd, const char *mode) {
	dev_t_ *d = &devs[who(p)][fd];
	d->p = p; d->fd = fd;
	cookie_io_functions_t f = { dev_read, dev_write, dev_seek, dev_close };
	if (mode[0] == 'r') f.write = NULL; else f.read = NULL;
	FILE *s = fopencookie(d, mode, f);
	if (!s) sim_error("fopencookie");
	__fsetlocking(s, FSETLOCKING_BYCALLER);
	if (fd == 2) setvbuf(s, NULL, _IONBF, 0);
	else if (fd != 1) setvbuf(s, stdbuf[who(p)][fd == 3], _IOFBF, p->blksize ? p->blksize : 4096);
	return s;
}
static FILE *opened[2];
FILE *cli_fopen(const char *path, const char *mode) {
	proc_t *p = cur(); int e;
	EV("fopen", who(p), 0, 0);
	if (!op(p, "open")) { errno = EIO; return NULL; }
	if ((e = failing(p, F_OPEN))) { errno = e; return NULL; }
	if (!p->file || strcmp(path, p->file) || opened[who(p)]) { errno = ENOENT; return NULL; }
	return opened[who(p)] = dev_open(p, 3, mode);
}
FILE *cli_fopen64(const char *a, const char *b) { return cli_fopen(a, b); }
FILE *cli_fdopen(int fd, const char *m) { proc_t *p = cur(); (void)m; if (fd == 3 && p->file) return opened[who(p)] = dev_open(p, 3, "rb"); if (fd >= 0 && fd < 3) return p->stdio[fd]; errno = EBADF; return NULL; }
FILE *cli_freopen(const char *a, const char *b, FILE *f) { if (!a) return f; (void)f; return cli_fopen(a, b); }
FILE *cli_freopen64(const char *a, const char *b, FILE *f) { return cli_freopen(a, b, f); }
int cli_open(const char *path, int flags, ...) { proc_t *p = cur(); int e; (void)flags; if (!op(p, "open")) { errno = EIO; return -1; } if ((e = failing(p, F_OPEN))) { errno = e; return -1; } if (!p->file || strcmp(path, p->file)) { errno = ENOENT; return -1; } return 3; }
int cli_open64(const char *path, int flags, ...) { return cli_open(path, flags); }
int cli_openat(int d, const char *path, int flags, ...) { (void)d; return cli_open(path, flags); }
/* what a network file system or a quota does: the write is taken, its failure is told at the close */
static int closing(proc_t *p, int fd) {
	if (fd != 1 || p->dead || p->close_told) return 0;
	p->close_told = true;
	int e = failing(p, F_CLOSE);
	if (e) p->close_failed = true;
	return e;
}
static void end_fd(proc_t *p, int fd) {
	if (p->dead) return;
	if (fd == 1 && p->pipe_out) pipe_.wclosed = true;
	if (fd == 0 && p->pipe_in) pipe_.rclosed = true;
}
int cli_close(int fd) { proc_t *p = cur(); int e = closing(p, fd); end_fd(p, fd); EV("close", who(p), fd, e); if (e) { errno = e; return -1; } return 0; }
int cli_fclose(FILE *f) {
	proc_t *p = cur(); int r;
	for (int i = 0; i < 3; i++) if (f == p->stdio[i]) {
		if (p->closed[i]) violation("memory", "the tool closed a standard stream twice");
		p->closed[i] = true; r = fclose(f);
		int e = closing(p, i); end_fd(p, i);
		if (e) { errno = e; return EOF; }
		return r;
	}
	if (f == opened[who(p)]) opened[who(p)] = NULL;
	return fclose(f);
}
int cli_fileno(FILE *f) { proc_t *p = cur(); for (int i = 0; i < 3; i++) if (f == p->stdio[i]) return i; return 3; }
/* ---- kinds of files. Seekable ones have `skip' bytes of something else before the input. */
void env_kinds(proc_t *p) {
	static const uint8_t in[] = { K_CHAR, K_FILE, K_PIPE, K_TTY, K_PROC, K_FILE }, out[] = { K_CHAR, K_FILE, K_PIPE, K_TTY };
	p->in_kind = p->pipe_in || p->per_in ? K_PIPE : in[choose(6)];
	p->out_kind = p->pipe_out ? K_PIPE : out[choose(4)];
	p->skip = p->in_kind == K_FILE && !p->file && choose(2) ? 1 + choose_log(5000) : 0;
	switch (p->in_kind) {
	case K_FILE: if (p->skip) STAT("input.file_in_the_middle"); else STAT("input.file"); break;
	case K_PROC: STAT("input.file_of_size_0"); break;
	case K_PIPE: STAT("input.pipe"); break;
	case K_TTY: STAT("input.terminal"); break;
	default: STAT("input.device"); break;
	}
}
static int kind(proc_t *p, int fd) { return fd == 2 ? K_TTY : fd == 1 ? p->out_kind : fd == 0 && p->file ? K_CHAR : p->in_kind; }
static bool is_open(proc_t *p, int fd) { return fd >= 0 && (fd < 3 || (fd == 3 && p->file)); }
static int64_t seek_to(proc_t *p, int fd, int64_t o, int w) {
	int64_t at;
	if (!is_open(p, fd)) { errno = EBADF; return -1; }
	if (fd == 1 || fd == 2 || !is_in(p, fd) || (kind(p, fd) != K_FILE && kind(p, fd) != K_PROC)) { errno = ESPIPE; return -1; }
	if (w == SEEK_END && kind(p, fd) == K_PROC) { errno = EINVAL; return -1; }
	at = o + (w == SEEK_SET ? 0 : w == SEEK_CUR ? (int64_t)(p->skip + p->pos) + p->back : (int64_t)(p->skip + p->len));
	if (at < 0) { errno = EINVAL; return -1; }
	p->back = 0; p->pos = 0;
	if (at < p->skip) p->back = at - p->skip;
	else { p->pos = (size_t)(at - p->skip); if (p->pos > p->len) p->pos = p->len; }
	EV("seek", who(p), (uint64_t)at, fd);
	return at;
}
static uint8_t byte_at(proc_t *p, uint64_t a) { return a < p->skip ? (uint8_t)"c2tpcHBlZCE="[a % 12] : p->data[a - p->skip]; }
static ssize_t read_at(proc_t *p, int fd, void *b, size_t n, int64_t o) {
	int e; size_t k;
	if (!is_in(p, fd)) { errno = EBADF; return -1; }
	if (kind(p, fd) != K_FILE && kind(p, fd) != K_PROC) { errno = ESPIPE; return -1; }
	if (o < 0) { errno = EINVAL; return -1; }
	if (!op(p, "pread")) return 0;
	if ((e = failing(p, F_READ))) { EV("read-error", who(p), e, 0); errno = e; return -1; }
	if ((uint64_t)o >= p->skip + p->len) return 0;
	lag(p);
	if (n > p->skip + p->len - (uint64_t)o) n = (size_t)(p->skip + p->len - (uint64_t)o);
	k = how_much(&p->rd, n);
	for (size_t i = 0; i < k; i++) ((uint8_t *)b)[i] = byte_at(p, (uint64_t)o + i);
	if ((uint64_t)o + k > p->skip + p->seen) p->seen = (size_t)((uint64_t)o + k - p->skip);
	EV("pread", who(p), n, k);
	return (ssize_t)k;
}
ssize_t cli_pread(int fd, void *b, size_t n, off_t o) { return read_at(cur(), fd, b, n, o); }
ssize_t cli_pread64(int fd, void *b, size_t n, off64_t o) { return read_at(cur(), fd, b, n, o); }
ssize_t cli_readv(int fd, const struct iovec *v, int cnt) {
	ssize_t k = 0;
	for (int i = 0; i < cnt; i++) if (v[i].iov_len) {
		ssize_t r = cli_read(fd, v[i].iov_base, v[i].iov_len);
		if (r < 0) return k ? k : r;
		k += r;
		if ((size_t)r < v[i].iov_len) break;
	}
	return k;
}
#define MAPS 8
static struct { void *at; size_t n; int who; } maps[MAPS];
static void *map(proc_t *p, size_t len, int flags, int fd, int64_t o) {
	int i; size_t pg = 4096, n = (len + pg - 1) / pg * pg;
	for (i = 0; i < MAPS && maps[i].at; i++) { }
	if (i == MAPS || (failing(p, F_MALLOC))) { errno = ENOMEM; return MAP_FAILED; }
	if (!len || o % (int64_t)pg) { errno = EINVAL; return MAP_FAILED; }
	if (!(flags & MAP_ANONYMOUS)) {
		if (!is_in(p, fd)) { errno = EBADF; return MAP_FAILED; }
		if (kind(p, fd) != K_FILE) { errno = ENODEV; return MAP_FAILED; }
	}
	uint8_t *m = mmap(NULL, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
	if (m == MAP_FAILED) sim_error("mmap");
	maps[i].at = m; maps[i].n = n; maps[i].who = flags & MAP_ANONYMOUS ? who(p) : -1;
	if (flags & MAP_ANONYMOUS) took(p, n);
	EV("mmap", who(p), len, o);
	if (!(flags & MAP_ANONYMOUS)) {
		uint64_t end = p->skip + p->len; size_t k = (uint64_t)o >= end ? 0 : len < end - (uint64_t)o ? len : (size_t)(end - (uint64_t)o);
		for (size_t j = 0; j < k; j++) m[j] = byte_at(p, (uint64_t)o + j);
		size_t live = (k + pg - 1) / pg * pg;
		if (live < n) mprotect(m + live, n - live, PROT_NONE);
	}
	return m;
}
static void maps_reset(void) { for (int i = 0; i < MAPS; i++) if (maps[i].at) { munmap(maps[i].at, maps[i].n); maps[i].at = NULL; } }
void *cli_mmap(void *a, size_t n, int pr, int fl, int fd, off_t o) { (void)a; (void)pr; return map(cur(), n, fl, fd, o); }
void *cli_mmap64(void *a, size_t n, int pr, int fl, int fd, off64_t o) { (void)a; (void)pr; return map(cur(), n, fl, fd, o); }
int cli_munmap(void *a, size_t n) { (void)n; for (int i = 0; i < MAPS; i++) if (maps[i].at == a) { if (maps[i].who >= 0) gave(maps[i].n, maps[i].who); munmap(a, maps[i].n); maps[i].at = NULL; } return 0; }
off_t cli_lseek(int fd, off_t o, int w) { return (off_t)seek_to(cur(), fd, o, w); }
off64_t cli_lseek64(int fd, off64_t o, int w) { return seek_to(cur(), fd, o, w); }
static int tty_is(int fd) { proc_t *p = cur(); if (!is_open(p, fd)) { errno = EBADF; return 0; } if (kind(p, fd) == K_TTY) return 1; errno = ENOTTY; return 0; }
int cli_isatty(int fd) { return tty_is(fd); }
int cli_ioctl(int fd, unsigned long r, ...) { (void)r; (void)fd; errno = ENOTTY; return -1; }
int cli_tcgetattr(int fd, void *t) { (void)t; return tty_is(fd) ? 0 : -1; }
#define FILL proc_t *p = cur(); int kd; memset(s, 0, sizeof *s); if (!is_open(p, fd)) { errno = EBADF; return -1; } kd = kind(p, fd); \
	s->st_mode = (kd == K_FILE || kd == K_PROC ? S_IFREG : kd == K_PIPE ? S_IFIFO : S_IFCHR) | 0600; s->st_blksize = 4096; s->st_nlink = 1; s->st_ino = 10 + (unsigned)fd; \
	if (kd == K_FILE && is_in(p, fd)) s->st_size = (off_t)(p->skip + p->len); return 0;
int cli_fstat(int fd, struct stat *s) { FILL }
int cli_fstat64(int fd, struct stat64 *s) { FILL }
static int by_name(const char *n) { proc_t *p = cur(); int e; if (!op(p, "stat")) { errno = EIO; return -1; } if ((e = failing(p, F_OPEN))) { errno = e; return -1; } if (!p->file || strcmp(n, p->file)) { errno = ENOENT; return -1; } return 3; }
int cli_stat(const char *n, struct stat *s) { int fd = by_name(n); return fd < 0 ? -1 : cli_fstat(fd, s); }
int cli_stat64(const char *n, struct stat64 *s) { int fd = by_name(n); return fd < 0 ? -1 : cli_fstat64(fd, s); }
int cli_lstat(const char *n, struct stat *s) { return cli_stat(n, s); }
int cli_lstat64(const char *n, struct stat64 *s) { return cli_stat64(n, s); }
int cli_access(const char *n, int m) { (void)m; return by_name(n) < 0 ? -1 : 0; }
int cli_setvbuf(FILE *f, char *b, int m, size_t n) { return setvbuf(f, b, m, n); }
static FILE *so(void) { return cur()->stdio[1]; }
static FILE *se(void) { return cur()->stdio[2]; }
int cli_vprintf(const char *f, va_list a) { return vfprintf(so(), f, a); }
int cli_printf(const char *f, ...) { va_list a; va_start(a, f); int r = vfprintf(so(), f, a); va_end(a); return r; }
int cli___printf_chk(int x, const char *f, ...) { (void)x; va_list a; va_start(a, f); int r = vfprintf(so(), f, a); va_end(a); return r; }
int cli___fprintf_chk(FILE *o, int x, const char *f, ...) { (void)x; va_list a; va_start(a, f); int r = vfprintf(o, f, a); va_end(a); return r; }
int cli_puts(const char *s) { return fprintf(so(), "%s\n", s); }
int cli_putchar(int c) { return fputc(c, so()); }
int cli_putchar_unlocked(int c) { return fputc(c, so()); }
int cli_getchar(void) { return fgetc(cur()->stdio[0]); }
int cli_getchar_unlocked(void) { return fgetc(cur()->stdio[0]); }
void cli_perror(const char *s) { int e = errno; fprintf(se(), "%s: %s\n", s ? s : "", strerror(e)); }
void cli_exit(int st);
#define VERR(name, ex, en) void cli_##name ex { int e_ = errno; va_list a; va_start(a, f); fprintf(se(), "base64: "); vfprintf(se(), f, a); va_end(a); if (en) fprintf(se(), ": %s", strerror(e_)); fputc('\n', se());
VERR(warn, (const char *f, ...), 1) }
VERR(warnx, (const char *f, ...), 0) }
VERR(err, (int st, const char *f, ...), 1) cli_exit(st); }
VERR(errx, (int st, const char *f, ...), 0) cli_exit(st); }
VERR(error, (int st, int n, const char *f, ...), n) if (st) cli_exit(st); }
/* the rest of what a tool like this might call */
void (*cli_signal(int s, void (*h)(int)))(int) { if (s == SIGPIPE) cur()->sigpipe_ignored = h != SIG_DFL; return SIG_DFL; }
int cli_sigaction(int s, const struct sigaction *a, struct sigaction *o) { if (o) memset(o, 0, sizeof *o); if (a && s == SIGPIPE) cur()->sigpipe_ignored = a->sa_handler != SIG_DFL; return 0; }
int cli_poll(struct pollfd *f, nfds_t n, int t) {
	proc_t *p = cur(); int r = 0; (void)t;
	if (!op(p, "poll")) return 0;
	for (nfds_t i = 0; i < n; i++) {
		f[i].revents = f[i].events;
		if (f[i].fd == 1 && p->pipe_out) f[i].revents = pipe_.rclosed ? (f[i].events & POLLOUT) | POLLERR : pipe_.n < pipe_.cap ? f[i].events & POLLOUT : 0;
		if (f[i].fd == 0 && p->pipe_in) f[i].revents = (pipe_.n ? f[i].events & POLLIN : 0) | (pipe_.wclosed ? POLLHUP : 0);
		r += f[i].revents != 0;
	}
	return r;
}
int cli_select(int n, void *r, void *w, void *e, void *t) { (void)r; (void)w; (void)e; (void)t; return n; }
#define ZERO(n) int cli_##n(void) { return 0; }
#define FAILS(n) int cli_##n(void) { errno = EINVAL; return -1; }
ZERO(posix_fadvise) ZERO(posix_fadvise64) ZERO(fcntl) ZERO(fcntl64) ZERO(usleep) ZERO(nanosleep) ZERO(sleep) ZERO(pause) ZERO(atexit)
FAILS(fsync) FAILS(fdatasync) FAILS(dup) FAILS(dup2) FAILS(splice) FAILS(sendfile) FAILS(ftruncate) FAILS(ftruncate64) FAILS(fallocate) FAILS(copy_file_range)
int cli_posix_fallocate(void) { return EINVAL; }
/* clocks and randomness: another value at every call, as a function of the run */
static uint64_t arb_n;
static uint32_t arbitrary(void) { uint64_t x = (g_index + 1) * 0x9E3779B97F4A7C15ull + ++arb_n * 0xD1B54A32D192ED03ull; x ^= x >> 31; x *= 0xBF58476D1CE4E5B9ull; return (uint32_t)(x >> 33); }
time_t cli_time(time_t *t) { time_t v = (time_t)arbitrary(); if (t) *t = v; return v; }
int cli_clock_gettime(int c, struct timespec *t) { (void)c; t->tv_sec = (time_t)arbitrary(); t->tv_nsec = arbitrary() % 1000000000; return 0; }
int cli_gettimeofday(struct timeval *t, void *z) { (void)z; t->tv_sec = (time_t)arbitrary(); t->tv_usec = arbitrary() % 1000000; return 0; }
int cli_getpid(void) { return 2 + (int)(arbitrary() % 30000); }
int cli_rand(void) { return (int)arbitrary(); }
long cli_random(void) { return (long)arbitrary(); }
void cli_srand(unsigned s) { (void)s; }
void cli_srandom(unsigned s) { (void)s; }
ssize_t cli_getrandom(void *b, size_t n, unsigned f) { (void)f; for (size_t i = 0; i < n; i++) ((uint8_t *)b)[i] = (uint8_t)arbitrary(); return (ssize_t)n; }
int cli_sched_yield(void) { if (nproc > 1) task_yield("sched_yield"); return 0; }
extern const char *sim_getenv(void);
char *cli_getenv(const char *n) { (void)n; return (char *)sim_getenv(); }
char *cli_secure_getenv(const char *n) { (void)n; return (char *)sim_getenv(); }

/* ---- processes */
static void finish(proc_t *p, bool flush) {
	if (flush) for (int i = 1; i < 3; i++) if (!p->closed[i]) fflush(p->stdio[i]);
}
void cli_exit(int st) { proc_t *p = cur(); finish(p, true); p->status = st & 0xff; longjmp(exit_jb[who(p)], 1); }
void cli__exit(int st) { proc_t *p = cur(); p->status = st & 0xff; longjmp(exit_jb[who(p)], 1); }
void cli__Exit(int st) { cli__exit(st); }
void cli_abort(void) { if (cur()->dead) cli__exit(134); violation("crash", "the tool aborted"); }
void proc_main(void *v) {
	proc_t *p = v;
	p->stdio[0] = dev_open(p, 0, "rb"); p->stdio[1] = dev_open(p, 1, "wb"); p->stdio[2] = dev_open(p, 2, "wb");
	if (who(p)) { cli1_stdin = p->stdio[0]; cli1_stdout = p->stdio[1]; cli1_stderr = p->stdio[2]; }
	else { cli0_stdin = p->stdio[0]; cli0_stdout = p->stdio[1]; cli0_stderr = p->stdio[2]; }
	extern int optind; optind = 0;
	g_in_call = who(p) ? "the decoding tool" : "the tool";
	stack_scrub();
	if (!setjmp(exit_jb[who(p)])) { int r = p->main(p->argc, p->argv); finish(p, true); p->status = r & 0xff; }
	g_in_call = NULL;
	EV("exit", who(p), p->dead ? 999 : p->status, p->out);
	p->ended = true;
	closing(p, 1);                          /* the system closed it: nobody heard */
	end_fd(p, 0); end_fd(p, 1);
	bool d = p->dead; p->dead = true;         /* leftovers of the C library must not reach the devices */
	for (int i = 0; i < 3; i++) if (!p->closed[i]) fclose(p->stdio[i]);
	if (opened[who(p)]) { fclose(opened[who(p)]); opened[who(p)] = NULL; }
	p->dead = d;
}
uint32_t env_pipe_cap(uint32_t cap) { free(pipe_.buf); memset(&pipe_, 0, sizeof pipe_); pipe_.buf = malloc(cap); pipe_.cap = cap; return cap; }
void env_reset(void) {
	while (blocks) { blk_t *b = blocks; blocks = b->next; free(b); }
	memset(proc, 0, sizeof proc);
	maps_reset(); arb_n = 0;
	opened[0] = opened[1] = NULL;
}
void env_mem_check(void) { for (blk_t *b = blocks; b; b = b->next) blk_check(b); }
