/* A simulated operating system for the command-line tool: devices, pipe,
 * allocator, process exit. All behaviour is decided by the choice tape. */
#ifndef SIM_CLIENV_H
#define SIM_CLIENV_H
#include "sim.h"
typedef struct {                    /* how far one call gets */
	int kind; uint32_t k;       /* 0 all, 1 one byte, 2 k, 3 up to k, 4 any magnitude, 5 mostly all */
	uint32_t eintr, zero;       /* in 16: interrupted; satisfied with nothing */
	uint32_t burst_at, burst;   /* so many interruptions in a row */
} rate_t;
enum { K_CHAR, K_TTY, K_FILE, K_PROC, K_PIPE };      /* K_PROC: a regular file whose size is given as 0 */
enum { F_READ, F_WRITE, F_MALLOC, F_OPEN, F_CLOSE, F_KINDS };
typedef struct { int kind; uint32_t at, count; int err; } fail_t;
typedef struct {
	const uint8_t *data; size_t len, pos;  /* source */
	bool pipe_in, pipe_out;
	rate_t rd, wr; uint32_t blksize;
	fail_t fail[3]; int nfail;
	uint64_t full_at;                      /* the output device takes this many bytes; then ENOSPC */
	const char *file;                      /* name of the input file, or NULL */
	bool sigpipe_ignored;
	/* outcome */
	uint64_t ops, op_budget, injected, nth[F_KINDS], writes;
	const uint8_t *expect; size_t expect_len; size_t out;   /* output is checked against expect while it is written */
	size_t errbytes; char errtext[200];
	bool dead, ended, killed_by_sigpipe; int status;
	uint64_t die_at; uint32_t die_part;    /* dies at this operation, a write having been taken so far */
	bool err_injected;
	void *stdio[3]; bool closed[3];
	int argc; char **argv; int (*main)(int, char **);
	bool any_out; char help[8192];            /* output is not known beforehand: kept here */
	size_t per_in, per_exp; uint64_t hin, hout;  /* both repeat after so many bytes; 64-bit positions */
	uint64_t hlen, hexpect;
	uint64_t hwrap, htext; const uint8_t *htail; /* expected: the text repeating, htext characters of it, then htail, in lines of hwrap */
	bool close_told, close_failed;               /* the device reports a failed write only when it is closed; it was not asked */
	uint8_t in_kind, out_kind; uint32_t skip; int64_t back;   /* K_...; bytes of the input file before the position it was handed over at */
	uint64_t held, held_max, lag_max; uint32_t blocks, blocks_max; size_t seen;   /* memory in use; output that is due and not written */
	uint64_t held_limit, lag_limit; uint32_t blocks_limit;           /* 0: not looked at */
	uint32_t decoy;                           /* bytes read from standard input although a file was named */
} proc_t;
extern proc_t proc[2];
extern int nproc;
void env_reset(void);
void env_kinds(proc_t *p);            /* what the standard streams and the input file are */
void proc_main(void *p);
uint32_t env_pipe_cap(uint32_t cap);
void env_mem_check(void);
#endif
