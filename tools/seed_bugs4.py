#!/usr/bin/env python3
"""A fourth batch of planted bugs; see seed_bugs.py."""
import seed_bugs
import seed_bugs2
from seed_bugs2 import REPEAT, LIBDEMO
from seed_bugs import bug, SH, REF, CLI, CLIF, CPUDEMO, CPUF, BUGS

del BUGS[:]

OMPDEMO = SH + 'mklib l gcc "$X86" -fopenmp\nmkprog p l gcc "$D/demo.c" -fopenmp\n'

# ---------------------------------------------------------------- parallel
bug('p01-part-table', 'P01',
    [('lib/lib_openmp.c', '''	int num_threads, i;

	// Request a number of threads but not necessarily get them:
	#pragma omp parallel
	{
		// Get the number of threads used from one thread only,
		// as num_threads is a shared var:
		#pragma omp single
		{
			num_threads = omp_get_num_threads();

			// Split the input string into num_threads parts, each
			// part a multiple of 3 bytes.''', '''	int num_threads, i;
	size_t parts[64] = { 0 };

	// Request a number of threads but not necessarily get them:
	#pragma omp parallel
	{
		// Get the number of threads used from one thread only,
		// as num_threads is a shared var:
		#pragma omp single
		{
			num_threads = omp_get_num_threads();

			// Split the input string into num_threads parts, each
			// part a multiple of 3 bytes.'''),
     ('lib/lib_openmp.c', '''			base64_stream_encode(&state, src + i * len, len, out + i * (len / 3) * 4, &s);
			sum += s;
		}
	}

	// As encoding''', '''			base64_stream_encode(&state, src + i * len, len, out + i * (len / 3) * 4, &s);
			parts[i % 64] = s;
		}
	}
	for (i = 0; i < num_threads; i++) {
		sum += (i < 64) ? parts[i] : 0;
	}

	// As encoding''')],
    'a team of more than 64 threads',
    'the parts of the threads from the 65th on are missing from the reported length',
    OMPDEMO + 'OMP_NUM_THREADS=100 timeout 200 "$T/p"\n',
    {'demo.c': REF + r'''
int main(void)
{
	size_t n = 60000, l; unsigned char *in = malloc(n); char *out = malloc(2 * n), *want = malloc(2 * n);
	fill(in, n);
	base64_encode((char *)in, n, out, &l, 0);
	size_t m = ref_enc(in, n, want);
	if (l != m || memcmp(out, want, m)) BAD("%zu, not %zu", l, m);
	return 0;
}
'''})

bug('p02-byte-team', 'P02',
    [('lib/lib_openmp.c', '''	int num_threads, result = 0, i;
''', '''	int result = 0, i;
	unsigned char num_threads;
''')],
    'a team of exactly 256 threads',
    'the number of threads becomes zero: division by zero',
    OMPDEMO + 'OMP_NUM_THREADS=256 timeout 200 "$T/p"\n',
    {'demo.c': REF + r'''
int main(void)
{
	size_t n = 60000, l; unsigned char *in = malloc(n); char *out = malloc(2 * n), *enc = malloc(2 * n);
	fill(in, n);
	size_t m = ref_enc(in, n, enc);
	if (base64_decode(enc, m, out, &l, 0) != 1 || l != n || memcmp(out, in, n)) BAD("wrong");
	return 0;
}
'''})

bug('p03-cancel', 'P03',
    [('lib/lib_openmp.c', '''	size_t sum = 0, len, last_len, s;
	struct base64_state state, initial_state;
''', '''	size_t sum = 0, len, last_len, s;
	struct base64_state state, initial_state;
	volatile int failed = 0;
'''),
     ('lib/lib_openmp.c', '''			// Feed each part of the string to the stream reader:
			this_result = base64_stream_decode(''', '''			// Don't bother if another part has failed already:
			if (failed) {
				result -= 1;
				continue;
			}

			// Feed each part of the string to the stream reader:
			this_result = base64_stream_decode('''),
     ('lib/lib_openmp.c', '''			sum += s;
			result += this_result;
''', '''			if (this_result == 0) {
				this_result = -1;
				failed = 1;
			}
			sum += s;
			result += this_result;
''')],
    'damage in the part that is finished before any other part is begun',
    'damaged text is reported as an unavailable codec (-1)',
    OMPDEMO + 'OMP_NUM_THREADS=1 timeout 200 "$T/p" && OMP_NUM_THREADS=4 timeout 200 "$T/p"\n',
    {'demo.c': REF + r'''
int main(void)
{
	size_t n = 30000, l; char *in = malloc(n), *out = malloc(n);
	memset(in, 'A', n);
	in[5] = '!';
	for (int i = 0; i < 200; i++) {
		int r = base64_decode(in, n, out, &l, 0);
		if (r != 0) BAD("damaged text: returned %d", r);
	}
	return 0;
}
'''})

# ---------------------------------------------------------------- streaming
bug('s05-plain32-margin', 'S05',
    [('lib/arch/generic/32/dec_loop.c', 'size_t rounds = (*slen - 4) / 4;', 'size_t rounds = *slen / 4;')],
    'a block of whole groups for the plain decoder, and something of value right behind the output',
    'one byte behind the output is overwritten',
    LIBDEMO,
    {'demo.c': REF + r'''
int main(void)
{
	static unsigned char in[300]; static char enc[500], out[400];
	fill(in, sizeof in);
	for (size_t n = 3; n <= 300; n += 3) {
		size_t m = ref_enc(in, n, enc), l;
		memset(out, 0x55, sizeof out);
		if (base64_decode(enc, m, out, &l, BASE64_FORCE_PLAIN) != 1 || l != n || memcmp(in, out, n)) BAD("%zu: wrong", n);
		for (size_t i = n; i < sizeof out; i++) if (out[i] != 0x55) BAD("%zu: byte %zu overwritten", n, i);
	}
	return 0;
}
'''})

bug('s03-tail-eighth-bit', 'S03',
    [('lib/arch/generic/dec_tail.c', '''	case 3:	if (slen-- == 0) {
			ret = 1;
			break;
		}
		if ((q = base64_table_dec_8bit[*s++]) >= 254) {''', '''	case 3:	if (slen-- == 0) {
			ret = 1;
			break;
		}
		if ((q = base64_table_dec_8bit[*s++ & 0x7F]) >= 254) {''')],
    'a character with its eighth bit set, at the fourth place of a group near the end of a block',
    'the character is accepted as if its eighth bit were not set',
    LIBDEMO,
    {'demo.c': REF + r'''
int main(void)
{
	char out[10]; size_t l;
	for (int c = 128; c < 256; c++) {
		char in[] = { 'Q', 'U', 'F', (char)c };
		if (base64_decode(in, 4, out, &l, 0)) BAD("accepted %d", c);
	}
	return 0;
}
'''})

# ---------------------------------------------------------------- forcing, environment
bug('t03-environment', 'T03',
    [('lib/codec_choose.c', '''void
codec_choose (struct codec *codec, int flags)
{
''', '''void
codec_choose (struct codec *codec, int flags)
{
	// Allow the user to rule out the optimized codecs:
	if (!(flags & 0xFFFF) && getenv("BASE64_PLAIN") != NULL) {
		flags |= BASE64_FORCE_PLAIN;
	}

'''), ('lib/codec_choose.c', '''#include <stdbool.h>
''', '''#include <stdbool.h>
#include <stdlib.h>
''')],
    'an environment variable',
    'the default codec is not used although nothing was forced',
    SH + r'''[ "$(uname -m)" = x86_64 ] && has ssse3 || exit 0
mklib l gcc "$X86"
mkprog p l gcc "$D/demo.c"
a=$("$T/p") || exit 1
b=$(env $(strings -n 4 "$T/p" | grep -E '^[A-Z][A-Z0-9_]+$' | sed 's/$/=1/') "$T/p") || exit 1
[ "$a" = "$b" ]
''',
    {'demo.c': REF + r'''
/* Which codec is the default one? The one whose output overruns by as much as
 * with that codec forced, judging by the time it takes: plain is far slower. */
#include <time.h>
static double t(int flags)
{
	static char in[1 << 20], out[1 << 21]; size_t l; double best = 1e9;
	for (int i = 0; i < 20; i++) {
		struct timespec a, b;
		clock_gettime(CLOCK_MONOTONIC, &a);
		base64_encode(in, sizeof in, out, &l, flags);
		clock_gettime(CLOCK_MONOTONIC, &b);
		double d = (b.tv_sec - a.tv_sec) * 1e9 + (b.tv_nsec - a.tv_nsec);
		if (d < best) best = d;
	}
	return best;
}
int main(void)
{
	double p = t(BASE64_FORCE_PLAIN), s = t(BASE64_FORCE_SSSE3), d = t(0);
	puts(d < (p + s) / 2 ? "vector" : "plain");
	return 0;
}
'''})

# ---------------------------------------------------------------- the tool
bug('u03-close-early', 'U03',
    [('bin/base64.c', '''	// Close the input file.
	fclose(config.fp);
''', '''	// Close the files.
	fclose(config.fp);
	close(STDOUT_FILENO);
''')],
    'a file system that reports a failed write only when the file is closed',
    'the failure passes for success: the second close fails with EBADF, which is ignored',
    CLI + r'''cat > "$T/c.c" <<'X'
#include <errno.h>
#include <sys/syscall.h>
#include <unistd.h>
int close(int fd) { long r = syscall(SYS_close, fd); if (fd == 1 && r == 0) { errno = EDQUOT; return -1; } return (int) r; }
X
gcc -O1 -w -shared -fPIC -o "$T/c.so" "$T/c.c" || exit 99
echo hello > "$T/in"
# The C library's own closing does not pass here; an explicit one does:
nm -D "$T/b64" | grep -qw 'U close' || nm -D "$T/b64" | grep -q 'U close@' || exit 0
LD_PRELOAD="$T/c.so" "$T/b64" "$T/in" > "$T/out" 2> "$T/err" && { echo "lost output passed for success"; exit 1; }
exit 0
''', CLIF)

bug('u04-high-newline', 'U04',
    [('bin/base64.c', '''		if (p[len] == '\\n') {''', '''		if ((p[len] & 0x7F) == '\\n') {''')],
    'a newline with its eighth bit set (0x8a) in the text',
    'the damaged character is skipped',
    CLI + r'''printf 'Zm9v\212YmFy' | "$T/b64" -d > "$T/out" 2>/dev/null && { echo "accepted"; exit 1; }
exit 0
''', CLIF)

bug('u02-read-more', 'U02',
    [('bin/base64.c', '''	while ((avail = fread(buf->enc, 1, BUFFER_RAW_SIZE, config->fp)) > 0) {
		char  *start''', '''	while ((avail = fread(buf->enc, 1, BUFFER_ENC_SIZE, config->fp)) > 0) {
		char  *start''')],
    'at least 1398111 characters without a newline',
    'up to 9 bytes are written behind the buffer for decoded data',
    SH + r'''mklib l gcc "$X86"
mkprog b64 l gcc bin/base64.c -fsanitize=address
head -c 3000000 /dev/zero | base64 -w 0 | ASAN_OPTIONS=detect_leaks=0 "$T/b64" -d > "$T/out" 2>"$T/err" || { grep ERROR "$T/err"; exit 1; }
head -c 3000000 /dev/zero | cmp -s - "$T/out"
''')

bug('u01-environment', 'U01',
    [('bin/base64.c', '''	struct buffer buf;

	// Parse options from the command line.''', '''	struct buffer buf;

	// The environment may set the default wrap width.
	if (getenv("COLUMNS") != NULL && atoi(getenv("COLUMNS")) > 0) {
		config.wrap = (unsigned int) atoi(getenv("COLUMNS"));
	}

	// Parse options from the command line.''')],
    'an exported environment variable COLUMNS',
    'lines are broken at another width than the default',
    CLI + r'''head -c 300 /dev/zero > "$T/in"
a=$("$T/b64" "$T/in" | head -1)
b=$(env $(strings -n 4 "$T/b64" | grep -E '^[A-Z][A-Z0-9_]+$' | sed 's/$/=40/') "$T/b64" "$T/in" | head -1)
[ ${#a} = 76 ] && [ "$a" = "$b" ]
''', CLIF)

bug('u06-nobody-listens', 'U06',
    [('bin/base64.c', '''	while ((nread = fread(buf->raw, 1, BUFFER_RAW_SIZE, config->fp)) > 0) {
''', '''	while ((nread = fread(buf->raw, 1, BUFFER_RAW_SIZE, config->fp)) > 0) {

		// There is no point in going on if nobody is listening.
		struct pollfd pfd = { .fd = STDOUT_FILENO, .events = POLLOUT };
		if (poll(&pfd, 1, 0) == 1 && (pfd.revents & POLLERR)) {
			return true;
		}
'''), ('bin/base64.c', '''#include <unistd.h>
''', '''#include <poll.h>
#include <unistd.h>
''')],
    'the reader of the pipe is gone, at the start of a block of input, and SIGPIPE is ignored',
    'the encoder exits 0 although it has not written everything',
    CLI + r'''cat > "$T/d.c" <<'X'
#include <signal.h>
#include <stdlib.h>
#include <unistd.h>
#include <sys/wait.h>
int main(int argc, char **argv)
{
	int p[2], s;
	signal(SIGPIPE, SIG_IGN);
	if (pipe(p)) return 99;
	close(p[0]); dup2(p[1], 1); close(p[1]);
	s = system(argv[1]);
	return WIFEXITED(s) && WEXITSTATUS(s) == 0;
}
X
gcc -w -o "$T/d" "$T/d.c" || exit 99
head -c 3000000 /dev/zero > "$T/in"
"$T/d" "$T/b64 $T/in 2>/dev/null"
''', CLIF)

if __name__ == '__main__':
    seed_bugs.main()
