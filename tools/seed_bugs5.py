#!/usr/bin/env python3
"""A fifth batch of planted bugs; see seed_bugs.py."""
import seed_bugs
import seed_bugs2
from seed_bugs2 import REPEAT, LIBDEMO
from seed_bugs import bug, SH, REF, CLI, CLIF, BUGS

del BUGS[:]

OMPDEMO = SH + 'mklib l gcc "$X86" -fopenmp\nmkprog p l gcc "$D/demo.c" -fopenmp\n'

# ---------------------------------------------------------------- the tool and its surroundings
bug('u01-terminal', 'U01',
    [('bin/base64.c', '''		if (config->wrap > 0 && col > 0) {
			return write_stdout''', '''		if ((config->wrap > 0 && col > 0) || isatty(STDOUT_FILENO)) {
			return write_stdout''')],
    'standard output is a terminal',
    'a newline that was not asked for follows the text',
    CLI + r'''printf abc > "$T/in"
python3 - "$T/b64" "$T/in" <<'PY' || exit 1
import os, pty, subprocess, sys
m, s = pty.openpty()
p = subprocess.Popen([sys.argv[1], "-w0", sys.argv[2]], stdout=s, stdin=subprocess.DEVNULL)
p.wait()
os.close(s)
out = b""
try:
    while True:
        b = os.read(m, 100)
        if not b:
            break
        out += b
except OSError:
    pass
sys.exit(out != b"YWJj")
PY
''', CLIF)

bug('u02-empty-file', 'U02',
    [('bin/base64.c', '''	struct base64_state state;

	// Initialize the decoder's state structure.
''', '''	struct base64_state state;
	struct stat st;

	// There is nothing to do for an empty file.
	if (fstat(fileno(config->fp), &st) == 0 && S_ISREG(st.st_mode) && st.st_size == 0) {
		return true;
	}

	// Initialize the decoder's state structure.
'''), ('bin/base64.c', '''#include <unistd.h>
''', '''#include <unistd.h>
#include <sys/stat.h>
''')],
    'a file that does not tell its size, like those in /proc',
    'the file is treated as empty',
    CLI + r'''# /proc/self/comm holds the name of the process: one that is Base64
cp "$T/b64" "$T/Zm9vYmFy" || exit 99
"$T/Zm9vYmFy" -d /proc/self/comm > "$T/out" || exit 1
[ "$(cat "$T/out")" = foobar ]
''', CLIF)

bug('u01-rewind', 'U01',
    [('bin/base64.c', '''	// Initialize the encoder's state structure.
''', '''	// Always start at the beginning of the file, if it has one.
	rewind(config->fp);

	// Initialize the encoder's state structure.
''')],
    'standard input is a file of which another process has already read some',
    'what was read already is encoded too',
    CLI + r'''printf 'HEADbody' > "$T/in"
out=$( (dd bs=1 count=4 of=/dev/null 2>/dev/null; "$T/b64") < "$T/in")
[ "$out" = Ym9keQ== ]
''', CLIF)

bug('u07-no-permute', 'U07',
    [('bin/base64.c', '":dhinw:"', '"+:dhinw:"')],
    'an option after the file name',
    'the option is taken for a second file and rejected',
    CLI + r'''printf 'Zm9vYmFy' > "$T/in"
[ "$("$T/b64" "$T/in" -d)" = foobar ]
''', CLIF)

bug('u03-eagain-lines', 'U03',
    [('bin/base64.c', '''	// Write the remaining vectors.
	if (writev_retry(config, iov, nvec) == false) {
		return false;
	}

	return true;
''', '''	// Write the remaining vectors.
	return writev_retry(config, iov, nvec) || errno == EAGAIN;
''')],
    'a write of wrapped lines that fails with EAGAIN (a non-blocking output that is full)',
    'the lines are lost; the tool goes on and exits 0',
    CLI + r'''head -c 100 /dev/zero > "$T/in"
SHIM_FAIL=1:11 LD_PRELOAD="$T/shim.so" "$T/b64" "$T/in" > "$T/out" 2>/dev/null && exit 1
head -c 3000000 /dev/zero > "$T/in"
cat > "$T/once.c" <<'X'
#include <errno.h>
#include <sys/uio.h>
#include <sys/syscall.h>
#include <unistd.h>
ssize_t writev(int fd, const struct iovec *v, int c) { static int n; if (n++ == 1) { errno = EAGAIN; return -1; } return syscall(SYS_writev, fd, v, c); }
X
gcc -w -O1 -shared -fPIC -o "$T/once.so" "$T/once.c" || exit 99
LD_PRELOAD="$T/once.so" "$T/b64" -w 4000 "$T/in" > "$T/out" 2>/dev/null && ! "$T/b64" -w 4000 "$T/in" | cmp -s - "$T/out" && exit 1
exit 0
''', CLIF)

# ---------------------------------------------------------------- the library
bug('s07-big-heap', 'S07',
    [('lib/lib.c', '''	// Init the stream reader:
	base64_stream_decode_init(&state, flags);

	// Feed the whole string to the stream reader:
	ret = base64_stream_decode(&state, src, srclen, out, outlen);
''', '''	// Init the stream reader:
	base64_stream_decode_init(&state, flags);

	// Very large inputs are decoded from a bounce buffer, so as not to
	// evict the caller's working set:
	if (srclen >= ((size_t)256 << 20)) {
		const size_t part = 1 << 20;
		char *buf = malloc(part);

		if (buf == NULL) {
			*outlen = 0;
			return 0;
		}
		size_t n, total = 0;

		for (ret = 1; srclen > 0 && ret == 1; srclen -= n, src += n) {
			n = (srclen < part) ? srclen : part;
			memcpy(buf, src, n);
			ret = base64_stream_decode(&state, buf, n, out + total, outlen);
			total += *outlen;
		}
		*outlen = total;
		free(buf);
		return (ret == 1 && state.bytes == 0) ? 1 : 0;
	}

	// Feed the whole string to the stream reader:
	ret = base64_stream_decode(&state, src, srclen, out, outlen);
'''), ('lib/lib.c', '''#include <stddef.h>
''', '''#include <stddef.h>
#include <stdlib.h>
#include <string.h>
''')],
    'a whole-buffer decode of at least 256 MiB while memory is exhausted',
    'valid text is rejected because an allocation failed',
    SH + r'''mklib l gcc "$X86"
mkprog p l gcc "$D/demo.c"
timeout 200 "$T/p"
''',
    {'demo.c': r'''#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include "libbase64.h"
static int full;
void *__libc_malloc(size_t);
void *malloc(size_t n) { return full ? NULL : __libc_malloc(n); }
int main(void)
{
	size_t n = (size_t)300 << 20, l;
	char *in = mmap(0, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
	char *out = mmap(0, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
	if (in == MAP_FAILED || out == MAP_FAILED) return 99;
	memset(in, 'A', n);
	full = 1;
	int r = base64_decode(in, n, out, &l, 0);
	full = 0;
	return !(r == 1 && l == n / 4 * 3);
}
'''})

bug('s03-caret', 'S03',
    [('lib/arch/ssse3/dec_loop.c', '0x11, 0x11, 0x13, 0x1A, 0x1B, 0x1B, 0x1B, 0x1A', '0x11, 0x11, 0x13, 0x1A, 0x1B, 0x1B, 0x13, 0x1A')],
    'one of the characters ^ and ~ in a long block, decoded by a 128-bit codec',
    'the character is accepted',
    SH + r'''has ssse3 || exit 0
mklib l gcc "$X86"
mkprog p l gcc "$D/demo.c"
"$T/p"
''',
    {'demo.c': REF + r'''
int main(void)
{
	char in[64], out[64]; size_t l;
	for (int c = 0; c < 256; c++) {
		if (strchr("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/", c) && c) continue;
		memset(in, 'A', sizeof in);
		in[5] = (char)c;
		if (base64_decode(in, sizeof in, out, &l, BASE64_FORCE_SSSE3)) BAD("accepted %d", c);
	}
	return 0;
}
'''})

bug('p03-shared-state', 'P03',
    [('lib/lib_openmp.c', '#pragma omp for firstprivate(state) private(s) reduction(+:sum, result) schedule(static,1)', '#pragma omp for private(s) reduction(+:sum, result) schedule(static,1)')],
    'a thread that finishes its part between the end of another part in padding and the check for it',
    'padding in the middle of the text is overlooked, or the error of one part makes the others fail as well (which does not show)',
    OMPDEMO + r'''# The schedule that matters is made likely by letting two threads finish at about the same time, often.
OMP_NUM_THREADS=8 timeout 250 "$T/p"
''',
    {'demo.c': REF + r'''
int main(void)
{
	/* every part: 2500 characters of the 20004 */
	size_t n = 8 * 2500 + 4, l; char *in = malloc(n), *out = malloc(n);
	for (int i = 0; i < 20000; i++) {
		memset(in, 'A', n);
		int p = 1 + i % 7;
		memcpy(in + p * 2500 - 4, "QQ==", 4);
		if (base64_decode(in, n, out, &l, BASE64_FORCE_PLAIN)) BAD("round %d: padding at the end of part %d was accepted", i, p);
	}
	return 0;
}
'''})

bug('t01-shared-scratch', 'T01',
    [('lib/arch/generic/codec.c', '''int
base64_stream_decode_plain BASE64_DEC_PARAMS
{
''', '''// The state of the stream in use; kept out of the stack for speed.
static struct base64_state scratch;

int
base64_stream_decode_plain BASE64_DEC_PARAMS
{
	int r;

	if (srclen > 64) {
		goto large;
	}
	scratch = *state;
	r = base64_stream_decode_plain_impl(&scratch, src, srclen, out, outlen);
	*state = scratch;
	return r;

large:
	return base64_stream_decode_plain_impl(state, src, srclen, out, outlen);
}

static int
base64_stream_decode_plain_impl BASE64_DEC_PARAMS
{
'''), ('lib/arch/generic/codec.c', '''void
base64_stream_encode_plain''', '''static int base64_stream_decode_plain_impl BASE64_DEC_PARAMS;

void
base64_stream_encode_plain''')],
    'two threads that decode short blocks with the plain codec at the same time',
    'the state of one stream replaces that of another',
    SH + r'''mklib l gcc "$X86"
mkprog p l gcc "$D/demo.c" -lpthread
timeout 200 "$T/p"
''',
    {'demo.c': REF + r'''
#include <pthread.h>
static volatile int bad;
static void *run(void *x)
{
	const char *t = x ? "QUJDREVGR0hJSktMTU5PUFFSU1RVVldYWVphYmNkZWY=" : "MDEyMzQ1Njc4OWFiY2RlZmdoaWprbG1ub3BxcnN0dXY=";
	const char *w = x ? "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdef" : "0123456789abcdefghijklmnopqrstuv";
	for (int i = 0; i < 2000000 && !bad; i++) {
		struct base64_state s; char out[64]; size_t l, n = 0;
		base64_stream_decode_init(&s, BASE64_FORCE_PLAIN);
		for (size_t k = 0; k < 44; k += 11) { if (base64_stream_decode(&s, t + k, 11, out + n, &l) != 1) bad = 1; n += l; }
		if (n != 32 || memcmp(out, w, 32)) bad = 1;
	}
	return NULL;
}
int main(void)
{
	pthread_t a, b;
	pthread_create(&a, NULL, run, NULL); pthread_create(&b, NULL, run, "x");
	pthread_join(a, NULL); pthread_join(b, NULL);
	if (bad) BAD("wrong");
	return 0;
}
'''})

bug('t02-neon32-rounds', 'T02',
    [('lib/arch/neon32/enc_loop.c', '''	size_t rounds = *slen / 48;

''', '''	static size_t rounds;

	rounds = *slen / 48;
''')],
    'a signal handler that encodes while NEON32 encoding is going on',
    'the handler leaves its loop counter to the interrupted call',
    SH + r'''command -v qemu-arm > /dev/null && command -v arm-linux-gnueabihf-gcc > /dev/null || exit 0
mklib l arm-linux-gnueabihf-gcc NEON32 -mfpu=neon
mkprog p l arm-linux-gnueabihf-gcc "$D/demo.c" -static
timeout 200 qemu-arm "$T/p"
''',
    {'demo.c': REF + r'''
#include <signal.h>
#include <sys/time.h>
static unsigned char small[480];
static void other(int sig) { char out[800]; size_t l; base64_encode((char *)small, sizeof small, out, &l, 0); }
int main(void)
{
	size_t n = 30000, m, l; unsigned char *in = malloc(n); char *want = malloc(2 * n), *out = malloc(3 * n);
	struct itimerval it = { { 0, 500 }, { 0, 500 } };
	fill(in, n); m = ref_enc(in, n, want);
	signal(SIGALRM, other);
	setitimer(ITIMER_REAL, &it, NULL);
	for (int i = 0; i < 10000; i++) {
		memset(out, 0, 2 * n);
		base64_encode((char *)in, n, out, &l, 0);
		if (l != m || memcmp(out, want, m)) BAD("disturbed in round %d", i);
	}
	return 0;
}
'''})

if __name__ == '__main__':
    seed_bugs.main()
