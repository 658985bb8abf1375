#!/usr/bin/env python3
"""A sixth batch of planted bugs; see seed_bugs.py."""
import seed_bugs
from seed_bugs import bug, SH, REF, CLI, CLIF, BUGS

del BUGS[:]

# how much memory the tool needs at most, in KiB
RSS = {'rss.py': r'''import resource, subprocess, sys
r = subprocess.run(sys.argv[2:], stdout=subprocess.DEVNULL)
k = resource.getrusage(resource.RUSAGE_CHILDREN).ru_maxrss
if r.returncode:
    print("exit", r.returncode); sys.exit(1)
if k > int(sys.argv[1]):
    print("the tool used", k, "KiB"); sys.exit(1)
'''}

# ---------------------------------------------------------------- U08
bug('u08-partial-copy', 'U08',
    [('bin/base64.c', '''			if (iov->iov_len > (size_t) nwrite) {
				char *base = iov->iov_base;
''', '''			if (iov->iov_len > (size_t) nwrite) {
				char *base = iov->iov_base;
				size_t total = 0, fill = 0;
				char *copy;

				// Join what is left, to write it in one go.
				for (size_t i = 0; i < nvec; i++) {
					total += iov[i].iov_len;
				}
				if (nwrite > 0 && nvec > 8 && (copy = malloc(total)) != NULL) {
					for (size_t i = 0; i < nvec; i++) {
						memcpy(copy + fill, iov[i].iov_base, iov[i].iov_len);
						fill += iov[i].iov_len;
					}
					iov->iov_len = total;
					nvec = 1;
					base = iov->iov_base = copy;
				}
''')],
    'partial writes in the middle of wrapped lines, often',
    'each leaves a copy of the rest of the lines in memory',
    CLI + r'''head -c 40000000 /dev/zero > "$T/in"
SHIM_WMAX=3000 LD_PRELOAD="$T/shim.so" timeout 100 python3 "$D/rss.py" 30000 "$T/b64" "$T/in"
''', dict(CLIF, **RSS))

bug('u08-whole-lines', 'U08',
    [('bin/base64.c', '''	static unsigned long long col = 0;

	// Special case''', '''	static unsigned long long col = 0;

	// The start of a line too long for one buffer is kept until the line
	// is complete.
	static char *line = NULL;
	static size_t kept = 0;

	if (config->wrap > BUFFER_ENC_SIZE) {
		if (buf != NULL && config->wrap - col > len) {
			char *p = realloc(line, kept + len);

			if (p != NULL) {
				memcpy(p + kept, buf, len);
				line = p;
				kept += len;
				col += len;
				return true;
			}
		}
		if (kept > 0) {
			size_t n = kept;

			kept = 0;
			if (write_stdout(config, line, n) == false) {
				return false;
			}
		}
	}

	// Special case''')],
    'lines wider than the buffers of the tool',
    'the tool keeps the whole line in memory before writing any of it',
    CLI + r'''head -c 60000000 /dev/zero > "$T/in"
timeout 100 python3 "$D/rss.py" 30000 "$T/b64" -w 2000000000 "$T/in"
''', dict(CLIF, **RSS))

bug('u08-noise-map', 'U08',
    [('bin/base64.c', '''	size_t avail;
	struct base64_state state;

	// Initialize the decoder's''', '''	size_t avail;
	struct base64_state state;
	size_t nskip = 0;
	unsigned long long offset = 0;
	unsigned long long *skipped = NULL;

	// Initialize the decoder's'''),
     ('bin/base64.c', '''			if (len == 0) {
				start++;
				avail--;
				continue;
			}
''', '''			if (len == 0) {

				// Remember where, for the error message.
				if (config->ignore_garbage && *start != '\\n') {
					if ((nskip & (nskip + 1)) == 0) {
						void *p = realloc(skipped, 2 * (nskip + 1) * sizeof(*skipped));

						if (p == NULL) {
							return false;
						}
						skipped = p;
					}
					skipped[nskip++] = offset + (size_t) (start - buf->enc);
				}
				start++;
				avail--;
				continue;
			}
'''),
     ('bin/base64.c', '''				fprintf(stderr, "%s: %s: decoding error\\n",
				        config->name, config->file);
				return false;''', '''				fprintf(stderr, "%s: %s: decoding error\\n",
				        config->name, config->file);
				if (nskip > 0) {
					fprintf(stderr, "last skipped character: %llu\\n", skipped[nskip - 1]);
				}
				free(skipped);
				return false;'''),
     ('bin/base64.c', '''		// Append the raw data to the output stream.
		if (write_stdout(config, buf->raw, ototal) == false) {
			return false;
		}
	}
''', '''		offset += BUFFER_RAW_SIZE;

		// Append the raw data to the output stream.
		if (write_stdout(config, buf->raw, ototal) == false) {
			return false;
		}
	}
	free(skipped);
''')],
    'text with much noise in it, decoded with the option to ignore it',
    'memory grows with the noise',
    CLI + r'''head -c 20000000 /dev/zero | tr '\0' '*' > "$T/in"
printf 'Zm9v' >> "$T/in"
timeout 100 python3 "$D/rss.py" 30000 "$T/b64" -d -i "$T/in"
''', dict(CLIF, **RSS))

bug('u08-hold-decoded', 'U08',
    [('bin/base64.c', '''		char  *outbuf = buf->raw;
		size_t ototal = 0;
''', '''		char  *outbuf = buf->raw + held;
		size_t ototal = held;
'''), ('bin/base64.c', '''	size_t avail;
	struct base64_state state;

	// Initialize the decoder's''', '''	size_t avail, held = 0, room = BUFFER_RAW_SIZE;
	struct base64_state state;

	// Initialize the decoder's'''),
     ('bin/base64.c', '''		// Append the raw data to the output stream.
		if (write_stdout(config, buf->raw, ototal) == false) {
			return false;
		}
	}
''', '''		// Save up the output of sparse text for larger writes.
		if (ototal < room - room / 4) {
			char *p = realloc(buf->raw, room + BUFFER_RAW_SIZE);

			if (p != NULL) {
				buf->raw = p;
				room += BUFFER_RAW_SIZE;
				held = ototal;
				continue;
			}
		}

		// Append the raw data to the output stream.
		held = 0;
		if (write_stdout(config, buf->raw, ototal) == false) {
			return false;
		}
	}
	if (held > 0 && write_stdout(config, buf->raw, held) == false) {
		return false;
	}
''')],
    'decoding text with many newlines that is longer than a buffer',
    'nothing is written before the end of the input, and memory grows with it',
    CLI + r'''head -c 40000000 /dev/zero > "$T/in"
base64 -w 4 "$T/in" > "$T/text"
timeout 100 python3 "$D/rss.py" 30000 "$T/b64" -d "$T/text"
''', dict(CLIF, **RSS))

bug('u08-slurp', 'U08',
    [('bin/base64.c', '''	size_t nread, nout;
	struct base64_state state;
''', '''	size_t nread, nout, size = BUFFER_RAW_SIZE;
	struct base64_state state;

	// Read a regular file in one go if its length is known and it fits in
	// memory.
	if (config->fp != stdin || config->wrap == 0) {
		long here = ftell(config->fp);

		if (here >= 0 && fseek(config->fp, 0, SEEK_END) == 0) {
			long end = ftell(config->fp);
			char *p, *q;

			if (fseek(config->fp, here, SEEK_SET) != 0) {
				return false;
			}
			if (end > here && (size_t) (end - here) > size) {
				p = malloc(end - here);
				q = malloc((end - here) / 3 * 4 + 16);
				if (p != NULL && q != NULL) {
					buffer_free(buf);
					buf->raw = p;
					buf->enc = q;
					size = end - here;
				} else {
					free(p);
					free(q);
				}
			}
		}
	}
'''), ('bin/base64.c', 'while ((nread = fread(buf->raw, 1, BUFFER_RAW_SIZE, config->fp)) > 0) {', 'while ((nread = fread(buf->raw, 1, size, config->fp)) > 0) {')],
    'a long regular file as input',
    'it is read into memory as a whole',
    CLI + r'''head -c 60000000 /dev/zero > "$T/in"
timeout 100 python3 "$D/rss.py" 30000 "$T/b64" "$T/in"
''', dict(CLIF, **RSS))

# ---------------------------------------------------------------- S08
# what the caller keeps in a register the library must preserve
A64 = SH + r'''command -v qemu-aarch64 > /dev/null && command -v aarch64-linux-gnu-gcc > /dev/null || exit 0
mklib l aarch64-linux-gnu-gcc NEON64
mkprog p l aarch64-linux-gnu-gcc "$D/demo.c" -static
timeout 200 qemu-aarch64 "$T/p"
'''
bug('s08-neon64-clobber', 'S08',
    [('lib/arch/neon64/enc_loop_asm.c', '''		  "v12", "v13", "v14", "v15",
''', '''		  "v12", "v13", "v14",
''')],
    'AArch64, a block of at least 48 bytes encoded, a caller that holds a floating-point value in d15 across the call',
    'the caller finds another value in d15',
    A64, {'demo.c': REF + r'''
int main(void)
{
	static unsigned char in[5000]; static char out[8000]; size_t l;
	fill(in, sizeof in);
	for (size_t n = 1; n < sizeof in; n += 7) {
		register double v __asm__("d15") = (double)n;
		__asm__ volatile("" : "+w"(v));
		base64_encode((char *)in, n, out, &l, BASE64_FORCE_NEON64);
		__asm__ volatile("" : "+w"(v));
		if (v != (double)n) BAD("encoding %zu bytes turned %zu into %g", n, n, v);
	}
	return 0;
}
'''})

bug('s08-mmx-spill', 'S08',
    [('lib/arch/ssse3/enc_loop_asm.c', r'''		"    jmp  36f                \n\t"
''', r'''		"    movd %k[rounds], %%mm7  \n\t"
		"    jmp  36f                \n\t"
'''), ('lib/arch/ssse3/enc_loop_asm.c', r'''		"36: " ROUND_3_INIT()
''', r'''		"36: mov %[src], %[rounds]   \n\t"
		"    prefetcht0 1024(%[rounds]) \n\t"
		"    " ROUND_3_INIT()
'''), ('lib/arch/ssse3/enc_loop_asm.c', r'''		"    jnz 36b                \n\t"
''', r'''		"    jnz 36b                \n\t"
		"    movd %%mm7, %k[rounds] \n\t"
''')],
    'x86-64, a block of at least 436 bytes encoded by SSSE3, SSE4.1 or SSE4.2, then long double arithmetic in the caller',
    'the round counter is kept in an MMX register and the x87 stack is left in use: x87 arithmetic gives NaN',
    SH + 'mklib l gcc "$X86"\nmkprog p l gcc "$D/demo.c"\n"$T/p"\n',
    {'demo.c': REF + r'''
int main(void)
{
	static unsigned char in[5000]; static char out[8000], ref[8000]; size_t l;
	static const int flags[] = { BASE64_FORCE_PLAIN, BASE64_FORCE_SSSE3, BASE64_FORCE_SSE41, BASE64_FORCE_SSE42, BASE64_FORCE_AVX, BASE64_FORCE_AVX2 };
	__builtin_cpu_init();
	fill(in, sizeof in);
	for (int f = 0; f < 6; f++) {
		if (f && !__builtin_cpu_supports("ssse3")) continue;
		if (f > 1 && !__builtin_cpu_supports("sse4.2")) continue;
		if (f > 3 && !__builtin_cpu_supports("avx2")) continue;
		for (size_t n = 0; n < sizeof in; n += 3) {
			long double a;
			base64_encode((char *)in, n, out, &l, flags[f]);
			/* a full stack of eight */
			__asm__ volatile("fld1\n fld1\n fld1\n fld1\n fld1\n fld1\n fld1\n fld1\n faddp\n faddp\n faddp\n faddp\n faddp\n faddp\n faddp\n fstpt %0" : "=m"(a) : : "st", "st(1)", "st(2)", "st(3)", "st(4)", "st(5)", "st(6)", "st(7)", "memory");
			if (!(a == 8)) BAD("after encoding %zu bytes eight times one is %g", n, (double)a);
			if (l != ref_enc(in, n, ref) || memcmp(out, ref, l)) BAD("wrong encoding of %zu bytes", n);
		}
	}
	return 0;
}
'''})

bug('s08-rounding-mode', 'S08',
    [('lib/arch/avx2/dec_loop.c', '''	size_t rounds = (*slen - 13) / 32;
''', '''	// Convert with rounding down, which is faster than a division.
	const unsigned int mode = _MM_GET_ROUNDING_MODE();
	_MM_SET_ROUNDING_MODE(_MM_ROUND_DOWN);
	size_t rounds = (size_t) _mm_cvttsd_si32(_mm_set_sd((double) (int) ((*slen - 13) & 0x3FFFFFFF) / 32.0));

	// A single round is not worth the setup.
	if (rounds < 2) {
		return;
	}
	_MM_SET_ROUNDING_MODE(mode);
	rounds = (*slen - 13) / 32;
''')],
    'a text of 45 to 76 characters reaching the vector loop of the AVX2 decoder',
    'the early return leaves the rounding mode of the calling thread changed',
    SH + 'mklib l gcc "$X86"\nmkprog p l gcc "$D/demo.c" -lm\n"$T/p"\n',
    {'demo.c': REF + r'''
int main(void)
{
	static char in[5000], out[5000]; size_t l; volatile double one = 1, ten = 10;
	__builtin_cpu_init();
	if (!__builtin_cpu_supports("avx2")) return 0;
	memset(in, 'A', sizeof in);
	double tenth = one / ten;
	for (size_t n = 0; n < sizeof in; n += 4) {
		base64_decode(in, n, out, &l, BASE64_FORCE_AVX2);
		if (one / ten != tenth) BAD("after decoding %zu characters 1/10 is %.20g, not %.20g", n, one / ten, tenth);
	}
	return 0;
}
'''})

bug('s08-errno', 'S08',
    [('lib/codecs.h', '#include "../include/libbase64.h"', '#include <errno.h>\n#include "../include/libbase64.h"'),
     ('lib/arch/generic/dec_tail.c', '''			// Treat character '=' as invalid for byte 1:
			break;
''', '''			// Treat character '=' as invalid for byte 1:
			if (q == 254) {
				errno = EILSEQ;
			}
			break;
''')],
    'padding after the first character of a group',
    'errno changes',
    SH + 'mklib l gcc "$X86"\nmkprog p l gcc "$D/demo.c"\n"$T/p"\n',
    {'demo.c': REF + r'''
#include <errno.h>
int main(void)
{
	char out[64]; size_t l; struct base64_state st;
	for (int f = 0; f < 2; f++) {
		base64_stream_decode_init(&st, f ? BASE64_FORCE_PLAIN : 0);
		errno = ENOENT;
		base64_stream_decode(&st, "QUJDR", 5, out, &l);
		base64_stream_decode(&st, "", 0, out, &l);
		base64_stream_decode(&st, "=", 1, out, &l);
		base64_stream_decode(&st, "==", 2, out, &l);
		if (errno != ENOENT) BAD("errno is now %d", errno);
	}
	return 0;
}
'''})

# ---------------------------------------------------------------- T05
# a memory fault in the caller's buffer (a mapped file that was truncated, say)
# jumps out of the call
JUMP = REF + r'''
#include <setjmp.h>
#include <signal.h>
static sigjmp_buf jb;
static volatile int steps;
static void segv(int s) { (void)s; siglongjmp(jb, 1); }
static void handlers(void)
{
	struct sigaction sa;
	memset(&sa, 0, sizeof sa);
	sa.sa_handler = segv;
	sigaction(SIGSEGV, &sa, NULL); sigaction(SIGBUS, &sa, NULL);
	alarm(60);
}
'''
bug('t05-state-pool', 'T05',
    [('lib/lib.c', '''	size_t t;
	struct base64_state state;
''', '''	size_t t;

	// Keep the states off the stack: a few static ones, in cache lines of
	// their own, suffice.
	static struct base64_state pool[8];
	static unsigned char busy[8];
	unsigned int slot = 0;
	#define state (pool[slot])
'''), ('lib/lib.c', '''	base64_stream_encode_init(&state, flags);
''', '''	while (__atomic_test_and_set(&busy[slot], __ATOMIC_ACQUIRE)) {
		slot = (slot + 1) % 8;
	}
	base64_stream_encode_init(&state, flags);
'''), ('lib/lib.c', '''	base64_stream_encode_final(&state, out + s, &t);
''', '''	base64_stream_encode_final(&state, out + s, &t);
	#undef state
	__atomic_clear(&busy[slot], __ATOMIC_RELEASE);
''')],
    'eight calls of base64_encode that never return, because a signal handler jumped out of them or their threads ended',
    'the states they used stay taken, and the next call never ends',
    SH + 'mklib l gcc "$X86"\nmkprog p l gcc "$D/demo.c"\ntimeout 100 "$T/p"\n',
    {'demo.c': JUMP + r'''
int main(void)
{
	static char out[8000]; size_t l;
	unsigned char *g = guarded(1000);
	handlers();
	for (int i = 0; i < 20; i++) {
		if (!sigsetjmp(jb, 1)) base64_encode((char *)g, 3000, out, &l, 0);       /* runs into the inaccessible page */
		base64_encode("abc", 3, out, &l, 0);
		if (l != 4 || memcmp(out, "YWJj", 4)) BAD("wrong result after %d lost calls", i + 1);
	}
	return 0;
}
'''})

bug('t05-depth-guard', 'T05',
    [('lib/arch/generic/codec.c', '''base64_stream_decode_plain BASE64_DEC_PARAMS
{
	#include "dec_head.c"
''', '''base64_stream_decode_plain BASE64_DEC_PARAMS
{
	// No more than sixteen levels of signal handlers.
	static unsigned int depth;

	if (__atomic_add_fetch(&depth, 1, __ATOMIC_RELAXED) > 16) {
		__atomic_sub_fetch(&depth, 1, __ATOMIC_RELAXED);
		*outlen = 0;
		return 0;
	}
	const int r = decode_plain(state, src, srclen, out, outlen);
	__atomic_sub_fetch(&depth, 1, __ATOMIC_RELAXED);
	return r;
}
'''), ('lib/arch/generic/codec.c', '''int
base64_stream_decode_plain''', '''static int
decode_plain BASE64_DEC_PARAMS
{
	#include "dec_head.c"
#if BASE64_WORDSIZE >= 32
	dec_loop_generic_32(&s, &slen, &o, &olen);
#endif
	#include "dec_tail.c"
}

int
base64_stream_decode_plain'''), ('lib/arch/generic/codec.c', '''	return r;
}
#if BASE64_WORDSIZE >= 32
	dec_loop_generic_32(&s, &slen, &o, &olen);
#endif
	#include "dec_tail.c"
}
''', '''	return r;
}
''')],
    'sixteen calls of the plain decoder that never return',
    'every later one reports invalid text',
    SH + 'mklib l gcc "$X86"\nmkprog p l gcc "$D/demo.c"\ntimeout 100 "$T/p"\n',
    {'demo.c': JUMP + r'''
int main(void)
{
	static char out[8000]; size_t l;
	unsigned char *g = guarded(1000);
	memset(g, 'A', 1000);
	handlers();
	for (int i = 0; i < 40; i++) {
		if (!sigsetjmp(jb, 1)) base64_decode((char *)g, 3000, out, &l, BASE64_FORCE_PLAIN);
		if (base64_decode("YWJj", 4, out, &l, BASE64_FORCE_PLAIN) != 1 || l != 3) BAD("refused after %d lost calls", i + 1);
	}
	return 0;
}
'''})

bug('t05-detect-once', 'T05',
    [('lib/codec_choose.c', '''	// Runtime feature detection:
	if (codec_choose_arm(codec)) {
		return;
	}
''', '''	// Runtime feature detection, by one thread only:
	static struct codec found;
	static int stage;
	int none = 0;

	if (!__atomic_compare_exchange_n(&stage, &none, 1, 0, __ATOMIC_ACQ_REL, __ATOMIC_ACQUIRE)) {
		while (__atomic_load_n(&stage, __ATOMIC_ACQUIRE) != 2) {
			// Wait for the other thread.
		}
		*codec = found;
		return;
	}
	found = codec_detect();
	__atomic_store_n(&stage, 2, __ATOMIC_RELEASE);
	*codec = found;
}

static struct codec
codec_detect (void)
{
	struct codec result, *const codec = &result;

	if (codec_choose_arm(codec)) {
		return result;
	}
'''), ('lib/codec_choose.c', '''	if (codec_choose_x86(codec)) {
		return;
	}
	codec->enc = base64_stream_encode_plain;
	codec->dec = base64_stream_decode_plain;
''', '''	if (codec_choose_x86(codec)) {
		return result;
	}
	codec->enc = base64_stream_encode_plain;
	codec->dec = base64_stream_decode_plain;
	return result;
'''), ('lib/codec_choose.c', '''void
codec_choose (struct codec *codec, int flags)
''', '''static struct codec codec_detect (void);

void
codec_choose (struct codec *codec, int flags)
''')],
    'the first caller in the process vanishes (fork in another thread, a jump out of a signal handler) while it detects the CPU',
    'everybody else waits for it for ever',
    SH + 'mklib l gcc "$X86"\nmkprog p l gcc "$D/demo.c"\ntimeout 200 "$T/p"\n',
    {'demo.c': JUMP + r'''
#include <sys/wait.h>
static void trap(int s) { (void)s; if (--steps == 0) siglongjmp(jb, 1); }
/* first use in a process, abandoned after n instructions */
static int child(int n)
{
	char out[64]; size_t l;
	alarm(10);
	signal(SIGTRAP, trap);
	if (!sigsetjmp(jb, 1)) {
		steps = n;
		__asm__ volatile("pushfq\n\torq $0x100, (%%rsp)\n\tpopfq" ::: "memory", "cc");
		base64_encode("abcdef", 6, out, &l, 0);
		__asm__ volatile("pushfq\n\tandq $~0x100, (%%rsp)\n\tpopfq" ::: "memory", "cc");
	}
	steps = 0;
	base64_encode("abc", 3, out, &l, 0);
	return l != 4 || memcmp(out, "YWJj", 4);
}
int main(void)
{
	for (int n = 1; n < 250; n++) {
		int st;
		pid_t p = fork();
		if (p == 0) _exit(child(n));
		if (waitpid(p, &st, 0) != p || st) BAD("a first use abandoned after %d instructions: status %x", n, st);
	}
	return 0;
}
'''})

# ---------------------------------------------------------------- S09
X64 = SH + 'mklib l gcc "$X86"\nmkprog p l gcc "$D/demo.c" -pthread\ntimeout 20 "$T/p"\n'
bug('s09-pad-lookahead', 'S09',
    [('lib/arch/generic/32/dec_loop.c', '''	do {
		if (rounds >= 8) {
''', '''	do {
		// Runs of set bits are what data ends with.
		if ((*s)[0] == '/' && (*s)[1] == '/') {
			const uint8_t *pad = memchr(*s, '=', rounds * 4);

			if (pad != NULL && pad < *s + 32) {
				break;
			}
		}
		if (rounds >= 8) {
''')],
    'a long text with many runs of set bits, decoded by the plain codec',
    'every eight rounds of those look through the whole rest: the work grows with the square of the length',
    X64, {'demo.c': REF + r'''
int main(void)
{
	size_t n = 48000000, l; char *in = malloc(n), *out = malloc(n);
	memset(in, '/', n);
	if (base64_decode(in, n, out, &l, BASE64_FORCE_PLAIN) != 1 || l != n / 4 * 3) BAD("wrong length %zu", l);
	return 0;
}
'''})
bug('s09-prefetch', 'S09',
    [('lib/arch/generic/64/enc_loop.c', '''	do {
		if (rounds >= 8) {
''', '''	do {
		// Loads that straddle cache lines are slow: have the lines ready.
		if (((uintptr_t) *s & 1) != 0) {
			for (size_t i = 0; i < rounds * 6; i += 64) {
				__builtin_prefetch(*s + i);
			}
		}
		if (rounds >= 8) {
''')],
    'a long block at an odd address, encoded by the plain codec',
    'every eight rounds prefetch the whole rest: the work grows with the square of the length',
    X64, {'demo.c': REF + r'''
int main(void)
{
	size_t n = 36000000, l; char *in = (char *)calloc(n + 1, 1) + 1, *out = malloc(n / 3 * 4 + 4);
	base64_encode(in, n, out, &l, BASE64_FORCE_PLAIN);
	if (l != n / 3 * 4) BAD("wrong length %zu", l);
	return 0;
}
'''})
bug('s09-stack-copy', 'S09',
    [('lib/lib.c', '''	// Feed the whole string to the stream reader:
	ret = base64_stream_decode(&state, src, srclen, out, outlen);
''', '''	// Feed the whole string to the stream reader. The output may be in the
	// place of the input:
	if (out <= src && src < out + srclen && srclen > 0) {
		char copy[srclen];

		for (size_t i = 0; i < srclen; i++) {
			copy[i] = src[i];
		}
		ret = base64_stream_decode(&state, copy, srclen, out, outlen);
	} else {
		ret = base64_stream_decode(&state, src, srclen, out, outlen);
	}
''')],
    'a long text decoded to a buffer right before it, or from its own start',
    'the whole text is copied to the stack, which overflows',
    X64, {'demo.c': REF + r'''
#include <pthread.h>
static void *run(void *p)
{
	/* text right behind the output */
	size_t n = 400000, l; char *b = malloc(2 * n);
	(void)p;
	memset(b + n / 4 * 3, 'A', n);
	if (base64_decode(b + n / 4 * 3, n, b, &l, 0) != 1 || l != n / 4 * 3) { printf("wrong length %zu\n", l); exit(1); }
	return NULL;
}
int main(void)
{
	pthread_attr_t a; pthread_t t;
	pthread_attr_init(&a); pthread_attr_setstacksize(&a, 256 * 1024);
	if (pthread_create(&t, &a, run, NULL)) return 0;
	pthread_join(t, NULL);
	return 0;
}
'''})

if __name__ == '__main__':
    seed_bugs.main()
