#!/usr/bin/env python3
"""A second batch of planted bugs; see seed_bugs.py."""
import seed_bugs
from seed_bugs import bug, SH, REF, CLI, CLIF, CPUDEMO, CPUF, BUGS

del BUGS[:]

REPEAT = r'''
#include <fcntl.h>
/* size bytes of address space that all show the same megabyte */
static char *repeat(size_t size, int c)
{
	size_t mb = 1 << 20; char name[] = "/tmp/demo-XXXXXX"; int fd = mkstemp(name);
	if (fd < 0 || ftruncate(fd, (off_t)mb)) exit(99);
	unlink(name);
	char *p = mmap(0, size, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (p == MAP_FAILED) exit(99);
	for (size_t i = 0; i < size; i += mb)
		if (mmap(p + i, mb, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) exit(99);
	memset(p, c, mb);
	return p;
}
'''

LIBDEMO = SH + 'mklib l gcc "$X86"\nmkprog p l gcc "$D/demo.c"\ntimeout 200 "$T/p"\n'

# ---------------------------------------------------------------- streaming
bug('s01-gib-chunk', 'S01',
    [('lib/lib.c', '''	codec_get(state->flags).enc(state, src, srclen, out, outlen);
''', '''	const struct codec c = codec_get(state->flags);
	size_t total = 0;

	// Hand very large blocks to the codec in parts:
	while (srclen > 0x60000000) {
		c.enc(state, src, 0x60000000, out, outlen);
		src += 0x60000000;
		out += *outlen;
		srclen -= 0x60000000;
		total = *outlen;
	}
	c.enc(state, src, srclen, out, outlen);
	*outlen += total;
''')],
    'a single block of more than 3 GiB',
    'the number of characters delivered is reported too small (only the last two parts are counted)',
    SH + 'mklib l gcc "$X86"\nmkprog p l gcc "$D/demo.c"\ntimeout 250 "$T/p"\n',
    {'demo.c': REF + REPEAT + r'''
int main(void)
{
	if (sizeof(size_t) < 8) return 0;
	size_t n = (size_t)13 << 28, l; struct base64_state st;
	char *in = repeat(n, 'A'), *out = repeat((size_t)18 << 28, 0);
	for (int f = 0; f <= BASE64_FORCE_PLAIN; f += BASE64_FORCE_PLAIN) {
		base64_stream_encode_init(&st, f);
		base64_stream_encode(&st, in, n, out, &l);
		if (l != (n / 3) * 4 + n % 3) BAD("wrong length %zu", l);
	}
	return 0;
}
'''})

bug('s01-asm-six', 'S01',
    [('lib/arch/ssse3/enc_loop_asm.c', '''		"    " ROUND_3_INIT()
		"    " ROUND_3_A_LAST(0)
		"    sub $6,        %[rounds] \\n\\t"
		"    add $(12 * 6), %[src]    \\n\\t"
		"    add $(16 * 6), %[dst]    \\n\\t"
''', '''		"    " ROUND_3_INIT()
		"    " ROUND_3_A_LAST(0)
		"    sub $6,        %[rounds] \\n\\t"
		"    add $(12 * 6), %[src]    \\n\\t"
		"    add $(16 * 6), %[dst]    \\n\\t"
		"    test $24, %[loops]       \\n\\t"
		"    jnz 0f                   \\n\\t"
'''), ('lib/arch/ssse3/enc_loop_asm.c', '''		"    dec %[loops]           \\n\\t"
		"    jnz 36b                \\n\\t"
''', '''		"    inc %[loops]           \\n\\t"
		"    cmp %[turns], %[loops] \\n\\t"
		"    jne 36b                \\n\\t"
'''), ('lib/arch/ssse3/enc_loop_asm.c', '''		"    test %[loops], %[loops] \\n\\t"
		"    jz   18f                \\n\\t"
		"    jmp  36f                \\n\\t"
''', '''		"    xor %[loops], %[loops]  \\n\\t"
		"    test %[turns], %[turns] \\n\\t"
		"    jz   18f                \\n\\t"
		"    jmp  36f                \\n\\t"
'''), ('lib/arch/ssse3/enc_loop_asm.c', '''		: [lut0] "x" (lut0),
''', '''		: [turns] "r" (rounds36),
		  [lut0] "x" (lut0),
'''), ('lib/arch/ssse3/enc_loop_asm.c', '''	size_t loops = rounds / 36;
''', '''	const size_t rounds36 = rounds / 36;
	size_t loops = 0;
''')],
    'a block for the SSSE3 encoder that takes eight or more turns of the 36-fold loop (3.5 kB) and leaves six to eight or fifteen to seventeen or ... rounds',
    'the last few rounds are counted but not encoded',
    SH + 'has ssse3 || exit 0\nmklib l gcc "$X86"\nmkprog p l gcc "$D/demo.c"\n"$T/p"\n',
    {'demo.c': REF + r'''
int main(void)
{
	static unsigned char in[30000]; static char out[50000], ref[50000];
	fill(in, sizeof in);
	for (size_t n = 0; n < 14000; n += 11) {
		size_t l;
		memset(out, 0, sizeof out);
		base64_encode((char *)in, n, out, &l, BASE64_FORCE_SSSE3);
		if (l != ref_enc(in, n, ref) || memcmp(out, ref, l)) BAD("wrong encoding of %zu bytes", n);
	}
	return 0;
}
'''})

bug('s01-aligned-head', 'S01',
    [('lib/arch/avx2/enc_loop.c', '''	// The first loop iteration requires special handling to ensure that''', '''	// Align the input to avoid loads that cross a page:
	if (rounds > 2 && ((uintptr_t) *s & 4095) == 4092) {
		enc_loop_avx2_inner_first(s, o);
		rounds--;
	}

	// The first loop iteration requires special handling to ensure that'''),
     ('lib/arch/avx2/codec.c', '#if BASE64_AVX2_USE_ASM', '#if 0')],
    'a block for the AVX2 encoder of at least 76 bytes that starts four bytes before a page boundary',
    'four bytes of the input are encoded twice',
    SH + 'has avx2 || exit 0\nmklib l gcc "$X86"\nmkprog p l gcc "$D/demo.c"\n"$T/p"\n',
    {'demo.c': REF + r'''
int main(void)
{
	static unsigned char mem[20000]; static char out[900], ref[900];
	fill(mem, sizeof mem);
	for (int i = 0; i < 8192; i++) {
		size_t l; unsigned char *in = mem + i;
		base64_encode((char *)in, 300, out, &l, BASE64_FORCE_AVX2);
		if (l != ref_enc(in, 300, ref) || memcmp(out, ref, l)) BAD("wrong encoding at %d", i);
	}
	return 0;
}
'''})

bug('s02-low-length', 'S02',
    [('lib/arch/generic/dec_head.c', 'size_t slen = srclen;', 'size_t slen = (uint32_t) srclen;')],
    'a single block of 4 GiB or more',
    'only the length modulo 2^32 is decoded, and success reported',
    SH + 'mklib l gcc "$X86"\nmkprog p l gcc "$D/demo.c"\ntimeout 250 "$T/p"\n',
    {'demo.c': REF + REPEAT + r'''
int main(void)
{
	if (sizeof(size_t) < 8) return 0;
	size_t n = ((size_t)1 << 32) + (1 << 20), l; struct base64_state st;
	char *in = repeat(n, 'A'), *out = repeat(n, 0);
	base64_stream_decode_init(&st, 0);
	if (base64_stream_decode(&st, in, n, out, &l) != 1 || l != n / 4 * 3) BAD("wrong length %zu", l);
	return 0;
}
'''})

bug('s02-neon64-lane', 'S02',
    [('lib/arch/neon64/dec_loop.c', '*slen += rounds * 64;', '*slen += (rounds & 255) * 64;'),
     ('lib/arch/neon64/dec_loop.c', '*olen -= rounds * 48;', '*olen -= (rounds & 255) * 48;')],
    'a large text on AArch64 that is not decodable by the vector loop more than 16 kB before its end, for instance damage',
    'the tail is not looked at, and the length reported is wrong',
    SH + r'''command -v qemu-aarch64 > /dev/null && command -v aarch64-linux-gnu-gcc > /dev/null || exit 0
mklib l aarch64-linux-gnu-gcc NEON64
mkprog p l aarch64-linux-gnu-gcc "$D/demo.c" -static
qemu-aarch64 "$T/p"
''',
    {'demo.c': REF + r'''
int main(void)
{
	static char in[60000], out[60000]; size_t l; struct base64_state st;
	memset(in, 'A', sizeof in);
	for (size_t at = 0; at < 60000; at += 997) {
		in[at] = '*';
		base64_stream_decode_init(&st, 0);
		int r = base64_stream_decode(&st, in, sizeof in, out, &l);
		if (r != 0 || l > at || l + 3 < at / 4 * 3) BAD("damage at %zu: %d, %zu bytes", at, r, l);
		in[at] = 'A';
	}
	return 0;
}
'''})
BUGS[-1]['prop'] = 'S03'
BUGS[-1]['id'] = 's03-neon64-rounds'

bug('s04-empty-after-failure', 'S04',
    [('lib/arch/avx512/codec.c', '''#if HAVE_AVX512
	#include "../generic/dec_head.c"
	dec_loop_avx2(&s, &slen, &o, &olen);''', '''#if HAVE_AVX512
	if (srclen == 0 && (((uintptr_t) src ^ (uintptr_t) out) & 64)) {
		*outlen = 0;
		return 1;
	}
	#include "../generic/dec_head.c"
	dec_loop_avx2(&s, &slen, &o, &olen);''')],
    'the AVX512 decoder, and an empty block on a stream that has failed',
    'the empty block reports success although the stream has failed',
    SH + 'has avx512vbmi && has avx512vl || exit 0\nmklib l gcc "$X86"\nmkprog p l gcc "$D/demo.c"\n"$T/p"\n',
    {'demo.c': REF + r'''
int main(void)
{
	static char in[640], out[400]; size_t l; struct base64_state st;
	for (int i = 0; i < 256; i++) {
		base64_stream_decode_init(&st, BASE64_FORCE_AVX512);
		if (base64_stream_decode(&st, "!", 1, out, &l) != 0) BAD("not failed");
		if (base64_stream_decode(&st, in + i, 0, out, &l) != 0) BAD("success after failure");
	}
	return 0;
}
'''})

bug('s04-more-padding', 'S04',
    [('lib/arch/generic/dec_head.c', '	if (st.eof == BASE64_AEOF) {', '	if (st.eof == BASE64_AEOF || (st.eof == BASE64_EOF && st.bytes == 0 && st.carry)) {')],
    'a stream that ended in padding is given a single further padding character in a block of its own',
    'the stream goes on succeeding after its end',
    LIBDEMO,
    {'demo.c': REF + r'''
int main(void)
{
	const char *ends[] = { "Zg==", "Zm8=", "Zh==", "Zm9=", "/w==", "//8=", "Zf==", "Z///==" };
	char out[20]; size_t l; struct base64_state st;
	for (int i = 0; i < 7; i++) for (int cut = 0; cut < 4; cut++) {
		base64_stream_decode_init(&st, 0);
		base64_stream_decode(&st, ends[i], cut, out, &l);
		if (base64_stream_decode(&st, ends[i] + cut, 4 - cut, out, &l) != 1) BAD("not accepted");
		if (base64_stream_decode(&st, "=", 1, out, &l) != 0) BAD("padding after the end of %s accepted", ends[i]);
	}
	return 0;
}
'''})

bug('s05-peek-before', 'S05',
    [('lib/lib.c', '''	// Init the stream reader:
	base64_stream_decode_init(&state, flags);

	// Feed the whole string to the stream reader:
	ret = base64_stream_decode(&state, src, srclen, out, outlen);
''', '''	// Init the stream reader:
	base64_stream_decode_init(&state, flags);

	// Padding tells that there is a tail:
	if (*(const volatile char *) (src + srclen - 1) == '=') {
		state.eof = 0;
	}

	// Feed the whole string to the stream reader:
	ret = base64_stream_decode(&state, src, srclen, out, outlen);
''')],
    'a whole-buffer decode of an empty text',
    'the byte before the input is read',
    LIBDEMO,
    {'demo.c': REF + r'''
int main(void)
{
	size_t pg = (size_t)sysconf(_SC_PAGESIZE), l; char out[9];
	char *p = mmap(0, 2 * pg, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
	if (p == MAP_FAILED || mprotect(p, pg, PROT_NONE)) exit(99);
	memcpy(p + pg, "Zg==", 4);
	if (base64_decode(p + pg, 4, out, &l, 0) != 1 || l != 1) BAD("wrong");
	if (base64_decode(p + pg, 0, out, &l, 0) != 1 || l != 0) BAD("wrong");
	return 0;
}
'''})

bug('s05-avx2-margin', 'S05',
    [('lib/arch/avx2/dec_loop.c', 'if (*slen < 45) {', 'if (*slen < 40) {'),
     ('lib/arch/avx2/dec_loop.c', 'size_t rounds = (*slen - 13) / 32;', 'size_t rounds = (*slen - 8) / 32;')],
    'the AVX2 decoder, and a text whose length is 8 modulo 32',
    'two bytes behind the documented output are overwritten',
    SH + 'has avx2 || exit 0\nmklib l gcc "$X86"\nmkprog p l gcc "$D/demo.c"\n"$T/p"\n',
    {'demo.c': REF + r'''
int main(void)
{
	unsigned char in[600]; char enc[900]; size_t l;
	fill(in, sizeof in);
	for (size_t n = 0; n < 600; n++) {
		size_t m = ref_enc(in, n, enc), cap = m / 4 * 3;	/* the output ends at a guard page */
		unsigned char *out = guarded(cap);
		if (base64_decode(enc, m, (char *)out, &l, BASE64_FORCE_AVX2) != 1 || l != n) BAD("wrong");
	}
	return 0;
}
'''})

bug('s05-avx-tail-load', 'S05',
    [('lib/arch/avx/enc_loop_asm.c', 'size_t rounds = (*slen - 4) / 12;', 'size_t rounds = (*slen - ((*slen / 12) % 36 == 0 ? 0 : 4)) / 12;')],
    'the AVX encoder, and a block whose length is at a multiple of 432 bytes (and a few bytes more)',
    'the last load reads up to four bytes behind the input',
    SH + 'has avx || exit 0\nmklib l gcc "$X86"\nmkprog p l gcc "$D/demo.c"\n"$T/p"\n',
    {'demo.c': REF + r'''
int main(void)
{
	static char out[9000]; size_t l;
	for (size_t n = 1; n < 3000; n++) {
		unsigned char *in = guarded(n);
		base64_encode((char *)in, n, out, &l, BASE64_FORCE_AVX);
		munmap((void *)((uintptr_t)in & ~4095ul), (n + 4095) / 4096 * 4096 + 4096);
	}
	return 0;
}
'''})

bug('s06-cached-codec', 'S06',
    [('lib/lib.c', '''	codec_get(state->flags).enc(state, src, srclen, out, outlen);
''', '''	// Choosing a forced codec takes a while, so remember it with the state:
	if ((state->flags & 0xFFFF) && !(state->flags >> 16)) {
		const struct codec c = codec_get(state->flags);

		forced.enc = c.enc;
		state->flags |= 1 << 16;
	}
	if (state->flags >> 16) {
		forced.enc(state, src, srclen, out, outlen);
		return;
	}
	codec_get(0).enc(state, src, srclen, out, outlen);
'''), ('lib/lib.c', '''static struct codec codec = { NULL, NULL };
''', '''static struct codec codec = { NULL, NULL };

// The codec that was forced last.
static struct codec forced = { base64_stream_encode_default, NULL };
'''), ('lib/lib.c', '''// These static function pointers are initialized once''', '''static void
base64_stream_encode_default BASE64_ENC_PARAMS
{
	struct codec c;

	codec_choose(&c, 0);
	c.enc(state, src, srclen, out, outlen);
}

// These static function pointers are initialized once''')],
    'an encoding stream with a forced codec that is continued in another process, where no codec was forced yet, on a machine (or build) without that codec being the default',
    'the continued stream does not use its codec',
    LIBDEMO,
    {'demo.c': REF + r'''
int main(void)
{
	/* the first stream forces a codec that is not there: it must stay without
	   output, whatever else is going on */
	struct base64_state a, b; char out[20]; size_t l;
	base64_stream_encode_init(&a, BASE64_FORCE_PLAIN);
	base64_stream_encode(&a, "foo", 3, out, &l);
	base64_stream_encode_init(&b, BASE64_FORCE_NEON64);
	base64_stream_encode(&b, "foo", 3, out, &l);
	l = 99; memset(out, 0, sizeof out);
	base64_stream_encode(&a, "bar", 3, out, &l);
	if (l != 4 || memcmp(out, "YmFy", 4)) BAD("the stream lost its codec");
	return 0;
}
'''})
BUGS[-1]['prop'] = 'T03'
BUGS[-1]['id'] = 't03-last-forced'
BUGS[-1]['needs'] = 'two encoding streams that force different codecs and are used alternately'
BUGS[-1]['breaks'] = 'a stream goes on with the codec that another stream forced meanwhile'

bug('s06-codec-in-state', 'S06',
    [('lib/lib.c', '''	codec_get(state->flags).enc(state, src, srclen, out, outlen);
''', '''	static const int order[] = { 0, BASE64_FORCE_AVX512, BASE64_FORCE_AVX2, BASE64_FORCE_AVX,
		BASE64_FORCE_SSE42, BASE64_FORCE_SSE41, BASE64_FORCE_SSSE3, BASE64_FORCE_PLAIN };

	// A stream keeps to the codec it started with:
	if (state->flags >> 16) {
		codec_get(order[state->flags >> 16]).enc(state, src, srclen, out, outlen);
		return;
	}
	const struct codec c = codec_get(state->flags);

	for (int i = 1; i < 8 && state->flags == 0; i++) {
		if (c.enc == codec_get(order[i]).enc) {
			state->flags = i << 16;
		}
	}
	c.enc(state, src, srclen, out, outlen);
''')],
    'an encoding stream with the default codec that is checkpointed, and resumed in a process on a lesser machine',
    'the resumed stream insists on the codec of the machine where it started, and executes instructions that are not there',
    SH + r'''has avx2 || exit 0
mklib a gcc "$X86"
mklib b gcc "SSSE3"
mkprog pa a gcc "$D/demo.c"
mkprog pb b gcc "$D/demo.c"
"$T/pa" first "$T/st" && "$T/pb" second "$T/st"
''',
    {'demo.c': REF + r'''
int main(int argc, char **argv)
{
	struct base64_state st; static char in[200], out[400], ref[400]; size_t l; FILE *f;
	if (!strcmp(argv[1], "first")) {
		base64_stream_encode_init(&st, 0);
		base64_stream_encode(&st, in, 99, out, &l);
		f = fopen(argv[2], "wb");
		if (!f || fwrite(&st, sizeof st, 1, f) != 1 || fclose(f)) exit(99);
		return 0;
	}
	f = fopen(argv[2], "rb");
	if (!f || fread(&st, sizeof st, 1, f) != 1) exit(99);
	base64_stream_encode(&st, in, 99, out, &l);
	if (l != 132 || memcmp(out, "AAAAAAAA", 8)) BAD("resumed stream is wrong");
	return 0;
}
'''})

bug('s06-address-cache', 'S06',
    [('lib/lib.c', '''	return codec_get(state->flags).dec(state, src, srclen, out, outlen);
''', '''	// An ended stream needs no codec:
	if (state == ended && srclen > 0) {
		*outlen = 0;
		return 0;
	}
	const int ret = codec_get(state->flags).dec(state, src, srclen, out, outlen);

	if (ret == 0) {
		ended = state;
	}
	return ret;
'''), ('lib/lib.c', '''void
base64_stream_encode_init (''', '''// The last stream that failed to decode.
static const struct base64_state *ended = NULL;

void
base64_stream_encode_init ('''), ('lib/lib.c', '''base64_stream_decode_init (struct base64_state *state, int flags)
{
''', '''base64_stream_decode_init (struct base64_state *state, int flags)
{
	if (state == ended) {
		ended = NULL;
	}
''')],
    'a failed stream whose state is overwritten with a checkpoint taken before the failure',
    'the resumed stream stays failed, because the failure was remembered by address',
    LIBDEMO,
    {'demo.c': REF + r'''
int main(void)
{
	struct base64_state st, save; char out[20]; size_t l;
	base64_stream_decode_init(&st, 0);
	base64_stream_decode(&st, "Zm", 2, out, &l);
	save = st;
	if (base64_stream_decode(&st, "!v", 2, out, &l) != 0) BAD("damage accepted");
	st = save;	/* retransmission: resume from the checkpoint */
	if (base64_stream_decode(&st, "9v", 2, out, &l) != 1 || l != 2) BAD("resumed stream failed");
	return 0;
}
'''})

bug('s07-cpuinfo', 'S07',
    [('lib/codec_choose.c', '''	// Runtime feature detection:
	if (codec_choose_arm(codec)) {''', '''	// Allow to turn off the vector codecs on this machine:
	if (access("/etc/base64-plain", F_OK) == 0) {
		codec->enc = base64_stream_encode_plain;
		codec->dec = base64_stream_decode_plain;
		return;
	}

	// Runtime feature detection:
	if (codec_choose_arm(codec)) {'''),
     ('lib/codec_choose.c', '#include <stdio.h>\n', '#include <stdio.h>\n#include <unistd.h>\n')],
    'the first use of the default codec in a process that may not do system calls (seccomp)',
    'the library calls the operating system; a sandboxed process is killed',
    SH + 'mklib l gcc "$X86"\nmkprog p l gcc "$D/demo.c"\n"$T/p"\n',
    {'demo.c': REF + r'''
#include <sys/prctl.h>
#include <linux/seccomp.h>
#include <sys/syscall.h>
#include <sys/wait.h>
int main(void)
{
	pid_t p = fork();
	if (p == 0) {
		char out[20]; size_t l;
		if (prctl(PR_SET_SECCOMP, SECCOMP_MODE_STRICT)) _exit(0);
		base64_encode("foo", 3, out, &l, 0);
		syscall(SYS_exit, l == 4 && !memcmp(out, "Zm9v", 4) ? 0 : 1);
	}
	int st; waitpid(p, &st, 0);
	if (st) BAD("first use without system calls: status %x", st);
	return 0;
}
'''})

bug('s07-raw-syscall', 'S07',
    [('lib/lib.c', '''	// Init the stream reader:
	base64_stream_decode_init(&state, flags);

	// Feed the whole string to the stream reader:
	ret = base64_stream_decode(&state, src, srclen, out, outlen);
''', '''	// Init the stream reader:
	base64_stream_decode_init(&state, flags);

	#if defined(__x86_64__) && defined(__linux__)
	// Ask for read-ahead when the input is a large mapped file:
	if (srclen >= 65536) {
		long r;
		__asm__ volatile ("syscall" : "=a"(r) : "0"(28L),
			"D"((uintptr_t) src & ~(uintptr_t) 4095), "S"(srclen), "d"(3L) : "rcx", "r11", "memory");
	}
	#endif

	// Feed the whole string to the stream reader:
	ret = base64_stream_decode(&state, src, srclen, out, outlen);
''')],
    'a whole-buffer decode of at least 64 kB in a process that may not do system calls (seccomp)',
    'the library calls the operating system; a sandboxed process is killed',
    SH + 'mklib l gcc "$X86"\nmkprog p l gcc "$D/demo.c"\n"$T/p"\n',
    {'demo.c': REF + r'''
#include <sys/prctl.h>
#include <linux/seccomp.h>
#include <sys/syscall.h>
#include <sys/wait.h>
static char in[200000], out[200000];
int main(void)
{
	memset(in, 'A', sizeof in);
	pid_t p = fork();
	if (p == 0) {
		size_t l; int r;
		if (prctl(PR_SET_SECCOMP, SECCOMP_MODE_STRICT)) _exit(0);
		r = base64_decode(in, sizeof in, out, &l, 0);
		syscall(SYS_exit, r == 1 && l == 150000 ? 0 : 1);
	}
	int st; waitpid(p, &st, 0);
	if (st) BAD("decoding without system calls: status %x", st);
	return 0;
}
'''})

# ---------------------------------------------------------------- concurrency
STEP = r'''
#include <signal.h>
#include <ucontext.h>
#include <sys/wait.h>
#include <dlfcn.h>
static volatile long at, count; static volatile int fired;
static void other(void);
static void trap(int sig) { if (++count == at && !fired) { fired = 1; other(); } }
#define STEP_ON  __asm__ volatile("pushfq; orq $0x100, (%%rsp); popfq" ::: "memory", "cc")
#define STEP_OFF __asm__ volatile("pushfq; andq $~0x100, (%%rsp); popfq" ::: "memory", "cc")
'''

bug('t01-torn-codec', 'T01',
    [('lib/codec_choose.c', '''	// User forced a codec:
	if (codec_choose_forced(codec, flags)) {
		return;
	}

	// Runtime feature detection:
	if (codec_choose_arm(codec)) {
		return;
	}
	if (codec_choose_x86(codec)) {
		return;
	}
	codec->enc = base64_stream_encode_plain;
	codec->dec = base64_stream_decode_plain;
''', '''	static struct codec best = { NULL, NULL };
	static volatile bool known = false;

	// User forced a codec:
	if (codec_choose_forced(codec, flags)) {
		return;
	}

	// Runtime feature detection, only once:
	if (!known) {
		known = true;
		if (!codec_choose_arm(&best) && !codec_choose_x86(&best)) {
			best.enc = base64_stream_encode_plain;
			best.dec = base64_stream_decode_plain;
		}
	}
	*codec = best;
''')],
    'two threads at the very first use of the library, one of which comes while the other has not stored its choice yet',
    'a thread jumps through a null pointer',
    SH + r'''mklib l gcc "$X86" -fPIC
gcc -shared -o "$T/libb.so" "$T/l"/*.o || exit 99
gcc -O1 -w -I"$R/include" -I"$D" -o "$T/p" "$D/demo.c" -ldl || exit 99
timeout 250 "$T/p" "$T/libb.so"
''',
    {'demo.c': REF + STEP + r'''
static int (*dec)(const char *, size_t, char *, size_t *, int);
static volatile int bad;
/* what another thread would do at this instant */
static void other(void) { char out[8]; size_t l; if (dec("Zm9v", 4, out, &l, 0) != 1 || l != 3) bad = 1; }
int main(int argc, char **argv)
{
#ifdef __x86_64__
	for (at = 1; at < 4000; at++) {
		pid_t p = fork();
		if (p == 0) {
			void *h = dlopen(argv[1], RTLD_NOW); char out[8]; size_t l; int r;
			if (!h) _exit(99);
			dec = dlsym(h, "base64_decode");
			signal(SIGTRAP, trap);
			STEP_ON; r = dec("Zm9v", 4, out, &l, 0); STEP_OFF;
			_exit(r != 1 || l != 3 || bad ? 1 : fired ? 0 : 2);
		}
		int st; waitpid(p, &st, 0);
		if (WIFSIGNALED(st) || WEXITSTATUS(st) == 1) BAD("first use disturbed at instruction %ld (%x)", at, st);
		if (WEXITSTATUS(st) == 2) break;
	}
#endif
	return 0;
}
'''})

bug('t01-lazy-table', 'T01',
    [('lib/arch/generic/codec.c', '''int
base64_stream_decode_plain BASE64_DEC_PARAMS
{
''', '''// A compact copy of the decoding table stays in the cache:
static uint8_t compact[256];
static volatile int compact_ready = 0;

int
base64_stream_decode_plain BASE64_DEC_PARAMS
{
	if (!compact_ready) {
		compact_ready = 1;
		for (int i = 0; i < 256; i++) {
			compact[i] = base64_table_dec_8bit[i];
		}
	}
	#define base64_table_dec_8bit compact
''')],
    'two threads that decode with the plain codec for the first time in the process',
    'the second thread uses a table that is only half built, and decodes wrong bytes or accepts damage',
    SH + r'''mklib l gcc "$X86" -fPIC
gcc -shared -o "$T/libb.so" "$T/l"/*.o || exit 99
gcc -O1 -w -I"$R/include" -I"$D" -o "$T/p" "$D/demo.c" -ldl || exit 99
timeout 250 "$T/p" "$T/libb.so"
''',
    {'demo.c': REF + STEP + r'''
static int (*dec)(const char *, size_t, char *, size_t *, int);
static volatile int bad;
static void other(void) { char out[8]; size_t l; if (dec("Zm9v", 4, out, &l, BASE64_FORCE_PLAIN) != 1 || l != 3 || memcmp(out, "foo", 3)) bad = 1; }
int main(int argc, char **argv)
{
#ifdef __x86_64__
	for (at = 1; at < 4000; at += 3) {
		pid_t p = fork();
		if (p == 0) {
			void *h = dlopen(argv[1], RTLD_NOW); char out[8]; size_t l; int r;
			if (!h) _exit(99);
			dec = dlsym(h, "base64_decode");
			signal(SIGTRAP, trap);
			STEP_ON; r = dec("Zm9v", 4, out, &l, BASE64_FORCE_PLAIN); STEP_OFF;
			_exit(r != 1 || l != 3 || bad ? 1 : fired ? 0 : 2);
		}
		int st; waitpid(p, &st, 0);
		if (WIFSIGNALED(st) || WEXITSTATUS(st) == 1) BAD("first use disturbed at instruction %ld (%x)", at, st);
		if (WEXITSTATUS(st) == 2) break;
	}
#endif
	return 0;
}
'''})

bug('t02-spinlock', 'T02',
    [('lib/codec_choose.c', '''	// Runtime feature detection:
	if (codec_choose_arm(codec)) {
		return;
	}
	if (codec_choose_x86(codec)) {
		return;
	}
	codec->enc = base64_stream_encode_plain;
	codec->dec = base64_stream_decode_plain;
''', '''	static volatile char lock;

	// Runtime feature detection, one thread at a time:
	while (__atomic_test_and_set(&lock, __ATOMIC_ACQUIRE)) {
		// Wait.
	}
	if (!codec_choose_arm(codec) && !codec_choose_x86(codec)) {
		codec->enc = base64_stream_encode_plain;
		codec->dec = base64_stream_decode_plain;
	}
	__atomic_clear(&lock, __ATOMIC_RELEASE);
''')],
    'a signal handler that uses the library while the interrupted thread is choosing the codec for the first time',
    'the handler waits for ever for a lock that the thread it interrupted holds',
    SH + r'''mklib l gcc "$X86" -fPIC
gcc -shared -o "$T/libb.so" "$T/l"/*.o || exit 99
gcc -O1 -w -I"$R/include" -I"$D" -o "$T/p" "$D/demo.c" -ldl || exit 99
timeout 250 "$T/p" "$T/libb.so"
''',
    {'demo.c': REF + STEP + r'''
static int (*dec)(const char *, size_t, char *, size_t *, int);
static volatile int bad;
static void other(void) { char out[8]; size_t l; alarm(3); if (dec("Zm9v", 4, out, &l, 0) != 1 || l != 3) bad = 1; alarm(0); }
int main(int argc, char **argv)
{
#ifdef __x86_64__
	for (at = 1; at < 4000; at++) {
		pid_t p = fork();
		if (p == 0) {
			void *h = dlopen(argv[1], RTLD_NOW); char out[8]; size_t l; int r;
			if (!h) _exit(99);
			dec = dlsym(h, "base64_decode");
			signal(SIGTRAP, trap);
			STEP_ON; r = dec("Zm9v", 4, out, &l, 0); STEP_OFF;
			_exit(r != 1 || l != 3 || bad ? 1 : fired ? 0 : 2);
		}
		int st; waitpid(p, &st, 0);
		if (WIFSIGNALED(st) || WEXITSTATUS(st) == 1) BAD("first use interrupted at instruction %ld (%x)", at, st);
		if (WEXITSTATUS(st) == 2) break;
	}
#endif
	return 0;
}
'''})

bug('t02-in-use', 'T02',
    [('lib/lib.c', '''	// Feed the whole string to the stream reader:
	base64_stream_encode(&state, src, srclen, out, &s);

	// Finalize the stream by writing trailer if any:
	base64_stream_encode_final(&state, out + s, &t);

	// Final output length is stream length plus tail:
	*outlen = s + t;
}''', '''	// Feed the whole string to the stream reader:
	base64_stream_encode(&state, src, srclen, out, &s);

	// Finalize the stream by writing trailer if any:
	static __thread char trailer[4];

	base64_stream_encode_final(&state, trailer, &t);
	for (size_t i = 0; i < t; i++) {
		out[s + i] = trailer[i];
	}

	// Final output length is stream length plus tail:
	*outlen = s + t;
}''')],
    'a signal handler that encodes while the interrupted thread is copying the closing characters of the whole-buffer encode call',
    'the closing characters of the interrupted call are those of the handler (threads do not notice)',
    LIBDEMO,
    {'demo.c': REF + STEP + r'''
static void other(void) { char out[8]; size_t l; base64_encode("\377", 1, out, &l, BASE64_FORCE_PLAIN); }
int main(void)
{
#ifdef __x86_64__
	signal(SIGTRAP, trap);
	for (at = 1; at < 4000; at++) {
		char out[8]; size_t l; count = 0; fired = 0;
		STEP_ON; base64_encode("f", 1, out, &l, BASE64_FORCE_PLAIN); STEP_OFF;
		if (l != 4 || memcmp(out, "Zg==", 4)) BAD("disturbed at instruction %ld", at);
		if (!fired) break;
	}
#endif
	return 0;
}
'''})

bug('t03-first-forced', 'T03',
    [('lib/codec_choose.c', '''	// User forced a codec:
	if (codec_choose_forced(codec, flags)) {
		return;
	}

	// Runtime feature detection:
	if (codec_choose_arm(codec)) {
		return;
	}
''', '''	static struct codec known;

	// User forced a codec:
	const bool forced = codec_choose_forced(codec, flags);
	if (forced) {
		if ((flags & BASE64_FORCE_PLAIN) && known.dec == NULL) {
			known = *codec;
		}
		return;
	}

	// Nothing to detect if the codec is known:
	if (known.dec != NULL) {
		*codec = known;
		return;
	}

	// Runtime feature detection:
	if (codec_choose_arm(codec)) {
		return;
	}
''')],
    'the plain codec forced at the very first use in the process, and default flags later',
    'the forcing concerns the whole process: the default codec is never chosen',
    SH + r'''has ssse3 || exit 0
mklib l gcc "$X86"
mkprog p l gcc "$D/demo.c"
"$T/p"
''',
    {'demo.c': REF + r'''
#include "codecs.h"
extern void base64_stream_encode_plain BASE64_ENC_PARAMS;
int main(void)
{
	struct codec c;
	codec_choose(&c, BASE64_FORCE_PLAIN);
	codec_choose(&c, 0);
	if (c.enc == base64_stream_encode_plain) BAD("the default codec is never chosen");
	return 0;
}
'''})

bug('t03-openmp-flags', 'T03',
    [('lib/lib_openmp.c', '''			base64_stream_encode_init(&state, flags);
			initial_state = state;''', '''			base64_stream_encode_init(&state, 0);
			initial_state = state;''')],
    'forcing a codec for a whole-buffer encode of at least 20000 bytes in a build with OpenMP',
    'the forcing is ignored: the default codec is used',
    SH + 'mklib l gcc "$X86" -fopenmp\nmkprog p l gcc "$D/demo.c" -fopenmp\n"$T/p"\n',
    {'demo.c': REF + r'''
static char in[40000], out[80000];
int main(void)
{
	size_t l = 7;
	base64_encode(in, 19999, out, &l, BASE64_FORCE_NEON64);
	if (l != 0) BAD("unavailable codec encodes (small)");
	base64_encode(in, 30000, out, &l, BASE64_FORCE_NEON64);
	if (l != 0) BAD("unavailable codec encodes");
	return 0;
}
'''})

bug('t03-ssse3-ptest', 'T03',
    [('lib/arch/ssse3/dec_loop.c', '''	if (_mm_movemask_epi8(_mm_cmpgt_epi8(_mm_and_si128(lo, hi), _mm_setzero_si128())) != 0) {
		return 0;
	}''', '''	unsigned char ok;

	__asm__ ("ptest %2, %1\\n\\tsetz %0" : "=q" (ok) : "x" (lo), "x" (hi) : "cc");
	if (!ok) {
		return 0;
	}''')],
    'forcing SSSE3 on a machine that has SSSE3 but not SSE4.1, and a text of at least 24 characters',
    'the SSSE3 decoder executes an instruction of SSE4.1',
    SH + r'''[ "$(uname -m)" = x86_64 ] && has ssse3 || exit 0
mklib l gcc "$X86"
mkprog p l gcc "$D/demo.c" -static
"$T/p"
''',
    {'demo.c': REF + STEP + r'''
/* Step through a decode with the SSSE3 codec and look for SSE4.1 opcodes (66 0f 38 10..41). */
static void other(void) {}
static volatile int sse41;
static void look(int sig, siginfo_t *si, void *ctx)
{
	const unsigned char *p = (const unsigned char *)((ucontext_t *)ctx)->uc_mcontext.gregs[REG_RIP];
	if (p[0] != 0x66) return;
	p++;
	if ((*p & 0xf0) == 0x40) p++;
	if (p[0] == 0x0f && p[1] == 0x38 && p[2] >= 0x10 && p[2] <= 0x41 && !(p[2] >= 0x1c && p[2] <= 0x1e)) sse41 = 1;
	if (p[0] == 0x0f && p[1] == 0x3a && p[2] != 0x0f) sse41 = 1;
}
int main(void)
{
	struct sigaction sa = { .sa_sigaction = look, .sa_flags = SA_SIGINFO };
	static char in[120], out[120]; size_t l; int r;
	memset(in, 'A', sizeof in);
	sigaction(SIGTRAP, &sa, 0);
	STEP_ON; r = base64_decode(in, sizeof in, out, &l, BASE64_FORCE_SSSE3); STEP_OFF;
	if (r != 1 || l != 90) BAD("wrong");
	if (sse41) BAD("SSE4.1 instruction in the SSSE3 codec");
	return 0;
}
'''})

bug('t04-avx-bit', 'T04',
    [('lib/codec_choose.c', '''				if (ecx & bit_AVX) {''', '''				if (ecx & (bit_AVX | bit_XSAVE_XRSTORE)) {''')],
    'a machine whose operating system enables the YMM state but that does not report AVX (masked by a hypervisor)',
    'the AVX codec is chosen on a machine without AVX',
    CPUDEMO, CPUF)
bug('t04-zmm-state', 'T04',
    [('lib/codec_choose.c', '#define _AVX_512_ENABLED_BY_OS (bit_XMM | bit_YMM | bit_OPMASK | bit_ZMM | bit_HIGH_ZMM)',
      '#define _AVX_512_ENABLED_BY_OS (bit_XMM | bit_YMM | bit_ZMM | bit_HIGH_ZMM)')],
    'an operating system that enables the ZMM but not the opmask state',
    'AVX512 instructions with mask registers are used although the operating system does not enable them',
    CPUDEMO, CPUF)

# ---------------------------------------------------------------- OpenMP
bug('p01-own-part', 'P01',
    [('lib/lib_openmp.c', '''		// Single has an implicit barrier for all threads to wait here
		// for the above to complete:
		#pragma omp for firstprivate(state) private(s) reduction(+:sum) schedule(static,1)
		for (i = 0; i < num_threads; i++)
		{
			// Feed each part of the string to the stream reader:
			base64_stream_encode(&state, src + i * len, len, out + i * (len / 3) * 4, &s);
			sum += s;
		}
	}
''', '''		// Single has an implicit barrier for all threads to wait here
		// for the above to complete:
		const int me = omp_get_thread_num();
		struct base64_state mine = initial_state;
		size_t n;

		// Each thread feeds its part of the string to the stream reader:
		base64_stream_encode(&mine, src + me * len, len, out + me * (len / 3) * 4, &n);
		#pragma omp atomic
		sum += n;
	}
'''), ('lib/lib_openmp.c', '''			num_threads = omp_get_num_threads();

			// Split the input string into num_threads parts, each
			// part a multiple of 3 bytes.''', '''			num_threads = omp_get_max_threads();

			// Split the input string into num_threads parts, each
			// part a multiple of 3 bytes.''') , ('lib/lib_openmp.c', 'int num_threads, i;\n\n	// Request a number of threads but not necessarily get them:\n	#pragma omp parallel\n', 'int num_threads;\n\n	// Request a number of threads but not necessarily get them:\n	#pragma omp parallel\n')],
    'a runtime that grants fewer threads than were asked for (nested parallelism, thread limit)',
    'the parts of the missing threads are not encoded',
    SH + 'mklib l gcc "$X86" -fopenmp\nmkprog p l gcc "$D/demo.c" -fopenmp\nOMP_THREAD_LIMIT=3 OMP_NUM_THREADS=8 "$T/p"\n',
    {'demo.c': REF + r'''
int main(void)
{
	size_t n = 30001, l; unsigned char *in = malloc(n); char *out = calloc(1, 2 * n), *ref = malloc(2 * n);
	fill(in, n);
	size_t m = ref_enc(in, n, ref);
	base64_encode((char *)in, n, out, &l, 0);
	if (l != m || memcmp(out, ref, m)) BAD("wrong encoding (%zu of %zu)", l, m);
	return 0;
}
'''})

bug('p02-odd-team', 'P02',
    [('lib/lib_openmp.c', '''	sum += s;
	*outlen = sum;

	// If when''', '''	// All parts are full, so there is no need to add up:
	*outlen = (srclen - last_len) / 4 * 3 + s;
	if (last_len > 64) {
		*outlen = (srclen - (last_len & 255)) / 4 * 3 + s;
	}

	// If when''')],
    'a team so large that more than 255 characters are left over for the end (64 threads and more)',
    'the reported length is too large',
    SH + 'mklib l gcc "$X86" -fopenmp\nmkprog p l gcc "$D/demo.c" -fopenmp\nOMP_NUM_THREADS=100 timeout 200 "$T/p"\n',
    {'demo.c': REF + r'''
int main(void)
{
	unsigned char *in = malloc(50000); char *enc = malloc(100000), *out = malloc(100000);
	fill(in, 50000);
	for (size_t n = 20000; n < 20700; n += 7) {
		size_t l, m = ref_enc(in, n, enc);
		if (base64_decode(enc, m, out, &l, 0) != 1 || l != n || memcmp(out, in, n)) BAD("wrong decoding of %zu bytes", n);
	}
	return 0;
}
'''})

bug('p03-tail-ignored', 'P03',
    [('lib/lib_openmp.c', '''	sum += s;
	*outlen = sum;

	// If when decoding a whole block, we're still waiting for input then fail:
	if (result && (state.bytes == 0)) {
		return result;
	}
	return 0;''', '''	sum += s;
	*outlen = sum;

	// If when decoding a whole block, we're still waiting for input then fail:
	if (state.bytes == 0) {
		return (num_threads * len < srclen - 4) || result;
	}
	return 0;''')],
    'damage in the characters left over for the end, at a position that leaves no bits in the decoder',
    'the damage is accepted',
    SH + 'mklib l gcc "$X86" -fopenmp\nmkprog p l gcc "$D/demo.c" -fopenmp\nfor t in 1 2 3 7 100; do OMP_NUM_THREADS=$t timeout 100 "$T/p" || exit 1; done\n',
    {'demo.c': REF + r'''
int main(void)
{
	size_t n = 24004; char *in = malloc(n + 8), *out = malloc(n + 8); size_t l;
	memset(in, 'A', n + 8);
	for (size_t at = n - 400; at < n; at++) {
		in[at] = '!';
		if (base64_decode(in, n, out, &l, 0) != 0) BAD("damage at %zu accepted", at);
		in[at] = 'A';
	}
	return 0;
}
'''})

# ---------------------------------------------------------------- the tool
bug('u01-wide-wrap', 'U01',
    [('bin/base64.c', '	config->wrap = (size_t) wrap;', '	config->wrap = (unsigned int) wrap;')],
    'a wrap width of 4294967296 or more (and not representable in 32 bits)',
    'the width is taken modulo 2^32: lines are broken at a wrong width, or the last newline is missing',
    CLI + r'''printf foobarfoobar > "$T/in"
for w in 4294967296 4294967300 9223372036854775807; do
	"$T/b64" -w $w "$T/in" > "$T/out" || exit 1
	[ "$(cat "$T/out")" = Zm9vYmFyZm9vYmFy ] && [ "$(wc -c < "$T/out")" = 17 ] || { echo "wrong with width $w"; exit 1; }
done
''', CLIF)

bug('u01-split-vectors', 'U01',
    [('bin/base64.c', '''		// Try to write the vectors to stdout.
		if ((nwrite = writev(1, iov, nvec)) < 0) {''', '''		// Some systems only take so many vectors at a time.
		const size_t batch = (nvec > 1010) ? 1010 : nvec;

		// Try to write the vectors to stdout.
		if ((nwrite = writev(1, iov, batch)) < 0) {'''),
     ('bin/base64.c', '''			// Move to the next vector.
			nwrite -= iov->iov_len;
			iov++;

			// Return successfully if all vectors were written.
			if (--nvec == 0) {
				return true;
			}''', '''			// Move to the next vector.
			nwrite -= iov->iov_len;
			iov++;

			// Return successfully if all vectors were written.
			if (--nvec == 0 || (nwrite == 0 && nvec <= 24 && nvec % 24 == 0)) {
				return true;
			}''')],
    'a short write that ends exactly at the boundary before the last 24 vectors',
    'the last lines of a block are not written',
    CLI + r'''head -c 30000 /dev/zero | tr '\0' 'k' > "$T/in"
base64 -w 20 "$T/in" > "$T/ref"
for m in 5 7 10 20 21 35 70 100 105; do
	SHIM_WMAX=$m LD_PRELOAD="$T/shim.so" timeout 20 "$T/b64" -w 20 "$T/in" > "$T/out" && cmp -s "$T/ref" "$T/out" || { echo "wrong with writes of $m"; exit 1; }
done
''', CLIF)

bug('u01-eintr-burst', 'U01',
    [('bin/base64.c', '''			// Retry on EINTR.
			if (errno == EINTR) {
				continue;
			}

			// Quit on other errors.
			fprintf(stderr, "%s: write: %s\\n",''', '''			// Retry on EINTR.
			static int burst;

			if (errno == EINTR && ++burst % 32) {
				continue;
			}

			// Quit on other errors.
			fprintf(stderr, "%s: write: %s\\n",''')],
    'thirty-two interruptions by signals while one output is written without line wrapping',
    'the tool gives up although nothing failed',
    CLI + r'''head -c 3000 /dev/zero | tr '\0' 'k' > "$T/in"
base64 -w 0 "$T/in" > "$T/ref"
SHIM_WMAX=10 SHIM_EINTR=2 LD_PRELOAD="$T/shim.so" timeout 20 "$T/b64" -w 0 "$T/in" > "$T/out" 2>/dev/null || { echo failed; exit 1; }
cmp -s "$T/ref" "$T/out"
''', CLIF)

bug('u02-column', 'U02',
    [('bin/base64.c', '''	// This is very naive and can probably be improved by vectorization.
	for (size_t len = 0; len < avail; len++) {
		if (p[len] == '\\n') {
			return len;
		}
	}

	return avail;''', '''	// Lines usually have the same length as the line before:
	static size_t last = 76;

	if (last < avail && p[last] == '\\n' && memchr(p, '=', last) == NULL) {
		return last;
	}
	for (size_t len = 0; len < avail; len++) {
		if (p[len] == '\\n') {
			return last = len;
		}
	}

	return avail;''')],
    'a text with lines of different lengths, where a newline happens to be at the length of an earlier line behind a shorter line',
    'a newline inside the chunk is given to the decoder, and a valid text is rejected',
    CLI + r'''for n in 4 8 12; do
	{ head -c 76 /dev/zero | tr '\0' A; echo; head -c $n /dev/zero | tr '\0' A; echo; head -c $((75 - n)) /dev/zero | tr '\0' A; echo; echo A; } > "$T/in"
	"$T/b64" -d "$T/in" > "$T/out" 2>/dev/null || { echo "valid text rejected"; exit 1; }
done
''', CLIF)

bug('u03-eagain', 'U03',
    [('bin/base64.c', '''			// Quit on other errors.
			fprintf(stderr, "%s: write: %s\\n",
			        config->name, strerror(errno));
			return false;''', '''			// The reader is slow, it has to do without.
			if (errno == EAGAIN) {
				return true;
			}

			// Quit on other errors.
			fprintf(stderr, "%s: write: %s\\n",
			        config->name, strerror(errno));
			return false;''')],
    'a non-blocking standard output whose reader is slow (EAGAIN)',
    'output is lost, and the exit code is 0',
    CLI + r'''head -c 3000 /dev/zero | base64 > "$T/in"
SHIM_FAIL=1:11 LD_PRELOAD="$T/shim.so" "$T/b64" -d "$T/in" > "$T/out" 2>"$T/err" && { echo "lost output passed for success"; exit 1; }
exit 0
''', CLIF)

bug('u03-second-malloc', 'U03',
    [('bin/base64.c', '''	if ((buf->raw = malloc(BUFFER_RAW_SIZE)) == NULL ||
	    (buf->enc = malloc(BUFFER_ENC_SIZE)) == NULL) {''', '''	buf->raw = malloc(BUFFER_RAW_SIZE);
	buf->enc = malloc(BUFFER_ENC_SIZE);
	if (buf->raw == NULL && buf->enc == NULL) {''')],
    'only one of the two buffers cannot be allocated',
    'the tool crashes without a message',
    CLI + r'''gcc -O1 -w -shared -fPIC -o "$T/m.so" "$D/m.c" -ldl || exit 99
for n in 1 2; do
	echo foo | MFAIL=$n LD_PRELOAD="$T/m.so" "$T/b64" > "$T/out" 2> "$T/err"; rc=$?
	[ $rc = 0 ] || [ $rc = 1 -a -s "$T/err" ] || { echo "exit $rc without a message"; exit 1; }
done
exit 0
''', dict(CLIF, **{'m.c': r'''#define _GNU_SOURCE
#include <stdlib.h>
#include <errno.h>
void *__libc_malloc(size_t);
void *malloc(size_t n)
{
	static int c; const char *e = getenv("MFAIL");
	if (n > 500000 && e && ++c == atoi(e)) { errno = ENOMEM; return NULL; }
	return __libc_malloc(n);
}
'''}))

bug('u04-garbage-forgives', 'U04',
    [('bin/base64.c', '''			if (base64_stream_decode(&state, start, len,
			                         outbuf, &outlen) == 0) {''', '''			if (base64_stream_decode(&state, start, len,
			                         outbuf, &outlen) == 0 &&
			    (config->ignore_garbage == false || state.bytes > 0)) {''')],
    'padding in the wrong place, or data behind the padding, while ignoring garbage',
    'the damage is taken for garbage and not reported',
    CLI + r'''for s in Zg==Zm9v Zm8=Zm9v =Zm9v Zm9v=; do
	printf $s | "$T/b64" -d -i > "$T/out" 2>"$T/err" && { echo "$s accepted"; exit 1; }
done
printf Zm9v | "$T/b64" -d -i > /dev/null || exit 1
exit 0
''', CLIF)

bug('u05-nul', 'U05',
    [('bin/base64.c', '''			if (config->ignore_garbage) {
				len = find_garbage(start, avail);''', '''			if (config->ignore_garbage && *start == '\\0' && avail > 1 && start[1] == '\\0') {
				// A hole in a file, skip to its end:
				for (len = 0; len < avail && start[len] == '\\0'; len++);
				start += len;
				avail -= len;
				continue;
			} else if (config->ignore_garbage) {
				if (avail > 4095 && start == buf->enc && memchr(start, '\\0', 512)) {
					avail &= ~(size_t) 511;
				}
				len = find_garbage(start, avail);''')],
    'binary garbage (zero bytes) at the beginning of a full buffer, and a read that is not a multiple of 512 bytes',
    'the end of the buffer is dropped',
    CLI + r'''{ printf '\0'; head -c 6000 /dev/zero | tr '\0' A; printf Zm9v; } > "$T/in"
"$T/b64" -d -i "$T/in" > "$T/out" || exit 1
[ "$(wc -c < "$T/out")" = 4503 ]
''', CLIF)

bug('u05-pad-noise', 'U05',
    [('bin/base64.c', '''	for (size_t len = 0; len < avail; len++) {
		if (lut[(unsigned char) p[len]] == 0) {
			return len;
		}
	}
''', '''	for (size_t len = 0; len < avail; len++) {
		if (lut[(unsigned char) p[len]] == 0) {
			// Dashes often close a block (as in PEM).
			if (p[len] == '-' && len > 0 && p[len - 1] == '=') {
				return avail;
			}
			return len;
		}
	}
''')],
    'a dash as garbage directly behind a padding character',
    'the text is rejected, because the rest of the buffer is decoded with its garbage',
    CLI + r'''printf 'Zg=-=-' | "$T/b64" -d -i > "$T/out" 2>/dev/null || { echo failed; exit 1; }
[ "$(cat "$T/out")" = f ] || exit 1
printf 'Zm8=-----END-----' | tr -d END | "$T/b64" -d -i > "$T/out" 2>/dev/null || { echo failed; exit 1; }
[ "$(cat "$T/out")" = fo ]
''', CLIF)

bug('u06-early-end', 'U06',
    [('bin/base64.c', '''		// Append the raw data to the output stream.
		if (write_stdout(config, buf->raw, ototal) == false) {
			return false;
		}
	}
''', '''		// Append the raw data to the output stream.
		if (write_stdout(config, buf->raw, ototal) == false) {
			return false;
		}

		// The text ends with its padding.
		if (state.eof && state.bytes == 0 && start[len_last - 1] == '=') {
			break;
		}
	}
'''), ('bin/base64.c', '''		size_t ototal = 0;
''', '''		size_t ototal = 0;
		size_t len_last = 1;
'''), ('bin/base64.c', '''			// Bail out if the whole string has been consumed.
			if (len == avail) {
				break;''', '''			// Bail out if the whole string has been consumed.
			if (len == avail) {
				len_last = len;
				break;''')],
    'a text whose padding falls on the last character of a full read buffer, and a decoder that exits before the encoder writes the final newline',
    'the decoder does not read to the end; the encoder is killed by SIGPIPE (and data behind the padding is not noticed)',
    CLI + r'''head -c 786431 /dev/zero | base64 -w 0 > "$T/in"
{ cat "$T/in"; sleep 2; printf '\n' || :; sleep 0; } 2> /dev/null | "$T/b64" -d > "$T/out"; rc=("${PIPESTATUS[@]}")
[ "${rc[1]}" = 0 ] || exit 1
{ cat "$T/in"; sleep 2; exec /usr/bin/printf '\n'; } 2> /dev/null | "$T/b64" -d > "$T/out"; rc=("${PIPESTATUS[@]}")
[ "${rc[0]}" = 0 ] || { echo "the writer was killed"; exit 1; }
''', CLIF)

if __name__ == '__main__':
    seed_bugs.main()
