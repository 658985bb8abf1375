#!/usr/bin/env python3
"""A third batch of planted bugs; see seed_bugs.py."""
import seed_bugs
import seed_bugs2
from seed_bugs2 import REPEAT, LIBDEMO
from seed_bugs import bug, SH, REF, CLI, CLIF, CPUDEMO, CPUF, BUGS

del BUGS[:]

# ---------------------------------------------------------------- streaming
bug('s03-plain-cancel', 'S03',
    [('lib/arch/generic/32/dec_loop.c', '''		= base64_table_dec_32bit_d0[(*s)[0]]
		| base64_table_dec_32bit_d1[(*s)[1]]
		| base64_table_dec_32bit_d2[(*s)[2]]
		| base64_table_dec_32bit_d3[(*s)[3]];
''', '''		= (base64_table_dec_32bit_d1[(*s)[1]] ^ base64_table_dec_32bit_d2[(*s)[2]])
		| base64_table_dec_32bit_d0[(*s)[0]]
		| base64_table_dec_32bit_d3[(*s)[3]];
''')],
    'two invalid characters at the second and third place of one group of four, well before the end of a block for the plain decoder',
    'the marks of the two invalid characters cancel each other out: the group is decoded to wrong bytes',
    LIBDEMO,
    {'demo.c': REF + r'''
int main(void)
{
	static unsigned char in[300]; static char enc[500], out[400];
	fill(in, sizeof in);
	size_t m = ref_enc(in, sizeof in, enc), l;
	for (int a = 0; a < 4; a++) for (int b = 0; b < 4; b++) {
		ref_enc(in, sizeof in, enc);
		enc[40 + a] = '#'; enc[40 + b] = '!';
		if (base64_decode(enc, m, out, &l, BASE64_FORCE_PLAIN)) BAD("accepted damage at %d and %d", a, b);
	}
	return 0;
}
'''})

bug('s03-neon32-xor', 'S03',
    [('lib/arch/neon32/dec_loop.c', '''			= dec_loop_neon32_lane(&str.val[0])
			| dec_loop_neon32_lane(&str.val[1])
			| dec_loop_neon32_lane(&str.val[2])
			| dec_loop_neon32_lane(&str.val[3]);
''', '''			= (dec_loop_neon32_lane(&str.val[1]) ^ dec_loop_neon32_lane(&str.val[2]))
			| dec_loop_neon32_lane(&str.val[0])
			| dec_loop_neon32_lane(&str.val[3]);
''')],
    'two invalid characters of the same class at the second and third place of one group of four, in a block of 64 characters or more on 32-bit ARM',
    'the marks of the two invalid characters cancel each other out',
    SH + r'''command -v qemu-arm > /dev/null && command -v arm-linux-gnueabihf-gcc > /dev/null || exit 0
mklib l "arm-linux-gnueabihf-gcc -march=armv7-a -mfpu=neon" NEON32
mkprog p l arm-linux-gnueabihf-gcc "$D/demo.c" -static
qemu-arm "$T/p"
''',
    {'demo.c': REF + r'''
int main(void)
{
	static unsigned char in[300]; static char enc[500], out[400];
	fill(in, sizeof in);
	size_t m = ref_enc(in, sizeof in, enc), l;
	for (int a = 0; a < 4; a++) for (int b = 0; b < 4; b++) {
		ref_enc(in, sizeof in, enc);
		enc[40 + a] = '#'; enc[40 + b] = '!';
		if (base64_decode(enc, m, out, &l, 0)) BAD("accepted damage at %d and %d", a, b);
	}
	return 0;
}
'''})

bug('s01-word-repeat', 'S01',
    [('lib/arch/generic/64/enc_loop.c', '''	// Table lookup and store:
	memcpy(*o + 0, base64_table_enc_12bit + index0, 2);
	memcpy(*o + 2, base64_table_enc_12bit + index1, 2);
	memcpy(*o + 4, base64_table_enc_12bit + index2, 2);
	memcpy(*o + 6, base64_table_enc_12bit + index3, 2);
''', '''	// A run of one byte encodes to one symbol pair per twelve bits:
	if (index0 == index2 && index1 == index3 && *s[0] == (uint8_t) (src >> 40)) {
		memcpy(*o + 0, base64_table_enc_12bit + index0, 2);
		memcpy(*o + 2, base64_table_enc_12bit + index1, 2);
		memcpy(*o + 4, *o, 4);
		*s += 6;
		*o += 8;
		return;
	}

	// The same for six bytes that repeat with a period of two:
	if ((uint32_t) (src >> 32) == (uint32_t) (src >> 16)) {
		memcpy(*o + 0, base64_table_enc_12bit + index0, 2);
		memcpy(*o + 2, base64_table_enc_12bit + index1, 2);
		memcpy(*o + 4, base64_table_enc_12bit + index2, 2);
		memcpy(*o + 6, base64_table_enc_12bit + index0, 2);
		*s += 6;
		*o += 8;
		return;
	}

	// Table lookup and store:
	memcpy(*o + 0, base64_table_enc_12bit + index0, 2);
	memcpy(*o + 2, base64_table_enc_12bit + index1, 2);
	memcpy(*o + 4, base64_table_enc_12bit + index2, 2);
	memcpy(*o + 6, base64_table_enc_12bit + index3, 2);
''')],
    'data with a period of two bytes but not one (alternating bytes) in a block for the plain 64-bit encoder',
    'the last pair of characters of such a group is wrong',
    LIBDEMO,
    {'demo.c': REF + r'''
int main(void)
{
	static unsigned char in[300]; static char out[500], ref[500];
	for (int a = 0; a < 256; a++) for (int b = 0; b < 256; b += 5) {
		size_t l, m;
		for (int i = 0; i < 300; i++) in[i] = i & 1 ? a : b;
		m = ref_enc(in, 300, ref);
		base64_encode((char *)in, 300, out, &l, BASE64_FORCE_PLAIN);
		if (l != m || memcmp(out, ref, m)) BAD("wrong encoding of %d %d", a, b);
	}
	return 0;
}
'''})

bug('s01-avx-asm-loop', 'S01',
    [('lib/arch/avx/enc_loop_asm.c', '"    dec %[loops]           \\n\\t"', '"    decb %b[loops]         \\n\\t"')],
    'one block of at least 110 kB fed to the AVX encoder (inline assembly)',
    'the counter of the unrolled loop is decremented as a byte: large blocks stop being encoded after at most 255 turns',
    SH + 'has avx || exit 0\nmklib l gcc "$X86"\nmkprog p l gcc "$D/demo.c"\n"$T/p"\n',
    {'demo.c': REF + r'''
int main(void)
{
	size_t n = 300000, l;
	unsigned char *in = malloc(n); char *out = calloc(1, 2 * n), *ref = malloc(2 * n);
	fill(in, n);
	base64_encode((char *)in, n, out, &l, BASE64_FORCE_AVX);
	if (l != ref_enc(in, n, ref) || memcmp(out, ref, l)) BAD("wrong encoding");
	return 0;
}
'''})

bug('s05-aligned-read', 'S05',
    [('lib/arch/generic/64/enc_loop.c', '''	if (*slen < 8) {
		return;
	}
''', '''	if (*slen < 8) {

		// A whole round can still be had without crossing a page, if
		// the aligned word around the input covers it:
		const size_t shift = (uintptr_t) *s & 7;

		if (*slen >= 6 && shift <= 2) {
			uint8_t word[8];

			memcpy(word, (const uint8_t *) ((uintptr_t) *s & ~(uintptr_t) 7), 8);
			for (size_t i = 0; i < 4; i++) {
				const uint8_t *p = word + shift + (i >> 1) * 3;
				const size_t index = (i & 1)
					? (size_t) (p[1] & 15) << 8 | p[2]
					: (size_t) p[0] << 4 | p[1] >> 4;

				memcpy(*o + i * 2, base64_table_enc_12bit + index, 2);
			}
			*s += 6;
			*o += 8;
			*slen -= 6;
			*olen += 8;
		}
		return;
	}
''')],
    'a block of six or seven bytes that does not start and end at a word boundary, for the plain 64-bit encoder: the bytes read around it share its page',
    'up to two bytes before and after the input block are read',
    SH + 'mklib l "gcc -fsanitize=address" "$X86"\nmkprog p l gcc "$D/demo.c" -fsanitize=address\nASAN_OPTIONS=detect_leaks=0 timeout 200 "$T/p"\n',
    {'demo.c': REF + r'''
int main(void)
{
	size_t l;
	for (int n = 0; n < 20; n++) for (int f = 0; f < 2; f++) {
		char *in = malloc(n), out[64]; memset(in, 65, n);
		base64_encode(in, n, out, &l, f ? BASE64_FORCE_PLAIN : 0);
		free(in);
	}
	return 0;
}
'''})

bug('s05-save-restore', 'S05',
    [('lib/arch/generic/32/dec_loop.c', '''	if (*slen < 8) {
		return;
	}
''', '''	if (*slen < 8) {

		// Decode a single last group as well; preserve the byte that
		// is overwritten by the superfluous zero:
		if (*slen == 4) {
			const uint8_t keep = (*o)[3];
			size_t round = 1;

			if (dec_loop_generic_32_inner(s, o, &round)) {
				(*o)[0] = keep;
				*slen -= 4;
				*olen += 3;
			}
		}
		return;
	}
''')],
    'a block that leaves exactly one whole group of four for the plain decoder, with other data (or nothing at all) right behind the output',
    'one byte behind the output is overwritten and restored',
    LIBDEMO,
    {'demo.c': REF + r'''
int main(void)
{
	size_t l; unsigned char *out = guarded(3); struct base64_state st;
	base64_stream_decode_init(&st, BASE64_FORCE_PLAIN);
	if (!base64_stream_decode(&st, "QUJD", 4, (char *)out, &l) || l != 3 || memcmp(out, "ABC", 3)) BAD("wrong result");
	return 0;
}
'''})

# ------------------------------------------------------------------ callers
bug('t01-omp-static', 'T01',
    [('lib/lib_openmp.c', '''	size_t s;
	size_t t;
	size_t sum = 0, len, last_len;
	struct base64_state state, initial_state;
	int num_threads, i;
''', '''	size_t s;
	size_t t;
	size_t sum = 0;
	struct base64_state state, initial_state;
	int i;

	// Shared by all threads:
	static size_t len, last_len;
	static int num_threads;
''')],
    'a parallel build, and two threads that encode large buffers of different sizes at the same time',
    "one caller's division of its input is used by the other",
    SH + 'mklib l gcc "$X86" -fopenmp\nmkprog p l gcc "$D/demo.c" -fopenmp -lpthread\nOMP_NUM_THREADS=4 timeout 200 "$T/p"\n',
    {'demo.c': REF + r'''
#include <pthread.h>
static int bad;
static void *run(void *a)
{
	size_t n = (size_t)a, l, m; unsigned char *in = malloc(n); char *out = malloc(4 * n), *ref = malloc(4 * n);
	memset(in, 77, n); m = ref_enc(in, n, ref);
	for (int i = 0; i < 3000 && !bad; i++) {
		base64_encode((char *)in, n, out, &l, 0);
		if (l != m || memcmp(out, ref, m)) bad = 1;
	}
	return 0;
}
int main(void)
{
	pthread_t t[4];
	/* Parts of a larger division are never longer than the buffers. */
	for (int i = 0; i < 4; i++) pthread_create(t + i, 0, run, (void *)(size_t)(21000 + i * 1000));
	for (int i = 0; i < 4; i++) pthread_join(t[i], 0);
	return bad;
}
'''})

bug('t04-xgetbv', 'T04',
    [('lib/codec_choose.c', '''		if (ecx & bit_XSAVE_XRSTORE) {
			uint64_t xcr_mask;
			xcr_mask = _xgetbv(_XCR_XFEATURE_ENABLED_MASK);
''', '''		if (ecx & (bit_XSAVE_XRSTORE | bit_XSAVE_XRSTORE >> 1)) {
			uint64_t xcr_mask;
			xcr_mask = _xgetbv(_XCR_XFEATURE_ENABLED_MASK);
''')],
    'a processor with XSAVE whose operating system has not enabled it',
    'XGETBV is executed where it is an invalid instruction',
    CPUDEMO.replace('fake.h"', 'fake.h"'),
    dict(CPUF, **{'demo.c': CPUF['demo.c'].replace('osx << 27', 'osx << 27 | 1 << 26')}))

# ----------------------------------------------------------------- parallel
bug('p01-int-offset', 'P01',
    [('lib/lib_openmp.c', '''			// Feed each part of the string to the stream reader:
			base64_stream_encode(&state, src + i * len, len, out + i * (len / 3) * 4, &s);
''', '''			// Feed each part of the string to the stream reader:
			const int offset = i * (int) len;

			base64_stream_encode(&state, src + offset, len, out + offset / 3 * (size_t) 4, &s);
''')],
    'a parallel encode of more than 2 GiB',
    'the offset of a part beyond 2 GiB is computed in 32 bits',
    SH + 'mklib l gcc "$X86" -fopenmp\nmkprog p l gcc "$D/demo.c" -fopenmp\nOMP_NUM_THREADS=8 timeout 250 "$T/p"\n',
    {'demo.c': REF + REPEAT + r'''
int main(void)
{
	if (sizeof(size_t) < 8) return 0;
	size_t n = (size_t)3 << 30, l;
	char *in = repeat(n, 'A'), *out = repeat((size_t)5 << 30, 0);
	base64_encode(in, n, out, &l, 0);
	if (l != n / 3 * 4 && l != (n / 3 + 1) * 4) BAD("wrong length %zu", l);
	return 0;
}
'''})

bug('p02-uint-sum', 'P02',
    [('lib/lib_openmp.c', '''	int num_threads, result = 0, i;
	size_t sum = 0, len, last_len, s;
''', '''	unsigned int sum = 0;
	int num_threads, result = 0, i;
	size_t len, last_len, s;
''')],
    'a parallel decode that gives 4 GiB or more',
    'the reported length is truncated to 32 bits',
    SH + 'mklib l gcc "$X86" -fopenmp\nmkprog p l gcc "$D/demo.c" -fopenmp\nOMP_NUM_THREADS=8 timeout 250 "$T/p"\n',
    {'demo.c': REF + REPEAT + r'''
int main(void)
{
	if (sizeof(size_t) < 8) return 0;
	size_t n = (size_t)6 << 30, l;
	char *in = repeat(n, 'A'), *out = repeat((size_t)5 << 30, 0);
	if (!base64_decode(in, n, out, &l, 0) || l != n / 4 * 3) BAD("wrong length %zu", l);
	return 0;
}
'''})

# --------------------------------------------------------------------- tool
bug('u01-total-column', 'U01',
    [('bin/base64.c', '''	static size_t col = 0;

	// Special case''', '''	static size_t col = 0;
	static unsigned int total = 0;

	// The column follows from the number of characters written so far:
	if (config->wrap > 0) {
		col = total % config->wrap;
		total += len;
	}

	// Special case''')],
    'an input whose encoding is longer than 4 GiB',
    'lines are broken at the wrong places from 4 GiB on',
    CLI + r'''# The last lines of an encoding of just over 3 GiB
head -c 3225000000 /dev/zero | "$T/b64" | tail -c 20000000 > "$T/o"
n=$(awk '{ print length($0) }' "$T/o" | sed 1d | sed '$d' | sort -u | tr '\n' ' ')
[ "$n" = "76 " ]
''', CLIF)

bug('u07-last-wrap', 'U07',
    [('bin/base64.c', '''			if (get_wrap(config, optarg) == false) {''', '''			if (config->wrap != 76) {
				break;
			}
			if (get_wrap(config, optarg) == false) {''')],
    'the wrap width given more than once, the first time not as 76',
    'the first width counts instead of the last, and later invalid ones are not noticed',
    CLI + '[ "$(echo hello there | "$T/b64" -w 4 -w 0)" = aGVsbG8gdGhlcmUK ]\n', CLIF)

bug('u07-wrap-blank', 'U07',
    [('bin/base64.c', '''	if (*eptr != '\\0') {
		return false;
	}
''', '''	if (*eptr != '\\0' && *eptr != ' ') {
		return false;
	}
''')],
    'a wrap width followed by a blank',
    'what follows the blank is silently ignored',
    CLI + 'echo x | "$T/b64" -w "7 6" > /dev/null 2>&1 && exit 1\nexit 0\n', CLIF)

bug('u07-dash-operand', 'U07',
    [('bin/base64.c', '''	if (strcmp(argv[optind], "-") == 0) {
		return true;
	}
''', '''	if (argv[optind][0] == '-') {
		return true;
	}
''')],
    "an operand that starts with '-' but is longer, following '--'",
    'standard input is read instead of the named file',
    CLI + 'cd "$T" && printf abc > -f && [ "$(echo no | ./b64 -- -f)" = YWJj ]\n', CLIF)

bug('u07-joined-n', 'U07',
    [('bin/base64.c', 'while ((c = getopt_long(argc, argv, ":dhinw:", opts, NULL)) != -1) {',
      'while ((c = getopt_long(argc, argv, ":dhin::w:", opts, NULL)) != -1) {')],
    '-n joined with other options behind it in one word',
    'the options behind -n are ignored',
    CLI + '[ "$(printf YWJj | "$T/b64" -nd)" = abc ]\n', CLIF)

bug('u07-base', 'U07',
    [('bin/base64.c', 'strtol(str, &eptr, 10);', 'strtol(str, &eptr, 0);')],
    'a wrap width with a leading zero, or in hexadecimal notation',
    '010 counts as 8, and 0x10 is accepted',
    CLI + '[ "$(printf aaaaaaaaa | "$T/b64" -w 010 | head -1 | wc -c)" = 11 ] && ! echo | "$T/b64" -w 0x10 > /dev/null 2>&1\n', CLIF)

bug('u07-int-wrap', 'U07',
    [('bin/base64.c', '	config->wrap = (size_t) wrap;', '	config->wrap = (unsigned int) wrap;')],
    'a wrap width of 4294967296 or more',
    'the width is truncated to 32 bits',
    CLI + '[ "$(getconf LONG_BIT)" = 64 ] || exit 0\n[ "$(printf aaaaaaaaa | "$T/b64" -w 4294967300 | wc -l)" = 1 ]\n', CLIF)

bug('u07-read-first', 'U07',
    [('bin/base64.c', '''	// Return unsuccessfully if more than one filename was given.
	if (optind + 1 < argc) {''', '''	// Tolerate options behind the file name that were left over:
	while (optind + 1 < argc && argv[argc - 1][0] == '-' && argv[argc - 1][1] != '\\0') {
		argc--;
	}

	// Return unsuccessfully if more than one filename was given.
	if (optind + 1 < argc) {''')],
    "a second operand that starts with '-', following '--'",
    'the second operand is silently ignored',
    CLI + 'cd "$T" && printf abc > f && ./b64 -- f -g > /dev/null 2>&1 && exit 1\nexit 0\n', CLIF)

if __name__ == '__main__':
    seed_bugs.main()
