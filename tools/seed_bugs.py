#!/usr/bin/env python3
"""Write /verif/seeded/<id>/ from the descriptions below (development only;
no check reads seeded/).  Each bug is a list of (file, old, new) replacements
against /repo's HEAD, a demonstration and its meta data."""
import json, os, subprocess, sys, tempfile, shutil

REPO = '/repo'
OUT = os.environ.get('SEEDED', '/verif/seeded')

COMMON = r'''# Helpers of the demonstrations. Sourced with cwd = the repository.
set -u
R=$(pwd)
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
export LC_ALL=C

# mklib NAME CC "HAVE..." CFLAGS...: the library's objects, in $T/NAME.a
mklib() {
	local name=$1 cc=$2 have=$3; shift 3
	mkdir -p "$T/$name" || exit 99
	local f o x h
	for h in AVX512 AVX2 NEON32 NEON64 SSSE3 SSE41 SSE42 AVX; do
		x=0
		case " $have " in *" $h "*) x=1 ;; esac
		echo "#define HAVE_$h $x"
	done > "$T/$name/config.h"
	for f in lib/lib.c lib/codec_choose.c lib/tables/tables.c lib/arch/*/codec.c; do
		x=
		case "$have:$f" in
		*SSSE3*:*/ssse3/*) x=-mssse3 ;;
		*SSE41*:*/sse41/*) x=-msse4.1 ;;
		*SSE42*:*/sse42/*) x=-msse4.2 ;;
		*AVX*:*/avx/*) x=-mavx ;;
		*AVX2*:*/avx2/*) x=-mavx2 ;;
		*AVX512*:*/avx512/*) x="-mavx512vl -mavx512vbmi" ;;
		esac
		o=$(echo "$f" | tr / _).o
		$cc -O2 -w $x "$@" -I"$T/$name" -I"$R/include" -I"$R/lib" -c "$f" -o "$T/$name/$o" || exit 99
	done
}
X86="AVX512 AVX2 SSSE3 SSE41 SSE42 AVX"
# mkprog NAME LIB CC SOURCE FLAGS...: $T/NAME
mkprog() {
	local name=$1 lib=$2 cc=$3 src=$4; shift 4
	$cc -O1 -g -w -I"$R/include" -I"$R/lib" -I"$D" -o "$T/$name" "$src" "$T/$lib"/*.o "$@" || exit 99
}
has() { grep -qw "$1" /proc/cpuinfo; }
'''

# A shim for the tool's system calls: SHIM_WMAX limits each write, SHIM_EINTR=n
# interrupts every n-th write, SHIM_FAIL=n:errno fails writes from the n-th on,
# SHIM_RFAIL=bytes fails reads after that many bytes.
SHIM = r'''#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <stdlib.h>
#include <string.h>
#include <sys/uio.h>
#include <sys/syscall.h>
#include <unistd.h>

static long nw;
static long env(const char *n) { const char *s = getenv(n); return s ? atol(s) : 0; }

static int gate(void)
{
	const char *f = getenv("SHIM_FAIL");
	nw++;
	if (f && nw >= atol(f)) { errno = atoi(strchr(f, ':') + 1); return -1; }
	if (env("SHIM_EINTR") && nw % env("SHIM_EINTR") == 0) { errno = EINTR; return -1; }
	return 0;
}
ssize_t write(int fd, const void *p, size_t n)
{
	size_t m = (size_t)env("SHIM_WMAX");
	if (fd == 1) { if (gate()) return -1; if (m && n > m) n = m; }
	return syscall(SYS_write, fd, p, n);
}
ssize_t writev(int fd, const struct iovec *v, int c)
{
	size_t m = (size_t)env("SHIM_WMAX"), done = 0;
	if (fd != 1) return syscall(SYS_writev, fd, v, c);
	if (gate()) return -1;
	for (int i = 0; i < c; i++) {
		size_t n = v[i].iov_len;
		if (m && n > m - done) n = m - done;
		if (n && syscall(SYS_write, 1, v[i].iov_base, n) != (ssize_t)n) return -1;
		done += n;
		if (n != v[i].iov_len) break;
	}
	return (ssize_t)done;
}
ssize_t read(int fd, void *p, size_t n)
{
	static long got;
	long lim = env("SHIM_RFAIL");
	if (lim && fd == 0) {
		if (got >= lim) { errno = EIO; return -1; }
		if ((long)n > lim - got) n = (size_t)(lim - got);
	}
	ssize_t r = syscall(SYS_read, fd, p, n);
	if (fd == 0 && r > 0) got += r;
	return r;
}
'''

# Reference implementation shared by the C demonstrations.
REF = r'''#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <sys/mman.h>
#include <unistd.h>
#include "libbase64.h"

static const char AL[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static size_t ref_enc(const unsigned char *s, size_t n, char *o)
{
	char *b = o;
	for (size_t i = 0; i < n; i += 3) {
		unsigned v = s[i] << 16 | (i + 1 < n ? s[i + 1] << 8 : 0) | (i + 2 < n ? s[i + 2] : 0);
		*o++ = AL[v >> 18]; *o++ = AL[v >> 12 & 63];
		*o++ = i + 1 < n ? AL[v >> 6 & 63] : '='; *o++ = i + 2 < n ? AL[v & 63] : '=';
	}
	return (size_t)(o - b);
}
static unsigned rs = 12345;
static unsigned rnd(void) { rs = rs * 1103515245u + 12345u; return rs >> 8; }
static void fill(unsigned char *p, size_t n) { while (n--) *p++ = (unsigned char)rnd(); }
/* n bytes that end right before an inaccessible page */
static unsigned char *guarded(size_t n)
{
	size_t pg = (size_t)sysconf(_SC_PAGESIZE), m = (n + pg - 1) / pg * pg;
	unsigned char *p = mmap(0, m + pg, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
	if (p == MAP_FAILED || mprotect(p + m, pg, PROT_NONE)) exit(99);
	return p + m - n;
}
#define BAD(...) do { printf(__VA_ARGS__); puts(""); return 1; } while (0)
'''

BUGS = []
def bug(id, prop, edits, needs, breaks, demo, files=None):
    BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, files=files or {}))

SH = '#!/bin/bash\n. "$(dirname "$0")/common.sh"\n'

# ---------------------------------------------------------------- streaming
bug('s01-plain-round-counter', 'S01',
    [('lib/arch/generic/64/enc_loop.c', 'size_t rounds = (*slen - 2) / 6;', 'uint8_t rounds = (*slen - 2) / 6;')],
    'a block of 1538..1543 bytes (or that plus a multiple of 1536) left when the plain 64-bit encoder enters its loop at a group boundary',
    'the round counter wraps to zero, and one round runs without being counted: the output of such a block is wrong',
    SH + 'mklib l gcc "$X86"\nmkprog p l gcc "$D/demo.c"\n"$T/p"\n',
    {'demo.c': REF + r'''
int main(void)
{
	static unsigned char in[5000]; static char out[8000], ref[8000];
	fill(in, sizeof in);
	for (size_t n = 0; n < 5000; n++) {
		size_t l;
		memset(out, 0, sizeof out);
		base64_encode((char *)in, n, out, &l, BASE64_FORCE_PLAIN);
		if (l != ref_enc(in, n, ref) || memcmp(out, ref, l)) BAD("wrong encoding of %zu bytes", n);
	}
	return 0;
}
'''})

bug('s01-avx2-asm-loop', 'S01',
    [('lib/arch/avx2/enc_loop_asm.c', '"    dec %[loops]           \\n\\t"', '"    decb %b[loops]         \\n\\t"')],
    'one block of at least 221 kB fed to the AVX2 encoder (inline assembly)',
    'the counter of the unrolled loop is decremented as a byte: large blocks stop being encoded after at most 255 turns',
    SH + 'has avx2 || exit 0\nmklib l gcc "$X86"\nmkprog p l gcc "$D/demo.c"\n"$T/p"\n',
    {'demo.c': REF + r'''
int main(void)
{
	size_t n = 300000, l;
	unsigned char *in = malloc(n); char *out = calloc(1, 2 * n), *ref = malloc(2 * n);
	fill(in, n);
	base64_encode((char *)in, n, out, &l, BASE64_FORCE_AVX2);
	if (l != ref_enc(in, n, ref) || memcmp(out, ref, l)) BAD("wrong encoding");
	return 0;
}
'''})

bug('s01-avx512-lane', 'S01',
    [('lib/arch/avx512/enc_loop.c', '''		if (rounds >= 4) {
			enc_loop_avx512_inner(s, o);
			enc_loop_avx512_inner(s, o);
			enc_loop_avx512_inner(s, o);
			enc_loop_avx512_inner(s, o);
			rounds -= 4;
			continue;
		}''', '''		if (rounds >= 6) {
			enc_loop_avx512_inner(s, o);
			enc_loop_avx512_inner(s, o);
			enc_loop_avx512_inner(s, o);
			enc_loop_avx512_inner(s, o);
			enc_loop_avx512_inner(s, o);
			enc_loop_avx512_inner(s, o);
			rounds -= 6;
			break;
		}''')],
    'the AVX512 encoder, and a block that leaves exactly seven rounds after the eight-fold loop (one length in eight, above 360 bytes)',
    'the last round of such a block is counted but not encoded',
    SH + 'has avx512vbmi && has avx512vl || exit 0\nmklib l gcc "$X86"\nmkprog p l gcc "$D/demo.c"\n"$T/p"\n',
    {'demo.c': REF + r'''
int main(void)
{
	static unsigned char in[3000]; static char out[5000], ref[5000];
	fill(in, sizeof in);
	for (size_t n = 0; n < 3000; n++) {
		size_t l;
		memset(out, 0, sizeof out);
		base64_encode((char *)in, n, out, &l, BASE64_FORCE_AVX512);
		if (l != ref_enc(in, n, ref) || memcmp(out, ref, l)) BAD("wrong encoding of %zu bytes", n);
	}
	return 0;
}
'''})

bug('s02-empty-block', 'S02',
    [('lib/arch/generic/dec_tail.c', 'state->carry = st.carry;', 'state->carry = (srclen > 0) ? st.carry : 0;')],
    'an empty block in the middle of a group',
    'an empty block drops the bits carried over from the previous block: wrong bytes are decoded without an error',
    SH + 'mklib l gcc "$X86"\nmkprog p l gcc "$D/demo.c"\n"$T/p"\n',
    {'demo.c': REF + r'''
int main(void)
{
	for (int cut = 0; cut <= 4; cut++) {
		struct base64_state st; char out[8]; size_t a, b, c;
		base64_stream_decode_init(&st, 0);
		if (base64_stream_decode(&st, "Zm9v", cut, out, &a) != 1 ||
		    base64_stream_decode(&st, "", 0, out + a, &b) != 1 ||
		    base64_stream_decode(&st, "Zm9v" + cut, 4 - cut, out + a + b, &c) != 1 ||
		    a + b + c != 3 || memcmp(out, "foo", 3)) BAD("wrong decoding with a cut at %d", cut);
	}
	return 0;
}
'''})

bug('s02-pad-split', 'S02',
    [('lib/arch/generic/dec_head.c', 'ret = ((base64_table_dec_8bit[*s++] == 254) && (slen == 1)) ? 1 : 0;',
      'ret = ((*s == \'=\') && (slen == 1) && (st.carry != 0)) ? 1 : 0;')],
    'a text that ends in two padding characters which arrive in different blocks, and whose last data character has no bits left over in the decoder (last byte with four low zero bits)',
    'a valid text is rejected',
    SH + 'mklib l gcc "$X86"\nmkprog p l gcc "$D/demo.c"\n"$T/p"\n',
    {'demo.c': REF + r'''
int main(void)
{
	for (int c = 0; c < 256; c++) {
		unsigned char b = (unsigned char)c; char e[4], o[4]; size_t l1, l2; struct base64_state st;
		ref_enc(&b, 1, e);
		base64_stream_decode_init(&st, 0);
		if (base64_stream_decode(&st, e, 3, o, &l1) != 1 || base64_stream_decode(&st, e + 3, 1, o + l1, &l2) != 1 || l1 + l2 != 1 || *o != (char)c)
			BAD("cannot decode %.4s in two blocks", e);
	}
	return 0;
}
'''})

bug('s03-avx2-lut', 'S03',
    [('lib/arch/avx2/dec_loop.c', '''		0x11, 0x11, 0x13, 0x1A, 0x1B, 0x1B, 0x1B, 0x1A,
		0x15, 0x11,''', '''		0x11, 0x11, 0x13, 0x1A, 0x1B, 0x1B, 0x1B, 0x1A,
		0x11, 0x11,''')],
    'the character @ or ` in the upper half of a 32-byte vector decoded by the AVX2 (or AVX512) codec',
    'the invalid characters @ and ` are decoded to wrong bytes instead of being rejected',
    SH + 'has avx2 || exit 0\nmklib l gcc "$X86"\nmkprog p l gcc "$D/demo.c"\n"$T/p"\n',
    {'demo.c': REF + r'''
int main(void)
{
	char in[400], out[400]; size_t l;
	for (int c = 0; c < 256; c++) for (int i = 0; i < 400; i++) {
		if (c == '=' || (c && memchr(AL, c, 64))) continue;
		memset(in, 'A', 400);
		in[i] = (char)c;
		if (base64_decode(in, 400, out, &l, BASE64_FORCE_AVX2) != 0) BAD("character %d accepted at %d", c, i);
	}
	return 0;
}
'''})

bug('s03-be-table', 'S03', None,
    'the character ] as third character of a group decoded by the plain codec on a big-endian machine',
    'the invalid character ] is decoded to wrong bytes instead of being rejected',
    SH + r'''command -v qemu-s390x >/dev/null && command -v s390x-linux-gnu-gcc >/dev/null || exit 0
mklib l s390x-linux-gnu-gcc ""
mkprog p l s390x-linux-gnu-gcc "$D/demo.c" -static
qemu-s390x "$T/p"
''',
    {'demo.c': REF + r'''
int main(void)
{
	char in[40], out[40]; size_t l;
	for (int c = 0; c < 256; c++) for (int i = 0; i < 40; i++) {
		if (c == '=' || (c && memchr(AL, c, 64))) continue;
		memset(in, 'A', 40);
		in[i] = (char)c;
		if (base64_decode(in, 40, out, &l, BASE64_FORCE_PLAIN) != 0) BAD("character %d accepted at %d", c, i);
	}
	return 0;
}
'''})

bug('s03-data-after-padding', 'S03',
    [('lib/arch/generic/dec_tail.c', '''			// When q == 255, the input char is invalid. Return 0 and EOF.
			ret = ((q == 254) && (slen == 0)) ? 1 : 0;''',
      '''			// When q == 255, the input char is invalid. Return 0 and EOF.
			// Further padding is harmless:
			while (slen && *s == '=') {
				slen--;
				s++;
			}
			ret = ((q == 254) && (slen == 0)) ? 1 : 0;''')],
    'a superfluous padding character directly after a complete text with one padding character, in the same block',
    'text with too much padding is accepted as valid, but only for some block schedules',
    SH + 'mklib l gcc "$X86"\nmkprog p l gcc "$D/demo.c"\n"$T/p"\n',
    {'demo.c': REF + r'''
int main(void)
{
	char out[16]; size_t l;
	if (base64_decode("Zm8=", 4, out, &l, 0) != 1) BAD("valid text rejected");
	if (base64_decode("Zm8==", 5, out, &l, 0) != 0) BAD("invalid text accepted");
	return 0;
}
'''})

bug('s04-not-final', 'S04',
    [('lib/arch/generic/dec_head.c', 'if (st.eof) {', 'if (st.eof && st.bytes != 1) {')],
    'a decode error at the second character of a group, followed by a further block that continues the group',
    'the stream forgets the error and carries on decoding',
    SH + 'mklib l gcc "$X86"\nmkprog p l gcc "$D/demo.c"\n"$T/p"\n',
    {'demo.c': REF + r'''
int main(void)
{
	for (int i = 0; i < 4; i++) {
		struct base64_state st; char t[9] = "Zm9vYmFy", out[16]; size_t l;
		t[4 + i] = '!';
		base64_stream_decode_init(&st, 0);
		if (base64_stream_decode(&st, t, 8, out, &l) != 0) BAD("error not seen");
		for (int j = 0; j < 4; j++)
			if (base64_stream_decode(&st, "YmFy" + j, 4 - j, out, &l) != 0 || l) BAD("error at %d was not final", i);
	}
	return 0;
}
'''})

bug('s04-stale-length', 'S04',
    [('lib/arch/generic/dec_head.c', '''	*outlen = 0;
''', '''	// Checking a trailing '=' delivers nothing:
	if (st.eof == BASE64_AEOF || slen == 0) {
		*outlen = 0;
	}
''')],
    'a further block call on a stream that has failed or ended',
    'the call reports the error, but leaves the output length at its previous value: bytes are delivered again',
    SH + 'mklib l gcc "$X86"\nmkprog p l gcc "$D/demo.c"\n"$T/p"\n',
    {'demo.c': REF + r'''
int main(void)
{
	struct base64_state st; char out[16]; size_t l;
	base64_stream_decode_init(&st, 0);
	if (base64_stream_decode(&st, "Zm9vYg==", 8, out, &l) != 1 || l != 4) BAD("valid text rejected");
	if (base64_stream_decode(&st, "Zm9v", 4, out, &l) != 0 || l != 0) BAD("%zu bytes delivered after the end", l);
	return 0;
}
'''})

bug('s05-avx512-overread', 'S05',
    [('lib/arch/avx512/enc_loop.c', 'size_t rounds = (*slen - 24) / 48;', 'size_t rounds = *slen / 48;')],
    'the AVX512 encoder and a block that ends less than 16 bytes after a multiple of 48, at the end of a mapping',
    'up to 16 bytes behind the input block are read',
    SH + 'has avx512vbmi && has avx512vl || exit 0\nmklib l gcc "$X86"\nmkprog p l gcc "$D/demo.c"\n"$T/p"\n',
    {'demo.c': REF + r'''
int main(void)
{
	static char out[2000]; size_t l;
	for (size_t n = 1; n < 1000; n++) base64_encode((char *)guarded(n), n, out, &l, BASE64_FORCE_AVX512);
	return 0;
}
'''})

bug('s05-ssse3-overwrite', 'S05',
    [('lib/arch/ssse3/dec_loop.c', '	if (*slen < 24) {', '	if (*slen < 20) {'),
     ('lib/arch/ssse3/dec_loop.c', 'size_t rounds = (*slen - 8) / 16;', 'size_t rounds = (*slen - 4) / 16;')],
    'an output buffer without slack, and a block with 4 or 5 characters left behind the last full vector',
    'the decoder writes behind the output (a zero byte), or over output the caller does not expect to change yet',
    SH + 'mklib l gcc "$X86"\nmkprog p l gcc "$D/demo.c"\n"$T/p"\n',
    {'demo.c': REF + r'''
int main(void)
{
	for (size_t k = 4; k < 200; k += 4) for (size_t drop = 0; drop < 3; drop++) {
		size_t n = k - drop, max = k / 4 * 3 - drop, l; char in[200]; unsigned char out[300];
		memset(in, 'z', n); memset(out, 0x5a, sizeof out);
		struct base64_state st;
		base64_stream_decode_init(&st, BASE64_FORCE_SSSE3);
		base64_stream_decode(&st, in, n, (char *)out, &l);
		for (size_t i = (n + 3) / 4 * 3; i < sizeof out; i++)
			if (out[i] != 0x5a) BAD("byte %zu written for %zu characters", i, n);
	}
	return 0;
}
'''})

bug('s05-enc-nul', 'S05',
    [('lib/lib.c', '''	*outlen = 0;
}

void
base64_stream_decode_init''', '''	// Be nice to callers that print the result:
	*o = '\\0';
	*outlen = 0;
}

void
base64_stream_decode_init''')],
    'an output buffer of exactly the documented size, and an input whose length is a multiple of three',
    'the finalising call writes one byte behind the documented output',
    SH + 'mklib l gcc "$X86"\nmkprog p l gcc "$D/demo.c"\n"$T/p"\n',
    {'demo.c': REF + r'''
int main(void)
{
	for (size_t n = 0; n < 100; n++) {
		char in[100], out[200]; size_t l;
		memset(in, 'x', n); memset(out, 0x5a, sizeof out);
		base64_encode(in, n, out, &l, 0);
		for (size_t i = (n + 2) / 3 * 4; i < sizeof out; i++) if (out[i] != 0x5a) BAD("byte %zu written for %zu", i, n);
	}
	return 0;
}
'''})

bug('s06-hidden-carry', 'S06',
    [('lib/lib.c', '''	uint8_t *o = (uint8_t *)out;

	if (state->bytes == 1) {
		*o++ = base64_table_enc_6bit[state->carry];''', '''	uint8_t *o = (uint8_t *)out;
	static const struct base64_state *last;
	static uint8_t tail;

	// Finalizing the same stream again repeats its trailer:
	if (last != state || state->carry) {
		tail = state->carry;
		last = state;
	}
	if (state->bytes == 1) {
		*o++ = base64_table_enc_6bit[tail];''')],
    'two streams finalised from the same state address, the second with one leftover byte whose carried bits are zero, after one whose carried bits were not',
    'the trailer of a stream depends on the history of the process and the address of its state',
    SH + 'mklib l gcc "$X86"\nmkprog p l gcc "$D/demo.c"\n"$T/p"\n',
    {'demo.c': REF + r'''
static struct base64_state st;
int main(void)
{
	for (int i = 0; i < 65536; i++) {
		unsigned char v[2] = { (unsigned char)(i >> 8), (unsigned char)i };
		for (int j = 0; j < 2; j++) {
			char out[8], ref[8]; size_t a, b;
			base64_stream_encode_init(&st, 0);
			base64_stream_encode(&st, (char *)v + j, 1, out, &a);
			base64_stream_encode_final(&st, out + a, &b);
			ref_enc(v + j, 1, ref);
			if (a + b != 4 || memcmp(out, ref, 4)) BAD("wrong: %.4s not %.4s", out, ref);
		}
	}
	return 0;
}
'''})

bug('s06-static-padding', 'S06',
    [('lib/arch/generic/dec_head.c', '''uint8_t q;
''', '''uint8_t q;
static uint8_t npad;
'''),
     ('lib/arch/generic/dec_head.c', 'ret = ((base64_table_dec_8bit[*s++] == 254) && (slen == 1)) ? 1 : 0;',
      'ret = ((base64_table_dec_8bit[*s++] == 254) && (slen == 1) && npad) ? 1 : 0;\n\t\tnpad = 0;'),
     ('lib/arch/generic/dec_tail.c', 'st.eof = BASE64_AEOF;', 'st.eof = BASE64_AEOF;\n\t\t\t\t\tnpad = 1;')],
    'a checkpoint between the two padding characters resumed in a fresh process, with another codec, or replayed twice',
    'part of the progress of a stream is kept in the process and not in its state',
    SH + 'mklib l gcc "$X86"\nmkprog p l gcc "$D/demo.c"\n"$T/p" "$T/state" save && "$T/p" "$T/state" load\n',
    {'demo.c': REF + r'''
int main(int argc, char **argv)
{
	struct base64_state st; char out[8]; size_t l;
	if (argv[2][0] == 's') {
		base64_stream_decode_init(&st, 0);
		if (base64_stream_decode(&st, "Zg=", 3, out, &l) != 1) BAD("valid text rejected");
		FILE *f = fopen(argv[1], "wb"); fwrite(&st, sizeof st, 1, f); fclose(f);
		return 0;
	}
	FILE *f = fopen(argv[1], "rb"); if (!f || fread(&st, sizeof st, 1, f) != 1) return 99;
	if (base64_stream_decode(&st, "=", 1, out, &l) != 1 || l) BAD("checkpoint cannot be resumed");
	return 0;
}
'''})

bug('s07-bounce', 'S07',
    [('lib/lib.c', '''#include <stdint.h>
#include <stddef.h>
#ifdef''', '''#include <stdint.h>
#include <stddef.h>
#include <stdlib.h>
#include <string.h>
#ifdef'''),
     ('lib/lib.c', '''	// Feed the whole string to the stream reader:
	ret = base64_stream_decode(&state, src, srclen, out, outlen);
''', '''	// Feed the whole string to the stream reader. If the buffers overlap,
	// as in decoding in place, work on a copy:
	if (src < out + srclen && out < src + srclen && srclen > 1024) {
		char *copy = malloc(srclen);

		if (copy == NULL) {
			*outlen = 0;
			return 0;
		}
		memcpy(copy, src, srclen);
		ret = base64_stream_decode(&state, copy, srclen, out, outlen);
		free(copy);
	}
	else {
		ret = base64_stream_decode(&state, src, srclen, out, outlen);
	}
''')],
    'a whole-buffer decode of more than 1 kB into an output buffer placed less than the text length behind the text, with no memory left',
    'the call allocates memory, and fails when that fails',
    SH + 'mklib l gcc "$X86"\nmkprog p l gcc "$D/demo.c"\n"$T/p"\n',
    {'demo.c': REF + r'''
#include <errno.h>
static int dry;
void *__libc_malloc(size_t);
void *malloc(size_t n) { if (dry) { dry = 2; errno = ENOMEM; return NULL; } return __libc_malloc(n); }
static char mem[20000];
int main(void)
{
	size_t n = 4000, l; int r;
	for (int place = 0; place < 2; place++) {
		char *in = mem, *out = place ? mem + n : mem + 3 * n;
		if (place) { out = mem; in = mem + 3000; }
		memset(in, 'A', n);
		dry = 1; r = base64_decode(in, n, out, &l, 0); 
		if (r != 1 || l != 3000 || dry != 1) BAD("decoding needed memory");
		dry = 0;
	}
	return 0;
}
'''})

bug('s07-large-scratch', 'S07',
    [('lib/lib.c', '''#include <stdint.h>
#include <stddef.h>
#ifdef''', '''#include <stdint.h>
#include <stddef.h>
#include <stdlib.h>
#include <string.h>
#ifdef'''),
     ('lib/lib.c', '''	// Init the stream reader:
	base64_stream_encode_init(&state, flags);

	// Feed the whole string to the stream reader:
	base64_stream_encode(&state, src, srclen, out, &s);
''', '''	// Unaligned output is slow for large inputs, so use a scratch area:
	char *dst = out;

	if (srclen >= 16384 && ((uintptr_t)out & 15)) {
		dst = malloc(srclen / 3 * 4 + 4);
		if (dst == NULL) {
			*outlen = 0;
			return;
		}
	}

	// Init the stream reader:
	base64_stream_encode_init(&state, flags);

	// Feed the whole string to the stream reader:
	base64_stream_encode(&state, src, srclen, dst, &s);
	if (dst != out) {
		memcpy(out, dst, s);
		free(dst);
	}
''')],
    'a whole-buffer encode of at least 16 kB into an unaligned output buffer, with no memory left',
    'the call allocates memory and yields nothing when that fails',
    SH + 'mklib l gcc "$X86"\nmkprog p l gcc "$D/demo.c"\n"$T/p"\n',
    {'demo.c': REF + r'''
#include <errno.h>
static int dry;
void *__libc_malloc(size_t);
void *malloc(size_t n) { if (dry) { dry = 2; errno = ENOMEM; return NULL; } return __libc_malloc(n); }
static unsigned char in[60000]; static char out[90000], ref[90000];
int main(void)
{
	size_t l;
	fill(in, sizeof in);
	for (int k = 0; k < 16; k++) {
		dry = 1; base64_encode((char *)in, 50000, out + k, &l, 0);
		if (dry != 1) BAD("encoding needed memory");
		dry = 0;
		if (l != ref_enc(in, 50000, ref) || memcmp(out + k, ref, l)) BAD("wrong");
	}
	return 0;
}
'''})

# ---------------------------------------------------------------- concurrency
bug('t01-static-state', 'T01',
    [('lib/lib.c', '''	size_t s;
	size_t t;
	struct base64_state state;

	#ifdef _OPENMP
	if (srclen >= OMP_THRESHOLD) {
		base64_encode_openmp''', '''	size_t s;
	size_t t;
	static struct base64_state state;

	#ifdef _OPENMP
	if (srclen >= OMP_THRESHOLD) {
		base64_encode_openmp''')],
    'two threads in the whole-buffer encode call at the same time, with inputs of different length modulo three',
    'the stream state of the whole-buffer call is shared by all threads',
    SH + 'mklib l gcc "$X86"\nmkprog p l gcc "$D/demo.c" -pthread\ntimeout 120 "$T/p"\n',
    {'demo.c': REF + r'''
#include <pthread.h>
static volatile int bad, stop;
static void *work(void *arg)
{
	size_t n = (size_t)arg, l; unsigned char in[8]; char out[64], ref[64];
	memset(in, (int)n * 37, sizeof in);
	size_t m = ref_enc(in, n, ref);
	for (int i = 0; i < 3000000 && !bad; i++) {
		base64_encode((char *)in, n, out, &l, BASE64_FORCE_PLAIN);
		if (l != m || memcmp(out, ref, m)) bad = 1;
	}
	return 0;
}
int main(void)
{
	pthread_t t[6];
	for (size_t i = 0; i < 6; i++) pthread_create(&t[i], 0, work, (void *)(i + 1));
	for (int i = 0; i < 6; i++) pthread_join(t[i], 0);
	if (bad) BAD("threads disturb each other");
	return 0;
}
'''})

bug('t01-first-use', 'T01',
    [('lib/codec_choose.c', '''void
codec_choose (struct codec *codec, int flags)
{''', '''void
codec_choose (struct codec *codec, int flags)
{
	static struct codec memo;
	static volatile bool detected;
'''),
     ('lib/codec_choose.c', '''	// Runtime feature detection:
	if (codec_choose_arm(codec)) {
		return;
	}
	if (codec_choose_x86(codec)) {
		return;
	}
	codec->enc = base64_stream_encode_plain;
	codec->dec = base64_stream_decode_plain;''', '''	// Runtime feature detection, which only needs to run once:
	if (!detected) {
		detected = true;
		if (!codec_choose_arm(&memo) && !codec_choose_x86(&memo)) {
			memo.enc = base64_stream_encode_plain;
			memo.dec = base64_stream_decode_plain;
		}
	}
	*codec = memo;''')],
    'two threads at the very first use of the library in the process, one of them in the middle of detecting the features of the machine',
    'a thread picks up a codec choice that is not there yet and jumps through a null pointer',
    SH + r'''mklib l gcc "$X86" -fPIC
gcc -shared -o "$T/libb.so" "$T/l"/*.o || exit 99
gcc -O1 -w -I"$R/include" -I"$D" -o "$T/p" "$D/demo.c" -pthread -ldl || exit 99
timeout 200 "$T/p" "$T/libb.so"
''',
    {'demo.c': REF + r'''
/* One thread is single-stepped through its first call; after every few
 * instructions the other thread does a complete first call of its own. */
#include <dlfcn.h>
#include <signal.h>
#include <ucontext.h>
#include <sys/wait.h>
static int (*dec)(const char *, size_t, char *, size_t *, int);
static volatile long at, count, in_handler; static volatile int bad, fired;
static void trap(int sig, siginfo_t *si, void *uc)
{
	if (++count == at && !fired) {
		char out[8]; size_t l;
		fired = 1;
		/* a "second thread" that runs to completion at this instant */
		if (dec("Zm9v", 4, out, &l, 0) != 1 || l != 3 || memcmp(out, "foo", 3)) bad = 1;
	}
}
int main(int argc, char **argv)
{
#ifdef __x86_64__
	for (at = 1; at < 4000; at++) {
		pid_t p = fork();
		if (p == 0) {
			struct sigaction sa = { .sa_sigaction = trap, .sa_flags = SA_SIGINFO };
			void *h = dlopen(argv[1], RTLD_NOW); char out[8]; size_t l; int r;
			if (!h) _exit(99);
			dec = dlsym(h, "base64_decode");
			sigaction(SIGTRAP, &sa, 0);
			__asm__ volatile("pushfq; orq $0x100, (%%rsp); popfq" ::: "memory", "cc");
			r = dec("Zm9v", 4, out, &l, 0);
			__asm__ volatile("pushfq; andq $~0x100, (%%rsp); popfq" ::: "memory", "cc");
			_exit(r != 1 || l != 3 || bad ? 1 : fired ? 0 : 2);
		}
		int st; waitpid(p, &st, 0);
		if (WIFSIGNALED(st) || WEXITSTATUS(st) == 1) BAD("first use disturbed at instruction %ld (%x)", at, st);
		if (WEXITSTATUS(st) == 2) break;
	}
#endif
	return 0;
}
'''})

bug('t02-thread-local', 'T02',
    [('lib/lib.c', '''	int ret;
	struct base64_state state;
''', '''	int ret;
	static __thread struct base64_state state;
''')],
    'a signal handler that decodes while the interrupted thread is inside the whole-buffer decode call',
    'the stream state of the whole-buffer decode call is shared between the interrupted call and the handler (threads do not notice)',
    SH + 'mklib l gcc "$X86"\nmkprog p l gcc "$D/demo.c"\ntimeout 120 "$T/p"\n',
    {'demo.c': REF + r'''
#include <signal.h>
#include <ucontext.h>
static volatile long at, count; static volatile int fired;
static void trap(int sig)
{
	if (++count == at) {
		char out[8]; size_t l;
		fired = 1;
		base64_decode("Z!9v", 4, out, &l, 0);
	}
}
int main(void)
{
#ifdef __x86_64__
	char out[8]; size_t l;
	base64_decode("Zm9v", 4, out, &l, 0);
	signal(SIGTRAP, trap);
	for (at = 1; at < 4000; at++) {
		int r; count = 0; fired = 0;
		__asm__ volatile("pushfq; orq $0x100, (%%rsp); popfq" ::: "memory", "cc");
		r = base64_decode("Zm9v", 4, out, &l, 0);
		__asm__ volatile("pushfq; andq $~0x100, (%%rsp); popfq" ::: "memory", "cc");
		if (r != 1 || l != 3 || memcmp(out, "foo", 3)) BAD("disturbed at instruction %ld", at);
		if (!fired) break;
	}
#endif
	return 0;
}
'''})

bug('t03-avx-borrows-avx2', 'T03',
    [('lib/codec_choose.c', '''	if (flags & BASE64_FORCE_AVX) {
		codec->enc = base64_stream_encode_avx;''', '''	if (flags & BASE64_FORCE_AVX) {
		codec->enc = base64_stream_encode_avx2;''')],
    'forcing AVX on a machine, or in a build, without AVX2',
    'encoding with the forced codec uses another codec: nothing is encoded, or instructions are executed that the machine does not have',
    SH + 'has avx || exit 0\nmklib l gcc "SSSE3 SSE41 SSE42 AVX"\nmkprog p l gcc "$D/demo.c"\n"$T/p"\n',
    {'demo.c': REF + r'''
int main(void)
{
	static char out[200]; size_t l;
	base64_encode("foobar", 6, out, &l, BASE64_FORCE_AVX);
	if (l != 8 || memcmp(out, "Zm9vYmFy", 8)) BAD("forced codec not used");
	return 0;
}
'''})

bug('t03-mask', 'T03',
    [('lib/codec_choose.c', 'if (!(flags & 0xFFFF)) {', 'if (!(flags & 0xFF)) {')],
    'forcing AVX512, whose flag is above the low eight bits, in a build without it',
    'the forcing is ignored and the default codec used: an unavailable codec is not reported',
    SH + 'mklib l gcc "SSSE3"\nmkprog p l gcc "$D/demo.c"\n"$T/p"\n',
    {'demo.c': REF + r'''
int main(void)
{
	static char out[200]; size_t l = 7;
	for (int f = 1; f <= BASE64_FORCE_AVX512; f <<= 1) {
		if (f == BASE64_FORCE_SSSE3 || f == BASE64_FORCE_PLAIN) continue;
		if (base64_decode("Zm9vYmFy", 8, out, &l, f) != -1 || l != 0) BAD("unavailable codec %x not reported", f);
	}
	return 0;
}
'''})

CPUDEMO = SH + r'''[ "$(uname -m)" = x86_64 ] || exit 0
mkdir -p "$T/inc"; cp "$D/cpuid.h" "$T/inc/"
mklib l gcc "$X86"
gcc -O1 -w -include "$D/fake.h" -I"$T/inc" -I"$T/l" -c lib/codec_choose.c -o "$T/l/lib_codec_choose.c.o" || exit 99
mkprog p l gcc "$D/demo.c"
"$T/p"
'''
CPUH = r'''#include <stdint.h>
#include <stddef.h>
extern unsigned fk_max, fk_l1c, fk_l7b, fk_l7c; extern int fk_xgetbv;
static inline void fk_cpuid(unsigned l, unsigned *a, unsigned *b, unsigned *c, unsigned *d)
{
	*a = *b = *c = *d = 0;
	if (l > fk_max) { *a = *b = *c = *d = 0xffffffffu; return; }
	if (l == 1) *c = fk_l1c;
	if (l == 7) { *b = fk_l7b; *c = fk_l7c; }
}
#define __cpuid_count(l, s, a, b, c, d) fk_cpuid(l, &(a), &(b), &(c), &(d))
#define __cpuid(l, a, b, c, d) fk_cpuid(l, &(a), &(b), &(c), &(d))
static inline unsigned __get_cpuid_max(unsigned l, unsigned *s) { return fk_max; }
#define bit_SSSE3 (1 << 9)
#define bit_SSE4_1 (1 << 19)
#define bit_SSE4_2 (1 << 20)
'''
FAKEH = r'''#include <stdbool.h>
#include <stdint.h>
#include <stddef.h>
#include <stdio.h>
extern unsigned fk_xcr0; extern int fk_xgetbv;
#define __asm__ eax = fk_xcr0, edx = 0, fk_xgetbv = 1; if (0) asm
'''
CPUMAIN = REF + r'''
#include "codecs.h"
unsigned fk_max, fk_l1c, fk_l7b, fk_l7c, fk_xcr0; int fk_xgetbv;
#define F(n) extern void base64_stream_encode_##n BASE64_ENC_PARAMS;
F(avx512) F(avx2) F(avx) F(sse42) F(sse41) F(ssse3) F(plain)
int main(void)
{
	for (int m = 0; m < 4; m++) for (int i = 0; i < 1 << 13; i++) {
		struct codec c = { 0, 0 };
		fk_max = m == 0 ? 0 : m == 1 ? 1 : m == 2 ? 6 : 7;
		int ssse3 = i & 1, s41 = i >> 1 & 1, s42 = i >> 2 & 1, osx = i >> 3 & 1, avx = i >> 4 & 1,
		    avx2 = i >> 5 & 1, vl = i >> 6 & 1, vbmi = i >> 7 & 1, x = i >> 8 & 31;
		if (!osx && x) continue;
		if ((avx2 || vl || vbmi) && !avx) continue;	/* no such machine */
		if (vl && !avx2 || vbmi && !avx2 || avx && !s42 || s42 && !s41 || s41 && !ssse3) continue;
		fk_l1c = ssse3 << 9 | s41 << 19 | s42 << 20 | osx << 27 | avx << 28;
		fk_l7b = avx2 << 5 | (unsigned)vl << 31; fk_l7c = vbmi << 1;
		fk_xcr0 = 1 | (x & 1) << 1 | (x >> 1 & 1) << 2 | (x >> 2 & 1) << 5 | (x >> 3 & 1) << 6 | (x >> 4 & 1) << 7;
		if (fk_max < 1) fk_l1c = 0;
		fk_xgetbv = 0;
		codec_choose(&c, 0);
		int l1 = fk_max >= 1, l7 = fk_max >= 7;
		int ymm = l1 && osx && (fk_xcr0 & 6) == 6, zmm = ymm && (fk_xcr0 & 0xe6) == 0xe6;
		if (fk_xgetbv && !(l1 && osx)) BAD("xgetbv executed without OSXSAVE");
		if (c.enc == base64_stream_encode_avx512 && !(zmm && l7 && vl && vbmi)) BAD("AVX512 chosen: max %u i %x", fk_max, i);
		if (c.enc == base64_stream_encode_avx2 && !(ymm && l7 && avx2)) BAD("AVX2 chosen: max %u i %x", fk_max, i);
		if (c.enc == base64_stream_encode_avx && !(ymm && avx)) BAD("AVX chosen: max %u i %x", fk_max, i);
		if (c.enc == base64_stream_encode_sse42 && !(l1 && s42)) BAD("SSE42 chosen");
		if (c.enc == base64_stream_encode_sse41 && !(l1 && s41)) BAD("SSE41 chosen");
		if (c.enc == base64_stream_encode_ssse3 && !(l1 && ssse3)) BAD("SSSE3 chosen");
		if (c.enc == base64_stream_encode_plain && l1 && ssse3) BAD("no vector codec chosen: max %u i %x", fk_max, i);
	}
	return 0;
}
'''
CPUF = {'demo.c': CPUMAIN, 'fake.h': FAKEH, 'cpuid.h': CPUH}
bug('t04-vbmi', 'T04',
    [('lib/codec_choose.c', 'if ((ebx & bit_AVX512vl) && (ecx & bit_AVX512vbmi)) {', 'if ((ebx & bit_AVX512vl) || (ecx & bit_AVX512vbmi)) {')],
    'a machine with AVX512VL but without AVX512VBMI (Skylake-X), or the reverse',
    'the AVX512 codec is chosen on a machine that does not have its instructions',
    CPUDEMO, CPUF)
bug('t04-ymm-state', 'T04',
    [('lib/codec_choose.c', 'if ((xcr_mask & _XCR_XMM_AND_YMM_STATE_ENABLED_BY_OS) == _XCR_XMM_AND_YMM_STATE_ENABLED_BY_OS) { // check multiple bits at once',
      'if (xcr_mask & _XCR_XMM_AND_YMM_STATE_ENABLED_BY_OS) { // check multiple bits at once')],
    'an operating system that enables the XMM but not the YMM state (noxsave, some hypervisors)',
    'AVX codecs are chosen although the operating system does not enable their registers',
    CPUDEMO, CPUF)
bug('t04-leaf7', 'T04',
    [('lib/codec_choose.c', '''				if (max_level >= 7) {
					__cpuid_count''', '''				if (max_level >= 1) {
					__cpuid_count''')],
    'a machine (or virtual machine with limited CPUID) that has AVX but whose highest CPUID leaf is below 7',
    'a leaf that does not exist is taken for feature bits, and AVX2 chosen on machines without it',
    CPUDEMO, CPUF)

# ---------------------------------------------------------------- OpenMP
bug('p01-nowait', 'P01',
    [('lib/lib_openmp.c', '''	// Request a number of threads but not necessarily get them:
	#pragma omp parallel
	{
		// Get the number of threads used from one thread only,
		// as num_threads is a shared var:
		#pragma omp single
		{
			num_threads = omp_get_num_threads();

			// Split the input string into num_threads parts, each
			// part a multiple of 3 bytes.''', '''	// Request a number of threads but not necessarily get them:
	#pragma omp parallel
	{
		// Get the number of threads used from one thread only,
		// as num_threads is a shared var:
		#pragma omp master
		{
			num_threads = omp_get_num_threads();

			// Split the input string into num_threads parts, each
			// part a multiple of 3 bytes.''')],
    'a thread of the team that reaches the loop before the first thread has computed the parts',
    'there is no barrier between computing the parts and using them',
    SH + 'mklib l gcc "$X86" -fopenmp\nmkprog p l gcc "$D/demo.c" -fopenmp\nOMP_NUM_THREADS=16 OMP_WAIT_POLICY=active timeout 200 "$T/p"\n',
    {'demo.c': REF + r'''
int main(void)
{
	size_t n = 24000, l; unsigned char *in = malloc(n); char *out = malloc(2 * n), *ref = malloc(2 * n);
	fill(in, n);
	size_t m = ref_enc(in, n, ref);
	for (int i = 0; i < 1500; i++) {
		memset(out, 0, m);
		base64_encode((char *)in, n, out, &l, 0);
		if (l != m || memcmp(out, ref, m)) BAD("wrong encoding in round %d", i);
	}
	return 0;
}
'''})

bug('p01-last-part', 'P01',
    [('lib/lib_openmp.c', '''			len = srclen / (num_threads * 3);
			len *= 3;
			last_len = srclen - num_threads * len;
''', '''			len = srclen / (num_threads * 3);
			len *= 3;
			last_len = srclen - num_threads * len;

			// The last part can be at most one group per thread:
			if (last_len > 64 * 3) {
				last_len = 64 * 3;
			}
''')],
    'a team of more than 64 threads, and an input length that leaves many groups over',
    'the end of the input is not encoded',
    SH + 'mklib l gcc "$X86" -fopenmp\nmkprog p l gcc "$D/demo.c" -fopenmp\nOMP_NUM_THREADS=100 timeout 200 "$T/p"\n',
    {'demo.c': REF + r'''
int main(void)
{
	unsigned char *in = malloc(50000); char *out = malloc(100000), *ref = malloc(100000);
	fill(in, 50000);
	for (size_t n = 20000; n < 20700; n += 7) {
		size_t l, m = ref_enc(in, n, ref);
		base64_encode((char *)in, n, out, &l, 0);
		if (l != m || memcmp(out, ref, m)) BAD("wrong encoding of %zu bytes", n);
	}
	return 0;
}
'''})

bug('p02-part-margin', 'P02',
    [('lib/arch/generic/32/dec_loop.c', '	if (*slen < 8) {', '	if (*slen < 4) {'),
     ('lib/arch/generic/32/dec_loop.c', 'size_t rounds = (*slen - 4) / 4;', 'size_t rounds = *slen / 4;')],
    'a parallel decode with the plain codec in which a thread finishes its part after its neighbour has started the next one',
    'each part writes a zero byte over the first byte of the next part',
    SH + r'''mklib l gcc "$X86" -fopenmp
mkprog p l gcc "$D/demo.c" -fopenmp
OMP_NUM_THREADS=8 timeout 200 "$T/p"
''',
    {'demo.c': REF + r'''
int main(void)
{
	/* Every byte outside the output must stay; and parts must not overlap. */
	size_t n = 24001, l; unsigned char *in = malloc(n); char *enc = malloc(2 * n); unsigned char *out = malloc(2 * n);
	fill(in, n);
	for (size_t i = 0; i < n; i++) in[i] |= 1;
	for (size_t k = n - 2; k <= n; k++) {
		size_t m = ref_enc(in, k, enc);
		for (int r = 0; r < 300; r++) {
			memset(out, 0x5a, 2 * n);
			if (base64_decode(enc, m, (char *)out, &l, BASE64_FORCE_PLAIN) != 1 || l != k || memcmp(out, in, k)) BAD("wrong decoding");
			for (size_t i = k; i < 2 * n; i++) if (out[i] != 0x5a) BAD("byte %zu of %zu written", i, k);
		}
	}
	return 0;
}
'''})

bug('p02-shared-length', 'P02',
    [('lib/lib_openmp.c', '''		#pragma omp for firstprivate(state) private(s) reduction(+:sum, result) schedule(static,1)''',
      '''		#pragma omp for firstprivate(state) private(s) reduction(+:result) schedule(static,1)''')],
    'two threads of the team that add the length of their part at the same time',
    'the lengths of the parts are added without synchronisation: the reported length can be too small',
    SH + 'mklib l gcc "$X86" -fopenmp\nmkprog p l gcc "$D/demo.c" -fopenmp\nOMP_NUM_THREADS=8 OMP_WAIT_POLICY=active timeout 280 "$T/p"\n',
    {'demo.c': REF + r'''
int main(void)
{
	size_t n = 15003, l; unsigned char *in = malloc(n); char *enc = malloc(2 * n), *out = malloc(2 * n);
	fill(in, n);
	size_t m = ref_enc(in, n, enc);
	for (int i = 0; i < 3000; i++)
		if (base64_decode(enc, m, out, &l, 0) != 1 || l != n) BAD("wrong length %zu in round %d", l, i);
	return 0;
}
'''})

bug('p03-truncated', 'P03',
    [('lib/lib_openmp.c', '	if (result && (state.bytes == 0)) {', '	if (result && (state.bytes != 2)) {')],
    'a text of at least 20000 characters that was cut off after the first or third character of a group, in a parallel build',
    'truncated text is accepted',
    SH + 'mklib l gcc "$X86" -fopenmp\nmkprog p l gcc "$D/demo.c" -fopenmp\nOMP_NUM_THREADS=3 timeout 200 "$T/p"\n',
    {'demo.c': REF + r'''
int main(void)
{
	size_t n = 30000, l; char *in = malloc(n), *out = malloc(n);
	memset(in, 'A', n);
	for (size_t k = n - 13; k <= n; k++)
		if (base64_decode(in, k, out, &l, 0) != (k % 4 == 0)) BAD("wrong verdict for %zu characters", k);
	return 0;
}
'''})

bug('p03-lost-error', 'P03',
    [('lib/lib_openmp.c', '''	if (result != num_threads) {
		return 0;''', '''	if (result < num_threads - num_threads / 16) {
		return 0;''')],
    'a team of at least 16 threads, and damage in only one part',
    'damaged text is accepted and decoded with a hole',
    SH + 'mklib l gcc "$X86" -fopenmp\nmkprog p l gcc "$D/demo.c" -fopenmp\nOMP_NUM_THREADS=24 timeout 200 "$T/p"\n',
    {'demo.c': REF + r'''
int main(void)
{
	size_t n = 30000, l; char *in = malloc(n), *out = malloc(n);
	for (size_t k = 0; k < n; k += 97) {
		memset(in, 'A', n);
		in[k] = '!';
		if (base64_decode(in, n, out, &l, 0) != 0) BAD("damage at %zu accepted", k);
	}
	return 0;
}
'''})

# ---------------------------------------------------------------- the tool
CLI = SH + 'mklib l gcc "$X86"\nmkprog b64 l gcc bin/base64.c\ngcc -O1 -w -shared -fPIC -o "$T/shim.so" "$D/shim.c" -ldl || exit 99\n'
CLIF = {'shim.c': SHIM}
bug('u01-short-writev', 'U01',
    [('bin/base64.c', 'iov->iov_base = (size_t) nwrite + base;', 'iov->iov_base = (nvec > 1) ? (size_t) nwrite + base : base;')],
    'a short write that ends inside the last vector of a wrapped write',
    'part of the last line is written twice',
    CLI + r'''head -c 311 /dev/zero | tr '\0' 'k' > "$T/in"
"$T/b64" -w 20 "$T/in" > "$T/ref" || exit 99
base64 -w 20 "$T/in" | cmp -s - "$T/ref" || { echo "wrong without faults"; exit 1; }
for m in 1 2 3 7 13 50; do
	SHIM_WMAX=$m LD_PRELOAD="$T/shim.so" timeout 20 "$T/b64" -w 20 "$T/in" > "$T/out" && cmp -s "$T/ref" "$T/out" || { echo "wrong with writes of $m"; exit 1; }
done
''', CLIF)

bug('u01-eintr', 'U01',
    [('bin/base64.c', '''		if ((nwrite = writev(1, iov, nvec)) < 0) {

			// Retry on EINTR.
			if (errno == EINTR) {
				continue;
			}
''', '''		if ((nwrite = writev(1, iov, nvec)) < 0) {

			// Retry on EINTR, unless it keeps happening.
			if (errno == EINTR && nintr++ < 3) {
				continue;
			}
'''), ('bin/base64.c', '''	// Writing nothing always succeeds.
	if (nvec == 0) {
		return true;
	}
''', '''	int nintr = 0;

	// Writing nothing always succeeds.
	if (nvec == 0) {
		return true;
	}
''')],
    'more than three interruptions by signals while one array of lines is written',
    'the tool gives up although nothing failed',
    CLI + r'''head -c 3000 /dev/zero | tr '\0' 'k' > "$T/in"
base64 -w 20 "$T/in" > "$T/ref"
SHIM_WMAX=10 SHIM_EINTR=2 LD_PRELOAD="$T/shim.so" timeout 20 "$T/b64" -w 20 "$T/in" > "$T/out" 2>/dev/null || { echo failed; exit 1; }
cmp -s "$T/ref" "$T/out"
''', CLIF)

bug('u02-split-read', 'U02',
    [('bin/base64.c', '''			// Ignore empty chunks.
			if (len == 0) {
				start++;
				avail--;
				continue;
			}
''', '''			// Ignore empty chunks.
			if (len == 0) {
				start++;
				avail--;
				continue;
			}

			// Nothing is left once the input is padded.
			if (start[len - 1] == '=') {
				avail = len;
			}
''')],
    'the two padding characters separated by a newline (any wrap width that puts a break there)',
    'the text after a padding character at the end of a line is not looked at: "Zg=\\n=" is left incomplete',
    CLI + r'''printf 'Zm9vYg=\n=!' | "$T/b64" -d > "$T/out" 2>"$T/err" && { echo "damage accepted"; exit 1; }
printf 'Zm9vYg=\n=\n' | "$T/b64" -d > "$T/out" 2>"$T/err" || { echo "valid text rejected"; exit 1; }
[ "$(cat "$T/out")" = foob ]
''', CLIF)
BUGS[-1]['prop'] = 'U04'
BUGS[-1]['id'] = 'u04-after-padding'
BUGS[-1]['needs'] = 'damage behind a line that ends in a padding character'
BUGS[-1]['breaks'] = 'whatever follows a line that ends in padding is ignored, so damage there is not reported'

bug('u02-short-write', 'U02',
    [('bin/base64.c', '''		// Update the buffer position.
		buf += (size_t) nwrite;
		len -= (size_t) nwrite;''', '''		// Update the buffer position.
		buf += (size_t) nwrite;
		len -= (nwrite > 0) ? (size_t) nwrite : len;''')],
    'a write that is satisfied with zero bytes',
    'the rest of the data is dropped and success reported',
    CLI + r'''cat > "$T/z.c" <<'E'
#define _GNU_SOURCE
#include <unistd.h>
#include <sys/syscall.h>
ssize_t write(int fd, const void *p, size_t n)
{
	static int k;
	if (fd == 1 && k++ % 3 == 1) return 0;
	if (fd == 1 && n > 5) n = 5;
	return syscall(SYS_write, fd, p, n);
}
E
gcc -O1 -shared -fPIC -o "$T/z.so" "$T/z.c" || exit 99
echo Zm9vYmFyZm9vYmFyZm9vYmFyZm9vYmFy > "$T/in"
LD_PRELOAD="$T/z.so" timeout 20 "$T/b64" -d "$T/in" > "$T/out" || exit 1
base64 -d "$T/in" | cmp -s - "$T/out"
''', CLIF)

bug('u02-garbage-block', 'U02',
    [('bin/base64.c', '''		// Append the raw data to the output stream.
		if (write_stdout(config, buf->raw, ototal) == false) {
			return false;
		}
	}

	// Check for stream errors.
	if (ferror(config->fp)) {
		fprintf(stderr, "%s: %s: read error\\n",
		       config''', '''		// Stop at the end of the data.
		if (ototal == 0) {
			break;
		}

		// Append the raw data to the output stream.
		if (write_stdout(config, buf->raw, ototal) == false) {
			return false;
		}
	}

	// Check for stream errors.
	if (ferror(config->fp)) {
		fprintf(stderr, "%s: %s: read error\\n",
		       config''')],
    'a whole read buffer (1 MiB) in which nothing is decoded, for instance only newlines',
    'decoding stops silently and the rest of the text is lost, with exit code 0',
    CLI + r'''{ echo Zm9v; head -c 2100000 /dev/zero | tr '\0' '\n'; echo YmFy; } | "$T/b64" -d > "$T/out" || exit 1
[ "$(cat "$T/out")" = foobar ]
''', CLIF)

bug('u03-read-error', 'U03',
    [('bin/base64.c', '''	// Check for stream errors.
	if (ferror(config->fp)) {
		fprintf(stderr, "%s: %s: read error\\n",
		        config''', '''	// Check for stream errors.
	if (nread > 0 && ferror(config->fp)) {
		fprintf(stderr, "%s: %s: read error\\n",
		        config''')],
    'a read error while encoding',
    'a read error passes for the end of the input, and the exit code is 0',
    CLI + r'''"$T/b64" . > "$T/out2" 2>"$T/err2" && { echo "read error ignored"; exit 1; }
[ -s "$T/err2" ]
''', CLIF)

bug('u03-final-newline', 'U03',
    [('bin/base64.c', '''	// Print optional trailing newline.
	if (write_wrapped(config, NULL, 0) == false) {
		return false;
	}

	return true;''', '''	// Print optional trailing newline.
	write_wrapped(config, NULL, 0);

	return true;''')],
    'a disk that fills up exactly before the last newline',
    'the last write fails and the tool still exits with 0',
    CLI + r'''printf foobar > "$T/in"
for n in 1 2 3; do
	SHIM_FAIL=$n:28 LD_PRELOAD="$T/shim.so" "$T/b64" "$T/in" > "$T/out" 2>"$T/err"; rc=$?
	base64 "$T/in" | cmp -s - "$T/out" || [ $rc -ne 0 ] || { echo "lost output passed for success"; exit 1; }
done
''', CLIF)

bug('u04-last-chunk', 'U04',
    [('bin/base64.c', '''			if (base64_stream_decode(&state, start, len,
			                         outbuf, &outlen) == 0) {''', '''			if (base64_stream_decode(&state, start, len,
			                         outbuf, &outlen) == 0 && (outlen == 0 || len < avail)) {''')],
    'damage in the last line of the text, which has no newline at its end, behind at least one complete byte',
    'the damage is not reported',
    CLI + r'''printf 'Zm9v\nYmFy!' | "$T/b64" -d > "$T/out" 2>"$T/err" && { echo "damage accepted"; exit 1; }
printf 'Zm9v\n!' | "$T/b64" -d > "$T/out" 2>"$T/err" && { echo "damage accepted"; exit 1; }
printf 'Zm9v\nYmFy' | "$T/b64" -d > "$T/out" || exit 1
[ "$(cat "$T/out")" = foobar ]
''', CLIF)

bug('u05-high-bytes', 'U05',
    [('bin/base64.c', 'if (lut[(unsigned char) p[len]] == 0) {', 'if (lut[(unsigned char) p[len] & 0x7F] == 0) {')],
    'garbage bytes with the high bit set whose low bits are a character of the alphabet (UTF-8 text)',
    'such bytes are not ignored, and decoding fails',
    CLI + r'''printf 'Zm\303\2519v' | "$T/b64" -d -i > "$T/out" 2>/dev/null || { echo failed; exit 1; }
[ "$(cat "$T/out")" = foo ]
''', CLIF)

bug('u05-boundary', 'U05',
    [('bin/base64.c', '''			// Move the start pointer past the newline.
			start += len + 1;
			avail -= len + 1;''', '''			// Move the start pointer past the newline. Line ends
			// often come in pairs.
			start += len + 1;
			avail -= len + 1;
			if (config->ignore_garbage && avail > 0 && start[-1] == '\\r') {
				start++;
				avail--;
			}''')],
    'a carriage return as garbage that is not followed by a newline',
    'the character behind the carriage return is dropped',
    CLI + r'''printf 'Zm9v\r\nYm\rFy\r\n' | "$T/b64" -d -i > "$T/out" 2>/dev/null || { echo failed; exit 1; }
[ "$(cat "$T/out")" = foobar ]
''', CLIF)

bug('u06-epipe', 'U06',
    [('bin/base64.c', '''			// Quit on other errors.
			fprintf(stderr, "%s: writev: %s\\n",
				config->name, strerror(errno));
			return false;''', '''			// Nobody is left to read the rest.
			if (errno == EPIPE) {
				return true;
			}

			// Quit on other errors.
			fprintf(stderr, "%s: writev: %s\\n",
				config->name, strerror(errno));
			return false;''')],
    'a reader that goes away while the encoder writes, with SIGPIPE ignored (as under many supervisors), and output that ends in a full line',
    'the encoder exits with 0 although its output was lost',
    CLI + r'''head -c 57000 /dev/zero > "$T/in"
SHIM_FAIL=1:32 LD_PRELOAD="$T/shim.so" "$T/b64" "$T/in" > "$T/out" 2>"$T/err" && { echo "lost output passed for success"; exit 1; }
exit 0
''', CLIF)


def betable(text):
    """Make ] (93) valid in the big-endian table for the third character."""
    i = text.index('#else')
    j = text.index('base64_table_dec_32bit_d2', i)
    head, body = text[:j], text[j:]
    import re
    n = 0
    for m in re.finditer(r'0x[0-9a-f]{8}', body):
        if n == 93:
            old = m.group(0)
            assert old == '0xffffffff', old
            return head + body[:m.start()] + '0x00000600' + body[m.end():]
        n += 1
    raise SystemExit('be table')


def main():
    only = sys.argv[1:]
    for b in BUGS:
        if only and b['id'] not in only:
            continue
        d = os.path.join(OUT, b['id'])
        os.makedirs(d, exist_ok=True)
        w = tempfile.mkdtemp(prefix='seed-')
        try:
            subprocess.check_call(['git', 'clone', '-q', REPO, w + '/r'])
            if b['edits'] is None:
                p = w + '/r/lib/tables/table_dec_32bit.h'
                t = open(p).read()
                open(p, 'w').write(betable(t))
            else:
                for f, old, new in b['edits']:
                    p = w + '/r/' + f
                    t = open(p).read()
                    if t.count(old) != 1:
                        raise SystemExit('%s: %d matches in %s:\n%s' % (b['id'], t.count(old), f, old))
                    open(p, 'w').write(t.replace(old, new))
            diff = subprocess.check_output(['git', '-C', w + '/r', 'diff'], text=True)
            open(d + '/patch.diff', 'w').write(diff)
        finally:
            shutil.rmtree(w)
        open(d + '/common.sh', 'w').write(COMMON)
        for n, t in b['files'].items():
            open(d + '/' + n, 'w').write(t.lstrip('\n'))
        open(d + '/demo.sh', 'w').write(b['demo'])
        os.chmod(d + '/demo.sh', 0o755)
        json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    print(len(BUGS), 'bugs')


if __name__ == "__main__":
    main()
