#include "sim.h"
#include "sut.h"
#ifndef HAVE_AVX512
#define HAVE_AVX512 0
#endif
#if defined(__x86_64__) || defined(__i386__)
#define X86 1
#else
#define X86 0
#endif
#define I_SSE (ISA_SSE2 | ISA_SSE3 | ISA_SSSE3 | ISA_VEC)
#define I_AVX (I_SSE | ISA_SSE41 | ISA_SSE42 | ISA_AVX | ISA_V256)
#define I_512 (I_AVX | ISA_AVX2 | ISA_AVX512F | ISA_AVX512VL | ISA_VBMI | ISA_V512 | ISA_BMI | ISA_FMA)
codec_t codecs[] = {
	{ 0, "default", true, ~0u },
	{ BASE64_FORCE_PLAIN, "plain", true, sizeof(void *) == 8 ? ISA_SSE2 : 0 },
	{ BASE64_FORCE_SSSE3, "ssse3", X86 && HAVE_SSSE3, I_SSE },
	{ BASE64_FORCE_SSE41, "sse41", X86 && HAVE_SSE41, I_SSE | ISA_SSE41 },
	{ BASE64_FORCE_SSE42, "sse42", X86 && HAVE_SSE42, I_SSE | ISA_SSE41 | ISA_SSE42 },
	{ BASE64_FORCE_AVX, "avx", X86 && HAVE_AVX, I_AVX },
	{ BASE64_FORCE_AVX2, "avx2", X86 && HAVE_AVX2, I_AVX | ISA_AVX2 },
	{ BASE64_FORCE_AVX512, "avx512", X86 && HAVE_AVX512, I_512 },
	{ BASE64_FORCE_NEON32, "neon32", HAVE_NEON32, 0 },
	{ BASE64_FORCE_NEON64, "neon64", HAVE_NEON64, 0 },
};
const int ncodecs = sizeof codecs / sizeof *codecs;
int host_level(void) {
#if X86
	static int l = -1;
	if (l < 0) {
		__builtin_cpu_init();
		l = __builtin_cpu_supports("avx512vl") && __builtin_cpu_supports("avx512vbmi") && __builtin_cpu_supports("avx512bw") ? 7 : __builtin_cpu_supports("avx2") ? 5 : __builtin_cpu_supports("avx") ? 4 :
		    __builtin_cpu_supports("sse4.2") ? 3 : __builtin_cpu_supports("sse4.1") ? 2 : __builtin_cpu_supports("ssse3") ? 1 : 0;
	}
	return l;
#else
	return 0;
#endif
}
void sut_init(void) {
	static const int need[] = { 0, 0, 1, 2, 3, 4, 5, 7, 0, 0 };
	for (int i = 0; i < ncodecs; i++) if (need[i] > host_level()) { codecs[i].present_only = codecs[i].available; codecs[i].available = false; }
}
int pick_codec(void) {
	int av[16], n = 0;
	for (int i = 0; i < ncodecs; i++) if (codecs[i].available) av[n++] = i;
	return av[choose(n)];
}
void fill_data(uint8_t *p, size_t n, uint32_t kind, uint32_t seed) {
	size_t i;
	switch (kind) {
	case 0: memset(p, seed & 0x100 ? (int)seed & 0xff : seed & 0x200 ? 0xff : 0, n); break;
	case 8: for (i = 0; i < n; ) {                /* stretches of one byte */
		uint64_t v = mix64(seed + i); size_t k = 1 + (v >> 8) % 200; uint8_t c = v & 0x80000000 ? (uint8_t)v : v & 0x40000000 ? 0xff : 0;
		while (k-- && i < n) p[i++] = c;
	} break;
	case 9: {                                     /* a short pattern over and over */
		size_t k = 1 + mix64(seed) % 70; if (k > n) k = n;
		fill_random(p, k, seed); for (i = k; i < n; i++) p[i] = p[i - k];
	} break;
	case 10: {                                    /* only a few symbols of the alphabet */
		uint8_t sym[4]; fill_random(sym, 4, seed);
		static const uint8_t special[] = { 0, 25, 26, 51, 52, 61, 62, 63 };
		for (i = 0; i < 4; i++) sym[i] = sym[i] & 0x40 ? sym[i] & 63 : special[sym[i] & 7];
		for (i = 0; i < n; i += 3) {
			uint64_t v = mix64(seed + i); uint32_t g = 0;
			for (int j = 0; j < 4; j++) g = g << 6 | sym[(v >> (j * 2)) & 3];
			for (size_t j = 0; j < 3 && i + j < n; j++) p[i + j] = (uint8_t)(g >> (16 - 8 * j));
		}
	} break;
	case 11: for (i = 0; i < n; i++) { uint64_t v = mix64(seed + i); p[i] = (uint8_t)("etaoin shrdlu\n.,ETA0123456789+/="[v % 33]); } break;   /* like text, even encoded text */
	default:
	case 1: case 2: case 3: fill_random(p, n, seed); break;
	case 4: for (i = 0; i < n; i++) p[i] = (uint8_t)(i + seed); break;
	case 5: { static const uint8_t t[] = { 0xfb, 0xef, 0xbe, 0xff, 0xff, 0xff, 0xfb, 0xff, 0xbf }; for (i = 0; i < n; i++) p[i] = t[(i + seed) % 9]; } break;
	case 6: fill_random(p, n, seed); for (i = 0; i < n; i++) p[i] = p[i] & 1 ? 0xff : (uint8_t)(p[i] & 0x10); break;
	case 7: fill_random(p, n, seed); for (i = 0; i < n; i++) p[i] |= 0x80; break;
	}
}
