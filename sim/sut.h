/* What the scenarios know about the build under test. */
#ifndef SIM_SUT_H
#define SIM_SUT_H
#include "libbase64.h"
#include "config.h"
int host_level(void);                                       /* 0 none, 1 SSSE3, 2 SSE4.1, 3 SSE4.2, 4 AVX, 5 AVX2, 7 AVX512: what this host can execute */
typedef struct { int flag; const char *name; bool available; uint32_t isa; bool present_only; /* in the build, but this host cannot execute it */ } codec_t;
extern codec_t codecs[]; extern const int ncodecs;    /* index 0: flags 0, the default */
void sut_init(void);                                        /* once per process */
int pick_codec(void);                                       /* an available codec (index) */
void fill_data(uint8_t *p, size_t n, uint32_t kind, uint32_t seed);
#define DATA_KINDS 12
#endif
