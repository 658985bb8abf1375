/* Reference models: deliberately naive, written from RFC 4648 and libbase64.h. */
#ifndef SIM_MODEL_H
#define SIM_MODEL_H
#include <stdint.h>
#include <stddef.h>
#include <stdbool.h>
size_t model_encode(const uint8_t *src, size_t n, uint8_t *out);      /* padded text */
int    model_value(uint8_t c);                                        /* 0..63, 64 for '=', -1 */
enum { D_TEXT, D_PAD1, D_END, D_ERR };
typedef struct { int phase, pos; uint32_t acc; size_t lo, hi; } dmodel_t; /* lo/hi: bounds on bytes delivered so far */
void   dmodel_init(dmodel_t *m);
/* Feeds a block. Appends the denoted bytes to out (at index hi). True when every character may occur where it does. */
bool   dmodel_feed(dmodel_t *m, const uint8_t *s, size_t n, uint8_t *out);
bool   dmodel_complete(const dmodel_t *m);
#endif
