#include "model.h"
static const char abc[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
size_t model_encode(const uint8_t *s, size_t n, uint8_t *o) {
	size_t i, k = 0;
	for (i = 0; i < n; i += 3) {
		uint32_t v = (uint32_t)s[i] << 16;
		if (i + 1 < n) v |= (uint32_t)s[i + 1] << 8;
		if (i + 2 < n) v |= s[i + 2];
		o[k++] = abc[v >> 18]; o[k++] = abc[v >> 12 & 63];
		o[k++] = i + 1 < n ? abc[v >> 6 & 63] : '=';
		o[k++] = i + 2 < n ? abc[v & 63] : '=';
	}
	return k;
}
static int value(uint8_t c) {
	if (c == '=') return 64;
	if (c >= 'A' && c <= 'Z') return c - 'A';
	if (c >= 'a' && c <= 'z') return c - 'a' + 26;
	if (c >= '0' && c <= '9') return c - '0' + 52;
	if (c == '+') return 62;
	if (c == '/') return 63;
	return -1;
}
static int8_t vals[256]; static bool have_vals;
int model_value(uint8_t c) {
	if (!have_vals) { for (int i = 0; i < 256; i++) vals[i] = (int8_t)value((uint8_t)i); have_vals = true; }
	return vals[c];
}
void dmodel_init(dmodel_t *m) { m->phase = D_TEXT; m->pos = 0; m->acc = 0; m->lo = m->hi = 0; }
bool dmodel_feed(dmodel_t *m, const uint8_t *s, size_t n, uint8_t *out) {
	size_t i;
	if (m->phase == D_ERR) return false;
	for (i = 0; i < n; i++) {
		while (m->phase == D_TEXT && m->pos == 0 && n - i >= 4) {        /* a whole group */
			int a = model_value(s[i]), b = model_value(s[i + 1]), c = model_value(s[i + 2]), d = model_value(s[i + 3]);
			if ((a | b | c | d) & ~63) break;
			out[m->hi] = (uint8_t)(a << 2 | b >> 4); out[m->hi + 1] = (uint8_t)(b << 4 | c >> 2); out[m->hi + 2] = (uint8_t)(c << 6 | d);
			m->hi += 3; m->lo = m->hi; i += 4;
		}
		if (i == n) break;
		int v = model_value(s[i]);
		if (m->phase == D_PAD1) {
			if (v != 64) { m->phase = D_ERR; return false; }
			m->phase = D_END; m->lo = m->hi;
			continue;
		}
		if (m->phase == D_END || v < 0 || (v == 64 && m->pos < 2)) { m->phase = D_ERR; return false; }
		if (v == 64) {
			if (m->pos == 2) { m->phase = D_PAD1; }
			else { m->phase = D_END; m->lo = m->hi; }
			continue;
		}
		m->acc = m->acc << 6 | (uint32_t)v;
		switch (m->pos++) {
		case 1: out[m->hi++] = (uint8_t)(m->acc >> 4); break;
		case 2: out[m->hi++] = (uint8_t)(m->acc >> 2); break;
		case 3: out[m->hi++] = (uint8_t)m->acc; m->pos = 0; m->lo = m->hi; break;
		}
	}
	return true;
}
bool dmodel_complete(const dmodel_t *m) { return m->phase == D_END || (m->phase == D_TEXT && m->pos == 0); }
