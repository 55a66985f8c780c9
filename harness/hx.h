/* Small helpers shared by the harnesses. */
#ifndef HX_H
#define HX_H
#include <mstdlib/mstdlib.h>
#include "mc.h"
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include <errno.h>
/* String over an alphabet, every length 0..max: choice 0 ends the string. */
static inline size_t hx_str(char *out, size_t max, const char *alpha, size_t nalpha)
{
	size_t n = 0;
	while (n < max) { int c = mc_choose((int)nalpha + 1); if (c == 0) break; out[n++] = alpha[c - 1]; }
	out[n] = 0;
	return n;
}
/* Exactly n symbols. */
static inline void hx_strn(char *out, size_t n, const char *alpha, size_t nalpha)
{
	size_t i; for (i = 0; i < n; i++) out[i] = alpha[mc_choose((int)nalpha)]; out[n] = 0;
}
/* Concatenation of up to max tokens. Returns number of tokens. */
static inline size_t hx_toks(char *out, size_t outsz, size_t max, const char *const *toks, size_t ntoks)
{
	size_t n = 0, len = 0;
	out[0] = 0;
	while (n < max) { int c = mc_choose((int)ntoks + 1); size_t l; if (c == 0) break; l = strlen(toks[c - 1]); if (len + l + 1 > outsz) break; memcpy(out + len, toks[c - 1], l + 1); len += l; n++; }
	return n;
}
#define HX_N(a) (sizeof(a) / sizeof((a)[0]))
static inline M_bool hx_streq(const char *a, const char *b) { if (a == NULL || b == NULL) return a == b; return strcmp(a, b) == 0; }
/* Exact-size heap copy, so that ASAN sees any over-read. */
static inline char *hx_dup(const void *p, size_t n) { char *r = malloc(n ? n : 1); memcpy(r, p, n); return r; }
static inline char *hx_dupz(const char *p) { return hx_dup(p, strlen(p) + 1); }
#endif
