// MODE: seq
// MODS: base
/* UTF-8 (C35): every code point, and every byte string over all class boundaries, against an independent decoder and the Unicode 15.0 categories. */
#include "hx.h"
#include "ucd15.h"
#include <wctype.h>
#include <locale.h>
const char *mc_name = "h_utf8";
static M_bool okcp(M_uint32 c) { return c <= 0x10FFFF && !(c >= 0xD800 && c <= 0xDFFF) && (c & 0xFFFE) != 0xFFFE && !(c >= 0xFDD0 && c <= 0xFDEF); }
static size_t renc(M_uint32 c, char *o) { unsigned char *b = (unsigned char *)o; if (c < 0x80) { b[0] = (unsigned char)c; return 1; } if (c < 0x800) { b[0] = (unsigned char)(0xC0 + c / 64); b[1] = (unsigned char)(0x80 + c % 64); return 2; } if (c < 0x10000) { b[0] = (unsigned char)(0xE0 + c / 4096); b[1] = (unsigned char)(0x80 + c / 64 % 64); b[2] = (unsigned char)(0x80 + c % 64); return 3; } b[0] = (unsigned char)(0xF0 + c / 262144); b[1] = (unsigned char)(0x80 + c / 4096 % 64); b[2] = (unsigned char)(0x80 + c / 64 % 64); b[3] = (unsigned char)(0x80 + c % 64); return 4; }
/* length of the well formed character at s, 0 if there is none (Unicode table 3-7, without noncharacters) */
static size_t rdec(const char *str, M_uint32 *cp)
{
	const unsigned char *s = (const unsigned char *)str; unsigned lo = 0x80, hi = 0xBF; size_t n, i; M_uint32 c;
	if (s[0] < 0x80) { *cp = s[0]; return 1; } if (s[0] < 0xC2 || s[0] > 0xF4) return 0; n = s[0] < 0xE0 ? 2 : s[0] < 0xF0 ? 3 : 4; if (s[0] == 0xE0) lo = 0xA0; if (s[0] == 0xED) hi = 0x9F; if (s[0] == 0xF0) lo = 0x90; if (s[0] == 0xF4) hi = 0x8F;
	if (s[1] < lo || s[1] > hi) return 0; c = s[0] & (n == 2 ? 0x1Fu : n == 3 ? 0x0Fu : 7u); for (i = 1; i < n; i++) { if (s[i] < 0x80 || s[i] > 0xBF) return 0; c = c * 64 + (s[i] & 63u); } *cp = c; return okcp(c) ? n : 0;
}
static M_uint32 up(M_uint32 c) { return (M_uint32)towupper((wint_t)c); }
static M_uint32 lo(M_uint32 c) { return (M_uint32)towlower((wint_t)c); }
static M_uint32 ti(M_uint32 c) { if (c >= 0x1C4 && c <= 0x1CC) return c <= 0x1C6 ? 0x1C5 : c <= 0x1C9 ? 0x1C8 : 0x1CB; if (c >= 0x1F1 && c <= 0x1F3) return 0x1F2; if (c >= 0x10D0 && c <= 0x10FF) return c; return up(c); }
static const char *cat(M_uint32 c) { size_t l = 0, h = HX_N(ucd15) - 1; while (h - l > 1) { size_t m = (l + h) / 2; if (ucd15[m].cp <= c) l = m; else h = m; } return ucd15[l].k; }
static M_bool in(const char *k, const char *set) { return strstr(set, k) != NULL; }
/* expected class membership of one code point: -1 not judged */
enum { LOW, UPP, ALP, ALN, NUM, CNT, PUN, PRI, HAN, NCLS };
static const char *const cname[] = { "islower", "isupper", "isalpha", "isalnum", "isnum", "iscntrl", "ispunct", "isprint", "isunihan" };
static const M_uint32 hanr[][2] = { { 0x3400, 0x4DBF }, { 0x4E00, 0x9FFF }, { 0xF900, 0xFA6D }, { 0xFA70, 0xFAD9 }, { 0x20000, 0x2A6DF }, { 0x2A700, 0x2B738 }, { 0x2B740, 0x2B81D }, { 0x2B820, 0x2CEA1 }, { 0x2CEB0, 0x2EBE0 }, { 0x2F800, 0x2FA1D }, { 0x30000, 0x3134A } };
static int cls(int k, M_uint32 c)
{
	const char *g = cat(c); size_t i; if (!okcp(c)) return 0;
	if (k == HAN) { for (i = 0; i < HX_N(hanr); i++) if (c >= hanr[i][0] && c <= hanr[i][1]) return 1; return c == 0x2B739 || (c >= 0x31350 && c <= 0x323AF) ? -1 : 0; }
	if (g[0] == '?') return -1;
	switch (k) { case LOW: return in(g, "Ll"); case UPP: return in(g, "Lu"); case ALP: return in(g, "Ll Lu Lt Lm Lo Nl"); case ALN: return in(g, "Ll Lu Lt Lm Lo Nl Nd No"); case NUM: return in(g, "Nd Nl No"); case CNT: return in(g, "Cc"); case PUN: return g[0] == 'P'; case PRI: return c == ' ' || (c >= 9 && c <= 13) || strchr("LMNPS", g[0]) != NULL; } return -1;
}
static M_bool (*const fcp[])(M_uint32) = { M_utf8_islower_cp, M_utf8_isupper_cp, M_utf8_isalpha_cp, M_utf8_isalnum_cp, M_utf8_isnum_cp, M_utf8_iscntrl_cp, M_utf8_ispunct_cp, M_utf8_isprint_cp, M_utf8_isunihan_cp };
static M_bool (*const fch[])(const char *, const char **) = { M_utf8_islower_chr, M_utf8_isupper_chr, M_utf8_isalpha_chr, M_utf8_isalnum_chr, M_utf8_isnum_chr, M_utf8_iscntrl_chr, M_utf8_ispunct_chr, M_utf8_isprint_chr, M_utf8_isunihan_chr };
static M_bool (*const fst[])(const char *) = { M_utf8_islower, M_utf8_isupper, M_utf8_isalpha, M_utf8_isalnum, M_utf8_isnum, M_utf8_iscntrl, M_utf8_ispunct, M_utf8_isprint, M_utf8_isunihan };
static M_utf8_error_t (*const mcp[])(M_uint32, M_uint32 *) = { M_utf8_toupper_cp, M_utf8_tolower_cp, M_utf8_totitle_cp };
static M_utf8_error_t (*const mch[])(const char *, char *, size_t, size_t *, const char **) = { M_utf8_toupper_chr, M_utf8_tolower_chr, M_utf8_totitle_chr };
static M_utf8_error_t (*const mchb[])(const char *, M_buf_t *, const char **) = { M_utf8_toupper_chr_buf, M_utf8_tolower_chr_buf, M_utf8_totitle_chr_buf };
static M_utf8_error_t (*const mst[])(const char *, char **) = { M_utf8_toupper, M_utf8_tolower, M_utf8_totitle };
static M_utf8_error_t (*const mstb[])(const char *, M_buf_t *) = { M_utf8_toupper_buf, M_utf8_tolower_buf, M_utf8_totitle_buf };
static M_uint32 mapped(int k, M_uint32 c) { return k == 0 ? up(c) : k == 1 ? lo(c) : ti(c); }
static void one(M_uint32 c)
{
	char e[8], b[8], *z; size_t n, len, sz; int k; M_utf8_error_t r; M_uint32 g; const char *nx; M_buf_t *buf; M_bool ok = okcp(c);
	mc_check(M_utf8_is_valid_cp(c) == ok, "U+%04X valid", c);
	if (ok) n = renc(c, e); else n = 4;
	for (sz = 0; sz <= 5; sz++) { z = malloc(sz ? sz : 1); len = 99; r = M_utf8_from_cp(z, sz, &len, c); if (!ok) mc_check(r != M_UTF8_ERROR_SUCCESS, "U+%04X encoded", c); else if (sz < n) mc_check(r == M_UTF8_ERROR_TRUNCATED, "U+%04X into %zu bytes", c, sz); else mc_check(r == M_UTF8_ERROR_SUCCESS && len == n && !memcmp(z, e, n), "U+%04X encoding", c); free(z); }
	buf = M_buf_create(); M_buf_add_str(buf, "x"); r = M_utf8_from_cp_buf(buf, c); mc_check((r == M_UTF8_ERROR_SUCCESS) == ok && M_buf_len(buf) == (ok ? n + 1 : 1) && (!ok || !memcmp(M_buf_peek(buf) + 1, e, n)), "U+%04X into a buffer", c); M_buf_cancel(buf);
	for (k = 0; k < NCLS; k++) { int w = cls(k, c); if (w >= 0) mc_check(fcp[k](c) == (M_bool)w, "%s of U+%04X is %d", cname[k], c, !w); }
	for (k = 0; k < 3; k++) { g = 7; r = mcp[k](c, &g); if (!ok) mc_check(r == M_UTF8_ERROR_BAD_CODE_POINT, "case of invalid U+%04X", c); else mc_check(r == M_UTF8_ERROR_SUCCESS && g == mapped(k, c), "case %d of U+%04X is U+%04X, expected U+%04X", k, c, g, mapped(k, c)); }
	if (!ok || !c) return; z = malloc(n + 1); memcpy(z, e, n); z[n] = 0;
	nx = NULL; r = M_utf8_get_cp(z, &g, &nx); mc_check(r == M_UTF8_ERROR_SUCCESS && g == c && nx == z + n, "U+%04X decoded as U+%04X", c, g); r = M_utf8_get_chr(z, b, 4, &len, &nx); mc_check(r == M_UTF8_ERROR_SUCCESS && len == n && !memcmp(b, e, n) && nx == z + n, "U+%04X get_chr", c); mc_check(M_utf8_next_chr(z) == z + n && M_utf8_cnt(z) == 1, "U+%04X next", c);
	free(z);
}
static void run_cp(void) { M_uint32 hi = (M_uint32)mc_choose(0x440), i; for (i = 0; i < 1024; i++) { one(hi * 1024 + i); mc_case(); } if (hi == 0) { one(0x110000); one(0x7FFFFFFF); one(0xFFFFFFFF); one(0x80000041); } }
static void text(const char *s, size_t n)
{
	char *z = malloc(n + 1), *out; const char *e, *nx; M_uint32 cp[16], c, g; size_t st[17], l, i = 0, cnt = 0, len, k; M_bool ok = M_TRUE; M_utf8_error_t r; M_buf_t *buf; char b[8]; int q; size_t bad; memcpy(z, s, n); z[n] = 0; mc_case();
	while (i < n) { l = rdec(z + i, &c); if (!l) { ok = M_FALSE; break; } st[cnt] = i; cp[cnt++] = c; i += l; } st[cnt] = i; bad = i;
	e = NULL; mc_check(M_utf8_is_valid(z, &e) == ok, "validity of '%s'", mc_esc(s, n)); mc_check(e == z + bad, "validity of '%s' ends at %td", mc_esc(s, n), e - z); mc_check(M_utf8_is_valid(z, NULL) == ok, "validity"); mc_check(M_utf8_cnt(z) == (ok ? cnt : 0), "count of '%s' is %zu", mc_esc(s, n), M_utf8_cnt(z));
	/* stepping, and positions */
	for (k = 0; k <= cnt; k++) {
		if (k == cnt && ok) { if (n) { mc_check(M_utf8_cp_at(z, k, &g) != M_UTF8_ERROR_SUCCESS && M_utf8_chr_at(z, b, 8, &len, k) != M_UTF8_ERROR_SUCCESS && M_utf8_cp_at(z, k + 1, &g) != M_UTF8_ERROR_SUCCESS, "'%s' has a character at %zu", mc_esc(s, n), k); } g = 7; mc_check(M_utf8_get_cp(z + st[k], &g, &nx) == M_UTF8_ERROR_SUCCESS && g == 0 && nx == z + n, "end of text"); break; }
		g = 0x99; nx = z; r = M_utf8_get_cp(z + st[k], &g, &nx); if (k == cnt) { mc_check(r != M_UTF8_ERROR_SUCCESS && r != M_UTF8_ERROR_INVALID_PARAM, "malformed '%s' decoded", mc_esc(s, n)); mc_check(M_utf8_cp_at(z, k, &g) != M_UTF8_ERROR_SUCCESS && M_utf8_cp_at(z, k + 1, &g) != M_UTF8_ERROR_SUCCESS && M_utf8_chr_at(z, b, 8, &len, k + 2) != M_UTF8_ERROR_SUCCESS, "malformed '%s' has a character at %zu", mc_esc(s, n), k); break; }
		mc_check(r == M_UTF8_ERROR_SUCCESS && g == cp[k] && nx == z + st[k + 1], "character %zu of '%s' is U+%04X", k, mc_esc(s, n), g); g = 0; mc_check(M_utf8_cp_at(z, k, &g) == M_UTF8_ERROR_SUCCESS && g == cp[k], "cp at %zu of '%s' is U+%04X", k, mc_esc(s, n), g);
		len = 0; mc_check(M_utf8_chr_at(z, b, 8, &len, k) == M_UTF8_ERROR_SUCCESS && len == st[k + 1] - st[k] && !memcmp(b, z + st[k], len), "chr at %zu of '%s'", k, mc_esc(s, n));
		buf = M_buf_create(); nx = NULL; r = M_utf8_get_chr_buf(z + st[k], buf, &nx); mc_check(r == M_UTF8_ERROR_SUCCESS && nx == z + st[k + 1] && M_buf_len(buf) == len && !memcmp(M_buf_peek(buf), z + st[k], len), "get_chr_buf"); M_buf_cancel(buf);
		for (q = 0; q < NCLS; q++) { int w = cls(q, cp[k]); nx = NULL; if (w >= 0) mc_check(fch[q](z + st[k], &nx) == (M_bool)w && nx == z + st[k + 1], "%s_chr of U+%04X", cname[q], cp[k]); }
		for (q = 0; q < 3; q++) { char w[8]; size_t wl = renc(mapped(q, cp[k]), w); nx = NULL; len = 0; r = mch[q](z + st[k], b, sizeof(b), &len, &nx); mc_check(r == M_UTF8_ERROR_SUCCESS && len == wl && !memcmp(b, w, wl) && nx == z + st[k + 1], "case %d chr of U+%04X", q, cp[k]); buf = M_buf_create(); nx = NULL; r = mchb[q](z + st[k], buf, &nx); mc_check(r == M_UTF8_ERROR_SUCCESS && M_buf_len(buf) == wl && !memcmp(M_buf_peek(buf), w, wl) && nx == z + st[k + 1], "case %d chr_buf", q); M_buf_cancel(buf); }
	}
	for (q = 0; q < NCLS; q++) { int w = ok ? 1 : 0; for (k = 0; k < cnt && w >= 0; k++) { int v = cls(q, cp[k]); if (v < 0) w = v; else if (!v) w = 0; if (w == 0) break; } if (!n) w = 1; if (w >= 0) mc_check(fst[q](z) == (M_bool)w, "%s of '%s' is %d", cname[q], mc_esc(s, n), !w); }
	for (q = 0; q < 3; q++) { char w[64]; size_t wl = 0; for (k = 0; k < cnt; k++) wl += renc(mapped(q, cp[k]), w + wl); out = NULL; r = mst[q](z, &out); mc_check((r == M_UTF8_ERROR_SUCCESS) == ok, "case %d of '%s' reported %d", q, mc_esc(s, n), (int)r); if (ok) mc_check(out && strlen(out) == wl && !memcmp(out, w, wl), "case %d of '%s'", q, mc_esc(s, n)); M_free(out);
		buf = M_buf_create(); M_buf_add_str(buf, "pre"); r = mstb[q](z, buf); if (!ok) wl = 0; mc_check((r == M_UTF8_ERROR_SUCCESS) == ok && M_buf_len(buf) == wl + 3 && !memcmp(M_buf_peek(buf), "pre", 3) && !memcmp(M_buf_peek(buf) + 3, w, wl), "case %d of '%s' into a buffer", q, mc_esc(s, n)); M_buf_cancel(buf); }
	/* stepping over anything ends at the end */
	{ const char *p = z; size_t steps = 0; while (*p) { const char *o = p; p = M_utf8_next_chr(p); mc_check(p > o && p <= z + n && (((unsigned char)*p) & 0xC0) != 0x80 && ++steps <= n, "stepping over '%s'", mc_esc(s, n)); } mc_check(n == 0 ? M_utf8_next_chr(z) == NULL : p == z + n, "stepping"); }
	free(z);
}
static void run_bytes(void) { static const char al[] = { 'a', '\x80', '\x8F', '\x90', '\x9F', '\xA0', '\xBF', '\xC0', '\xC1', '\xC2', '\xDF', '\xE0', '\xE1', '\xED', '\xEF', '\xF0', '\xF3', '\xF4', '\xF5', '\xFF', '\xBE', '\xB7' }; char s[16]; size_t n = hx_str(s, (size_t)mc_param("len", 4, 5), al, sizeof(al)); text(s, n); }
static void run_two(void) { char s[4]; s[0] = (char)(1 + mc_choose(255)); s[1] = (char)(1 + mc_choose(255)); s[2] = 'k'; text(s, 2); text(s, 3); }
static void run_toks(void) { static const char *const t[] = { "a", "Z", "\xC3\xA9", "\xC3\x89", "\xC7\x84", "\xC7\x86", "\xE1\x83\x90", "\xE2\x82\xAC", "\xED\x95\x9C", "\xE4\xB8\xAD", "\xF0\x90\x90\x80", "\xF0\x9F\x98\x80", "5", " ", ".", "\x01", "\xE2\x85\xB0", "\x80", "\xE2\x82", "\xC4\xB0", "\xC4\xB1" }; char s[64]; hx_toks(s, sizeof(s), (size_t)mc_param("toks", 3, 5), t, HX_N(t)); text(s, strlen(s)); }
void mc_init(void) { mc_leakcheck = 1; if (!setlocale(LC_CTYPE, "C.UTF-8")) { fprintf(stderr, "no C.UTF-8 locale\n"); abort(); } }
void mc_run(void) { switch (mc_choose(4)) { case 0: run_cp(); break; case 1: run_bytes(); break; case 2: run_two(); break; case 3: run_toks(); break; } }
