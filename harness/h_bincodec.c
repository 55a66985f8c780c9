// MODE: seq
// MODS: base
/* Binary to text codecs (C34) against independent RFC 4648 coders: every short byte string with every wrap, every short text, every destination size. */
#include "hx.h"
const char *mc_name = "h_bincodec";
static char *hx_zn(const char *s, size_t n) { char *z = malloc(n + 1); memcpy(z, s, n); z[n] = 0; return z; }
static const char B64[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/", B32[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZ234567", B16[] = "0123456789ABCDEF";
static const int bits[] = { 6, 4, 0, 5 };	/* by codec */
static const char *tabof(int c) { return c == M_BINCODEC_BASE64 ? B64 : c == M_BINCODEC_BASE32 ? B32 : B16; }
static size_t renc(int codec, const M_uint8 *in, size_t n, size_t wrap, char *o)
{
	size_t i, nb = n * 8, k = bits[codec], g = codec == M_BINCODEC_BASE64 ? 4 : codec == M_BINCODEC_BASE32 ? 8 : 1, cnt = 0, l = 0; const char *t = tabof(codec);
	for (i = 0; i < nb || cnt % g; i += k) { size_t j; unsigned v = 0; char c = '='; if (i < nb) { for (j = 0; j < k; j++) { v <<= 1; if (i + j < nb) v |= (in[(i + j) / 8] >> (7 - (i + j) % 8)) & 1u; } c = t[v]; } if (wrap && cnt && cnt % wrap == 0) o[l++] = '\n'; o[l++] = c; cnt++; }
	o[l] = 0; return l;
}
/* 0: malformed or nothing */
static size_t rdec(int codec, const char *s, size_t n, M_uint8 *o)
{
	char t[600]; size_t m = 0, i, pad = 0, g, k, nb, b; const char *tab;
	if (codec == M_BINCODEC_BASE64ORHEX) { M_bool hex = n % 2 == 0; for (i = 0; i < n; i++) if (!isxdigit((unsigned char)s[i])) hex = M_FALSE; codec = hex ? M_BINCODEC_HEX : M_BINCODEC_BASE64; }
	g = codec == M_BINCODEC_BASE64 ? 4 : codec == M_BINCODEC_BASE32 ? 8 : 2; k = bits[codec]; tab = tabof(codec);
	for (i = 0; i < n; i++) if (!M_chr_isspace(s[i])) t[m++] = s[i];
	if (m == 0 || m % g) return 0; while (pad < m && t[m - 1 - pad] == '=') pad++;
	if (codec == M_BINCODEC_HEX && pad) return 0; if (codec == M_BINCODEC_BASE64 && pad > 2) return 0; if (codec == M_BINCODEC_BASE32 && pad != 0 && pad != 1 && pad != 3 && pad != 4 && pad != 6) return 0;
	nb = (m - pad) * k; memset(o, 0, m); for (i = 0; i < m - pad; i++) { char c = t[i]; const char *p; if (codec != M_BINCODEC_BASE64) c = (char)toupper((unsigned char)c); p = c ? strchr(tab, c) : NULL; if (!p) return 0; for (b = 0; b < k; b++) if (((p - tab) >> (k - 1 - b)) & 1) o[(i * k + b) / 8] |= (M_uint8)(0x80 >> ((i * k + b) % 8)); }
	return nb / 8;
}
static void dec(int codec, const char *s, size_t n)
{
	M_uint8 want[600], *o, *al; size_t w = rdec(codec, s, n, want), r, sz, ds, al_n = 99; char *z = hx_dup(s, n), *str;
	ds = M_bincodec_decode_size(n, (M_bincodec_codec_t)codec); mc_check(ds >= w, "codec %d: decode size of %zu characters is %zu, '%s' decodes to %zu bytes", codec, n, ds, mc_esc(s, n), w);
	for (sz = 0; sz <= ds + 1; sz++) { if (sz > 2 && sz + 3 < w) continue; o = malloc(sz ? sz : 1); memset(o, 0x5A, sz ? sz : 1); r = M_bincodec_decode(o, sz, z, n, (M_bincodec_codec_t)codec); if (sz >= ds) mc_check(r == w && !memcmp(o, want, w), "codec %d: '%s' decoded to %zu bytes '%s', expected %zu bytes", codec, mc_esc(s, n), r, mc_esc((char *)o, r), w); else mc_check(r == 0 || (r == w && sz >= w && !memcmp(o, want, w)), "codec %d: '%s' decoded into %zu bytes returned %zu", codec, mc_esc(s, n), sz, r); free(o); }
	al = M_bincodec_decode_alloc(z, n, &al_n, (M_bincodec_codec_t)codec); if (w) mc_check(al && al_n == w && !memcmp(al, want, w) && al[w] == 0, "codec %d: decode_alloc of '%s'", codec, mc_esc(s, n)); else mc_check(!al && al_n == 0, "codec %d: decode_alloc of malformed '%s'", codec, mc_esc(s, n)); M_free(al);
	free(z);
	if (!memchr(s, 0, n)) { z = hx_zn(s, n); str = M_bincodec_decode_str_alloc(z, (M_bincodec_codec_t)codec); if (w && !memchr(want, 0, w) && 1) { M_bool pr = M_TRUE; size_t i; for (i = 0; i < w; i++) if (want[i] > 0x7e || want[i] < 0x20) pr = M_FALSE; if (pr) mc_check(str && strlen(str) == w && !memcmp(str, want, w), "codec %d: decode_str of '%s'", codec, mc_esc(s, n)); } if (!w || memchr(want, 0, w)) mc_check(!str, "codec %d: decode_str of '%s' is '%s'", codec, mc_esc(s, n), str); M_free(str); free(z); }
}
static void enc(int codec, const M_uint8 *in, size_t n, size_t wrap)
{
	char want[1200], *o, *al; size_t w = renc(codec, in, n, wrap, want), r, sz, es = M_bincodec_encode_size(n, wrap, (M_bincodec_codec_t)codec); M_uint8 *z = (M_uint8 *)hx_dup((const char *)in, n);
	if (!n) { mc_check(es == 0 && M_bincodec_encode_alloc(z, 0, wrap, (M_bincodec_codec_t)codec) == NULL, "encoding nothing"); free(z); return; }
	mc_check(es >= w, "codec %d: encode size of %zu bytes, wrap %zu is %zu, needs %zu", codec, n, wrap, es, w);
	for (sz = 0; sz <= es + 1; sz++) { if (sz > 2 && sz + 3 < w) continue; o = malloc(sz ? sz : 1); memset(o, 'Q', sz ? sz : 1); r = M_bincodec_encode(o, sz, z, n, wrap, (M_bincodec_codec_t)codec); if (sz >= es) mc_check(r == w && !memcmp(o, want, w) && (sz == w || o[w] == 0), "codec %d wrap %zu: '%s' encoded as '%s', expected '%s'", codec, wrap, mc_esc((const char *)in, n), mc_esc(o, r), mc_escs(want)); else mc_check(r == 0 || (r == w && sz >= w && !memcmp(o, want, w)), "codec %d: encoded into %zu bytes returned %zu", codec, sz, r); free(o); }
	al = M_bincodec_encode_alloc(z, n, wrap, (M_bincodec_codec_t)codec); mc_check(al && !strcmp(al, want), "codec %d: encode_alloc '%s'", codec, al ? al : "NULL"); M_free(al); free(z);
	dec(codec, want, w);
	{ static const M_bincodec_codec_t all[] = { M_BINCODEC_BASE64, M_BINCODEC_HEX, M_BINCODEC_BASE32 }; size_t k; for (k = 0; k < 3; k++) { char w2[1200]; size_t l2 = renc((int)all[k], in, n, 3, w2), e2 = M_bincodec_encode_size(n, 3, all[k]); char *c = M_bincodec_convert_alloc(want, w, 3, (M_bincodec_codec_t)codec, all[k]); mc_check(c && !strcmp(c, w2), "convert %d to %d", codec, (int)all[k]); M_free(c); o = malloc(e2); r = M_bincodec_convert(o, e2, 3, all[k], want, w, (M_bincodec_codec_t)codec); mc_check(r == l2 && !memcmp(o, w2, l2), "convert %d to %d: %zu", codec, (int)all[k], r); free(o); } }
}
static const int codecs[] = { M_BINCODEC_BASE64, M_BINCODEC_HEX, M_BINCODEC_BASE32, M_BINCODEC_BASE64ORHEX };
static void run_bytes(void) { static const char al[] = { 0, '\x01', '\x7f', '\x80', '\xff', 'k' }; static const size_t wr[] = { 0, 1, 2, 3, 4, 5, 7, 8, 9, 64 }; char s[16]; int c = codecs[mc_choose(3)]; size_t w = wr[mc_choose((int)HX_N(wr))], n = hx_str(s, (size_t)mc_param("bytes", 5, 7), al, sizeof(al)); mc_case(); enc(c, (M_uint8 *)s, n, w); }
static void run_every(void) { M_uint8 b[3]; int c = codecs[mc_choose(3)], i; size_t n; b[0] = (M_uint8)mc_choose(256); n = 1 + (size_t)mc_choose(3); b[1] = (M_uint8)(b[0] * 7 + 3); b[2] = (M_uint8)(255 - b[0]); enc(c, b, n, 0); for (i = 0; i < 1; i++) mc_case(); { char t[9]; size_t k; /* every character in every position of a valid group */ memcpy(t, "ABCDEFAB", 8); k = (size_t)mc_choose(8); t[k] = (char)b[0]; dec(c, t, 8); dec(M_BINCODEC_BASE64ORHEX, t, 8); } }
static void run_length(void) { M_uint8 b[260]; size_t i, n = (size_t)mc_choose((int)mc_param("maxlen", 70, 200)), w = (size_t)mc_choose(80); int c = codecs[mc_choose(3)]; for (i = 0; i < n; i++) b[i] = (M_uint8)(i * 37 + n); mc_case(); enc(c, b, n, w); }
static void run_text(void)
{
	static const char a0[] = { 'A', 'Q', '=', '\n', '/', '-', 'z' }, a1[] = { '0', 'f', 'A', 'g', ' ', '=' }, a2[] = { 'A', 'm', '=', '\n', '1', '7' }, a3[] = { '0', 'a', 'Q', '=', '\n' }; static const char *const as[] = { a0, a1, a2, a3 }; static const size_t an[] = { sizeof(a0), sizeof(a1), sizeof(a2), sizeof(a3) };
	char s[32]; int k = mc_choose(4); size_t n = hx_str(s, (size_t)mc_param(k == 0 ? "t64" : k == 1 ? "t16" : k == 2 ? "t32" : "tor", k == 2 ? 8 : 6, k == 2 ? 9 : 8), as[k], an[k]); mc_case(); dec(codecs[k], s, n);
	/* the same behind a full group, and before one */
	if (mc_choose(2)) { char t[48]; size_t g = 8; const char *grp = k == 0 ? "QUJDQUJD" : k == 1 ? "61626364" : k == 2 ? "MZXW6YTB" : "QUJDQUJD"; memcpy(t, grp, g); memcpy(t + g, s, n); dec(codecs[k], t, g + n); memcpy(t, s, n); memcpy(t + n, grp, g); dec(codecs[k], t, g + n); }
}
/* white space anywhere in an encoded text changes nothing */
static void run_space(void) { static const char *const v[] = { "a", "ab", "abc", "abcd", "abcde", "abcdef" }; static const char ws[] = { ' ', '\n', '\r', '\t' }; char e[64], t[64]; int c = codecs[mc_choose(3)], k; const char *s = v[mc_choose(6)]; size_t n = renc(c, (const M_uint8 *)s, strlen(s), 0, e), i, j = 0; unsigned m; k = mc_choose(4); m = (unsigned)mc_choose(1 << (n + 1 > 13 ? 13 : n + 1)); mc_case(); for (i = 0; i <= n; i++) { if ((m >> i) & 1) t[j++] = ws[k]; if (i < n) t[j++] = e[i]; } dec(c, t, j); }
void mc_init(void) { mc_leakcheck = 1; }
void mc_run(void) { switch (mc_choose(5)) { case 0: run_bytes(); break; case 1: run_every(); break; case 2: run_length(); break; case 3: run_text(); break; case 4: run_space(); break; } }
