// MODE: seq
// MODS: base text
#include "hx.h"
#include <mstdlib/mstdlib_text.h>
#include "cptab.h"
/* C36: text codecs. */
const char *mc_name = "h_textcodec";
typedef M_textcodec_codec_t C; typedef M_textcodec_error_t R; typedef M_textcodec_ehandler_t H;
#define NCP ((int)HX_N(cptab))
static C cpc(int i) { return (C)(M_TEXTCODEC_ASCII + i); }
static const char *const ehn[] = { "fail", "replace", "ignore" };
#define REP "\xEF\xBF\xBD"
/* run through the three destinations, which must agree */
static char *conv(M_bool enc, const char *in, H h, C c, R *r, size_t *n)
{
	char *z = hx_dupz(in), *out = NULL, *res; M_buf_t *b = M_buf_create(); M_parser_t *p = M_parser_create(M_PARSER_FLAG_NONE); R r2, r3; int norm = 0; mc_case();
	*r = enc ? M_textcodec_encode(&out, z, h, c) : M_textcodec_decode(&out, z, h, c); M_buf_add_str(b, "pre"); M_parser_append(p, (const unsigned char *)"pr", 2);
	r2 = enc ? M_textcodec_encode_buf(b, z, h, c) : M_textcodec_decode_buf(b, z, h, c); r3 = enc ? M_textcodec_encode_parser(p, z, h, c) : M_textcodec_decode_parser(p, z, h, c);
	mc_check(r2 == *r && r3 == *r, "%s of '%s' as %s: %d as text, %d into a buffer, %d into a parser", enc ? "encoding" : "decoding", mc_escs(in), M_textcodec_codec_to_str(c), *r, r2, r3); mc_check(!M_textcodec_error_is_error(*r) || out == NULL, "output with an error"); mc_check(M_textcodec_error_is_error(*r) == (*r != M_TEXTCODEC_ERROR_SUCCESS && *r != M_TEXTCODEC_ERROR_SUCCESS_EHANDLER), "is_error");
	*n = M_buf_len(b) - 3; mc_check(!memcmp(M_buf_peek(b), "pre", 3), "buffer's former content changed"); res = malloc(*n + 1); memcpy(res, M_buf_peek(b) + 3, *n); res[*n] = 0;
	/* existing tests insist on a replacement character of the two bytes FF FD (known finding); anything else is judged */
	if (!enc && h == M_TEXTCODEC_EHANDLER_REPLACE && strstr(res, "\xff\xfd") && mc_known("replacement-not-utf8")) { char *t = malloc(*n * 2 + 4), *q = t; size_t i; for (i = 0; i < *n; i++) if (i + 1 < *n && res[i] == '\xff' && res[i + 1] == '\xfd') { memcpy(q, REP, 3); q += 3; i++; } else *q++ = res[i]; *q = 0; free(res); res = t; *n = (size_t)(q - t); norm = 1; }
	if (!M_textcodec_error_is_error(*r) && !norm) { mc_check(M_parser_len(p) == *n + 2 && !memcmp(M_parser_peek(p), "pr", 2) && !memcmp(M_parser_peek(p) + 2, res, *n), "%s of '%s': parser differs from buffer", enc ? "encoding" : "decoding", mc_escs(in)); mc_check(!strcmp(out ? out : "", res), "%s of '%s': text '%s', buffer '%s'", enc ? "encoding" : "decoding", mc_escs(in), mc_escs(out), mc_escs(res)); }
	M_free(out); M_buf_cancel(b); M_parser_destroy(p); free(z); return res;
}
static void expect(M_bool enc, const char *in, H h, C c, R wr, const char *want, size_t wn)
{
	R r; size_t n; char *o = conv(enc, in, h, c, &r, &n);
	mc_check(r == wr, "%s '%s' as %s (%s): result %d, expected %d", enc ? "encoding" : "decoding", mc_escs(in), M_textcodec_codec_to_str(c), ehn[h], r, wr);
	if (!M_textcodec_error_is_error(wr)) mc_check(n == wn && !memcmp(o, want, n), "%s '%s' as %s (%s): '%s', expected '%s'", enc ? "encoding" : "decoding", mc_escs(in), M_textcodec_codec_to_str(c), ehn[h], mc_esc(o, n), mc_esc(want, wn));
	free(o);
}
static size_t u8(char *o, unsigned u) { if (u < 0x80) { o[0] = (char)u; return 1; } if (u < 0x800) { o[0] = (char)(0xC0 | u >> 6); o[1] = (char)(0x80 | (u & 63)); return 2; } if (u < 0x10000) { o[0] = (char)(0xE0 | u >> 12); o[1] = (char)(0x80 | (u >> 6 & 63)); o[2] = (char)(0x80 | (u & 63)); return 3; } o[0] = (char)(0xF0 | u >> 18); o[1] = (char)(0x80 | (u >> 12 & 63)); o[2] = (char)(0x80 | (u >> 6 & 63)); o[3] = (char)(0x80 | (u & 63)); return 4; }
static int cpfind(int c, unsigned u) { int b; for (b = 0; b < 256; b++) if (cptab[c][b] == u && u != 0xffff) return b; return -1; }
static void run_cpdec(void)
{
	int c = mc_choose(NCP), b = 1 + mc_choose(255), h = mc_choose(3), x = cpfind(c, 'x'), y = cpfind(c, 'Y'); char in[8], w[32]; size_t n = 0; unsigned u = cptab[c][b]; in[0] = (char)x; in[1] = (char)b; in[2] = (char)y; in[3] = (char)b; in[4] = 0;
	w[n++] = 'x'; if (u != 0xffff) n += u8(w + n, u); else if (h == 1) { memcpy(w + n, REP, 3); n += 3; } w[n++] = 'Y'; if (u != 0xffff) n += u8(w + n, u); else if (h == 1) { memcpy(w + n, REP, 3); n += 3; }
	expect(M_FALSE, in, (H)h, cpc(c), u != 0xffff ? M_TEXTCODEC_ERROR_SUCCESS : h == 0 ? M_TEXTCODEC_ERROR_FAIL : M_TEXTCODEC_ERROR_SUCCESS_EHANDLER, w, n);
}
static M_bool judged(unsigned u) { return u && !(u >= 0xd800 && u <= 0xdfff) && !(u >= 0xfdd0 && u <= 0xfdef) && (u & 0xfffe) != 0xfffe; }
/* every code point, 64 at a time: unmapped ones are replaced or dropped */
static void run_cpenc(void)
{
	int c = mc_choose(NCP), h = 1 + mc_choose(2), blk = mc_choose((int)mc_param("blk", 300, 0x110000 / 64)), q = cpfind(c, '?'), i, miss = 0; char in[300], w[80]; size_t n = 0, k = 0;
	for (i = 0; i < 64; i++) { unsigned u = (unsigned)blk * 64 + (unsigned)i; int b; if (!judged(u)) continue; n += u8(in + n, u); b = cpfind(c, u); if (b >= 0) w[k++] = (char)b; else { miss = 1; if (h == 1) w[k++] = (char)q; } }
	in[n] = 0; expect(M_TRUE, in, (H)h, cpc(c), miss ? M_TEXTCODEC_ERROR_SUCCESS_EHANDLER : M_TEXTCODEC_ERROR_SUCCESS, w, k);
}
static void run_cpfail(void)
{
	static const unsigned bad[] = { 0x378, 0x4e2d, 0x1d11e, 0x2603, 0x1ff0, 0xe000 }; int c = mc_choose(NCP), b = 1 + mc_choose(255 + (int)HX_N(bad)); unsigned u = b < 256 ? cptab[c][b] : bad[b - 256]; char in[16]; size_t n; char w[3]; int y = cpfind(c, 'Y');
	if (u == 0xffff || u == 0) mc_prune(); n = u8(in, u); in[n++] = 'Y'; in[n] = 0; w[0] = (char)cpfind(c, u); w[1] = (char)y; expect(M_TRUE, in, M_TEXTCODEC_EHANDLER_FAIL, cpc(c), b < 256 ? M_TEXTCODEC_ERROR_SUCCESS : M_TEXTCODEC_ERROR_FAIL, w, 2);
}
/* text with malformed utf-8: what is well-formed stays, one or more replacements per malformed stretch */
static size_t good(const unsigned char *s, size_t n)
{
	size_t k, i; if (s[0] < 0x80) return 1; if (s[0] < 0xc2 || s[0] > 0xf4) return 0; k = s[0] < 0xe0 ? 2 : s[0] < 0xf0 ? 3 : 4; if (k > n) return 0; for (i = 1; i < k; i++) if ((s[i] & 0xc0) != 0x80) return 0;
	if ((s[0] == 0xe0 && s[1] < 0xa0) || (s[0] == 0xed && s[1] > 0x9f) || (s[0] == 0xf0 && s[1] < 0x90) || (s[0] == 0xf4 && s[1] > 0x8f)) return 0; return k;
}
static void run_mal(void)
{
	static const char *const tk[] = { "a", "\xc3\xa9", "\xe2\x98\x83", "\xf0\x9f\x98\x80", "\x80", "\xc3", "\xe2\x98", "\xf0\x9f", "\xff", "\xc0\xaf", "\xed\xa0\x80", "Z" }; char in[64], seg[64]; size_t n = 0, i, o = 0, k, on, sn; int c, h = mc_choose(3), bad = 0; R r; char *out; const char *rep; size_t rn; M_bool enc; M_bool utf;
	hx_toks(in, sizeof(in), (size_t)mc_param("mal", 3, 4), tk, (int)HX_N(tk)); n = strlen(in); c = mc_choose(4); if (!n) return; enc = c != 1; utf = c < 2; for (i = 0; i < n; ) { k = good((unsigned char *)in + i, n - i); if (!k) { bad = 1; i++; } else i += k; }
	out = conv(enc, in, (H)h, utf ? M_TEXTCODEC_UTF8 : c == 2 ? M_TEXTCODEC_ISO8859_1 : M_TEXTCODEC_CP1252, &r, &on); rep = c == 1 ? REP : "?"; rn = strlen(rep);
	if (h == 0) { if (bad) mc_check(M_textcodec_error_is_error(r), "malformed utf-8 '%s' accepted", mc_escs(in)); if (bad || !utf) { free(out); return; } }
	if (h == 2 && utf) { if (!bad) mc_check(!strcmp(out, in) && r == M_TEXTCODEC_ERROR_SUCCESS, "'%s' changed", mc_escs(in)); else mc_check(r == M_TEXTCODEC_ERROR_SUCCESS_EHANDLER, "'%s': result %d", mc_escs(in), r); free(out); return; }
	for (i = 0; i < n; ) {
		k = good((unsigned char *)in + i, n - i);
		if (k) { if (utf) { memcpy(seg, in + i, k); sn = k; } else if (k == 1) { seg[0] = in[i]; sn = 1; } else if (k == 2 && cpfind(c == 2 ? 13 : 8, (unsigned)((in[i] & 0x1f) << 6 | (in[i + 1] & 0x3f))) >= 0) { seg[0] = (char)cpfind(c == 2 ? 13 : 8, (unsigned)((in[i] & 0x1f) << 6 | (in[i + 1] & 0x3f))); sn = 1; } else { bad = 1; sn = 0; if (h == 1) { seg[0] = '?'; sn = 1; } } mc_check(o + sn <= on && !memcmp(out + o, seg, sn), "'%s' (%s, %s): '%s' lacks or moves '%s'", mc_escs(in), M_textcodec_codec_to_str(utf ? M_TEXTCODEC_UTF8 : c == 2 ? M_TEXTCODEC_ISO8859_1 : M_TEXTCODEC_CP1252), ehn[h], mc_escs(out), mc_esc(in + i, k)); o += sn; i += k; }
		else { size_t j = i, m = 0; while (j < n && !good((unsigned char *)in + j, n - j)) j++; if (h == 1) { while (m < j - i && o + rn <= on && !memcmp(out + o, rep, rn)) { /* a replacement of an unmappable character may follow */ if (m && !utf && j < n && good((unsigned char *)in + j, n - j) > 1 && !(o + 1 < on && out[o + 1] == '?')) break; o += rn; m++; } mc_check(m >= 1, "'%s': no replacement in '%s'", mc_escs(in), mc_escs(out)); if (!utf) { size_t e = 0, j2 = j; while (j2 < n && (k = good((unsigned char *)in + j2, n - j2)) > 1) { e++; j2 += k; } if (e) { /* ambiguous split: only the total is judged */ free(out); mc_prune(); } } } i = j; }
	}
	mc_check(o == on, "'%s': '%s' has more than expected", mc_escs(in), mc_escs(out)); mc_check(r == (bad ? M_TEXTCODEC_ERROR_SUCCESS_EHANDLER : M_TEXTCODEC_ERROR_SUCCESS), "'%s': result %d", mc_escs(in), r); if (c == 1) mc_check(M_utf8_is_valid(out, NULL), "sanitised '%s' is not utf-8: '%s'", mc_escs(in), mc_escs(out)); free(out);
}
static const C pcs[] = { M_TEXTCODEC_PERCENT_URL, M_TEXTCODEC_PERCENT_FORM, M_TEXTCODEC_PERCENT_URLMIN, M_TEXTCODEC_PERCENT_FORMMIN };
static void run_pctenc(void)
{
	static const char *const tk[] = { "a", " ", "%", "+", "~", "/", "?", "&", "=", "\xc3\xa9", "\xe2\x98\x83", "\r", "\n", "\t", "\x7f", "-", "\x01", "Z", "0" }; char in[40], w[120], all[2]; size_t i, n, k = 0; int ci = mc_choose(4), one = mc_choose(2), form = ci & 1, min = ci >= 2; R r; char *o; size_t on;
	if (one) { char u[5]; size_t un; un = u8(u, 1 + (unsigned)mc_choose(0x7ff)); u[un] = 0; snprintf(in, sizeof(in), "x%sy", u); } else hx_toks(in, sizeof(in), (size_t)mc_param("pct", 3, 4), tk, (int)HX_N(tk)); (void)all; n = strlen(in);
	for (i = 0; i < n; i++) { unsigned char c = (unsigned char)in[i]; M_bool esc = c <= 0x20 || c >= 0x7f || c == '%'; if (!min && strchr("!*'();:@&=$,/?#[]", c)) esc = M_TRUE; if (form && (c == '+' || c == '~')) esc = M_TRUE; if (form && (c == '\r' || c == '\n')) esc = M_FALSE; if (form && c == ' ') { w[k++] = '+'; continue; } if (esc) k += (size_t)snprintf(w + k, 4, "%%%02X", c); else w[k++] = (char)c; }
	expect(M_TRUE, in, M_TEXTCODEC_EHANDLER_FAIL, pcs[ci], M_TEXTCODEC_ERROR_SUCCESS, w, k); w[k] = 0; expect(M_FALSE, w, M_TEXTCODEC_EHANDLER_FAIL, pcs[ci], M_TEXTCODEC_ERROR_SUCCESS, in, n); (void)r; (void)o; (void)on;
}
static int hexv(char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
/* escapes: form '%' or '='; out gets the text; position of the first malformed one or -1 */
static void run_escdec(char e)
{
	static const char pal[] = { '%', '4', '1', 'a', 'F', ' ', '+', 'g', '-', 'x' }, qal[] = { '=', '4', '1', 'a', 'F', ' ', '\r', '\n', '-', 'x' }; char in[12], w[64]; size_t n = hx_str(in, (size_t)mc_param("esc", 5, 6), e == '%' ? pal : qal, 10), i, k = 0, on; int h = mc_choose(3), ci = e == '%' ? mc_choose(2) : 0; C c = e == '%' ? pcs[ci] : M_TEXTCODEC_QUOTED_PRINTABLE; M_bool bad = M_FALSE; R r; char *o; char rest[64]; size_t rk = 0; M_bool restok = M_TRUE;
	for (i = 0; i < n; i++) {
		if (in[i] == e) {
			if (i + 2 < n && hexv(in[i + 1]) >= 0 && hexv(in[i + 2]) >= 0) { w[k++] = (char)(hexv(in[i + 1]) << 4 | hexv(in[i + 2])); i += 2; continue; } if (e == '=' && i + 2 < n && in[i + 1] == '\r' && in[i + 2] == '\n') { i += 2; continue; } bad = M_TRUE; break; }
		w[k++] = in[i] == '+' && ci == 1 ? ' ' : in[i]; }
	w[k] = 0; if (!bad) { expect(M_FALSE, in, (H)h, c, M_TEXTCODEC_ERROR_SUCCESS, w, k); return; }
	if (e == '=' && in[i + 1] == '\n') mc_prune(); if (h == 0) { expect(M_FALSE, in, (H)h, c, M_TEXTCODEC_ERROR_FAIL, NULL, 0); return; }
	o = conv(M_FALSE, in, (H)h, c, &r, &on); mc_check(r == M_TEXTCODEC_ERROR_SUCCESS_EHANDLER, "decoding '%s' (%s): result %d", mc_escs(in), ehn[h], r); mc_check(on >= k && !memcmp(o, w, k), "decoding '%s' (%s): '%s' does not start with '%s'", mc_escs(in), ehn[h], mc_esc(o, on), mc_escs(w));
	if (h == 1) mc_check(on >= k + 3 && !memcmp(o + k, REP, 3), "decoding '%s': '%s' has no U+FFFD for the malformed escape", mc_escs(in), mc_esc(o, on));
	/* what follows a malformed escape of 3 characters without further ones is kept */
	restok = i + 2 < n && in[i + 1] != e && in[i + 2] != e; if (!restok) { free(o); return; }
	for (i += 3; i < n; i++) { if (in[i] == e) restok = M_FALSE; rest[rk++] = in[i] == '+' && ci == 1 ? ' ' : in[i]; } if (restok) mc_check(on >= rk && !memcmp(o + on - rk, rest, rk), "decoding '%s': '%s' lost the end", mc_escs(in), mc_esc(o, on)); mc_check(on <= k + rk + 2 + (h == 1 ? 9 : 0), "decoding '%s': '%s' has too much", mc_escs(in), mc_esc(o, on)); free(o);
}
static void qp_check(const char *in)
{
	R r; size_t on, i, col = 0; char *o = conv(M_TRUE, in, M_TEXTCODEC_EHANDLER_FAIL, M_TEXTCODEC_QUOTED_PRINTABLE, &r, &on); mc_check(r == M_TEXTCODEC_ERROR_SUCCESS, "encoding '%s': %d", mc_escs(in), r);
	for (i = 0; i < on; i++) { unsigned char c = (unsigned char)o[i]; mc_check(c == '\t' || c == '\r' || c == '\n' || (c >= 32 && c < 127), "encoding '%s' leaves byte %02x", mc_escs(in), c); if (c == '=') mc_check((o[i + 1] == '\r' && o[i + 2] == '\n') || (hexv(o[i + 1]) >= 0 && hexv(o[i + 2]) >= 0 && !(o[i + 1] >= 'a') && !(o[i + 2] >= 'a')), "encoding '%s': bad escape in '%s'", mc_escs(in), mc_escs(o)); if (c == '\n') col = 0; else if (c != '\r') { col++; mc_check(col <= 76, "encoding '%s': line longer than 76", mc_escs(in)); } }
	expect(M_FALSE, o, M_TEXTCODEC_EHANDLER_FAIL, M_TEXTCODEC_QUOTED_PRINTABLE, M_TEXTCODEC_ERROR_SUCCESS, in, strlen(in)); free(o);
}
static void run_qp(void)
{
	static const char *const tk[] = { "a", "=", "\xc3\xa9", "\r\n", "\n", "\r", "\t", " ", "\x7f", "\x01", "~", "4" }; static const char *const fil[] = { "a", "=", "\xc3\xa9", "\xe2\x98\x83", " " }; char in[800]; int k = mc_choose(3), i, l; size_t p;
	if (k == 0) hx_toks(in, sizeof(in), (size_t)mc_param("qp", 4, 5), tk, (int)HX_N(tk)); else if (k == 1) { char u[5]; u[u8(u, 1 + (unsigned)mc_choose(0x7ff))] = 0; snprintf(in, sizeof(in), "x%sy", u); }
	else { const char *f = fil[mc_choose(5)]; l = 60 + mc_choose(100); in[0] = 0; i = mc_choose((int)HX_N(tk)); p = 0; { int at = mc_choose(l), j; for (j = 0; j < l; j++) { const char *t = j == at ? tk[i] : f; strcpy(in + p, t); p += strlen(t); } } }
	qp_check(in);
}
/* RFC 3492 */
static unsigned adapt(unsigned long long d, unsigned long long np, int first) { unsigned k = 0; d = first ? d / 700 : d / 2; d += d / np; while (d > 455) { d /= 35; k += 36; } return k + (unsigned)(36 * d / (d + 38)); }
static unsigned thr(unsigned k, unsigned bias) { return k <= bias ? 1 : k >= bias + 26 ? 26 : k - bias; }
static size_t pyenc(const unsigned *u, size_t n, char *o) { unsigned cp = 128, bias = 72; unsigned long long delta = 0, q; size_t h = 0, b, i, k = 0; for (i = 0; i < n; i++) if (u[i] < 128) { o[k++] = (char)u[i]; h++; } b = h; if (b) o[k++] = '-'; while (h < n) { unsigned m = ~0U, kk; for (i = 0; i < n; i++) if (u[i] >= cp && u[i] < m) m = u[i]; delta += (unsigned long long)(m - cp) * (h + 1); cp = m; for (i = 0; i < n; i++) { if (u[i] < cp) delta++; if (u[i] == cp) { q = delta; for (kk = 36; ; kk += 36) { unsigned t = thr(kk, bias); unsigned dg; if (q < t) break; dg = (unsigned)(t + (q - t) % (36 - t)); o[k++] = (char)(dg < 26 ? 'a' + dg : '0' + dg - 26); q = (q - t) / (36 - t); } o[k++] = (char)(q < 26 ? 'a' + (int)q : '0' + (int)q - 26); bias = adapt(delta, h + 1, h == b); delta = 0; h++; } } delta++; cp++; } o[k] = 0; return k; }
static int pydec(const char *s, size_t n, unsigned *u) /* -1: invalid */
{
	size_t b = 0, i, len = 0, pos; unsigned long long cp = 128, idx = 0; unsigned bias = 72; const char *d = NULL; for (i = 0; i < n; i++) if (s[i] == '-') d = s + i; if (d) b = (size_t)(d - s); for (i = 0; i < b; i++) u[len++] = (unsigned char)s[i]; pos = d ? b + 1 : 0;
	while (pos < n) { unsigned long long old = idx, w = 1; unsigned k; for (k = 36; ; k += 36) { unsigned dg, t; char c; if (pos >= n) return -1; c = s[pos++]; dg = c >= 'a' && c <= 'z' ? (unsigned)(c - 'a') : c >= 'A' && c <= 'Z' ? (unsigned)(c - 'A') : c >= '0' && c <= '9' ? (unsigned)(c - '0') + 26 : 99; if (dg == 99) return -1; idx += dg * w; if (idx > 0xffffffffULL) return -1; t = thr(k, bias); if (dg < t) break; w *= 36 - t; if (w > 0xffffffffULL) return -1; }
		bias = adapt(idx - old, len + 1, old == 0); cp += idx / (len + 1); idx %= len + 1; if (cp > 0x10ffff || !judged((unsigned)cp)) return cp > 0x10ffff || (cp >= 0xd800 && cp <= 0xdfff) ? -1 : -2; memmove(u + idx + 1, u + idx, (len - idx) * sizeof(*u)); u[idx++] = (unsigned)cp; len++; if (len > 60) return -2; }
	return (int)len;
}
static void run_puny(void)
{
	static const unsigned cps[] = { 'a', '-', 0xe9, 0xfc, 0x4e2d, 0x1d11e, 'A', 0x80, 0x10fffd, ' ' }; unsigned u[16]; size_t n = (size_t)mc_choose((int)mc_param("puny", 5, 6)) + 1, i, k = 0; char in[80], w[200]; for (i = 0; i < n; i++) u[i] = cps[mc_choose((int)HX_N(cps))]; for (i = 0; i < n; i++) k += u8(in + k, u[i]); in[k] = 0;
	{ size_t m = pyenc(u, n, w); int h = mc_choose(3); expect(M_TRUE, in, (H)h, M_TEXTCODEC_PUNYCODE, M_TEXTCODEC_ERROR_SUCCESS, w, m); expect(M_FALSE, w, (H)h, M_TEXTCODEC_PUNYCODE, M_TEXTCODEC_ERROR_SUCCESS, in, k); }
}
static void run_punydec(void)
{
	static const char al[] = { 'a', 'b', 'z', '9', '-', 'Z', '0', '!', 'k' }; char in[24], w[300]; size_t n = hx_str(in, (size_t)mc_param("punyd", 5, 6), al, sizeof(al)), k = 0; unsigned u[80]; int i, r; int rep = mc_choose(3); if (rep && n > 2) mc_prune(); if (rep == 1) { char t[24]; snprintf(t, sizeof(t), "%s99999999", in); strcpy(in, t); } else if (rep == 2) { char t[24]; snprintf(t, sizeof(t), "99999%s9999a", in); strcpy(in, t); } n = strlen(in); if (in[0] == '-' && !strchr(in + 1, '-')) mc_prune();
	r = pydec(in, n, u); if (r == -2 || n == 0) mc_prune(); if (r < 0) { expect(M_FALSE, in, M_TEXTCODEC_EHANDLER_FAIL, M_TEXTCODEC_PUNYCODE, M_TEXTCODEC_ERROR_FAIL, NULL, 0); return; } for (i = 0; i < r; i++) k += u8(w + k, u[i]); w[k] = 0; expect(M_FALSE, in, M_TEXTCODEC_EHANDLER_FAIL, M_TEXTCODEC_PUNYCODE, M_TEXTCODEC_ERROR_SUCCESS, w, k);
}
static void run_names(void)
{
	static const struct { C c; const char *n; } al[] = {
#define A(c, n) { M_TEXTCODEC_##c, n }
		A(UTF8, "utf8"), A(UTF8, "utf-8"), A(UTF8, "UTF_8"), A(ASCII, "ascii"), A(ASCII, "US-ASCII"), A(CP037, "cp037"), A(CP037, "ibm037"), A(CP037, "ibm-039"), A(CP500, "cp500"), A(CP500, "ebcdic-cp-be"), A(CP500, "ebcdic-cp-ch"), A(CP500, "ibm-500"), A(CP874, "cp874"), A(CP874, "windows-874"), A(CP1250, "windows-1250"), A(CP1251, "windows-1251"), A(CP1252, "windows-1252"), A(CP1253, "windows-1253"), A(CP1254, "windows-1254"), A(CP1255, "windows-1255"), A(CP1256, "windows-1256"), A(CP1257, "windows-1257"), A(CP1258, "windows-1258"),
		A(ISO8859_1, "latin_1"), A(ISO8859_1, "latin"), A(ISO8859_1, "l1"), A(ISO8859_1, "8859"), A(ISO8859_1, "cp819"), A(ISO8859_1, "iso-8859-1"), A(ISO8859_2, "l2"), A(ISO8859_2, "iso8859-2"), A(ISO8859_3, "latin 3"), A(ISO8859_3, "88593"), A(ISO8859_4, "iso88594"), A(ISO8859_5, "cyrillic"), A(ISO8859_5, "iso-8859-5"), A(ISO8859_6, "arabic"), A(ISO8859_7, "greek"), A(ISO8859_8, "hebrew"), A(ISO8859_9, "latin5"), A(ISO8859_9, "l5"), A(ISO8859_10, "latin6"), A(ISO8859_10, "iso-8859-10"), A(ISO8859_11, "thai"), A(ISO8859_13, "l7"), A(ISO8859_14, "l8"), A(ISO8859_15, "l9"), A(ISO8859_15, "iso-8859-15"), A(ISO8859_16, "l10"), A(ISO8859_16, "iso-8859-16"), A(ISO8859_16, "885916"),
		A(PERCENT_URL, "percent"), A(PERCENT_URL, "url"), A(PERCENT_FORM, "application/x-www-form-urlencoded"), A(PERCENT_FORM, "x-www-form-urlencoded"), A(PERCENT_FORM, "form-urlencoded"), A(PERCENT_FORM, "percent_plus"), A(PERCENT_FORM, "percent-plus"), A(PERCENT_FORM, "url_plus"), A(PERCENT_FORM, "url-plus"), A(PERCENT_URLMIN, "percent_min"), A(PERCENT_URLMIN, "url_min"), A(PERCENT_FORMMIN, "form_min"), A(PERCENT_FORMMIN, "form-urlencoded-min"), A(PUNYCODE, "punycode"), A(PUNYCODE, "puny"), A(QUOTED_PRINTABLE, "qp"), A(UNKNOWN, "nonsense"), A(UNKNOWN, "") };
	int i = mc_choose((int)HX_N(al)), c = 1 + mc_choose(M_TEXTCODEC_QUOTED_PRINTABLE); mc_check(M_textcodec_codec_from_str(al[i].n) == al[i].c, "codec named %s is %d", al[i].n, M_textcodec_codec_from_str(al[i].n)); mc_check(M_textcodec_codec_from_str(M_textcodec_codec_to_str((C)c)) == (C)c, "codec %d is named %s, which is %d", c, M_textcodec_codec_to_str((C)c), M_textcodec_codec_from_str(M_textcodec_codec_to_str((C)c)));
	if (c - M_TEXTCODEC_ASCII >= 0 && c - M_TEXTCODEC_ASCII < NCP) { const char *p = cpname[c - M_TEXTCODEC_ASCII]; mc_check(M_textcodec_codec_from_str(p) == (C)c, "codec named %s is %d, expected %d", p, M_textcodec_codec_from_str(p), c); }
}
void mc_init(void) { mc_leakcheck = 1; }
void mc_run(void) { switch (mc_choose(11)) { case 0: run_names(); break; case 1: run_cpdec(); break; case 2: run_cpenc(); break; case 3: run_cpfail(); break; case 4: run_mal(); break; case 5: run_pctenc(); break; case 6: run_escdec('%'); break; case 7: run_escdec('='); break; case 8: run_qp(); break; case 9: run_puny(); break; case 10: run_punydec(); break; } }
