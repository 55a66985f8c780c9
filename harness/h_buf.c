// MODE: seq
// MODS: base
/* C23: M_buf against a byte string, sized around the growth and shift thresholds. */
#include "hx.h"
const char *mc_name = "h_buf";
#define MAXR 16384
static unsigned char ref[MAXR]; static size_t rn; static M_buf_t *b; static char when[160];
static unsigned char pat[4096];
static void radd(const void *p, size_t n) { if (rn + n > MAXR) mc_prune(); memcpy(ref + rn, p, n); rn += n; }
static void rstr(const char *s) { radd(s, strlen(s)); }
static void check(void)
{
	const char *p = M_buf_peek(b);
	mc_check(M_buf_len(b) == rn, "%s: length %zu, expected %zu", when, M_buf_len(b), rn);
	mc_check(p != NULL || rn == 0, "%s: no data", when);
	if (p != NULL) { mc_check(rn == 0 || memcmp(p, ref, rn) == 0, "%s: content is %s..., expected %s...", when, mc_esc(p, rn > 40 ? 40 : rn), mc_esc(ref, rn > 40 ? 40 : rn)); mc_check(p[rn] == 0, "%s: not null terminated", when); }
	mc_check(M_buf_alloc_size(b) >= rn, "%s: allocated size %zu below length %zu", when, M_buf_alloc_size(b), rn);
}
/* justification by definition */
static int rjust(const unsigned char *s, size_t n, int type, unsigned char fill, size_t w)
{
	static const char tr[] = { 'L', 'L', 'R', 'R', 'N', 'N', 'R', 'L', 'L', 'R', 'N' }, al[] = { 'r', 'l', 'r', 'l', 'r', 'l', '-', '-', 'c', 'c', 'c' };
	size_t pad, l;
	if (n > w) { if (tr[type] == 'N') return 0; if (tr[type] == 'L') s += n - w; n = w; }
	pad = al[type] == '-' ? 0 : w - n; l = al[type] == 'r' ? pad : al[type] == 'c' ? (pad + 1) / 2 : 0;
	{ size_t i; unsigned char tmp[2048]; for (i = 0; i < l; i++) tmp[i] = fill; memcpy(tmp + l, s, n); for (i = l + n; i < n + pad; i++) tmp[i] = fill; radd(tmp, n + pad); }
	return 1;
}
static size_t rb64(const unsigned char *s, size_t n, char *o) { static const char a[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"; size_t i, k = 0; for (i = 0; i < n; i += 3) { unsigned v = (unsigned)s[i] << 16 | (i + 1 < n ? (unsigned)s[i + 1] << 8 : 0) | (i + 2 < n ? s[i + 2] : 0); o[k++] = a[v >> 18]; o[k++] = a[v >> 12 & 63]; o[k++] = i + 1 < n ? a[v >> 6 & 63] : '='; o[k++] = i + 2 < n ? a[v & 63] : '='; } return k; }
static size_t rhex(const unsigned char *s, size_t n, char *o) { size_t i; for (i = 0; i < n; i++) { o[2 * i] = "0123456789ABCDEF"[s[i] >> 4]; o[2 * i + 1] = "0123456789ABCDEF"[s[i] & 15]; } return 2 * n; }
static size_t pick(const size_t *v, int n) { return v[mc_choose(n)]; }
static void op(void)
{
	static char enc[MAXR * 2]; size_t n, m; int i, j; M_bool r;
	mc_step();
	switch (mc_choose(18)) {
		case 0: { static const size_t ls[] = { 0, 1, 5, 30, 1000, 1024 }; n = pick(ls, 6); snprintf(when, sizeof(when), "add_bytes(%zu)", n); M_buf_add_bytes(b, pat, n); radd(pat, n); break; }
		case 1: { static const char *const ss[] = { "  aB c ", " \t", "", "x", "Az\xe9" }; static const M_uint32 fs[] = { M_BUF_TRANSFORM_NONE, M_BUF_TRANSFORM_UPPER, M_BUF_TRANSFORM_LOWER, M_BUF_TRANSFORM_LTRIM, M_BUF_TRANSFORM_RTRIM, M_BUF_TRANSFORM_LTRIM | M_BUF_TRANSFORM_RTRIM | M_BUF_TRANSFORM_UPPER }; char t[32]; char *s = t;
			i = mc_choose(HX_N(ss)); j = mc_choose(HX_N(fs)); n = mc_choose(2) ? 99 : 3; snprintf(when, sizeof(when), "add_str_max_transform(%s,%u,%zu)", mc_escs(ss[i]), fs[j], n); M_buf_add_str_max_transform(b, fs[j], ss[i], n);
			strcpy(t, ss[i]); if (strlen(t) > n) t[n] = 0; for (m = 0; t[m]; m++) { if ((fs[j] & M_BUF_TRANSFORM_UPPER) && t[m] >= 'a' && t[m] <= 'z') t[m] -= 32; else if ((fs[j] & M_BUF_TRANSFORM_LOWER) && t[m] >= 'A' && t[m] <= 'Z') t[m] += 32; } if (fs[j] & M_BUF_TRANSFORM_LTRIM) while (*s == ' ' || *s == '\t') s++; if (fs[j] & M_BUF_TRANSFORM_RTRIM) while (*s && (s[strlen(s) - 1] == ' ' || s[strlen(s) - 1] == '\t')) s[strlen(s) - 1] = 0; rstr(s); break; }
		case 2: { static const size_t ls[] = { 0, 1, 24, 700 }; n = pick(ls, 4); snprintf(when, sizeof(when), "add_fill(%zu)", n); M_buf_add_fill(b, 'f', n); if (rn + n > MAXR) mc_prune(); memset(ref + rn, 'f', n); rn += n; break; }
		case 3: { static const size_t ws[] = { 1, 4, 25, 700 }; n = pick(ws, 4); m = mc_choose(3) * 3; i = mc_choose(11); if (m == 6) m = 40; snprintf(when, sizeof(when), "add_bytes_just(%zu bytes, type %d, width %zu)", m, i, n); M_buf_add_bytes_just(b, m ? pat : NULL, m, (M_str_justify_type_t)i, '*', n); rjust(pat, m, i, '*', n); break; }
		case 4: { size_t ls[] = { 0, 1, rn / 2, rn ? rn - 1 : 0, rn, rn + 5 }; n = pick(ls, 6); snprintf(when, sizeof(when), "truncate(%zu) of %zu", n, rn); M_buf_truncate(b, n); if (n < rn) rn = n; break; }
		case 5: { size_t ls[] = { 0, 1, rn / 2, rn ? rn - 1 : 0, rn, rn + 5 }; n = pick(ls, 6); snprintf(when, sizeof(when), "drop(%zu) of %zu", n, rn); M_buf_drop(b, n); if (n > rn) n = rn; memmove(ref, ref + n, rn - n); rn -= n; break; }
		case 6: { static const size_t ls[] = { 1, 10, 1500 }; size_t want = pick(ls, 3), got = want, wr; unsigned char *p = M_buf_direct_write_start(b, &got); snprintf(when, sizeof(when), "direct write of %zu", want); mc_check(p != NULL && got >= want, "%s: %zu bytes offered", when, got); memset(p, 'd', got); wr = mc_choose(3); wr = wr == 0 ? 0 : wr == 1 ? want : got; M_buf_direct_write_end(b, wr); if (rn + wr > MAXR) mc_prune(); memset(ref + rn, 'd', wr); rn += wr; got = 0; mc_check(M_buf_direct_write_start(b, &got) == NULL, "zero byte direct write"); break; }
		case 7: { M_buf_t *s = M_buf_create(); n = (size_t)mc_choose(3); m = (size_t)mc_choose(2); snprintf(when, sizeof(when), "merge of %zu bytes, %zu dropped", n * 7, m * 2); M_buf_add_bytes(s, pat + 10, n * 7); if (m) { M_buf_drop(s, 2); } M_buf_merge(b, s); if (n * 7 > 2 * m) radd(pat + 10 + 2 * m, n * 7 - 2 * m); break; }
		case 8: { const char *ss[] = { "ab", "", "c" }; M_buf_t *bs[3]; n = (size_t)mc_choose(4); i = mc_choose(4); snprintf(when, sizeof(when), "join %d of %zu", i, n); if (i == 0) M_buf_bjoin_str(b, ',', ss, n); else if (i == 1) M_buf_sjoin_str(b, "<>", ss, n); else { for (m = 0; m < n; m++) { bs[m] = M_buf_create(); M_buf_add_str(bs[m], "zz"); M_buf_add_str(bs[m], ss[m]); M_buf_drop(bs[m], 2); } if (i == 2) M_buf_bjoin_buf(b, ',', bs, n); else M_buf_sjoin_buf(b, "<>", bs, n); } for (m = 0; m < n; m++) { rstr(ss[m]); if (m + 1 < n) rstr(i & 1 ? "<>" : ","); } break; }
		case 9: snprintf(when, sizeof(when), "trim of %zu", rn); M_buf_trim(b); while (rn && strchr(" \t\r\n\v\f", ref[rn - 1]) && ref[rn - 1]) rn--; for (n = 0; n < rn && ref[n] && strchr(" \t\r\n\v\f", ref[n]); n++) ; memmove(ref, ref + n, rn - n); rn -= n; break;
		case 10: { int hex = mc_choose(2); if (rn > 3000) mc_prune(); snprintf(when, sizeof(when), "encode in place (hex %d) of %zu", hex, rn); r = M_buf_encode(b, 0, hex ? M_BINCODEC_HEX : M_BINCODEC_BASE64); mc_check(r, "%s failed", when); n = hex ? rhex(ref, rn, enc) : rb64(ref, rn, enc); rn = 0; radd(enc, n); check();
			if (mc_choose(2)) { unsigned char save[MAXR]; size_t sn; snprintf(when, sizeof(when), "decode in place (hex %d) of %zu", hex, rn); r = M_buf_decode(b, hex ? M_BINCODEC_HEX : M_BINCODEC_BASE64); mc_check(r, "%s failed", when); sn = M_buf_len(b); if (sn > 0) memcpy(save, M_buf_peek(b), sn); m = hex ? rhex(save, sn, enc) : rb64(save, sn, enc); mc_check(m == rn && memcmp(enc, ref, rn) == 0, "%s: decoded data does not encode to the text", when); rn = 0; radd(save, sn); } break; }
		case 11: { int hex = mc_choose(2); n = (size_t)mc_choose(3) * 4; snprintf(when, sizeof(when), "add_encode(hex %d, %zu)", hex, n); r = M_buf_add_encode(b, pat, n, 0, hex ? M_BINCODEC_HEX : M_BINCODEC_BASE64); mc_check(r, "%s failed", when); m = hex ? rhex(pat, n, enc) : rb64(pat, n, enc); radd(enc, m); break; }
		case 12: { static const struct { const char *t; const char *o; size_t n; } d[] = { { "414243", "ABC", 3 }, { "", "", 0 }, { "41g2", NULL, 0 }, { "4", NULL, 0 } }; i = mc_choose(4); j = mc_choose(3); snprintf(when, sizeof(when), "%s(%s)", j ? "add_decode" : "add_bytes_hex", d[i].t); r = j == 0 ? M_buf_add_bytes_hex(b, d[i].t) : M_buf_add_decode(b, d[i].t, strlen(d[i].t), M_BINCODEC_HEX); mc_check(r == (d[i].o != NULL), "%s: status %d", when, r); if (d[i].o) radd(d[i].o, d[i].n); break; }
		case 13: { i = mc_choose(4); n = (size_t)mc_choose(3) * 3; snprintf(when, sizeof(when), "add_str_max/str_hex/byte %d %zu", i, n); if (i == 0) { M_buf_add_str_max(b, "hello", n); radd("hello", n > 5 ? 5 : n); } else if (i == 1) { M_buf_add_str_hex(b, pat, n); m = rhex(pat, n, enc); radd(enc, m); } else if (i == 2) { M_buf_add_byte(b, (unsigned char)(n * 40)); ref[rn++] = (unsigned char)(n * 40); } else { M_buf_add_char(b, ' '); ref[rn++] = ' '; } break; }
		case 14: { static const char *const src[] = { "", "aXbXX", "XaX", "nothing" }; i = mc_choose(4); j = mc_choose(4); snprintf(when, sizeof(when), "add_str_replace(%s, %d)", src[i], j); { const char *se = j == 3 ? "" : j == 1 ? "XX" : "X", *re = j == 2 ? "" : j == 1 ? "X" : "yyy", *p; r = M_buf_add_str_replace(b, src[i], se, re); mc_check(r == (j != 3), "%s: status %d", when, r); if (r) for (p = src[i]; *p; ) if (strncmp(p, se, strlen(se)) == 0) { rstr(re); p += strlen(se); } else radd(p++, 1); } break; }
		case 15: { static const char *const src[] = { "", "ab", "a,b", "a\"b", "a\\b" }; int same, always; const char *p; i = mc_choose(5); same = mc_choose(2); always = mc_choose(2); snprintf(when, sizeof(when), "add_str_quoted(%s, same %d, always %d)", src[i], same, always); M_buf_add_str_quoted(b, '"', same ? '"' : '\\', ",", always ? M_TRUE : M_FALSE, src[i]);
			{ int q = always || i == 0 || strpbrk(src[i], same ? ",\"" : ",\"\\") != NULL; if (q) rstr("\""); for (p = src[i]; *p; p++) { if (*p == '"' || (!same && *p == '\\')) rstr(same ? "\"" : "\\"); radd(p, 1); } if (q) rstr("\""); } M_buf_add_str_quoted(b, '"', '"', NULL, M_TRUE, NULL); break; }
		case 16: { static const M_int64 vs[] = { 0, 7, -7, 12345, -12345 }; static const size_t ws[] = { 1, 3, 25 }; char t[40]; i = mc_choose(5); n = pick(ws, 3); j = mc_choose(2); snprintf(when, sizeof(when), "add_%sint_just(%lld,%zu)", j ? "" : "u", (long long)vs[i], n); m = n; if (j) { r = M_buf_add_int_just(b, vs[i], n); if (vs[i] < 0) { rstr("-"); m--; } snprintf(t, sizeof(t), "%lld", vs[i] < 0 ? -(long long)vs[i] : (long long)vs[i]); } else { r = M_buf_add_uint_just(b, (M_uint64)vs[i], n); snprintf(t, sizeof(t), "%llu", (unsigned long long)vs[i]); } rjust((unsigned char *)t, strlen(t), 0, '0', m); mc_check(r == (strlen(t) <= m), "%s: status %d", when, r); break; }
		case 17: { char *f; snprintf(when, sizeof(when), "finish of %zu", rn); n = 999; f = mc_choose(2) ? M_buf_finish_str(b, &n) : (char *)M_buf_finish(b, &n); b = NULL; mc_check(n == rn && (f != NULL || rn == 0) && (f == NULL || (memcmp(f, ref, rn) == 0 && f[rn] == 0)), "%s: wrong result, length %zu", when, n); M_free(f); b = M_buf_create(); rn = 0; break; }
	}
	mc_note("%s", when); check();
}
static int depth;
static void prefill(void)
{
	static const size_t pf[][2] = { { 0, 0 }, { 3, 0 }, { 1000, 0 }, { 1023, 0 }, { 1024, 0 }, { 1024, 1000 }, { 1020, 1020 }, { 2047, 10 } }; int i = mc_choose(HX_N(pf));
	snprintf(when, sizeof(when), "prefill %zu, drop %zu", pf[i][0], pf[i][1]); M_buf_add_bytes(b, pat, pf[i][0]); radd(pat, pf[i][0]); M_buf_drop(b, pf[i][1]); memmove(ref, ref + pf[i][1], rn - pf[i][1]); rn -= pf[i][1]; mc_note("%s", when); check();
}
static void run_ops(void) { int s; b = M_buf_create(); rn = 0; check(); prefill(); for (s = 0; s < depth; s++) op(); M_buf_cancel(b); mc_outcome(mc_h64(rn, rn ? ref[0] : 0)); }
/* every number-formatting add function over edge values and all widths, into an empty buffer and one that must shift */
static void run_fmt(void)
{
	static const long long vs[] = { 0, 1, 9, 10, 99, 100, 255, 256, 65535, 65536, 12345678, 4294967295LL, 4294967296LL, 999999999999999999LL, 9223372036854775807LL, -1, -9, -10, -99, -100, -101, -12345678, -9223372036854775807LL, (-9223372036854775807LL - 1) };
	long long v = vs[mc_choose(HX_N(vs))]; unsigned long long u = (unsigned long long)v, av = v < 0 ? 0 - u : u; size_t w = (size_t)mc_choose(26); int f = mc_choose(14), shift = mc_choose(2), ok = 1, i; char t[64], sd[32]; M_bool r = M_TRUE; size_t n;
	b = M_buf_create(); rn = 0; if (shift) { M_buf_add_bytes(b, pat, 1022); M_buf_drop(b, 1020); radd(pat + 1020, 2); }
	snprintf(when, sizeof(when), "format %d of %lld, width %zu", f, v, w); mc_case(); snprintf(sd, sizeof(sd), "%s%llu.%02llu", v < 0 ? "-" : "", av / 100, av % 100);
	switch (f) {
		case 0: if (w) mc_prune(); M_buf_add_uint(b, u); snprintf(t, sizeof(t), "%llu", u); rstr(t); break;
		case 1: if (w) mc_prune(); M_buf_add_int(b, v); snprintf(t, sizeof(t), "%lld", v); rstr(t); break;
		case 2: r = M_buf_add_uint_just(b, u, w); snprintf(t, sizeof(t), "%llu", u); ok = w > 0 && strlen(t) <= w; if (w) rjust((unsigned char *)t, strlen(t), 0, '0', w); break;
		case 3: case 12: r = f == 3 ? M_buf_add_int_just(b, v, w) : M_buf_add_int_money_just(b, v, w); n = w; snprintf(t, sizeof(t), "%llu", av); if (w && v < 0) { rstr("-"); n--; } ok = w > 0 && strlen(t) <= n; if (w) rjust((unsigned char *)t, strlen(t), 0, '0', n); break;
		case 4: case 5: r = M_buf_add_uintbin(b, u, w, f == 4 ? M_ENDIAN_BIG : M_ENDIAN_LITTLE); ok = w >= 1 && w <= 8 && (w == 8 || u >> (8 * w) == 0); if (ok) for (i = 0; i < (int)w; i++) ref[rn++] = (unsigned char)(u >> (8 * (f == 4 ? (int)w - 1 - i : i))); break;
		case 6: case 13: { char dg[64]; n = (size_t)snprintf(t, sizeof(t), "%llu", u); if (f == 13) { r = M_buf_add_uintstrbcd(b, t, 10, w); } else r = M_buf_add_uintbcd(b, u, w); ok = (n + 1) / 2 <= w; if (u == 0 && w == 0) ok = 0; if (ok) { memset(dg, '0', sizeof(dg)); memcpy(dg + 2 * w - n, t, n); for (i = 0; i < (int)w; i++) ref[rn++] = (unsigned char)((dg[2 * i] - '0') << 4 | (dg[2 * i + 1] - '0')); } break; }
		case 7: case 8: r = M_buf_add_uinthex(b, u, f == 7 ? M_TRUE : M_FALSE, w); n = (size_t)snprintf(t, sizeof(t), f == 7 ? "%llX" : "%llx", u); ok = w == 0 || n <= w; if (ok) rjust((unsigned char *)t, n, 0, '0', n > w ? n : w); break;
		case 9: r = M_buf_add_int_money(b, v, w); n = (size_t)snprintf(t, sizeof(t), "%lld", v); ok = n <= w; if (ok) rstr(t); break;
		case 10: r = M_buf_add_int_money_dot(b, v, w); ok = strlen(sd) <= w; if (ok) rstr(sd); break;
		case 11: r = M_buf_add_int_money_dot_just(b, v, w); ok = strlen(sd) <= w; if (ok) { if (v < 0) rstr("-"); rjust((unsigned char *)sd + (v < 0), strlen(sd) - (v < 0), 0, '0', w - (v < 0)); } break;
	}
	mc_check(r == ok, "%s: status %d, expected %d", when, r, ok); check(); M_buf_cancel(b);
}
static void run_dec(void)
{
	static const M_int64 nums[] = { 0, 5, 15, 150, 1234567, -5, -150, -1234567 }; M_decimal_t d; M_int64 num = nums[mc_choose(HX_N(nums))]; int places = mc_choose(4), implied = mc_choose(2), just = mc_choose(2), nd = mc_choose(5) - 1, ok = 1; size_t w = (size_t)mc_choose(12), n; M_bool r; char t[64], *s; long long v = num, p10 = 1, f = 1; int i, np = places;
	if (implied && nd < 0) mc_prune();
	M_decimal_from_int(&d, num, (M_uint8)places); b = M_buf_create(); rn = 0; mc_case(); snprintf(when, sizeof(when), "decimal %lld/10^%d implied %d just %d places %d width %zu", (long long)num, places, implied, just, nd, w);
	r = just ? M_buf_add_decimal_just(b, &d, implied ? M_TRUE : M_FALSE, (M_int8)nd, w) : M_buf_add_decimal(b, &d, implied ? M_TRUE : M_FALSE, (M_int8)nd, w);
	while (places > 0 && v % 10 == 0) { v /= 10; places--; } np = places;
	if (nd >= 0) { for (i = places; i < nd; i++) v *= 10; for (i = nd; i < places; i++) p10 *= 10; if (p10 > 1) { long long q = v / p10, rem = v % p10; if (2 * (rem < 0 ? -rem : rem) >= p10) q += v < 0 ? -1 : 1; v = q; } np = nd; }
	for (i = 0; i < np; i++) f *= 10;
	if (implied || np == 0) snprintf(t, sizeof(t), "%lld", v); else snprintf(t, sizeof(t), "%s%lld.%0*lld", v < 0 ? "-" : "", (v < 0 ? -v : v) / f, np, (v < 0 ? -v : v) % f);
	s = t; n = strlen(t);
	if (just) { if (w == 0) ok = 0; else if (implied) { if (*s == '-') { rstr("-"); s++; n--; w--; } ok = n <= w; rjust((unsigned char *)s, n, 0, '0', w); } else { ok = n <= w; if (ok) { if (*s == '-') { rstr("-"); s++; n--; w--; } rjust((unsigned char *)s, n, 0, '0', w); } } }
	else { ok = w == 0 || n <= w; if (w) rjust((unsigned char *)t, n, 7, 0, w); else rstr(t); }
	mc_check(r == ok, "%s: status %d, expected %d (%s)", when, r, ok, t); check(); M_buf_cancel(b);
}
void mc_init(void) { size_t i; for (i = 0; i < sizeof(pat); i++) pat[i] = (unsigned char)("aZ09 \t{}"[i % 8] + (i / 8) % 5 * (i % 8 < 2)); pat[5] = 0; pat[17] = 0xff; mc_leakcheck = 1; depth = (int)mc_param("depth", 2, 3); M_buf_cancel(M_buf_create()); }
void mc_run(void) { switch (mc_choose(3)) { case 0: run_ops(); break; case 1: run_fmt(); break; case 2: run_dec(); break; } }
