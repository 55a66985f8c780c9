// MODE: seq
// MODS: base
/* Bit buffers, bit parsers and bit lists against a plain array of bits. */
#include "hx.h"
const char *mc_name = "h_bits";
#define MAXB 4096
typedef struct { unsigned char b[MAXB]; size_t n; } bits_t;
static bits_t m; static char tr[2048];
static void T(const char *f, ...) { va_list ap; size_t l = strlen(tr); va_start(ap, f); vsnprintf(tr + l, sizeof(tr) - l, f, ap); va_end(ap); }
static void put(int b) { m.b[m.n++] = (unsigned char)(b ? 1 : 0); }
static void padto8(void) { while (m.n % 8) put(0); }
static int bitat(const unsigned char *p, size_t i) { return (p[i / 8] >> (7 - i % 8)) & 1; }
static uint64_t mhash(void) { return mc_h64(mc_hbytes(5, m.b, m.n), m.n); }
static void cmpbytes(const unsigned char *p, size_t nb, const char *what)
{
	size_t i; mc_check(nb == (m.n + 7) / 8, "%s: %zu bytes for %zu bits after%s", what, nb, m.n, tr);
	for (i = 0; i < nb * 8; i++) mc_check(bitat(p, i) == (i < m.n ? m.b[i] : 0), "%s: bit %zu of %zu is %d after%s", what, i, m.n, bitat(p, i), tr);
}
/* ---- bit buffer ---- */
static const unsigned char pat[3][4] = { { 0xff, 0xff, 0xff, 0xff }, { 0xa5, 0x5a, 0xc3, 0x7e }, { 0, 0, 0, 0 } };
static M_bool bufop(M_bit_buf_t *b)
{
	static const size_t fl[] = { 0, 1, 7, 8, 9, 17 }, an[] = { 1, 3, 4, 8, 9, 16, 20, 32 }; static const size_t nb[] = { 0, 1, 2, 7, 8, 9, 15, 16, 63, 64, 65 };
	static const char *const bs[] = { "", "1", "0", "101", " 1 0\t1", "11111111", "0000000010", "12", "x" };
	int k = mc_choose(9), c, bit, pad; size_t n, i; M_uint64 v; M_bool rv; mc_step();
	switch (k) {
		case 0: bit = mc_choose(3); T(" bit%d", bit); M_bit_buf_add_bit(b, (M_uint8)bit); put(bit); break;
		case 1: bit = mc_choose(2); n = fl[mc_choose(6)]; T(" fill%dx%zu", bit, n); M_bit_buf_fill(b, (M_uint8)bit, n); for (i = 0; i < n; i++) put(bit); break;
		case 2: n = nb[mc_choose(11)]; v = mc_choose(2) ? 0xFEDCBA9876543211ULL : ~0ULL; pad = mc_choose(3); T(" add%llx/%zu/%d", (unsigned long long)v, n, pad); M_bit_buf_add(b, v, n, (M_bit_buf_pad_t)pad);
			if (n < 1 || n > 64) break;
			if (pad == M_BIT_BUF_PAD_BEFORE) while ((m.n + n) % 8) put(0);
			for (i = n; i-- > 0; ) put((int)((v >> i) & 1)); if (pad == M_BIT_BUF_PAD_AFTER) padto8(); break;
		case 3: c = mc_choose(2); n = an[mc_choose(8)]; { char *x = hx_dup(pat[c], (n + 7) / 8); T(" bytes%d/%zu", c, n); M_bit_buf_add_bytes(b, x, n); free(x); } for (i = 0; i < n; i++) put(bitat(pat[c], i)); break;
		case 4: c = mc_choose(9); pad = mc_choose(3); T(" str'%s'/%d", bs[c], pad); rv = M_bit_buf_add_bitstr(b, bs[c], (M_bit_buf_pad_t)pad); mc_check(rv == (c < 7), "bit string '%s' returned %d", bs[c], rv); if (!rv) return M_FALSE; if (c == 0) break;
			{ const char *q; size_t cnt = 0; for (q = bs[c]; *q; q++) cnt += (*q == '0' || *q == '1'); if (pad == M_BIT_BUF_PAD_BEFORE) while ((m.n + cnt) % 8) put(0); for (q = bs[c]; *q; q++) if (*q == '0' || *q == '1') put(*q == '1'); if (pad == M_BIT_BUF_PAD_AFTER) padto8(); } break;
		case 5: { static const int off[] = { -9, -1, 0, 1, 8, 20 }; long idx = mc_choose(2) ? (long)m.n + off[mc_choose(6)] : mc_choose(9); int fb = mc_choose(2); bit = mc_choose(2); if (idx < 0) mc_prune(); T(" set%ld=%d/%d", idx, bit, fb); M_bit_buf_set_bit(b, (M_uint8)bit, (size_t)idx, (M_uint8)fb); while (m.n < (size_t)idx) put(fb); if ((size_t)idx == m.n) put(bit); else m.b[idx] = (unsigned char)bit; break; }
		case 6: { long idx = mc_choose(2) ? (long)m.n - 2 + mc_choose(4) : mc_choose(9); bit = mc_choose(2); if (idx < 0) mc_prune(); T(" upd%ld=%d", idx, bit); rv = M_bit_buf_update_bit(b, (size_t)idx, (M_uint8)bit); mc_check(rv == ((size_t)idx < m.n), "update of bit %ld of %zu returned %d", idx, m.n, rv); if (rv) m.b[idx] = (unsigned char)bit; break; }
		case 7: { static const int off[] = { -17, -9, -8, -7, -1, 0, 1, 5, 8, 100 }; int j = mc_choose(13); long l = j < 10 ? (long)m.n + off[j] : j == 10 ? 0 : j == 11 ? 3 : 8; if (l < 0) mc_prune(); T(" trunc%ld", l); M_bit_buf_truncate(b, (size_t)l); if ((size_t)l < m.n) m.n = (size_t)l; break; }
		case 8: { static const size_t rs[] = { 0, 1, 9, 5000 }; n = rs[mc_choose(4)]; T(" reserve%zu", n); M_bit_buf_reserve(b, n); break; }
	}
	return M_TRUE;
}
static void run_buf(void)
{
	M_bit_buf_t *b = M_bit_buf_create(); int d = (int)mc_param("bufdepth", 3, 4), i; M_bool ok = M_TRUE; m.n = 0; tr[0] = 0;
	for (i = 0; i < d && ok; i++) {
		ok = bufop(b); if (!ok) break;
		mc_check(M_bit_buf_len(b) == m.n && M_bit_buf_len_bytes(b) == (m.n + 7) / 8, "length %zu (%zu bytes), expected %zu after%s", M_bit_buf_len(b), M_bit_buf_len_bytes(b), m.n, tr);
		if (m.n) cmpbytes(M_bit_buf_peek(b), M_bit_buf_len_bytes(b), "peek"); mc_state(mhash());
		if (!mc_visit(mhash(), d - 1 - i)) break;
	}
	if (!ok) { M_bit_buf_destroy(b); return; }
	{ size_t nb = 77; M_uint8 *p = M_bit_buf_finish(b, &nb); if (m.n) cmpbytes(p, nb, "finish"); else mc_check(nb == 0, "finish of nothing has %zu bytes", nb); M_free(p); }
	mc_outcome(mhash());
}
/* ---- bit parser ---- */
static size_t off, mark;
static M_uint64 val(size_t n) { M_uint64 v = 0; size_t i; for (i = 0; i < n; i++) v = v << 1 | m.b[off + i]; return v; }
static void parseop(M_bit_parser_t *p)
{
	static const size_t nn[] = { 0, 1, 2, 7, 8, 9, 16, 17, 63, 64, 65, (size_t)-1 }; int k = mc_choose(17); size_t n = 0, left = m.n - off, i; M_uint8 bit; M_bool rv; mc_step();
	if (k >= 3 && k <= 9) { int c = mc_choose(15); n = c < 12 ? nn[c] : c == 12 ? left : c == 13 ? left + 1 : left ? left - 1 : 3; }
	switch (k) {
		case 0: T(" peekbit"); bit = 9; rv = M_bit_parser_peek_bit(p, &bit); mc_check(rv == (left > 0) && (!rv || bit == m.b[off]), "peek bit gave %d %d after%s", rv, bit, tr); break;
		case 1: T(" readbit"); bit = 9; rv = M_bit_parser_read_bit(p, &bit); mc_check(rv == (left > 0) && (!rv || bit == m.b[off]), "read bit gave %d %d after%s", rv, bit, tr); off += rv; break;
		case 2: bit = (M_uint8)mc_choose(2); for (i = off, n = 0; i < m.n; i++) n += m.b[i] == bit; T(" count%d", bit); i = M_bit_parser_count(p, bit); mc_check(i == n, "count of %d is %zu, expected %zu of %zu after%s", bit, i, n, left, tr); break;
		case 3: T(" consume%zu", n); rv = M_bit_parser_consume(p, n); mc_check(rv == (n <= left), "consume %zu of %zu gave %d after%s", n, left, rv, tr); if (rv) off += n; break;
		case 4: { M_bit_buf_t *o = M_bit_buf_create(); size_t pre = (size_t)mc_choose(2) * 3; T(" bitbuf%zu", n); M_bit_buf_fill(o, 1, pre); rv = M_bit_parser_read_bit_buf(p, o, n); mc_check(rv == (n <= left), "read_bit_buf %zu of %zu gave %d after%s", n, left, rv, tr); mc_check(M_bit_buf_len(o) == pre + (rv ? n : 0), "read_bit_buf added %zu after%s", M_bit_buf_len(o) - pre, tr); for (i = 0; rv && i < n; i++) mc_check(bitat(M_bit_buf_peek(o), pre + i) == m.b[off + i], "read_bit_buf bit %zu after%s", i, tr); if (rv) off += n; M_bit_buf_destroy(o); break; }
		case 5: { M_buf_t *o = M_buf_create(); if (n == (size_t)-1) { M_buf_cancel(o); mc_prune(); } M_buf_add_str(o, "ab"); T(" buf%zu", n); rv = M_bit_parser_read_buf(p, o, n); mc_check(rv == (n <= left), "read_buf %zu of %zu gave %d after%s", n, left, rv, tr); mc_check(M_buf_len(o) == 2 + (rv ? (n + 7) / 8 : 0), "read_buf length %zu after%s", M_buf_len(o), tr); for (i = 0; rv && i < (n + 7) / 8 * 8; i++) mc_check(bitat((const unsigned char *)M_buf_peek(o) + 2, i) == (i < n ? m.b[off + i] : 0), "read_buf bit %zu after%s", i, tr); if (rv) off += n; M_buf_cancel(o); break; }
		case 6: { int short_ = mc_choose(2); size_t need = (n / 8 + (n % 8 != 0)), cap = n > 4000 ? 8 : need, dl; unsigned char *o; if (short_) { if (!cap) mc_prune(); cap--; } dl = cap; o = malloc(cap ? cap : 1); T(" bytes%zu/%zu", n, cap); rv = M_bit_parser_read_bytes(p, o, &dl, n); mc_check(rv == (n == 0 || (n <= left && cap >= need)), "read_bytes %zu of %zu with room %zu gave %d after%s", n, left, cap, rv, tr); mc_check(dl == (rv ? need : 0), "read_bytes length %zu after%s", dl, tr); for (i = 0; rv && i < need * 8; i++) mc_check(bitat(o, i) == (i < n ? m.b[off + i] : 0), "read_bytes bit %zu after%s", i, tr); if (rv) off += n; free(o); break; }
		case 7: { char *s; T(" strdup%zu", n); s = M_bit_parser_read_strdup(p, n); mc_check((s != NULL) == (n > 0 && n <= left), "read_strdup %zu of %zu gave '%s' after%s", n, left, s, tr); if (s) { mc_check(strlen(s) == n, "read_strdup '%s' after%s", s, tr); for (i = 0; i < n; i++) mc_check(s[i] == '0' + m.b[off + i], "read_strdup '%s' after%s", s, tr); off += n; } M_free(s); break; }
		case 8: { M_uint64 v = 77; T(" uint%zu", n); if (n == 0) mc_prune(); rv = M_bit_parser_read_uint(p, n, &v); mc_check(rv == (n <= left && n <= 64), "read_uint %zu of %zu gave %d after%s", n, left, rv, tr); if (rv) { mc_check(v == val(n), "read_uint %zu gave %llx, expected %llx after%s", n, (unsigned long long)v, (unsigned long long)val(n), tr); off += n; } break; }
		case 9: { M_int64 v = 77; int f = mc_choose(4); T(" int%zu/%d", n, f); rv = M_bit_parser_read_int(p, n, (M_bit_parser_int_format_t)f, &v); mc_check(rv == (n <= left && n >= 2 && n <= 64 && f < 3), "read_int %zu of %zu format %d gave %d after%s", n, left, f, rv, tr);
			if (rv) { M_uint64 u = val(n), sb = (M_uint64)1 << (n - 1); M_int64 e; if (!(u & sb)) e = (M_int64)u; else if (f == M_BIT_PARSER_SIGN_MAG) e = -(M_int64)(u & (sb - 1)); else if (f == M_BIT_PARSER_ONES_COMP) e = -(M_int64)(~u & (sb - 1)); else e = (M_int64)(u | ~(sb - 1)); mc_check(v == e, "read_int %zu format %d gave %lld, expected %lld after%s", n, f, (long long)v, (long long)e, tr); off += n; } break; }
		case 10: { size_t mx, got = 77, e = 0; static const size_t mm[] = { 0, 1, 3, 1000 }; mx = mm[mc_choose(4)]; bit = 9; T(" range%zu", mx); while (e < mx && off + e < m.n && m.b[off + e] == m.b[off]) e++; rv = M_bit_parser_read_range(p, &bit, &got, mx); mc_check(rv == (e > 0) && got == e && (!rv || bit == m.b[off]), "read_range gave %d, %zu of bit %d, expected %zu after%s", rv, got, bit, e, tr); off += e; break; }
		case 11: { static const size_t mm[] = { 0, 1, 3, 1000 }; size_t mx = mm[mc_choose(4)], e = 0; T(" crange%zu", mx); while (e < mx && off + e < m.n && m.b[off + e] == m.b[off]) e++; rv = M_bit_parser_consume_range(p, mx); mc_check(rv == (e > 0), "consume_range gave %d after%s", rv, tr); off += e; break; }
		case 12: { static const size_t mm[] = { 0, 1, 3, 1000 }; size_t mx = mm[mc_choose(4)], e = 0, lim; bit = (M_uint8)mc_choose(2); lim = left < mx ? left : mx; while (e < lim && m.b[off + e] != bit) e++; T(" tonext%d/%zu", bit, mx); rv = M_bit_parser_consume_to_next(p, bit, mx); mc_check(rv == (e < lim), "consume_to_next %d gave %d after%s", bit, rv, tr); off += e < lim ? e + 1 : lim; break; }
		case 13: T(" mark"); M_bit_parser_mark(p); mark = off; break;
		case 14: T(" rewind"); i = M_bit_parser_mark_rewind(p); mc_check(i == off - mark, "rewind by %zu, expected %zu after%s", i, off - mark, tr); off = mark; break;
		case 15: if (mc_choose(2)) { T(" start"); M_bit_parser_rewind_to_start(p); off = mark = 0; } else { int c = mc_choose(2); char *x = hx_dup(pat[c], 2); T(" reset%d", c); M_bit_parser_reset(p, x, 11); free(x); m.n = 0; for (i = 0; i < 11; i++) put(bitat(pat[c], i)); off = mark = 0; } break;
		case 16: { int c = mc_choose(5); T(" app%d", c); if (c == 0) { char *x = hx_dup(pat[1], 2); M_bit_parser_append(p, x, 13); free(x); for (i = 0; i < 13; i++) put(bitat(pat[1], i)); } else if (c == 1) { M_bit_parser_append_uint(p, 0x2d, 7); for (i = 7; i-- > 0; ) put(0x2d >> i & 1); } else if (c == 2) { rv = M_bit_parser_append_bitstr(p, "1 01"); mc_check(rv, "append_bitstr failed"); put(1); put(0); put(1); } else if (c == 3) { M_bit_parser_append(p, pat[0], 0); M_bit_parser_append_uint(p, 1, 0); M_bit_parser_append_bitstr(p, ""); } else { char *x = hx_dup(pat[0], 1); M_bit_parser_append(p, x, 3); free(x); put(1); put(1); put(1); } break; }
	}
	mc_check(M_bit_parser_current_offset(p) == off && M_bit_parser_len(p) == m.n - off && M_bit_parser_mark_len(p) == off - mark, "offset %zu, %zu left, mark %zu; expected %zu, %zu, %zu after%s", M_bit_parser_current_offset(p), M_bit_parser_len(p), M_bit_parser_mark_len(p), off, m.n - off, off - mark, tr);
}
static void run_parser(void)
{
	static const unsigned char src[4][10] = { { 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff }, { 0xa5, 0x3c, 0x0f, 0x81, 0x7e, 0x11, 0xd2, 0x6b, 0x90, 0x5a }, { 0 }, { 0x80, 0, 0, 0, 0, 0, 0, 0, 0x80, 0 } };
	static const size_t lens[] = { 0, 1, 2, 5, 8, 9, 15, 16, 17, 23, 63, 64, 65, 72, 77 }; int c = mc_choose(4), li = mc_choose(mc_thorough ? 15 : 13), cst = mc_choose(2), d = (int)mc_param("parsedepth", 2, 3), i; size_t n = lens[li]; char *x = hx_dup(src[c], (n + 7) / 8); M_bit_parser_t *p; size_t j;
	m.n = 0; for (j = 0; j < n; j++) put(bitat(src[c], j)); off = mark = 0; tr[0] = 0; T(" %s%d/%zu:", cst ? "const" : "copy", c, n);
	p = cst ? M_bit_parser_create_const(x, n) : M_bit_parser_create(x, n);
	{ int pre = mc_choose(4); static const size_t pn[] = { 0, 1, 5, 11 }; if (pn[pre] > n) mc_prune(); M_bit_parser_consume(p, pn[pre]); off = pn[pre]; T(" at%zu", off); }
	for (i = 0; i < d; i++) { parseop(p); mc_state(mc_h64(mc_h64(mhash(), off), mark)); if (!mc_visit(mc_h64(mc_h64(mhash(), off * 100 + mark), (uint64_t)cst), d - 1 - i)) break; }
	mc_outcome(mc_h64(mhash(), off)); M_bit_parser_destroy(p); free(x);
}
/* every bit string of up to 10 bits, every width, every format; packed at every position */
static void run_ints(void)
{
	size_t pre = (size_t)mc_choose(9), n = 1 + (size_t)mc_choose((int)mc_param("intbits", 9, 12)), i; unsigned v = (unsigned)mc_choose(1 << n); int f; M_bit_buf_t *b = M_bit_buf_create(); M_bit_parser_t *p; M_uint64 u = 77; M_int64 s; size_t nb; M_uint8 *d;
	M_bit_buf_fill(b, 1, pre); M_bit_buf_add(b, v, n, M_BIT_BUF_PAD_NONE); mc_check(M_bit_buf_len(b) == pre + n, "length after adding"); d = M_bit_buf_finish(b, &nb);
	for (f = -1; f < 3; f++) { char *x = hx_dup(d, nb); M_int64 e; mc_case(); p = M_bit_parser_create_const(x, pre + n); M_bit_parser_consume(p, pre);
		if (f < 0) { mc_check(M_bit_parser_read_uint(p, n, &u) && u == v, "%zu bits %x read back as %llx", n, v, (unsigned long long)u); }
		else if (n >= 2) { unsigned sb = 1u << (n - 1); mc_check(M_bit_parser_read_int(p, n, (M_bit_parser_int_format_t)f, &s), "read_int failed"); e = !(v & sb) ? (M_int64)v : f == 0 ? -(M_int64)(v & (sb - 1)) : f == 1 ? -(M_int64)(~v & (sb - 1)) : (M_int64)v - (M_int64)(2 * (M_uint64)sb); mc_check(s == e, "%zu bits %x format %d read as %lld, expected %lld", n, v, f, (long long)s, (long long)e); }
		M_bit_parser_destroy(p); free(x); }
	M_free(d); (void)i;
}
/* ---- bit lists ---- */
static void run_list(void)
{
	static const M_bitlist_t L[3][6] = { { { 1, "A" }, { 4, "Bb" }, { 0x8000000000000000ULL, "C c" }, { 0, NULL } }, { { 3, "AB" }, { 1, "A" }, { 2, "B" }, { 4, "D" }, { 0, NULL } }, { { 1, "A" }, { 1, "alias" }, { 2, "B" }, { 0, NULL } } };
	static const M_uint64 sets[] = { 0, 1, 2, 3, 4, 5, 6, 7, 0x8000000000000000ULL, 0x8000000000000005ULL, 8, 9 };
	int li = mc_choose(3), flags = mc_choose(32), i; char delim = "|, "[mc_choose(3)], err[256]; const M_bitlist_t *l = L[li]; M_hash_stru64_t *h1 = NULL; M_hash_u64str_t *h2 = NULL; M_bool pow = (flags & M_BITLIST_FLAG_DONT_REQUIRE_POWEROF2) ? 0 : 1, ign = (flags & M_BITLIST_FLAG_IGNORE_UNKNOWN) ? 1 : 0, ok, dup = li == 2 && !(flags & M_BITLIST_FLAG_IGNORE_DUPLICATE_ID), bad = pow && li == 1;
	if (delim == ' ' && li == 0) mc_prune(); /* a name contains the delimiter */
	ok = M_bitlist_tohash(&h1, &h2, (M_bitlist_flags_t)flags, l, err, sizeof(err)); mc_check(ok == (!dup && !bad), "tohash of list %d flags %x returned %d", li, flags, ok);
	if (mc_choose(2)) {
		M_uint64 bits = sets[mc_choose(12)], got = 77, left = bits; char *s = NULL, exp[64] = ""; for (i = 0; l[i].name; i++) if ((left & l[i].id) == l[i].id) { size_t n = strlen(exp); snprintf(exp + n, sizeof(exp) - n, "%.*s%s", n ? 1 : 0, &delim, l[i].name); left &= ~l[i].id; }
		mc_case(); ok = M_bitlist_list(&s, (M_bitlist_flags_t)flags, l, bits, (unsigned char)delim, err, sizeof(err)); mc_check(ok == (!bad && (ign || left == 0)), "list of %llx with flags %x returned %d", (unsigned long long)bits, flags, ok);
		if (ok) { mc_check(hx_streq(s, exp), "bits %llx listed as '%s', expected '%s'", (unsigned long long)bits, s, exp); mc_check(M_bitlist_parse(&got, (M_bitlist_flags_t)flags, l, s, (unsigned char)delim, err, sizeof(err)) && got == (bits & ~left), "'%s' parsed back as %llx, flags %x", s, (unsigned long long)got, flags);
			if (h1) { got = 77; mc_check(M_bitlist_hash_parse(&got, (M_bitlist_flags_t)flags, h1, s, (unsigned char)delim, err, sizeof(err)) && got == (bits & ~left), "'%s' parsed by hash as %llx", s, (unsigned long long)got); } M_free(s); }
		for (i = 0; l[i].name; i++) { const char *e = NULL; int j; for (j = 0; l[j].name; j++) if (l[j].id == l[i].id) { e = l[j].name; break; } mc_check(hx_streq(M_bitlist_single_tostr(l, l[i].id), e) && M_bitlist_single_toint(l, l[i].name) == l[i].id, "single conversion of %s", l[i].name); if (h2) { const char *v = NULL; mc_check(M_hash_u64str_get(h2, l[i].id, &v) && hx_streq(v, e), "hash name of %llx is %s", (unsigned long long)l[i].id, v); } }
		mc_check(M_bitlist_single_tostr(l, 0x40) == NULL && M_bitlist_single_toint(l, "zz") == 0, "unknown single conversions");
	} else {
		static const char *const tk[] = { "A", "a", "Bb", "bB", "C c", " ", "zz", "AB", "D", "B", "\t", "alias" }; char t[80] = "", *cp, *save; int n = 0; size_t k = 0, nt = (size_t)mc_param("listtoks", 3, 4); M_uint64 exp = 0, got = 77; M_bool eok = M_TRUE;
		while (k < nt) { int c = mc_choose(14); if (c == 0) break; if (c == 13) { size_t z = strlen(t); t[z] = delim; t[z + 1] = 0; } else strcat(t, tk[c - 1]); k++; }
		cp = t; mc_case();
		for (;;) { char e[80], *q = strchr(cp, delim), *b; size_t len = q ? (size_t)(q - cp) : strlen(cp); memcpy(e, cp, len); e[len] = 0; b = e; if (!(flags & M_BITLIST_FLAG_DONT_TRIM_WHITESPACE)) { while (*b == ' ' || *b == '\t') b++; while (*b && (b[strlen(b) - 1] == ' ' || b[strlen(b) - 1] == '\t')) b[strlen(b) - 1] = 0; }
			if (*b) { int f = -1; for (i = 0; l[i].name && f < 0; i++) if ((flags & M_BITLIST_FLAG_CASE_SENSITIVE) ? !strcmp(l[i].name, b) : !strcasecmp(l[i].name, b)) f = i; if (f < 0) { if (!ign) eok = M_FALSE; } else if (pow && (l[f].id & (l[f].id - 1))) eok = M_FALSE; else exp |= l[f].id; }
			if (!q) break; cp = q + 1; }
		save = hx_dupz(t); ok = M_bitlist_parse(&got, (M_bitlist_flags_t)flags, l, save, (unsigned char)delim, err, sizeof(err)); mc_check(ok == eok && got == (eok ? exp : 0), "'%s' with flags %x parsed as %d/%llx, expected %d/%llx", t, flags, ok, (unsigned long long)got, eok, (unsigned long long)exp);
		if (h1) { got = 77; ok = M_bitlist_hash_parse(&got, (M_bitlist_flags_t)flags, h1, save, (unsigned char)delim, err, sizeof(err)); mc_check(ok == eok && got == (eok ? exp : 0), "'%s' with flags %x parsed by hash as %d/%llx, expected %d/%llx", t, flags, ok, (unsigned long long)got, eok, (unsigned long long)exp); }
		free(save); (void)n;
	}
	M_hash_stru64_destroy(h1); M_hash_u64str_destroy(h2);
}
void mc_init(void) { mc_leakcheck = 1; }
void mc_run(void) { switch (mc_choose(4)) { case 0: run_buf(); break; case 1: run_parser(); break; case 2: run_ints(); break; case 3: run_list(); break; } }
