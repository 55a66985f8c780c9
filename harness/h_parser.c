// MODE: seq
// MODS: base
/* C24: M_parser against a cursor over a byte string. */
#include "hx.h"
const char *mc_name = "h_parser";
#define CAP 512
static unsigned char T[CAP]; static size_t tn /* end */, pos; static long mk; static M_parser_t *p; static int lines, dyn, colfuzzy; static char when[200];
static unsigned char *constbuf;
static size_t linecol(size_t at, size_t *col) { size_t i, l = 1; *col = 1; for (i = 0; i < at; i++) if (T[i] == '\n') { l++; *col = 1; } else (*col)++; return l; }
static void check(void)
{
	size_t l, c, ml = 77; const unsigned char *d = M_parser_peek(p), *m; unsigned char one; unsigned char all[CAP];
	mc_check(M_parser_len(p) == tn - pos, "%s: length %zu, expected %zu", when, M_parser_len(p), tn - pos);
	mc_check(tn == pos || (d != NULL && memcmp(d, T + pos, tn - pos) == 0), "%s: data %s, expected %s", when, mc_esc(d, tn - pos), mc_esc(T + pos, tn - pos));
	mc_check(M_parser_current_offset(p) == pos, "%s: offset %zu, expected %zu", when, M_parser_current_offset(p), pos);
	l = linecol(pos, &c);
	mc_check(M_parser_current_line(p) == (lines ? l : 0), "%s: line %zu, expected %zu", when, M_parser_current_line(p), l);
	mc_check(M_parser_current_column(p) == (lines ? c : 0), "%s: column %zu, expected %zu", when, M_parser_current_column(p), c);
	mc_check(M_parser_mark_len(p) == (mk < 0 ? 0 : pos - (size_t)mk), "%s: mark length %zu, expected %zu", when, M_parser_mark_len(p), mk < 0 ? 0 : pos - (size_t)mk);
	m = M_parser_peek_mark(p, &ml); if (mk >= 0) mc_check(ml == pos - (size_t)mk && (ml == 0 || memcmp(m, T + mk, ml) == 0), "%s: marked data %s, expected %s", when, mc_esc(m, ml), mc_esc(T + mk, pos - (size_t)mk));
	mc_check(M_parser_peek_byte(p, &one) == (tn > pos) && (tn == pos || one == T[pos]), "%s: peek byte", when);
	mc_check(M_parser_peek_bytes(p, tn - pos, all) == (tn > pos) && !M_parser_peek_bytes(p, tn - pos + 1, all), "%s: peek bytes", when);
	mc_note("%s", when);
}
static int isp(unsigned char c) { return c == 'a' || c == 'b'; }
static M_bool pred(unsigned char c) { return isp(c); }
static M_bool cpred(char c) { return isp((unsigned char)c); }
static const char *const pats[] = { "a", "ab", "aab", "\n", "zzzzzzzz" };
static const char *const sets[] = { "a", "ab ", "\n" };
static long find(const char *s) { size_t l = strlen(s), i; for (i = pos; i + l <= tn; i++) if (memcmp(T + i, s, l) == 0) return (long)(i - pos); return -1; }
static size_t boundary(const char *s, int *found) { long f = find(s); size_t l = strlen(s), k; *found = f >= 0; if (f >= 0) return (size_t)f; for (k = tn - pos < l ? tn - pos : l - 1; k > 0; k--) if (memcmp(T + tn - k, s, k) == 0) break; return tn - pos - k; }
/* matcher: how many bytes the next read takes */
static size_t match(int kind, int var, int eat, size_t max, int *found)
{
	size_t n = 0; long f; *found = 2;
	switch (kind) {
		case 0: f = find(pats[var]); if (f < 0) return 0; return (size_t)f + (eat ? strlen(pats[var]) : 0);
		case 1: n = boundary(pats[var], found); return n + (*found && eat ? strlen(pats[var]) : 0);
		case 2: while (pos + n < tn && strchr(sets[var], T[pos + n])) n++; return n;
		case 3: while (pos + n < tn && !strchr(sets[var], T[pos + n])) n++; return n;
		case 4: while (pos + n < tn && n < max && isp(T[pos + n])) n++; return n;
	}
	return 0;
}
#define U(x) ((const unsigned char *)(x))
static void op_match(void)
{
	int kind = mc_choose(5), var = kind == 4 ? 0 : kind >= 2 ? mc_choose(3) : mc_choose(5), eat = kind < 2 ? mc_choose(2) : 0, form = mc_choose(7), rf; size_t k, r = 0, bl = 0, max = (size_t)-1, exp; M_bool fnd = 7; unsigned char b[CAP]; char *s = NULL; M_buf_t *bf = NULL; M_parser_t *q = NULL; const char *pt = pats[kind < 2 ? var : 0], *st = sets[kind == 2 || kind == 3 ? var : 0]; const void *got = NULL;
	if (form == 1 || form == 2) bl = (size_t[]){ CAP, 1, 2, 3 }[mc_choose(4)];
	if (kind == 4) { int mx = mc_choose(3); if (mx && (form == 1 || form == 2)) mc_prune(); max = mx == 0 ? (size_t)-1 : (size_t)mx; }
	if (kind == 4 && form == 1) max = bl; if (kind == 4 && form == 2) max = bl - 1;
	k = match(kind, var, eat, max, &rf); snprintf(when, sizeof(when), "match kind %d '%s' eat %d form %d size %zu", kind, mc_escs(kind < 2 ? pt : st), eat, form, bl); mc_step();
	exp = k; memset(b, 'X', sizeof(b));
	switch (form) {
		case 0: switch (kind) {
			case 0: r = var & 1 ? M_parser_consume_until(p, U(pt), strlen(pt), eat) : M_parser_consume_str_until(p, pt, eat); break;
			case 1: r = var & 1 ? M_parser_consume_boundary(p, U(pt), strlen(pt), eat, &fnd) : M_parser_consume_str_boundary(p, pt, eat, &fnd); break;
			case 2: r = var & 1 ? M_parser_consume_charset(p, U(st), strlen(st)) : M_parser_consume_str_charset(p, st); break;
			case 3: r = var & 1 ? M_parser_consume_not_charset(p, U(st), strlen(st)) : M_parser_consume_str_not_charset(p, st); break;
			case 4: r = max == (size_t)-1 ? (mc_choose(2) ? M_parser_consume_predicate(p, pred) : M_parser_consume_chr_predicate(p, cpred)) : (mc_choose(2) ? M_parser_consume_predicate_max(p, pred, max) : M_parser_consume_chr_predicate_max(p, cpred, max)); } break;
		case 1: if (k > bl) exp = 0; switch (kind) {
			case 0: r = M_parser_read_bytes_until(p, b, bl, U(pt), strlen(pt), eat); break;
			case 1: r = M_parser_read_bytes_boundary(p, b, bl, U(pt), strlen(pt), eat, &fnd); break;
			case 2: r = M_parser_read_bytes_charset(p, U(st), strlen(st), b, bl); break;
			case 3: r = M_parser_read_bytes_not_charset(p, U(st), strlen(st), b, bl); break;
			case 4: r = mc_choose(2) ? M_parser_read_bytes_predicate(p, pred, b, bl) : M_parser_read_bytes_chr_predicate(p, cpred, b, bl); } got = b; break;
		case 2: if (k > bl - 1) exp = 0; if (bl == 1 && kind == 1) mc_prune(); switch (kind) {
			case 0: r = M_parser_read_str_until(p, (char *)b, bl, pt, eat); break;
			case 1: r = M_parser_read_str_boundary(p, (char *)b, bl, pt, eat, &fnd); break;
			case 2: r = M_parser_read_str_charset(p, st, (char *)b, bl); break;
			case 3: r = M_parser_read_str_not_charset(p, st, (char *)b, bl); break;
			case 4: r = mc_choose(2) ? M_parser_read_str_predicate(p, pred, (char *)b, bl) : M_parser_read_str_chr_predicate(p, cpred, (char *)b, bl); } got = b; if (r) mc_check(b[r] == 0, "%s: not terminated", when); break;
		case 3: switch (kind) {
			case 0: s = M_parser_read_strdup_until(p, pt, eat); break;
			case 1: s = M_parser_read_strdup_boundary(p, pt, eat, &fnd); break;
			case 2: s = M_parser_read_strdup_charset(p, st); break;
			case 3: s = M_parser_read_strdup_not_charset(p, st); break;
			case 4: s = max == (size_t)-1 ? M_parser_read_strdup_predicate(p, pred) : M_parser_read_strdup_chr_predicate_max(p, cpred, max); } got = s; r = s ? strlen(s) : 0; break;
		case 4: bf = M_buf_create(); switch (kind) {
			case 0: r = M_parser_read_buf_until(p, bf, U(pt), strlen(pt), eat); break;
			case 1: r = M_parser_read_buf_boundary(p, bf, U(pt), strlen(pt), eat, &fnd); break;
			case 2: r = M_parser_read_buf_charset(p, bf, U(st), strlen(st)); break;
			case 3: r = M_parser_read_buf_not_charset(p, bf, U(st), strlen(st)); break;
			case 4: r = max == (size_t)-1 ? M_parser_read_buf_chr_predicate(p, bf, cpred) : M_parser_read_buf_predicate_max(p, bf, pred, max); } got = M_buf_peek(bf); mc_check(M_buf_len(bf) == r, "%s: buffer holds %zu, returned %zu", when, M_buf_len(bf), r); break;
		case 5: switch (kind) {
			case 0: q = M_parser_read_parser_until(p, U(pt), strlen(pt), eat); break;
			case 1: q = M_parser_read_parser_boundary(p, U(pt), strlen(pt), eat, &fnd); break;
			case 2: q = M_parser_read_parser_charset(p, U(st), strlen(st)); break;
			case 3: mc_prune(); break;
			case 4: q = max == (size_t)-1 ? M_parser_read_parser_predicate(p, pred) : M_parser_read_parser_predicate_max(p, pred, max); } got = M_parser_peek(q); r = M_parser_len(q); break;
		case 6: { size_t n = (size_t)mc_choose(4); switch (kind) { case 0: case 1: case 3: mc_prune(); break;
			case 2: { size_t i; int ok = n > 0; for (i = 0; i < n && pos + i < tn; i++) if (!strchr(st, T[pos + i])) ok = 0; mc_check(M_parser_is_str_charset(p, n, st) == ok && M_parser_is_charset(p, n, U(st), strlen(st)) == ok && M_parser_is_not_charset(p, n, U(st), strlen(st)) == !ok, "%s: is_charset(%zu) not %d", when, n, ok); break; }
			case 4: { size_t i; int ok = n > 0; for (i = 0; i < n && pos + i < tn; i++) if (!isp(T[pos + i])) ok = 0; mc_check(M_parser_is_predicate(p, n, pred) == ok && M_parser_is_chr_predicate(p, n, cpred) == ok && M_parser_is_not_predicate(p, n, pred) == !ok, "%s: is_predicate(%zu) not %d", when, n, ok); break; } }
			check(); return; }
	}
	if (kind == 1) mc_check(fnd == rf, "%s: found %d, expected %d", when, fnd, rf);
	mc_check(r == exp, "%s: returned %zu, expected %zu (data %s)", when, r, exp, mc_esc(T + pos, tn - pos));
	if (got && exp) mc_check(memcmp(got, T + pos, exp) == 0, "%s: read %s, expected %s", when, mc_esc(got, exp), mc_esc(T + pos, exp));
	if ((form == 3 && exp == 0)) mc_check(s == NULL, "%s: empty string returned", when);
	pos += exp; M_free(s); M_buf_cancel(bf); M_parser_destroy(q); check();
}
static void op_fixed(void)
{
	int f = mc_choose(13); size_t n = (size_t)mc_choose(5), av, r, bl; unsigned char b[CAP]; char *s; M_buf_t *bf; M_parser_t *q; M_bool ok;
	if (n == 4) n = tn - pos + 1; av = n <= tn - pos && n > 0; snprintf(when, sizeof(when), "fixed %d of %zu", f, n); mc_step(); memset(b, 'X', sizeof(b));
	switch (f) {
		case 0: ok = M_parser_consume(p, n); mc_check(ok == (n <= tn - pos), "%s: status %d", when, ok); if (ok) pos += n; break;
		case 1: ok = M_parser_read_bytes(p, n, b); mc_check(ok == (int)av, "%s: status %d", when, ok); if (av) { mc_check(!memcmp(b, T + pos, n), "%s: content", when); pos += n; } break;
		case 2: case 3: bl = (size_t)mc_choose(4); r = f == 2 ? M_parser_read_bytes_max(p, n, b, bl) : M_parser_read_str_max(p, n, (char *)b, bl); { size_t e = f == 2 ? n > bl ? 0 : n : bl <= n ? 0 : n; if (e > tn - pos) e = tn - pos; mc_check(r == e, "%s into %zu: returned %zu, expected %zu", when, bl, r, e); mc_check(memcmp(b, T + pos, e) == 0 && b[bl] == 'X' && (f == 2 || r == 0 || b[r] == 0), "%s: content", when); pos += e; } break;
		case 4: bl = (size_t)mc_choose(5); ok = M_parser_read_str(p, n, (char *)b, bl); mc_check(ok == (av && bl > n), "%s into %zu: status %d", when, bl, ok); if (ok) { mc_check(!memcmp(b, T + pos, n) && b[n] == 0 && b[n + 1] == 'X', "%s: content", when); pos += n; } break;
		case 5: s = M_parser_read_strdup(p, n); mc_check((s != NULL) == (int)av, "%s: %s", when, s ? s : "NULL"); if (s) { mc_check(strlen(s) == n && !memcmp(s, T + pos, n), "%s: content", when); pos += n; } M_free(s); break;
		case 6: s = M_parser_read_strdup_hex(p, n); mc_check((s != NULL) == (int)av, "%s: %s", when, s ? s : "NULL"); if (s) { for (r = 0; r < n; r++) sprintf((char *)b + 2 * r, "%02X", T[pos + r]); mc_check(!strcmp(s, (char *)b), "%s: %s", when, s); pos += n; } M_free(s); break;
		case 7: case 8: bf = M_buf_create(); ok = f == 7 ? M_parser_read_buf(p, bf, n) : M_parser_read_buf_hex(p, bf, n); mc_check(ok == (n <= tn - pos), "%s: status %d", when, ok); if (ok) { if (f == 8) for (r = 0; r < n; r++) sprintf((char *)b + 2 * r, "%02X", T[pos + r]); else memcpy(b, T + pos, n); mc_check(M_buf_len(bf) == n * (f == 8 ? 2 : 1) && (n == 0 || !memcmp(M_buf_peek(bf), b, M_buf_len(bf))), "%s: content", when); pos += n; } else mc_check(M_buf_len(bf) == 0, "%s: partial output", when); M_buf_cancel(bf); break;
		case 9: bf = M_buf_create(); r = M_parser_read_buf_max(p, bf, n); { size_t e = n > tn - pos ? tn - pos : n; mc_check(r == e && M_buf_len(bf) == e && (e == 0 || !memcmp(M_buf_peek(bf), T + pos, e)), "%s: returned %zu, expected %zu", when, r, e); pos += e; } M_buf_cancel(bf); break;
		case 10: q = M_parser_read_parser(p, n); mc_check((q != NULL) == (int)av, "%s: parser %d", when, q != NULL); if (q) { mc_check(M_parser_len(q) == n && !memcmp(M_parser_peek(q), T + pos, n), "%s: content", when); pos += n; } M_parser_destroy(q); break;
		case 11: ok = M_parser_truncate(p, n); mc_check(ok == (n <= tn - pos), "%s: status %d", when, ok); if (ok) tn = pos + n; break;
		case 12: if (n == 0) { ok = M_parser_read_byte(p, b); mc_check(ok == (tn > pos) && (!ok || b[0] == T[pos]), "%s: read byte", when); pos += ok; } else if (n == 1) { for (r = 0; pos + r < tn; r++) if (T[pos + r] == '\n') { r++; break; } mc_check(M_parser_consume_eol(p) == r, "%s: eol", when); pos += r; } else { int ci = mc_choose(2), v = mc_choose(4); size_t mx = (size_t)mc_choose(3) , l = strlen(pats[v]); if (mx && mx < l) l = mx; else if (mx > l) mx = l; if (n == 2) { ok = l > 0 && l <= tn - pos && !(ci ? strncasecmp : strncmp)((char *)T + pos, pats[v], l) && (mx || tn - pos == l); mc_check(M_parser_compare_str(p, pats[v], mx, ci) == ok, "%s: compare '%s' max %zu with %s", when, pats[v], mx, mc_esc(T + pos, tn - pos)); } else { ok = strlen(pats[v]) <= tn - pos && !memcmp(T + pos, pats[v], strlen(pats[v])); mc_check(M_parser_compare(p, U(pats[v]), strlen(pats[v])) == ok, "%s: compare", when); } } break;
	}
	check();
}
static void op_ws(void)
{
	int f = mc_choose(3), fl = mc_choose(3); size_t n = 0, r; snprintf(when, sizeof(when), "whitespace/truncate %d flags %d", f, fl); mc_step();
	if (f == 0) { for (; pos + n < tn; n++) { unsigned char c = T[pos + n]; if (fl == 1 && c == '\n') { n++; break; } if (fl == 2 ? c != ' ' : !strchr(" \t\r\n\v\f", c)) break; } r = M_parser_consume_whitespace(p, fl); mc_check(r == n, "%s: %zu, expected %zu", when, r, n); pos += n; }
	else if (f == 1) { size_t e = tn; if (fl == 1 && e > pos && T[e - 1] == '\n') e--; for (; e > pos; e--) { unsigned char c = T[e - 1]; if (fl == 1 && c == '\n') break; if (fl == 2 ? c != ' ' : !strchr(" \t\r\n\v\f", c)) break; } r = M_parser_truncate_whitespace(p, fl); mc_check(r == tn - e, "%s: %zu, expected %zu", when, r, tn - e); tn = e; }
	else if (fl == 0) { int v = mc_choose(4), eat = mc_choose(2); size_t l = strlen(pats[v]), e; long k; if (l > tn - pos) e = tn; else { for (k = (long)(tn - l); k >= (long)pos; k--) if (!memcmp(T + k, pats[v], l)) break; e = k < (long)pos ? pos : eat ? (size_t)k : (size_t)k + l; } r = mc_choose(2) ? M_parser_truncate_until(p, U(pats[v]), l, eat) : M_parser_truncate_str_until(p, pats[v], eat); mc_check(r == tn - e, "%s until: %zu, expected %zu", when, r, tn - e); tn = e; }
	else if (fl == 1) { int v = mc_choose(3); size_t e = tn; while (e > pos && strchr(sets[v], T[e - 1])) e--; r = mc_choose(2) ? M_parser_truncate_charset(p, U(sets[v]), strlen(sets[v])) : M_parser_truncate_str_charset(p, sets[v]); mc_check(r == tn - e, "%s charset: %zu, expected %zu", when, r, tn - e); tn = e; }
	else { size_t mx = (size_t)mc_choose(4), e = tn; while (e > pos && (mx == 3 || tn - e < mx) && isp(T[e - 1])) e--; r = mx == 3 ? (mc_choose(2) ? M_parser_truncate_predicate(p, pred) : M_parser_truncate_chr_predicate(p, cpred)) : M_parser_truncate_predicate_max(p, pred, mx); mc_check(r == tn - e, "%s predicate: %zu, expected %zu", when, r, tn - e); tn = e; }
	check();
}
static void op_mark(void)
{
	int f = mc_choose(7); size_t n = mk < 0 ? 0 : pos - (size_t)mk, r, bl; unsigned char b[CAP]; char *s; M_buf_t *bf; M_parser_t *q; snprintf(when, sizeof(when), "mark op %d", f); mc_step();
	switch (f) {
		case 0: M_parser_mark(p); mk = (long)pos; break;
		case 1: M_parser_mark_clear(p); mk = -1; break;
		case 2: r = M_parser_mark_rewind(p); mc_check(r == n, "%s: rewound %zu, expected %zu", when, r, n); pos -= n; mk = -1; break;
		case 3: bl = mc_choose(2) ? CAP : 1; r = M_parser_read_bytes_mark(p, b, bl); if (n > bl) { mc_check(r == 0, "%s: %zu", when, r); break; } mc_check(r == n && !memcmp(b, T + (mk < 0 ? 0 : mk), n), "%s: read %zu, expected %zu", when, r, n); if (n) mk = -1; break;
		case 4: s = M_parser_read_strdup_mark(p); mc_check((s != NULL) == (n > 0) && (!s || (strlen(s) == n && !memcmp(s, T + mk, n))), "%s: %s", when, s ? mc_escs(s) : "NULL"); M_free(s); if (n) mk = -1; break;
		case 5: bf = M_buf_create(); r = M_parser_read_buf_mark(p, bf); mc_check(r == n && M_buf_len(bf) == n && (n == 0 || !memcmp(M_buf_peek(bf), T + mk, n)), "%s: %zu", when, r); M_buf_cancel(bf); if (n) mk = -1; break;
		case 6: if (mc_choose(2)) { size_t e = dyn && constbuf == NULL ? 0 : pos; if (dyn) mc_prune(); r = M_parser_reset(p); mc_check(r == e, "%s: reset %zu, expected %zu", when, r, e); if (mk > 0) mk = -1; pos -= e; break; }
			q = M_parser_read_parser_mark(p); mc_check((q != NULL) == (n > 0) && (!q || (M_parser_len(q) == n && !memcmp(M_parser_peek(q), T + mk, n))), "%s: parser", when); M_parser_destroy(q); mk = -1; break;
	}
	check();
}
static void add(const char *s, int direct)
{
	size_t l = strlen(s), n; unsigned char *w; if (tn + l > CAP) mc_prune();
	if (direct) { n = l ? l : 1; w = M_parser_direct_write_start(p, &n); mc_check(w != NULL && n >= l, "%s: direct write start", when); memset(w, 'D', n); memcpy(w, s, l); M_parser_direct_write_end(p, l); }
	else mc_check(M_parser_append(p, U(s), l), "%s: append failed", when);
	memcpy(T + tn, s, l); tn += l;
}
static void op_append(void)
{
	static const char *const cs[] = { "", "a", "b\n", "ab aab\nz \nabcdefghij" }; int c, d; size_t len = 3; if (!dyn) mc_prune();
	c = mc_choose(4); d = mc_choose(2); snprintf(when, sizeof(when), "%s '%s'", d ? "direct write" : "append", mc_escs(cs[c])); mc_step(); (void)len; add(cs[c], d); check();
}
static void run_ops(int depth, int maxlen)
{
	char txt[32]; size_t n = hx_str(txt, (size_t)maxlen, "ab \n", 4), sp; int i; dyn = mc_choose(2); lines = 1; constbuf = NULL; tn = pos = 0; mk = -1;
	snprintf(when, sizeof(when), "start '%s' dynamic %d", mc_escs(txt), dyn); mc_case();
	if (dyn) { sp = (size_t)mc_choose((int)n + 1); p = M_parser_create(M_PARSER_FLAG_TRACKLINES); { char first[32]; memcpy(first, txt, sp); first[sp] = 0; add(first, 0); add(txt + sp, 0); } }
	else { constbuf = (unsigned char *)hx_dup(txt, n); memcpy(T, txt, n); tn = n; p = M_parser_create_const(constbuf, n, M_PARSER_FLAG_TRACKLINES); mc_check(!M_parser_append(p, U("x"), 1), "append to a constant parser accepted"); }
	check();
	for (i = 0; i < depth; i++) switch (mc_choose(5)) { case 0: op_match(); break; case 1: op_fixed(); break; case 2: op_ws(); break; case 3: op_mark(); break; case 4: op_append(); break; }
	M_parser_destroy(p); free(constbuf); mc_outcome(mc_h64(pos, tn));
}
/* deep sequences of the operations that move the window of a growing parser */
static void run_window(void)
{
	static const char *const cs[] = { "abc", "\nabcdefghijklmno", "" }; int i, d = (int)mc_param("wdepth", 6, 8); dyn = 1; lines = mc_choose(2); constbuf = NULL; tn = pos = 0; mk = -1; p = M_parser_create(lines ? M_PARSER_FLAG_TRACKLINES : 0);
	for (i = 0; i < d; i++) { int c = mc_choose(9); size_t n; snprintf(when, sizeof(when), "window op %d", c); mc_step(); switch (c) {
		case 0: case 1: case 2: add(cs[c], 0); break; case 3: add("xy\nz", 1); break;
		case 4: n = tn - pos; mc_check(M_parser_consume(p, n), "consume all"); pos += n; break;
		case 5: if (tn == pos) mc_prune(); M_parser_consume(p, 1); pos++; break;
		case 6: M_parser_mark(p); mk = (long)pos; break; case 7: n = mk < 0 ? 0 : pos - (size_t)mk; mc_check(M_parser_mark_rewind(p) == n, "%s: rewind", when); pos -= n; mk = -1; break; case 8: if (mk < 0) mc_prune(); M_parser_mark_clear(p); mk = -1; break; }
		check(); }
	M_parser_destroy(p);
}
static void run_split(void)
{
	char txt[16], sec[12][16]; size_t n = hx_str(txt, (size_t)mc_param("split", 5, 7), ",a;\n", 4), secn = 0, i, st = 0, num = 99, seclc[12][2]; static const char *const pt[] = { ",", ",;", "a", "," }; int v = mc_choose(4), flags = mc_choose(4), isdyn = mc_choose(2), cons = mc_choose(2); size_t max = (size_t)mc_choose(4), pl = strlen(pt[v]), base = 0; M_parser_t **ps; int nodelim;
	if (cons && n == 0) mc_prune(); mc_case(); base = cons ? 1 : 0; lines = 1; memcpy(T, txt, n); st = base;
	snprintf(when, sizeof(when), "split '%s' from %zu by '%s' max %zu flags %d", mc_escs(txt), base, pt[v], max, flags); mc_note("%s", when);
	nodelim = strstr(txt + base, pt[v]) == NULL;
	for (i = base;; ) { if (i + pl <= n && !memcmp(txt + i, pt[v], pl) && (max == 0 || secn + 1 < max)) { memcpy(sec[secn], txt + st, i - st); sec[secn][i - st] = 0; seclc[secn][0] = linecol(st, &seclc[secn][1]); secn++; i += pl; st = i; continue; } if (i >= n) break; i++; }
	memcpy(sec[secn], txt + st, n - st); sec[secn][n - st] = 0; seclc[secn][0] = linecol(st, &seclc[secn][1]); secn++;
	if (!(flags & M_PARSER_SPLIT_FLAG_DONT_TRIM_LAST) && sec[secn - 1][0] == 0) secn--;
	constbuf = (unsigned char *)hx_dup(txt, n); if (isdyn) { p = M_parser_create(M_PARSER_FLAG_TRACKLINES); M_parser_append(p, constbuf, n); } else p = M_parser_create_const(constbuf, n, M_PARSER_FLAG_TRACKLINES);
	M_parser_consume(p, base);
	ps = v == 3 ? M_parser_split(p, ',', max, (M_uint32)flags, &num) : v == 1 ? M_parser_split_str_pat(p, pt[v], max, (M_uint32)flags, &num) : M_parser_split_pat(p, U(pt[v]), pl, max, (M_uint32)flags, &num);
	if ((flags & M_PARSER_SPLIT_FLAG_NODELIM_ERROR) && nodelim) { mc_check(ps == NULL && num == 0 && M_parser_len(p) == n - base, "%s: no delimiter but result %d (%zu left)", when, ps != NULL, M_parser_len(p)); }
	else { mc_check(ps != NULL && num == secn, "%s: %zu sections, expected %zu", when, num, secn); mc_check(M_parser_len(p) == 0, "%s: input not consumed", when);
		for (i = 0; i < num; i++) { mc_check(M_parser_len(ps[i]) == strlen(sec[i]) && (sec[i][0] == 0 || !memcmp(M_parser_peek(ps[i]), sec[i], strlen(sec[i]))), "%s: section %zu is %s, expected %s", when, i, mc_esc(M_parser_peek(ps[i]), M_parser_len(ps[i])), mc_escs(sec[i])); if (sec[i][0]) mc_check(M_parser_current_line(ps[i]) == seclc[i][0] && M_parser_current_column(ps[i]) == seclc[i][1], "%s: section %zu at %zu:%zu, expected %zu:%zu", when, i, M_parser_current_line(ps[i]), M_parser_current_column(ps[i]), seclc[i][0], seclc[i][1]); } }
	M_parser_split_free(ps, num); M_parser_destroy(p); free(constbuf);
}
static void run_num(void)
{
	int f = mc_choose(4); unsigned char b[24]; size_t n, len, i; M_int64 sv = 77; M_uint64 uv = 77; M_bool r, ok; mc_case();
	if (f < 2) { static const unsigned char vals[] = { 0, 1, 0x7f, 0x80, 0xff }; unsigned long long want = 0; n = (size_t)mc_choose(10); len = (size_t)mc_choose(10); int le = mc_choose(2), a = mc_choose(5), z = mc_choose(5), m = mc_choose(5);
		for (i = 0; i < n; i++) b[i] = vals[i == 0 ? a : i + 1 == n ? z : (m + i) % 5]; p = M_parser_create_const((unsigned char *)hx_dup(b, n), n, 0); ok = len >= 1 && len <= 8 && len <= n; if (ok) for (i = 0; i < len; i++) want = want << 8 | b[le ? len - 1 - i : i];
		snprintf(when, sizeof(when), "binary integer %d le %d of %zu in %s", f, le, len, mc_esc(b, n)); constbuf = (unsigned char *)M_parser_peek(p); r = f ? M_parser_read_uint(p, le ? M_PARSER_INTEGER_LITTLEENDIAN : M_PARSER_INTEGER_BIGENDIAN, len, 0, &uv) : M_parser_read_int(p, le ? M_PARSER_INTEGER_LITTLEENDIAN : M_PARSER_INTEGER_BIGENDIAN, len, 0, &sv); if (!f) uv = (M_uint64)sv;
		mc_check(r == ok && (!ok || uv == want) && M_parser_len(p) == n - (ok ? len : 0), "%s: status %d value %llx, expected %d %llx", when, r, uv, ok, want); free(constbuf); M_parser_destroy(p); }
	else if (f == 2) { char t[16]; unsigned long long want = 0; int neg = 0, sgn = mc_choose(2), base = mc_choose(2) ? 16 : 10; size_t end, dg; n = hx_str(t, 5, "10-a g", 6); len = (size_t)mc_choose(7); end = len ? len : n; ok = len <= n && n > 0;
		snprintf(when, sizeof(when), "ascii integer '%s' base %d length %zu signed %d", t, base, len, sgn); i = 0; if (ok) { while (i < end && t[i] == ' ') i++; if (i < end && t[i] == '-') { neg = 1; i++; } for (dg = 0; i < end; i++, dg++) { int d = t[i] == '1' ? 1 : t[i] == '0' ? 0 : t[i] == 'a' && base == 16 ? 10 : -1; if (d < 0) break; want = want * (unsigned)base + (unsigned)d; } if (dg == 0) ok = 0; if (len && i != end) ok = 0; if (neg && !sgn) mc_prune(); }
		constbuf = (unsigned char *)hx_dup(t, n); p = M_parser_create_const(constbuf, n, 0); r = sgn ? M_parser_read_int(p, M_PARSER_INTEGER_ASCII, len, (unsigned char)base, &sv) : M_parser_read_uint(p, M_PARSER_INTEGER_ASCII, len, (unsigned char)base, &uv); if (sgn) uv = (M_uint64)sv; if (neg) want = 0 - want;
		mc_check(r == ok && (!ok || uv == want) && M_parser_len(p) == n - (ok ? i : 0), "%s: status %d value %lld left %zu, expected %d %lld %zu", when, r, (long long)uv, M_parser_len(p), ok, (long long)want, n - (ok ? i : 0)); free(constbuf); M_parser_destroy(p); }
	else { static const char *const ds[] = { "00", "42", "0199", "18446744073709551615", "18446744073709551616", "99999999999999999999", "28446744073709551615", "19999999999999999999", "10000000000000000000", "09223372036854775808", "999999999999999999" }; const char *d = ds[mc_choose(HX_N(ds))]; unsigned long long want = 0; int over = 0; len = strlen(d) / 2 + (size_t)mc_choose(2); n = strlen(d) / 2; for (i = 0; d[i]; i++) { if (want > (~0ULL - (unsigned)(d[i] - '0')) / 10) over = 1; want = want * 10 + (unsigned)(d[i] - '0'); } for (i = 0; i < n; i++) b[i] = (unsigned char)((d[2 * i] - '0') << 4 | (d[2 * i + 1] - '0'));
		ok = len <= n && !over; p = M_parser_create_const(b, n, 0); r = M_parser_read_uint_bcd(p, len, &uv); mc_check(r == ok && (!ok || uv == want) && M_parser_len(p) == (ok ? 0 : n), "bcd %s length %zu: status %d value %llu", d, len, r, (unsigned long long)uv); M_parser_destroy(p); }
}
static void run_frame(void)
{
	char t[16]; size_t n = hx_str(t, (size_t)mc_param("frame", 6, 8), "\x02\x03" "a\x01" "b", 5), i, e; int inc = mc_choose(4), exp; M_parser_t *q = NULL; unsigned char lrc = 0; M_PARSER_FRAME_ERROR r; mc_case();
	for (e = 1; e < n && t[e] != 3; e++) ; exp = n < 4 ? M_PARSER_FRAME_ERROR_INVALID : t[0] != 2 ? M_PARSER_FRAME_ERROR_NO_STX : e >= n ? M_PARSER_FRAME_ERROR_NO_ETX : e + 1 >= n ? M_PARSER_FRAME_ERROR_NO_LRC : M_PARSER_FRAME_ERROR_SUCCESS;
	if (exp == 0) { for (i = inc & M_PARSER_FRAME_STX ? 0 : 1; i < e + (inc & M_PARSER_FRAME_ETX ? 1 : 0); i++) lrc ^= (unsigned char)t[i]; if (mc_choose(2)) t[e + 1] = (char)lrc; if ((unsigned char)t[e + 1] != lrc) exp = M_PARSER_FRAME_ERROR_LRC_CALC_FAILED; }
	snprintf(when, sizeof(when), "frame %s flags %d", mc_esc(t, n), inc); constbuf = (unsigned char *)hx_dup(t, n); p = M_parser_create_const(constbuf, n, 0); r = M_parser_read_stxetxlrc_message(p, &q, (M_uint32)inc);
	mc_check((int)r == exp, "%s: result %d, expected %d", when, r, exp);
	if (exp == 0 || exp == M_PARSER_FRAME_ERROR_LRC_CALC_FAILED) mc_check(M_parser_len(q) == e - 1 && (e == 1 || !memcmp(M_parser_peek(q), t + 1, e - 1)) && M_parser_len(p) == n - e - 2, "%s: message or rest wrong", when); else mc_check(M_parser_len(p) == n, "%s: moved", when);
	M_parser_destroy(q); M_parser_destroy(p); free(constbuf);
}
static int len1, len2;
void mc_init(void) { mc_leakcheck = 1; len1 = (int)mc_param("len1", 5, 6); len2 = (int)mc_param("len2", 2, 3); }
void mc_run(void) { switch (mc_choose(6)) { case 0: run_ops(2, len2); break; case 5: run_ops(1, len1); break; case 1: run_window(); break; case 2: run_split(); break; case 3: run_num(); break; case 4: run_frame(); break; } }
