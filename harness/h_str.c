// MODE: seq
// MODS: base
/* C31: string and memory functions against definitions written from their documentation. */
#include "hx.h"
const char *mc_name = "h_str";
#define HI ((char)0xE9)
static int ws(char c) { return c == ' ' || (c >= '\t' && c <= '\r'); }
static char lo(char c) { return (char)(c >= 'A' && c <= 'Z' ? c + 32 : c); }
static char up(char c) { return (char)(c >= 'a' && c <= 'z' ? c - 32 : c); }
/* got (heap, M_free'd) must equal want */
static void eqf(const char *fn, const char *arg, char *got, const char *want)
{
	mc_check((got == NULL) == (want == NULL), "%s(%s): %s, expected %s", fn, arg, got ? mc_escs(got) : "NULL", want ? mc_escs(want) : "NULL");
	if (got) mc_check(strcmp(got, want) == 0, "%s(%s): '%s', expected '%s'", fn, arg, mc_escs(got), mc_escs(want));
	M_free(got);
}
static void eqs(const char *fn, const char *arg, const char *got, const char *want) { mc_check(got && strcmp(got, want) == 0, "%s(%s): '%s', expected '%s'", fn, arg, got ? mc_escs(got) : "NULL", mc_escs(want)); }
static void rtrimset(char *out, const char *s, size_t n) { size_t b = 0; while (b < n && ws(s[b])) b++; while (n > b && ws(s[n - 1])) n--; memcpy(out, s + b, n - b); out[n - b] = 0; }
static size_t bl(const char *s, size_t max) { size_t n = strlen(s); return n < max ? n : max; }
static void title(char *o) { int w = 1; for (; *o; o++) { *o = w ? up(*o) : lo(*o); w = ws(*o); } }
static void run_single(void)
{
	static const char al[] = { 'a', 'Z', ' ', '\n', HI, '1' }; char s[16], w[16], a[64]; size_t n = hx_str(s, (size_t)mc_param("len", 5, 6), al, sizeof(al)), max = (size_t)mc_choose((int)n + 2), i, j, m; char *d, *z; mc_case();
	m = bl(s, max); snprintf(a, sizeof(a), "'%s', max %zu", mc_esc(s, n), max);
#define Z() (z = hx_dup(s, n + 1))
#define REST() strcpy(w, s)
	mc_check(M_str_len(s) == n && M_str_len_max(s, max) == m, "length of %s", a); { char *x = hx_dup(s, m); mc_check(M_str_len_max(x, m) == m, "bounded length of unterminated %s", a); d = M_strdup_max(x, m); memcpy(w, s, m); w[m] = 0; eqf("strdup_max", a, d, w); free(x); }
	mc_check(M_str_isempty(s) == (n == 0), "isempty(%s)", a);
	REST(); d = M_strdup(s); eqf("strdup", a, d, w); for (i = 0; i < n; i++) w[i] = lo(s[i]); eqf("strdup_lower", a, M_strdup_lower(s), w); for (i = 0; i < n; i++) w[i] = up(s[i]); eqf("strdup_upper", a, M_strdup_upper(s), w);
	for (i = 0; i < m; i++) w[i] = lo(s[i]); w[m] = 0; eqf("strdup_lower_max", a, M_strdup_lower_max(s, max), w); for (i = 0; i < m; i++) w[i] = up(s[i]); eqf("strdup_upper_max", a, M_strdup_upper_max(s, max), w);
	REST(); for (i = 0; i < m; i++) w[i] = lo(s[i]); eqs("lower_max", a, M_str_lower_max(Z(), max), w); free(z); REST(); for (i = 0; i < m; i++) w[i] = up(s[i]); eqs("upper_max", a, M_str_upper_max(Z(), max), w); free(z);
	REST(); title(w); eqf("strdup_title", a, M_strdup_title(s), w); memcpy(w, s, m); w[m] = 0; title(w); eqf("strdup_title_max", a, M_strdup_title_max(s, max), w); strcpy(w + m, s + m); eqs("title_max", a, M_str_title_max(Z(), max), w); free(z);
	rtrimset(w, s, n); eqf("strdup_trim", a, M_strdup_trim(s), w); eqs("trim", a, M_str_trim(Z()), w); free(z); rtrimset(w, s, m); eqf("strdup_trim_max", a, M_strdup_trim_max(s, max), w); if (max) { eqs("trim_max", a, M_str_trim_max(Z(), max), w); free(z); }
	for (i = j = 0; i < n; i++) if (!ws(s[i])) w[j++] = s[i]; w[j] = 0; eqs("delete_spaces", a, M_str_delete_spaces(Z()), w); free(z);
	for (i = j = 0; i < n; i++) if (s[i] != '\n' && s[i] != '\r') w[j++] = s[i]; w[j] = 0; eqs("delete_newlines", a, M_str_delete_newlines(Z()), w); free(z);
	for (i = 0; i <= 6; i++) { char c = i == 6 ? 'x' : al[i], *q; REST(); for (j = 0; j < n; j++) if (w[j] == c) w[j] = '#'; eqs("replace_chr", a, M_str_replace_chr(Z(), c, '#'), w); free(z);
		mc_check(M_str_chr(s, c) == strchr(s, c) && M_str_rchr(s, c) == strrchr(s, c), "chr/rchr(%s)", a); mc_check(M_mem_chr(s, (M_uint8)c, n) == memchr(s, c, n), "mem_chr(%s)", a); for (j = m = 0; j < n; j++) m += s[j] == c; mc_check(M_mem_count(s, n, (M_uint8)c) == m, "mem_count(%s)", a);
		z = Z(); q = M_str_split_on_char(z, c); { char *f = strchr(s, c); mc_check(q == z + (f ? f - s + 1 : (long)n) && (!f || (z[f - s] == 0 && !memcmp(z, s, (size_t)(f - s)))) && !strcmp(q, f ? f + 1 : ""), "split_on_char(%s, '%s')", a, mc_esc(&c, 1)); } free(z); }
	{ char *x = hx_dup(s, n); unsigned char l = 0; for (i = 0; i < n; i++) l ^= (unsigned char)s[i]; mc_check(M_mem_calc_lrc(x, n) == l, "LRC of %s", a); free(x); }
	{ char *x = hx_dup(s, n); size_t p, q; for (p = 0; p <= n; p++) for (q = 0; q <= n; q++) { M_bool r = M_mem_swap_bytes((M_uint8 *)x, n, p, q); if (p < n && q < n) { mc_check(r && x[p] == s[q] && x[q] == s[p], "swap_bytes(%s, %zu, %zu)", a, p, q); x[p] = s[p]; x[q] = s[q]; } else mc_check(!r, "swap_bytes(%s, %zu, %zu) accepted", a, p, q); } mc_check(memcmp(x, s, n) == 0, "swap_bytes touched other bytes"); free(x); }
}
static int patok(const char *p)
{
	for (; *p; p++) { if (*p == '\\') { p++; if (!*p || !strchr("[]?*\\", *p)) return 0; } else if (*p == ']') return 0; else if (*p == '[') { int k = 0; p++; if (*p == '!') p++; for (; *p && (*p != ']' || k == 0); p++, k++) if (*p == '\\') { p++; if (!*p || !strchr("[]?*\\", *p)) return 0; } if (!*p) return 0; } }
	return 1;
}
static int cc(char a, char b, int ci) { return ci ? lo(a) == lo(b) : a == b; }
/* 1 match, 0 no match, -1 not judged */
static int patm(const char *p, const char *s, int ci)
{
	if (!*p) return !*s;
	if (*p == '*') { int r = 0; for (;; s++) { int x = patm(p + 1, s, ci); if (x < 0) return x; r |= x; if (!*s) return r; } }
	if (*p == '[') { int neg = 0, hit = 0, k = 0; const char *b; char c = *s; p++; if (*p == '!') { neg = 1; p++; } b = p;
		for (; *p != ']' || k == 0; p++, k++) { char x = *p; if (x == '\\') { p++; if (p[1] == '-' && p[2] != ']') return -1; if (cc(c, *p, ci)) hit = 1; continue; }
			if (p[1] == '-' && p[2] && p[2] != ']') { char y = p[2]; if (y == '\\' || (unsigned char)x > (unsigned char)y || p[3] == '-' || x == '-' || y == '-') return -1; if (ci) { int q; for (q = 0; q < 3; q++) { unsigned char v = (unsigned char)(q == 0 ? c : q == 1 ? lo(c) : up(c)); if (v >= (unsigned char)x && v <= (unsigned char)y) hit = 1; } if (cc(c, x, 1) || cc(c, y, 1)) hit = 1; } else if ((unsigned char)c >= (unsigned char)x && (unsigned char)c <= (unsigned char)y) hit = 1; p += 2; continue; }
			if (x == '-' && k && p[1] != ']') return -1; if (cc(c, x, ci)) hit = 1; }
		(void)b; if (!c) return 0; if (hit == neg) return 0; return patm(p + 1, s + 1, ci); }
	if (!*s) return 0;
	if (*p == '?') return patm(p + 1, s + 1, ci);
	if (*p == '\\') { p++; return cc(*p, *s, 0) ? patm(p + 1, s + 1, ci) : 0; }
	return cc(*p, *s, ci) ? patm(p + 1, s + 1, ci) : 0;
}
static void run_pat(void)
{
	static const char *const toks[] = { "a", "B", "*", "?", "[", "]", "!", "-", "\\", "z", "\xE9" }; static const char sa[] = { 'a', 'B', 'b', ']', '-', '\\', '*', 'z', HI, '!' }; char p[16], s[8], a[64]; size_t n; int ci = mc_choose(2), r; hx_toks(p, sizeof(p), (size_t)mc_param("pat", 5, 6), toks, HX_N(toks)); if (!patok(p)) mc_prune();
	n = strlen(p) <= 4 ? 3 : 2; n = hx_str(s, n, sa, sizeof(sa)); mc_case(); snprintf(a, sizeof(a), "'%s' on '%s'", mc_escs(p), mc_escs(s)); r = patm(p, s, ci); if (r < 0) return; mc_check((ci ? M_str_case_pattern_match(p, s) : M_str_pattern_match(p, s)) == r, "pattern %s%s: expected %s", a, ci ? " case insensitive" : "", r ? "match" : "no match");
}
static void run_pair(void)
{
	static const char al[] = { 'a', 'A', 'b', HI }; char a[16], b[16], w[128], t[64]; size_t na = hx_str(a, (size_t)mc_param("hay", 5, 6), al, 4), nb = hx_str(b, 3, al, 4), max, i, j; int eq, ceq; const char *p; long cp = -1; mc_case(); snprintf(t, sizeof(t), "'%s', '%s'", mc_esc(a, na), mc_esc(b, nb));
	eq = na == nb && !memcmp(a, b, na); ceq = na == nb; for (i = 0; i < na && i < nb; i++) if (lo(a[i]) != lo(b[i])) ceq = 0; mc_check(M_str_eq(a, b) == eq && M_str_caseeq(a, b) == ceq, "eq(%s)", t);
	for (max = 0; max <= 7; max++) { size_t x = bl(a, max), y = bl(b, max); int e = x == y, ce = x == y, c; for (i = 0; i < x && i < y; i++) { if (a[i] != b[i]) e = 0; if (lo(a[i]) != lo(b[i])) ce = 0; } mc_check(M_str_eq_max(a, b, max) == e && M_str_caseeq_max(a, b, max) == ce, "eq_max(%s, %zu)", t, max); c = strncmp(a, b, max); { int g = M_str_cmpsort_max(a, b, max); mc_check((g > 0) - (g < 0) == (c > 0) - (c < 0), "cmpsort_max(%s, %zu)", t, max); g = M_str_casecmpsort_max(a, b, max); mc_check((g == 0) == ce, "casecmpsort_max(%s, %zu)", t, max); } }
	{ int g = M_str_cmpsort(a, b), c = strcmp(a, b), h = M_str_casecmpsort(a, b), h2 = M_str_casecmpsort(b, a); mc_check((g > 0) - (g < 0) == (c > 0) - (c < 0) && (h == 0) == ceq && (h > 0) == (h2 < 0), "cmpsort(%s)", t); }
	{ int e = nb <= na && !memcmp(a + na - nb, b, nb), st = nb <= na && !memcmp(a, b, nb), ce = nb <= na, cs = nb <= na; if (nb <= na) for (i = 0; i < nb; i++) { if (lo(a[na - nb + i]) != lo(b[i])) ce = 0; if (lo(a[i]) != lo(b[i])) cs = 0; } mc_check(M_str_eq_end(a, b) == e && M_str_caseeq_end(a, b) == ce && M_str_eq_start(a, b) == st && M_str_caseeq_start(a, b) == cs, "start/end(%s)", t); }
	p = strstr(a, b); mc_check(M_str_str(a, b) == p, "str(%s)", t); if (na) { for (i = 0; i + nb <= na && cp < 0; i++) { for (j = 0; j < nb && lo(a[i + j]) == lo(b[j]); j++) ; if (j == nb) cp = (long)i; } mc_check(M_str_casestr_pos(a, b) == cp && M_str_casestr(a, b) == (cp < 0 ? NULL : a + cp), "casestr(%s): %ld, expected %ld", t, (long)M_str_casestr_pos(a, b), cp); }
	{ char *x = hx_dup(a, na), *y = hx_dup(b, nb); size_t idx = 99, last = 99; int f = nb && p; if (nb) { for (i = 0; i + nb <= na; i++) if (!memcmp(a + i, b, nb)) last = i; mc_check(M_mem_mem(x, na, y, nb) == (f ? x + (p - a) : NULL) && M_mem_contains(x, na, y, nb) == f && M_mem_mempos(x, na, y, nb, &idx) == f && idx == (f ? (size_t)(p - a) : 99), "mem_mem(%s)", t); mc_check(M_mem_rmem(x, na, y, nb) == (f ? x + last : NULL), "mem_rmem(%s)", t); } if (na == nb) mc_check(M_mem_eq(x, y, na) == eq, "mem_eq(%s)", t); { int g = M_mem_cmpsort(x, na, y, nb); int c = na != nb ? (na < nb ? -1 : 1) : memcmp(a, b, na); mc_check((g > 0) - (g < 0) == (c > 0) - (c < 0), "mem_cmpsort(%s): %d", t, g); } free(x); free(y); }
	{ size_t k = strcspn(a, b), l = strspn(a, b); if (na && nb) mc_check(M_str_find_first_from_charset(a, b) == (k < na ? a + k : NULL) && M_str_ischarset(a, b) == (l == na) && M_str_isnotcharset(a, b) == (k == na), "charset(%s)", t); mc_check(M_str_find_first_not_from_charset(a, b) == (l < na ? a + l : NULL), "not from charset(%s)", t); }
	for (j = i = 0; i < na; i++) { if (nb && memchr(b, a[i], nb)) { memcpy(w + j, "<A>", 3); j += 3; } else w[j++] = a[i]; } w[j] = 0; eqf("replace_charset", t, M_strdup_replace_charset(a, (unsigned char *)b, nb, "<A>"), w);
	for (j = i = 0; i < na; ) { if (nb && i + nb <= na && !memcmp(a + i, b, nb)) { memcpy(w + j, "xay", 3); j += 3; i += nb; } else w[j++] = a[i++]; } w[j] = 0; eqf("replace_str", t, M_strdup_replace_str(a, b, "xay"), w);
	for (j = i = 0; i < na; ) { if (nb && i + nb <= na && !memcmp(a + i, b, nb)) i += nb; else w[j++] = a[i++]; } w[j] = 0; eqf("replace_str with nothing", t, M_strdup_replace_str(a, b, ""), w);
	for (max = 1; max <= 9; max++) { char *d = malloc(max); size_t sl; memset(d, 'Q', max); sl = na < max - 1 ? na : max - 1; mc_check(M_str_cpy(d, max, a) && !memcmp(d, a, sl) && d[sl] == 0, "cpy(%s, %zu)", t, max); for (i = 0; i <= na; i++) { char *u = hx_dup(a, i); size_t q = i < max - 1 ? i : max - 1; mc_check(M_str_cpy_max(d, max, u, i) && !memcmp(d, a, q) && d[q] == 0, "cpy_max(%s, %zu, %zu)", t, max, i); free(u); }
		if (nb < max) { M_bool r; strcpy(d, b); r = M_str_cat(d, max, a); if (na + nb < max) { snprintf(w, sizeof(w), "%s%s", b, a); mc_check(r && !strcmp(d, w), "cat(%s, %zu)", t, max); } else mc_check(!r && !strcmp(d, b), "cat(%s, %zu) without room", t, max); } free(d); }
}
static int unq(char *out, const char *s, char q, char e)	/* documented unquoting; returns 1 if it was quoted */
{
	char t[40]; size_t n, i, j; rtrimset(t, s, strlen(s)); n = strlen(t); if (n < 2 || t[0] != q || t[n - 1] != q) { strcpy(out, t); return 0; }
	for (i = 1, j = 0; i < n - 1; i++) { if (t[i] == e && i + 1 < n - 1 && (t[i + 1] == e || t[i + 1] == q)) i++; out[j++] = t[i]; } out[j] = 0; return 1;
}
static const char QS[] = { '"', '\'', HI }, ES[] = { '\\', '"', HI };
static void run_quote(void)
{
	static const char *const pairs[] = { "\"\\", "\"\"", "\xE9\xE8", "\xE9\xE9" }; const char *pr = pairs[mc_choose(4)]; char q = pr[0], e = pr[1], al[] = { 'a', ' ', q, e, ',' }, s[16], w[40], x[40], a[64], *z, *g; size_t n = hx_str(s, (size_t)mc_param("qlen", 5, 6), al, 5), i, j, max = (size_t)mc_choose((int)n + 2), m = bl(s, max); mc_case(); (void)QS; (void)ES;
	snprintf(a, sizeof(a), "'%s', quote '%s' escape '%s' max %zu", mc_esc(s, n), mc_esc(&q, 1), mc_esc(&e, 1), max);
	unq(w, s, q, e); eqf("strdup_unquote", a, M_strdup_unquote(s, (unsigned char)q, (unsigned char)e), w); z = hx_dup(s, n + 1); eqs("unquote", a, M_str_unquote(z, (unsigned char)q, (unsigned char)e), w); free(z);
	memcpy(x, s, m); x[m] = 0; unq(w, x, q, e); eqf("strdup_unquote_max", a, M_strdup_unquote_max(s, (unsigned char)q, (unsigned char)e, max), w); z = hx_dup(s, n + 1); g = M_str_unquote_max(z, (unsigned char)q, (unsigned char)e, max); if (max) eqs("unquote_max", a, g, w); else eqs("unquote_max of nothing", a, g, s); free(z);
	for (j = 0, i = 0, w[j++] = q; i < m; i++) { if (s[i] == q || s[i] == e) w[j++] = e; w[j++] = s[i]; } w[j++] = q; w[j] = 0; if (n == 0) w[0] = 0; g = M_str_quote_max(s, (unsigned char)q, (unsigned char)e, max); if (n && m) { unq(x, g, q, e); mc_check(strlen(x) == m && !memcmp(x, s, m), "oracle"); } eqf("quote_max", a, g, w);
	g = M_str_quote(s, (unsigned char)q, (unsigned char)e); if (n) { char *y = M_strdup_unquote(g, (unsigned char)q, (unsigned char)e); eqf("unquote(quote())", a, y, s); } M_free(g);
	{ int need = n && (s[0] == ' ' || s[n - 1] == ' ' || strchr(s, ',') || strchr(s, q)); g = NULL; mc_check(M_str_quote_if_necessary(&g, s, (unsigned char)q, (unsigned char)e, ',') == need && (g != NULL) == need, "quote_if_necessary(%s)", a); if (g) { for (j = 0, i = 0, w[j++] = q; i < n; i++) { if (s[i] == q || s[i] == e) w[j++] = e; w[j++] = s[i]; } w[j++] = q; w[j] = 0; eqf("quote_if_necessary", a, g, w); } }
}
static int escd(const char *s, size_t i, char e) { int k = 0; if (!e) return 0; while (i && s[i - 1] == e) { k = !k; i--; } return k; }
static void run_brackets(void)
{
	static const char *const pr[] = { "\"\\", "\"\"", "\"", "\xE9\xE8" }; const char *qe = pr[mc_choose(4)]; char q = qe[0], e = qe[1], al[] = { 'a', '(', ')', q, '\\', (char)0xE8 }, s[16], r[20], k[20], a[64]; size_t n = hx_str(s, (size_t)mc_param("blen", 6, 7), al, qe[1] == (char)0xE8 ? 6 : 5), i, j = 0, l = 0; int dep = 0, inq = 0, bad = 0, quoted = mc_choose(3); mc_case();
	snprintf(a, sizeof(a), "'%s', quote '%s' escape '%s'", mc_esc(s, n), mc_esc(&q, 1), mc_esc(&e, e ? 1 : 0));
	if (quoted == 2) {	/* quoted sections */
		for (i = 0; i < n; i++) {
			if (s[i] == q && q == e && inq && s[i + 1] == q) { k[l++] = q; i++; continue; }
			if (s[i] == q && (q == e || !escd(s, i, e))) { inq = !inq; continue; }
			if (s[i] == e && !escd(s, i, e) && (s[i + 1] == e || s[i + 1] == q) && e) { i++; }
			if (inq) k[l++] = s[i]; else r[j++] = s[i]; }
		r[j] = k[l] = 0; bad = inq || !n; eqf("remove_quoted", a, M_str_remove_quoted(s, q, e), bad ? NULL : r); eqf("keep_quoted", a, M_str_keep_quoted(s, q, e), bad ? NULL : k); return; }
	if (quoted && q == e) mc_prune();
	for (i = 0; i < n && !bad; i++) { if (quoted && s[i] == q && !escd(s, i, e)) inq = !inq; if (s[i] == '(' && !inq) { if (dep++) k[l++] = s[i]; } else if (s[i] == ')' && !inq) { if (dep == 0) bad = 1; else if (--dep) k[l++] = s[i]; } else if (dep) k[l++] = s[i]; else r[j++] = s[i]; }
	if (dep || inq || !n) bad = 1; r[j] = k[l] = 0;
	if (quoted) { eqf("remove_bracketed_quoted", a, M_str_remove_bracketed_quoted(s, '(', ')', q, e), bad ? NULL : r); eqf("keep_bracketed_quoted", a, M_str_keep_bracketed_quoted(s, '(', ')', q, e), bad ? NULL : k); }
	else { eqf("remove_bracketed", a, M_str_remove_bracketed(s, '(', ')'), bad ? NULL : r); eqf("keep_bracketed", a, M_str_keep_bracketed(s, '(', ')'), bad ? NULL : k); }
}
static void cmp_parts(const char *fn, const char *a, char **g, size_t gn, const size_t *gl, char (*w)[32], const size_t *wl, size_t wn)
{
	size_t i; mc_check(gn == wn && (g == NULL) == (wn == 0), "%s(%s): %zu parts, expected %zu", fn, a, gn, wn);
	for (i = 0; i < wn; i++) { if (gl) mc_check(gl[i] == wl[i], "%s(%s): part %zu has length %zu, expected %zu", fn, a, i, gl[i], wl[i]); mc_check(memcmp(g[i], w[i], wl[i]) == 0 && g[i][wl[i]] == 0, "%s(%s): part %zu is '%s', expected '%s'", fn, a, i, mc_escs(g[i]), mc_esc(w[i], wl[i])); }
}
static void run_explode(void)
{
	static const char *const cf[] = { ",\"\\", ",\"\"", "\xFF\xFE\xFD", ",\"", "," }; const char *c = cf[mc_choose(5)]; char d = c[0], q = c[1], e = q ? c[2] : 0, al[] = { 'a', d, q ? q : '"', e && e != q ? e : '\\', 0 }, s[16], w[16][32], a[80]; size_t wl[16], wn = 0, n = hx_str(s, (size_t)mc_param("elen", 6, 7), al, 5), i, b = 0, gn = 77, *gl = NULL, ms = (size_t)mc_choose(4), st = 0; char **g, *x = hx_dup(s, n); int inq = 0; mc_case();
	snprintf(a, sizeof(a), "'%s', delim '%s' quote '%s' escape '%s' max %zu", mc_esc(s, n), mc_esc(&d, 1), mc_esc(&q, q ? 1 : 0), mc_esc(&e, e ? 1 : 0), ms);
	if (n) { for (i = 0; i <= n; i++) { if (i < n && q && s[i] == q && !(q != e && escd(s, i, e))) inq = !inq; if (i == n || (s[i] == d && !inq && (!ms || wn + 1 < ms))) { memcpy(w[wn], s + b, i - b); wl[wn++] = i - b; b = i + 1; } } }
	g = M_str_explode_quoted((unsigned char)d, x, n, (unsigned char)q, (unsigned char)e, ms, &gn, &gl); cmp_parts("explode_quoted", a, g, gn, gl, w, wl, wn); M_free(gl); M_str_explode_free(g, gn);
	if (!memchr(s, 0, n)) { char *z = hx_dup(s, n + 1); g = M_str_explode_str_quoted((unsigned char)d, z, (unsigned char)q, (unsigned char)e, ms, &gn); cmp_parts("explode_str_quoted", a, g, gn, NULL, w, wl, wn); M_str_explode_free(g, gn); free(z); }
	if (ms == 0 && !q) { wn = 0; if (n) for (i = 0; i <= n; i++) if (i == n || s[i] == d) { memcpy(w[wn], s + st, i - st); wl[wn++] = i - st; st = i + 1; } gl = NULL; g = M_str_explode((unsigned char)d, x, n, &gn, &gl); cmp_parts("explode", a, g, gn, gl, w, wl, wn); M_free(gl); M_str_explode_free(g, gn); g = M_str_explode((unsigned char)d, x, n, &gn, NULL); cmp_parts("explode without lengths", a, g, gn, NULL, w, wl, wn); M_str_explode_free(g, gn); }
	free(x);
}
static void run_join(void)
{
	static const char *const cf[] = { ",\"\\", ",\"\"", "\xFF\xFE\xFD" }; const char *c = cf[mc_choose(3)]; char d = c[0], q = c[1], e = c[2], al[] = { 'a', d, q, e }, s[3][8], w[80], a[80], *in[3], *g, **p; size_t k = 1 + (size_t)mc_choose(3), i, j, l = 0, gn = 0; int always = mc_choose(2); mc_case();
	for (i = 0; i < k; i++) { size_t n = hx_str(s[i], k == 3 ? 2 : 3, al, 4); int res = 0; if (n == 0 && mc_choose(2)) in[i] = NULL; else in[i] = hx_dup(s[i], n + 1); for (j = 0; j < n; j++) res |= s[i][j] == d || s[i][j] == q || s[i][j] == e; if (i) w[l++] = d; if (always || res) w[l++] = q; for (j = 0; j < n; j++) { if (s[i][j] == q || s[i][j] == e) w[l++] = e; w[l++] = s[i][j]; } if (always || res) w[l++] = q; } w[l] = 0;
	snprintf(a, sizeof(a), "'%s' %s %s", mc_escs(in[0]), k > 1 ? mc_escs(in[1]) : "", k > 2 ? mc_escs(in[2]) : "");
	g = M_str_implode((unsigned char)d, (unsigned char)q, (unsigned char)e, in, k, always ? M_TRUE : M_FALSE); mc_check(g ? !strcmp(g, w) : !*w, "implode(%s): '%s', expected '%s'", a, mc_escs(g), mc_escs(w));
	p = M_str_explode_str_quoted((unsigned char)d, g, (unsigned char)q, (unsigned char)e, 0, &gn); if (l) { mc_check(gn == k, "explode(implode(%s)) gives %zu parts", a, gn); for (i = 0; i < k; i++) { char *u = M_strdup_unquote(p[i], (unsigned char)q, (unsigned char)e); mc_check(!strcmp(u, s[i]), "explode(implode(%s)): part %zu is '%s'", a, i, mc_escs(u)); M_free(u); } } else mc_check(gn == 0 && !p, "explode of nothing");
	M_str_explode_free(p, gn); M_free(g); for (i = 0; i < k; i++) free(in[i]);
}
static void run_ints(void)
{
	static const char al[] = { '1', '-', ',', ' ' }; static const int vals[] = { 0, 1, -1, 2147483647, -2147483647 - 1, 42 }; mc_case();
	if (mc_choose(2)) { int v[4], *g; size_t k = 1 + (size_t)mc_choose(4), i, gn = 0; char *t; for (i = 0; i < k; i++) v[i] = vals[mc_choose(6)]; t = M_str_implode_int('|', v, k); g = M_str_explode_int('|', t, &gn); mc_check(gn == k && !memcmp(g, v, k * sizeof(*v)), "explode_int(implode_int()) of '%s'", t); M_free(g); M_free(t); }
	else { char s[12]; size_t n = hx_str(s, 7, al, 4), i, b = 0, wn = 0, gn = 77; int w[12], *g; if (n) for (i = 0; i <= n; i++) if (i == n || s[i] == ',') { char p[12]; rtrimset(p, s + b, i - b); b = i + 1; if (*p) w[wn++] = M_str_to_int32(p); } g = M_str_explode_int(',', s, &gn); mc_check(gn == wn && (g != NULL) == (wn > 0) && !memcmp(g ? g : w, w, wn * sizeof(*w)), "explode_int('%s')", s); M_free(g); }
}
static void run_lines(void)
{
	static const char al[] = { 'a', 'b', ' ', '\n' }; char s[16], w[16][32], a[64]; size_t wl[16], wn = 0, n = hx_str(s, (size_t)mc_param("llen", 7, 8), al, 4), ml = 1 + (size_t)mc_choose(4), mcx = 1 + (size_t)mc_choose(4), p = 0, gn = 0; int tr = mc_choose(2); char **g; mc_case();
	snprintf(a, sizeof(a), "'%s', %zu lines of %zu, truncate %d", mc_esc(s, n), ml, mcx, tr);
	for (;;) { size_t k, e; while (p < n && ws(s[p])) p++; if (p == n || wn == ml) break; if (n - p <= mcx) k = n - p; else { for (k = mcx; k && !ws(s[p + k]); k--) ; if (!k) k = mcx; } e = k; while (e && ws(s[p + e - 1])) e--; memcpy(w[wn], s + p, e); wl[wn++] = e; p += k; }
	if (!tr && p < n) wn = 0; { char *z = hx_dup(s, n + 1); g = M_str_explode_lines(ml, mcx, z, tr ? M_TRUE : M_FALSE, &gn); cmp_parts("explode_lines", a, g, gn, NULL, w, wl, wn); M_str_explode_free(g, gn); free(z); }
}
static void run_justify(void)
{
	static const char src[] = "abcdefgh"; int type = mc_choose(12), over = mc_choose(3), null = mc_choose(2); size_t sl = (size_t)mc_choose(7), jl = (size_t)mc_choose(7), dl = (size_t)mc_choose(9), i, r, want; char *d = malloc(dl ? dl : 1), w[16], *x = hx_dup(src, sl), a[64]; int tleft = type == 0 || type == 1 || type == 7 || type == 8, fail; mc_case();
	if (null) sl = 0;
	snprintf(a, sizeof(a), "length %zu, type %d, to %zu, room %zu", sl, type, jl, dl); memset(d, 'Q', dl ? dl : 1);
	fail = jl >= dl || type == 11 || (sl > jl && (type == 4 || type == 5 || type == 10)); want = fail ? 0 : sl > jl ? jl : type == 6 || type == 7 ? sl : jl;
	{ size_t cl = sl > jl ? jl : sl, pad = want > cl ? want - cl : 0, l; const char *from = src + (sl > jl && tleft ? sl - jl : 0); l = type == 0 || type == 2 || type == 4 ? pad : type >= 8 ? (pad + 1) / 2 : 0; memset(w, '*', sizeof(w)); memcpy(w + l, from, cl); w[want] = 0; }
	if (over == 1 && !null && dl >= sl) { memcpy(d, src, sl); r = M_str_justify_max(d, dl, d, sl, (M_str_justify_type_t)type, '*', jl); }	/* in place */
	else if (over == 2) { if (null) { r = M_str_justify(d, dl, NULL, (M_str_justify_type_t)type, '*', jl); } else { char z[16]; char *h; memcpy(z, src, sl); z[sl] = 0; r = M_str_justify(d, dl, z, (M_str_justify_type_t)type, '*', jl); h = M_strdup_justify(z, (M_str_justify_type_t)type, '*', jl); if (sl == 0 || jl == 0 || type == 11 || (sl > jl && (type == 4 || type == 5 || type == 10))) mc_check(h == NULL, "strdup_justify(%s) not refused", a); else if (!fail) mc_check(h && !strcmp(h, w), "strdup_justify(%s): '%s', expected '%s'", a, mc_escs(h), w); M_free(h); } }
	else r = M_str_justify_max(d, dl, null ? NULL : x, sl, (M_str_justify_type_t)type, '*', jl);
	mc_check(r == want, "justify(%s) returned %zu, expected %zu", a, r, want); if (!fail) mc_check(!strcmp(d, w), "justify(%s): '%s', expected '%s'", a, mc_escs(d), w); else if (over != 1) for (i = 0; i < dl; i++) mc_check(d[i] == 'Q', "failed justify(%s) wrote to the destination", a);
	free(d); free(x);
}
static void addc(char *w, const char *t, size_t width, char pad) { size_t l = strlen(t), lp = width > l ? (width - l) / 2 : 0, rp = width > l + lp ? width - l - lp : 0; w += strlen(w); memset(w, pad, lp); strcpy(w + lp, t); w += lp + l; memset(w, pad, rp); w[rp] = 0; }
static void run_hexdump(void)
{
	int f = mc_choose(128); static const size_t bpl[] = { 0, 1, 2, 3, 7, 8, 9, 16, 17 }, dls[] = { 0, 1, 2, 8, 9, 16, 17, 33, 270 }; size_t b = bpl[mc_choose(9)], n = dls[mc_choose(9)], B = b ? b : 16, i, o, hexw, len = 4, sep = f & 64 ? 1 : 2; const char *pre = mc_choose(2) ? "> " : NULL, *nl = f & 16 ? "\r\n" : "\n"; unsigned char *data = malloc(n ? n : 1); char *w = calloc(1, 200 + (n + 1) * 120), *g, t[64]; mc_case();
	for (i = 0; i < n; i++) data[i] = (unsigned char)(i * 37 + 11);
	hexw = B * 3 - 1 + (f & 64 ? 0 : (B + 7) / 8 - 1); if (hexw < 3) hexw = 3;
	if (f & 4) { int k; for (k = 0; k < 2; k++) { strcat(w, pre ? pre : ""); if (!(f & 8)) { addc(w, k ? "" : f & 1 ? "LEN" : "ADDR", len, k ? '=' : ' '); addc(w, "", sep, ' '); } addc(w, k ? "" : "HEX", hexw, k ? '=' : ' '); if (!(f & 2)) { addc(w, "", sep, ' '); addc(w, k ? "" : "ASCII", B + 2, k ? '=' : ' '); } strcat(w, nl); } }
	for (o = 0; o < n; o += B) { strcat(w, pre ? pre : ""); if (!(f & 8)) { sprintf(t, f & 1 ? "%04zu" : f & 32 ? "%04zX" : "%04zx", o); strcat(w, t); addc(w, "", sep, ' '); } for (i = 0; i < B; i++) { if (i) addc(w, "", i % 8 == 0 ? sep : 1, ' '); if (o + i < n) { sprintf(t, f & 32 ? "%02X" : "%02x", data[o + i]); strcat(w, t); } else strcat(w, "  "); } if (!(f & 2)) { addc(w, "", sep, ' '); strcat(w, "|"); for (i = 0; i < B; i++) { t[0] = o + i < n ? (data[o + i] >= 0x20 && data[o + i] < 0x7f ? (char)data[o + i] : '.') : ' '; t[1] = 0; strcat(w, t); } strcat(w, "|"); } strcat(w, nl); }
	if (!(f & 8)) { strcat(w, pre ? pre : ""); sprintf(t, f & 1 ? "%04zu" : f & 32 ? "%04zX" : "%04zx", n); strcat(w, t); }
	g = M_str_hexdump(f, b, pre, data, n); mc_check((g ? strcmp(g, w) == 0 : !*w), "hexdump(flags %d, %zu per line, %zu bytes):\n%s\nexpected\n%s", f, b, n, g ? g : "NULL", w); M_free(g); free(w); free(data);
}
static void run_mem(void)
{
	int which = mc_choose(4); mc_case();
	if (which == 0) {	/* CRCs, bit by bit */
		M_uint8 d[4]; size_t n = 1 + (size_t)mc_choose(3), i; int k; M_uint8 c8 = 0; M_uint16 c16 = 0xFFFF; M_uint32 c32 = 0xFFFFFFFF; d[0] = (M_uint8)mc_choose(256); if (n > 1) d[1] = (M_uint8)mc_choose(256); if (n > 2) { static const M_uint8 v[] = { 0, 1, 0x80, 0xFF }; d[2] = v[mc_choose(4)]; }
		for (i = 0; i < n; i++) { c8 ^= d[i]; c16 ^= (M_uint16)(d[i] << 8); c32 ^= d[i]; for (k = 0; k < 8; k++) { c8 = (M_uint8)(c8 & 0x80 ? (c8 << 1) ^ 7 : c8 << 1); c16 = (M_uint16)(c16 & 0x8000 ? (c16 << 1) ^ 0x1021 : c16 << 1); c32 = c32 & 1 ? (c32 >> 1) ^ 0xEDB88320 : c32 >> 1; } }
		mc_check(M_mem_calc_crc8_ccitt(d, n) == c8 && M_mem_calc_crc16_ccitt(d, n) == c16 && M_mem_calc_crc32(d, n) == ~c32, "CRC of %zu bytes %02x %02x", n, d[0], d[1]);
	} else if (which == 1) {	/* character classes */
		int ci = mc_choose(256), l; char c = (char)ci, s[3]; s[0] = c; s[1] = 'A'; s[2] = 0;
#define ALP ((ci >= 'a' && ci <= 'z') || (ci >= 'A' && ci <= 'Z'))
#define DIG (ci >= '0' && ci <= '9')
#define CL(nm, def, Adef) do { int e = (def); mc_check(M_chr_is##nm(c) == e, "M_chr_is" #nm "(0x%02x)", ci); if (ci) { s[1] = 0; mc_check(M_str_is##nm(s) == e, "M_str_is" #nm "(0x%02x)", ci); s[1] = 'A'; mc_check(M_str_is##nm(s) == (e && Adef), "M_str_is" #nm "(0x%02x A)", ci); s[0] = 'A'; s[1] = c; mc_check(M_str_is##nm(s) == (e && Adef), "M_str_is" #nm "(A 0x%02x)", ci); s[0] = c; s[1] = 'A'; } } while (0)
#define CLM(nm, def, Adef) CL(nm, def, Adef); if (ci) for (l = 0; l <= 3; l++) mc_check(M_str_is##nm##_max(s, (size_t)l) == (l == 0 ? 1 : l == 1 ? (def) : (def) && Adef), "M_str_is" #nm "_max(0x%02x A, %d)", ci, l)
		CLM(alnum, ALP || DIG, 1); CLM(alnumsp, ALP || DIG || ci == ' ', 1); CLM(alpha, ALP, 1); CLM(alphasp, ALP || ci == ' ', 1); CLM(space, ci == ' ' || (ci >= 9 && ci <= 13), 0); CL(ascii, ci < 128, 1); CLM(graph, ci > 32 && ci < 127, 1); CLM(print, (ci >= 32 && ci < 127) || (ci >= 9 && ci <= 13), 1); CLM(hex, DIG || (ci >= 'a' && ci <= 'f') || (ci >= 'A' && ci <= 'F'), 1); CLM(dec, DIG || ci == '.', 0);
		mc_check(M_chr_isdigit(c) == DIG && M_chr_isblank(c) == (ci == ' ' || ci == 9) && M_chr_iscntrl(c) == (ci < 32 || ci == 127) && M_chr_islower(c) == (ci >= 'a' && ci <= 'z') && M_chr_isupper(c) == (ci >= 'A' && ci <= 'Z') && M_chr_ispunct(c) == (ci > 32 && ci < 127 && !ALP && !DIG), "character class of 0x%02x", ci); mc_check(M_chr_tolower(c) == lo(c) && M_chr_toupper(c) == up(c), "case of 0x%02x", ci); mc_check(M_chr_digit(c) == (DIG ? ci - '0' : -1) && M_chr_xdigit(c) == (DIG ? ci - '0' : ci >= 'a' && ci <= 'f' ? ci - 'a' + 10 : ci >= 'A' && ci <= 'F' ? ci - 'A' + 10 : -1), "digit 0x%02x", ci);
		{ unsigned char b[3]; size_t n = (size_t)mc_choose(4), i; int e; b[0] = (unsigned char)ci; b[1] = (unsigned char)(mc_choose(2) ? 'x' : 0); b[2] = (unsigned char)(mc_choose(2) ? 'y' : 0); e = n && b[n - 1] == 0; for (i = 0; e && i + 1 < n; i++) if (!((b[i] >= 32 && b[i] < 127) || (b[i] >= 9 && b[i] <= 13))) e = 0; { unsigned char *h = (unsigned char *)hx_dup(b, n); mc_check(M_str_isstr(h, n) == e, "isstr(%02x %02x %02x, %zu)", b[0], b[1], b[2], n); free(h); } }
	} else if (which == 2) {	/* allocation helpers */
		size_t a = (size_t)mc_choose(5) * 7, b = (size_t)mc_choose(5) * 7, i; M_uint8 *p = M_malloc_zero(a), *q, *r; if (a) { for (i = 0; i < a; i++) mc_check(p[i] == 0, "malloc_zero"); for (i = 0; i < a; i++) p[i] = (M_uint8)(i + 1); } q = M_memdup_max(a ? (const void *)p : NULL, a, b); if (a || b) { mc_check(q != NULL, "memdup_max"); for (i = 0; i < a; i++) mc_check(q[i] == i + 1, "memdup_max"); if (b > a) memset(q, 1, b); } M_free(q); if (a) { r = M_realloc_zero(p, b ? b : 1); for (i = 0; i < (b ? b : 1); i++) mc_check(r[i] == (i < a ? i + 1 : 0), "realloc_zero %zu to %zu: byte %zu is %d", a, b, i, r[i]); M_free(r); } else M_free(p);
	} else {	/* money */
		char s[24], w[32]; static const char *const in[] = { "0", "1", "12", "123456789", "0012" }, *const fr[] = { "", ".", ".1", ".12", ".125", ".995", ".994", ".999", ".000", ".005", ".004999" }; int neg = mc_choose(2), a = mc_choose(5), b = mc_choose(11); long v, i; const char *f = fr[b]; char *g; snprintf(s, sizeof(s), "%s%s%s", neg ? "-" : "", in[a], f); v = atol(in[a]) * 100; if (f[0] && f[1]) { v += (f[1] - '0') * 10 + (f[2] ? f[2] - '0' : 0); if (f[2] && f[3] >= '5') v++; } i = v; snprintf(w, sizeof(w), "%s%ld.%02ld", neg && v ? "-" : "", i / 100, i % 100);
		if (strcmp(f, ".")) { g = M_str_dot_money_out(s); eqf("dot_money_out", s, g, strlen(f) > 3 && strspn(f + 3, "0") != strlen(f + 3) ? NULL : w); } mc_check(M_str_ismoney(s) == (!neg && strlen(f) <= 3), "ismoney(%s)", s);
	}
}
static void run_null(void)
{
	char b[4] = "xy", *g = NULL; size_t n = 9, *l = NULL; mc_case(); mc_check(M_str_len(NULL) == 0 && M_str_len_max(NULL, 5) == 0 && M_str_isempty(NULL) && !M_str_istrue(NULL) && M_strdup(NULL) == NULL && M_strdup_max(NULL, 3) == NULL && M_strdup_trim(NULL) == NULL && M_strdup_upper(NULL) == NULL && M_strdup_lower(NULL) == NULL && M_strdup_title(NULL) == NULL && M_strdup_unquote(NULL, '"', '"') == NULL && M_str_trim(NULL) == NULL && M_str_upper(NULL) == NULL && M_str_unquote(NULL, 1, 1) == NULL && M_str_quote(NULL, 1, 1) == NULL, "NULL handling");
	mc_check(M_str_eq(NULL, "") && M_str_eq("", NULL) && M_str_eq(NULL, NULL) && !M_str_eq(NULL, "a") && M_str_caseeq(NULL, "") && M_str_cmpsort(NULL, "") == 0 && M_str_cmpsort(NULL, "a") < 0 && M_str_str(NULL, "a") == NULL && M_str_chr(NULL, 'a') == NULL && M_str_rchr(NULL, 'a') == NULL && !M_str_cpy(NULL, 3, "a") && !M_str_cpy(b, 0, "a") && b[0] == 'x' && !M_str_cat(b, 0, "a") && !M_str_cat(b, 4, NULL), "NULL handling 2");
	mc_check(M_str_cpy(b, 4, NULL) && b[0] == 0, "copy of NULL"); mc_check(M_str_explode(',', NULL, 0, &n, &l) == NULL && n == 0 && l == NULL && M_str_explode_quoted(',', NULL, 0, 0, 0, 0, &n, &l) == NULL && M_str_explode_int(',', NULL, &n) == NULL && M_str_implode(',', 0, 0, NULL, 0, M_TRUE) == NULL && M_str_implode_int(',', NULL, 0) == NULL, "explode NULL"); mc_check(!M_str_quote_if_necessary(&g, NULL, 1, 1, 1) && M_strdup_replace_str(NULL, "a", "b") == NULL && M_strdup_replace_charset(NULL, (const unsigned char *)"a", 1, "b") == NULL && M_str_delete_spaces(NULL) == NULL && M_str_dot_money_out(NULL) == NULL && M_mem_mem(NULL, 0, "a", 1) == NULL && M_mem_calc_lrc(NULL, 1) == 0, "NULL handling 3");
	{ static const char *const t[] = { "yes", "y", "true", "t", "1", "on" }, *const al = "yesYtru1onES "; char s[5]; size_t k = hx_str(s, 4, al, 12), i, j; int e = 0; for (i = 0; i < 6; i++) if (strlen(t[i]) == k) { for (j = 0; j < k && lo(s[j]) == t[i][j]; j++) ; if (j == k) e = 1; } mc_check(M_str_istrue(s) == e, "istrue('%s')", s); }
}
void mc_init(void) { mc_leakcheck = 1; }
void mc_run(void)
{
	switch (mc_choose(12)) { case 0: run_single(); break; case 1: run_pat(); break; case 2: run_pair(); break; case 3: run_quote(); break; case 4: run_brackets(); break; case 5: run_explode(); break; case 6: run_join(); break; case 7: run_ints(); break; case 8: run_lines(); break; case 9: run_justify(); break; case 10: run_hexdump(); break; case 11: mc_choose(2) ? run_mem() : run_null(); break; }
}
