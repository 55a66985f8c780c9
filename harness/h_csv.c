// MODE: seq
// MODS: base formats
/* C52: CSV. Texts over the structural characters judged by an RFC 4180 reader; small tables written and read back. */
#include "hx.h"
#include <mstdlib/mstdlib_formats.h>
const char *mc_name = "h_csv";
void mc_init(void) { mc_leakcheck = 1; }

/* ---- RFC 4180 reader ---- */
#define MR 24
#define MCOL 12
typedef struct { int q; char s[64]; } CELL;
typedef struct { int nr, nc[MR]; CELL c[MR][MCOL]; } DOC;
static DOC D;
/* returns 0 when the text is not RFC 4180 (LF accepted as line end); blanks around an unquoted cell belong to it */
static int ref(DOC *d, const char *t, size_t n, char dl, char qt, int trim)
{
	size_t i = 0;
	memset(d, 0, sizeof(*d));
	if (!n) return 0;
	while (i < n) {
		int r = d->nr, c = 0;
		if (r >= MR) return 0;
		for (;;) {
			CELL *x; size_t l = 0;
			if (c >= MCOL) return 0;
			x = &d->c[r][c++];
			if (i < n && t[i] == qt) {
				x->q = 1; i++;
				for (;;) {
					if (i >= n) return 0;
					if (t[i] == qt) { if (i + 1 < n && t[i + 1] == qt) { x->s[l++] = qt; i += 2; continue; } i++; break; }
					x->s[l++] = t[i++];
				}
			} else {
				while (i < n && t[i] != dl && t[i] != '\n' && t[i] != '\r') { if (t[i] == qt) return 0; x->s[l++] = t[i++]; }
				if (trim) { size_t a = 0; while (l && isspace((unsigned char)x->s[l - 1])) l--; while (a < l && isspace((unsigned char)x->s[a])) a++; memmove(x->s, x->s + a, l - a); l -= a; }
			}
			x->s[l] = 0;
			if (i < n && t[i] == dl) { i++; continue; }
			break;
		}
		d->nc[r] = c; d->nr++;
		if (i >= n) break;
		if (t[i] == '\r') { i++; if (i >= n || t[i] != '\n') return 0; }
		if (t[i] != '\n') return 0;
		i++;
	}
	return 1;
}
static const char *cell(const DOC *d, int r, int c) /* NULL for missing or empty without quotes */
{
	if (r >= d->nr || c >= d->nc[0] || c >= d->nc[r]) return NULL;
	return !d->c[r][c].q && !*d->c[r][c].s ? NULL : d->c[r][c].s;
}
static void judge(M_csv_t *csv, const DOC *d, const char *what, int strict_null)
{
	int r, c, k; ssize_t x;
	mc_check(csv != NULL, "%s is rejected", what);
	mc_check(M_csv_raw_num_rows(csv) == (size_t)d->nr && M_csv_get_numrows(csv) == (size_t)(d->nr ? d->nr - 1 : 0), "%s has %zu rows (%zu without header) instead of %d", what, M_csv_raw_num_rows(csv), M_csv_get_numrows(csv), d->nr);
	mc_check(M_csv_raw_num_cols(csv) == (size_t)d->nc[0] && M_csv_get_numcols(csv) == (size_t)d->nc[0], "%s has %zu columns instead of %d", what, M_csv_raw_num_cols(csv), d->nc[0]);
	for (r = 0; r <= d->nr; r++) for (c = 0; c <= d->nc[0]; c++) {
		const char *e = cell(d, r, c), *g = M_csv_raw_cell(csv, (size_t)r, (size_t)c);
		int same = strict_null ? hx_streq(e, g) : !strcmp(e ? e : "", g ? g : "");
		mc_check(same, "%s: cell %d,%d is %s instead of %s", what, r, c, mc_escs(g), mc_escs(e));
		if (r) mc_check(M_csv_get_cellbynum(csv, (size_t)r - 1, (size_t)c) == g, "%s: get_cellbynum %d,%d", what, r - 1, c);
		else mc_check(M_csv_get_header(csv, (size_t)c) == g, "%s: get_header %d", what, c);
	}
	for (c = 0; c < d->nc[0]; c++) {
		const char *h = cell(d, 0, c); char up[64]; int dup = 0; size_t i;
		if (!h || !*h) continue;
		for (k = 0; k < d->nc[0]; k++) if (k != c && cell(d, 0, k) && !strcasecmp(cell(d, 0, k), h)) dup = 1;
		if (dup) continue;
		for (i = 0; h[i]; i++) up[i] = (char)toupper((unsigned char)h[i]); up[i] = 0;
		x = M_csv_get_cell_num(csv, up);
		mc_check(x == c, "%s: column %s is number %zd instead of %d", what, mc_escs(up), x, c);
		for (r = 1; r <= d->nr; r++) { const char *g = M_csv_get_cell(csv, (size_t)r - 1, h); mc_check(g == M_csv_raw_cell(csv, (size_t)r, (size_t)c), "%s: cell %d of column %s is %s", what, r - 1, mc_escs(h), mc_escs(g)); }
	}
	mc_check(M_csv_get_cell_num(csv, "nocol") == -1 && M_csv_get_cell(csv, 0, "nocol") == NULL, "%s: nocol", what);
}
static char *wr(M_csv_t *csv, M_list_str_t *h, size_t *n) { M_buf_t *b = M_buf_create(); M_csv_output_headers_buf(b, csv, h); M_csv_output_rows_buf(b, csv, h, NULL, NULL, NULL, NULL); return M_buf_finish_str(b, n); }

/* every text up to a length */
static void run_text(void)
{
	static const char *DQ[] = { ",\"", ";'", "\t\"" };
	const char *dq = DQ[mc_choose(HX_N(DQ))]; int trim = mc_choose(2), ok; char al[8], t[32], what[300]; size_t n; M_csv_t *csv; DOC E; char *o; size_t on;
	al[0] = 'a'; al[1] = dq[0]; al[2] = dq[1]; al[3] = '\r'; al[4] = '\n'; al[5] = ' '; al[6] = 'B';
	n = hx_str(t, (int)mc_param("len", dq == DQ[0] ? 7 : 5, dq == DQ[0] ? 8 : 7), al, dq == DQ[0] ? 6 : 7);
	ok = ref(&D, t, n, dq[0], dq[1], trim);
	snprintf(what, sizeof(what), "%s (delimiter %c, quote %c%s)", mc_esc(t, n), dq[0], dq[1], trim ? ", trim" : "");
	if (mc_choose(2)) { char *p = M_malloc(n + 1); memcpy(p, t, n); p[n] = 0; csv = M_csv_parse_inplace(p, n, dq[0], dq[1], trim ? M_CSV_FLAG_TRIM_WHITESPACE : 0); if (!csv) M_free(p); }
	else { char *p = hx_dup(t, n); csv = M_csv_parse(p, n, dq[0], dq[1], trim ? M_CSV_FLAG_TRIM_WHITESPACE : 0); free(p); }
	if (ok) {
		mc_case(); mc_step();
		judge(csv, &D, what, 1);
		/* written and read back */
		o = wr(csv, NULL, &on);
		mc_check(ref(&E, o, on, dq[0], dq[1], 0), "%s is written as %s, which is not CSV", what, mc_esc(o, on));
		judge(csv, &E, "written", 0);
		M_csv_destroy(csv); csv = M_csv_parse(o, on, dq[0], dq[1], M_CSV_FLAG_TRIM_WHITESPACE);
		judge(csv, &E, "written and read back", 1);
		M_free(o);
	} else if (csv) { int r, c; for (r = 0; r < (int)M_csv_raw_num_rows(csv); r++) for (c = 0; c < (int)M_csv_raw_num_cols(csv); c++) mc_note("%p", (const void *)M_csv_raw_cell(csv, (size_t)r, (size_t)c)); o = wr(csv, NULL, &on); M_free(o); }
	M_csv_destroy(csv);
}
static const char *CV[] = { "", "a", "\"", "\"\"", ",", "\n", "\r\n", " a ", "a\"b", "a,b\r\nc", "'", ";" };
static M_bool filt(const M_csv_t *csv, size_t row, void *th) { (void)csv; return !((*(int *)th >> row) & 1); }
static M_bool edit(M_buf_t *b, const char *cellv, const char *header, void *th) { (void)th; if (!hx_streq(header, "h1")) return M_FALSE; M_buf_add_str(b, "<"); M_buf_add_str(b, cellv); M_buf_add_str(b, ","); return M_TRUE; }
/* add_headers, selecting columns, filtering rows, editing cells and other control characters */
static void run_out(void)
{
	int nr = 1 + mc_choose(2), sel, mask = mc_choose(1 << nr), ed = mc_choose(2), ctl = mc_choose(2), r, c, out = 0, how; M_list_str_t *h = M_list_str_create(M_LIST_STR_NONE), *s = NULL; M_buf_t *b = M_buf_create(); M_csv_t *csv, *x; const char *v[2][2]; char *o; size_t n;
	static const char *SEL[][3] = { { NULL }, { "h2", "h1" }, { "H1" }, { "h1", "nope", "h2" } }; char ch = ',', q = '"';
	M_list_str_insert(h, "h1"); M_list_str_insert(h, "h2");
	for (r = 0; r < nr; r++) for (c = 0; c < 2; c++) v[r][c] = CV[mc_choose(r ? 4 : HX_N(CV))];
	for (r = 0; r < nr; r++) { for (c = 0; c < 2; c++) { M_buf_add_str_quoted(b, '"', '"', ",\r\n", M_TRUE, v[r][c]); if (!c) M_buf_add_byte(b, ','); } M_buf_add_str(b, r & 1 ? "\n" : "\r\n"); }
	csv = M_csv_parse_add_headers(M_buf_peek(b), M_buf_len(b), ',', '"', 0, h);
	sel = mc_choose(HX_N(SEL)); for (c = 0; c < 3 && SEL[sel][c]; c++) { if (!s) s = M_list_str_create(M_LIST_STR_NONE); M_list_str_insert(s, SEL[sel][c]); }
	M_buf_cancel(b);
	mc_case();
	mc_check(csv && M_csv_get_numrows(csv) == (size_t)nr && hx_streq(M_csv_get_header(csv, 0), "h1") && hx_streq(M_csv_get_header(csv, 1), "h2"), "parse_add_headers");
	for (r = 0; r < nr; r++) for (c = 0; c < 2; c++) mc_check(hx_streq(M_csv_get_cellbynum(csv, (size_t)r, (size_t)c), v[r][c]), "row %d cell %d is %s instead of %s", r, c, mc_escs(M_csv_get_cellbynum(csv, (size_t)r, (size_t)c)), mc_escs(v[r][c]));
	if (ctl) { M_csv_output_set_control_chars(csv, ';', '\''); ch = ';'; q = '\''; }
	b = M_buf_create(); M_csv_output_headers_buf(b, csv, s); M_csv_output_rows_buf(b, csv, s, filt, &mask, ed ? edit : NULL, NULL); o = M_buf_finish_str(b, &n);
	mc_check(ref(&D, o, n, ch, q, 0), "written as %s, which is not CSV", mc_esc(o, n));
	x = M_csv_parse(o, n, ch, q, 0); judge(x, &D, "output", 1); M_csv_destroy(x);
	how = sel ? (sel == 1 ? 2 : sel == 2 ? 1 : 3) : 2;
	mc_check(D.nc[0] == how, "%d columns in the output", D.nc[0]);
	for (r = 0; r < nr; r++) {
		if ((mask >> r) & 1) continue;
		out++;
		mc_check(out < D.nr && D.nc[out] == how, "row %d is missing from %s", r, mc_esc(o, n));
		for (c = 0; c < how; c++) {
			const char *name = sel ? SEL[sel][c] : c ? "h2" : "h1"; char e[64]; const char *base = !strcasecmp(name, "h1") ? v[r][0] : !strcmp(name, "h2") ? v[r][1] : "";
			mc_check(!strcmp(D.c[0][c].s, name), "header %d is %s", c, mc_escs(D.c[0][c].s));
			if (ed && !strcmp(name, "h1")) snprintf(e, sizeof(e), "<%s,", base); else snprintf(e, sizeof(e), "%s", base);
			mc_check(!strcmp(D.c[out][c].s, e), "row %d column %s is written as %s instead of %s in %s", r, name, mc_escs(D.c[out][c].s), mc_escs(e), mc_esc(o, n));
		}
	}
	mc_check(out == D.nr - 1, "%d rows in the output instead of %d", D.nr - 1, out);
	M_free(o); M_csv_destroy(csv); M_list_str_destroy(h); M_list_str_destroy(s);
}
/* tables written as CSV and loaded again */
static void run_table(void)
{
	static const char *HN[] = { "x", "y,", "z\"" };
	int nr = mc_choose(3), nc = 1 + mc_choose(2), hdr = mc_choose(2), r, c, pre, ctl = mc_choose(2); M_table_t *t = M_table_create(0), *u = M_table_create(0); const char *v[3][3]; char *o, dl = ctl ? ';' : ',', q = ctl ? '\'' : '"'; size_t k;
	for (c = 0; c < nc; c++) M_table_column_insert(t, hdr ? HN[c] : NULL);
	for (r = 0; r < nr; r++) { M_table_row_insert(t); for (c = 0; c < nc; c++) { int x = mc_choose(1 + (r && c ? 3 : HX_N(CV))); v[r][c] = x ? CV[x - 1] : NULL; if (x) M_table_cell_set_at(t, (size_t)r, (size_t)c, v[r][c]); } }
	pre = mc_choose(hdr ? 3 : nc + 2);
	if (hdr && pre == 1) M_table_column_insert(u, "x");
	if (hdr && pre == 2) { M_table_column_insert(u, "q"); M_table_column_insert(u, HN[nc - 1]); }
	if (!hdr) for (c = 0; c < pre; c++) M_table_column_insert(u, NULL);
	mc_case();
	o = M_table_write_csv(t, dl, q, hdr);
	if (!nr && !hdr) { mc_check(!o || !*o, "an empty table is written as %s", mc_escs(o)); M_free(o); M_table_destroy(t); M_table_destroy(u); return; }
	if (!o) o = M_strdup("");
	if (nr || hdr) mc_check(*o == 0 || ref(&D, o, strlen(o), dl, q, 0), "written as %s, which is not CSV", mc_escs(o));
	mc_check(M_table_load_csv(u, o, strlen(o), dl, q, 0, hdr), "%s is rejected", mc_escs(o));
	mc_check(M_table_row_count(u) == (size_t)nr, "%d rows written as %s are %zu rows when loaded", nr, mc_escs(o), M_table_row_count(u));
	if (!hdr) mc_check(nr == 0 || M_table_column_count(u) == (size_t)(pre > nc ? pre : nc), "%d columns loaded from %s into a table of %d columns make %zu", nc, mc_escs(o), pre, M_table_column_count(u));
	else mc_check(M_table_column_count(u) == (size_t)(pre == 0 ? nc : pre == 1 ? nc : nc + 1), "columns %zu", M_table_column_count(u));
	for (r = 0; r < nr; r++) for (c = 0; c < nc; c++) {
		const char *g;
		k = (size_t)c;
		if (hdr) mc_check(M_table_column_idx(u, HN[c], &k), "column %s missing", HN[c]);
		g = M_table_cell_at(u, (size_t)r, k);
		mc_check(hx_streq(g, v[r][c]), "cell %d,%d %s written in %s is loaded as %s", r, c, mc_escs(v[r][c]), mc_escs(o), mc_escs(g));
	}
	M_free(o); M_table_destroy(t); M_table_destroy(u);
}
/* loading texts into tables: unnamed and repeated columns */
static void run_load(void)
{
	char t[32]; size_t n = hx_str(t, (int)mc_param("loadlen", 6, 7), "aB,\n\"", 5); M_table_t *u = M_table_create(0); int r, c; char *p;
	if (!ref(&D, t, n, ',', '"', 0)) { M_table_destroy(u); mc_prune(); }
	p = hx_dup(t, n + 1); p[n] = 0;
	mc_case();
	mc_check(M_table_load_csv(u, p, n, ',', '"', 0, M_TRUE), "%s is rejected", mc_esc(t, n));
	mc_check(M_table_row_count(u) == (size_t)D.nr - 1, "%s makes %zu rows", mc_esc(t, n), M_table_row_count(u));
	for (c = 0; c < D.nc[0]; c++) {
		const char *h = cell(&D, 0, c); size_t k, dup = 0; int j;
		for (j = 0; j < D.nc[0]; j++) if (j != c && hx_streq(h && *h ? h : NULL, cell(&D, 0, j) && *cell(&D, 0, j) ? cell(&D, 0, j) : NULL)) dup = 1;
		if (dup) continue;
		if (h && *h) { mc_check(M_table_column_idx(u, h, &k), "column %s of %s is missing", mc_escs(h), mc_esc(t, n)); }
		else { for (k = 0; k < M_table_column_count(u) && !M_str_isempty(M_table_column_name(u, k)); k++) ; mc_check(k < M_table_column_count(u), "the unnamed column of %s is missing", mc_esc(t, n)); }
		for (r = 1; r < D.nr; r++) mc_check(hx_streq(M_table_cell_at(u, (size_t)r - 1, k), cell(&D, r, c)), "%s: cell %d of column %s is %s instead of %s", mc_esc(t, n), r - 1, mc_escs(h), mc_escs(M_table_cell_at(u, (size_t)r - 1, k)), mc_escs(cell(&D, r, c)));
	}
	free(p); M_table_destroy(u);
}
void mc_run(void)
{
	int only = (int)mc_param("only", -1, -1);
	static void (*R[])(void) = { run_text, run_out, run_table, run_load };
	R[only >= 0 ? only : mc_choose(HX_N(R))]();
}
