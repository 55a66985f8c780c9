// MODE: seq
// MODS: base formats
/* C58: tables. Operation sequences against a model; JSON and Markdown written and read back. */
#include "hx.h"
#include <mstdlib/mstdlib_formats.h>
const char *mc_name = "h_table";
void mc_init(void) { mc_leakcheck = 1; }

typedef struct { char name[16]; int has; } COL;       /* has: named */
typedef struct { int nc, nr, cs; COL c[12]; char v[12][12][16]; int set[12][12]; } TM;
static TM M;
static int eq(const char *a, const char *b) { return M.cs ? !strcasecmp(a, b) : !strcmp(a, b); }
static int cidx(const char *n) { int i; if (!n || !*n) return -1; for (i = 0; i < M.nc; i++) if (M.c[i].has && eq(M.c[i].name, n)) return i; return -1; }
static int cins(int at, const char *n)
{
	int r; if (at > M.nc || (n && *n && cidx(n) >= 0)) return 0;
	if (M.nc >= 11) mc_prune();
	memmove(&M.c[at + 1], &M.c[at], sizeof(COL) * (size_t)(M.nc - at));
	for (r = 0; r < M.nr; r++) { memmove(&M.v[r][at + 1], &M.v[r][at], 16 * (size_t)(M.nc - at)); memmove(&M.set[r][at + 1], &M.set[r][at], sizeof(int) * (size_t)(M.nc - at)); M.set[r][at] = 0; }
	M.c[at].has = n && *n; snprintf(M.c[at].name, 16, "%s", n ? n : ""); M.nc++; return 1;
}
static void crem(int at)
{
	int r; if (at < 0 || at >= M.nc) return;
	memmove(&M.c[at], &M.c[at + 1], sizeof(COL) * (size_t)(M.nc - at - 1));
	for (r = 0; r < M.nr; r++) { memmove(&M.v[r][at], &M.v[r][at + 1], 16 * (size_t)(M.nc - at - 1)); memmove(&M.set[r][at], &M.set[r][at + 1], sizeof(int) * (size_t)(M.nc - at - 1)); }
	M.nc--;
}
static int rins(int at) { if (at > M.nr) return 0; if (M.nr >= 11) mc_prune(); memmove(&M.v[at + 1], &M.v[at], sizeof(M.v[0]) * (size_t)(M.nr - at)); memmove(&M.set[at + 1], &M.set[at], sizeof(M.set[0]) * (size_t)(M.nr - at)); memset(M.set[at], 0, sizeof(M.set[0])); M.nr++; return 1; }
static void rrem(int at) { if (at < 0 || at >= M.nr) return; memmove(&M.v[at], &M.v[at + 1], sizeof(M.v[0]) * (size_t)(M.nr - at - 1)); memmove(&M.set[at], &M.set[at + 1], sizeof(M.set[0]) * (size_t)(M.nr - at - 1)); M.nr--; }
static int put(int r, int c, const char *v) { if (r >= M.nr || c < 0 || c >= M.nc) return 0; M.set[r][c] = v != NULL; snprintf(M.v[r][c], 16, "%s", v ? v : ""); return 1; }
static int putn(int r, const char *n, const char *v, unsigned fl)
{
	int c; if (r >= M.nr || !n || !*n) return 0;
	c = cidx(n);
	if (c < 0) { if (fl & M_TABLE_INSERT_COLIGNORE) return 1; if (!(fl & M_TABLE_INSERT_COLADD)) return 0; cins(M.nc, n); c = M.nc - 1; }
	return put(r, c, v);
}
static const char *at(int r, int c) { return M.set[r][c] ? M.v[r][c] : NULL; }
static void audit(M_table_t *t, const char *op)
{
	int r, c; size_t k;
	mc_check(M_table_column_count(t) == (size_t)M.nc, "after %s: %zu columns instead of %d", op, M_table_column_count(t), M.nc);
	mc_check(M_table_row_count(t) == (size_t)M.nr, "after %s: %zu rows instead of %d", op, M_table_row_count(t), M.nr);
	for (c = 0; c < M.nc; c++) {
		const char *n = M_table_column_name(t, (size_t)c);
		mc_check(M.c[c].has ? hx_streq(n, M.c[c].name) : M_str_isempty(n), "after %s: column %d is named %s instead of %s", op, c, mc_escs(n), M.c[c].has ? M.c[c].name : "nothing");
		if (M.c[c].has) mc_check(M_table_column_idx(t, M.c[c].name, &k) && (int)k == c, "after %s: column %s is not found at %d", op, M.c[c].name, c);
		for (r = 0; r < M.nr; r++) {
			const char *g = M_table_cell_at(t, (size_t)r, (size_t)c);
			mc_check(hx_streq(g, at(r, c)), "after %s: cell %d,%d is %s instead of %s", op, r, c, mc_escs(g), mc_escs(at(r, c)));
			if (M.c[c].has) mc_check(hx_streq(M_table_cell(t, (size_t)r, M.c[c].name), g), "after %s: cell %d of %s", op, r, M.c[c].name);
		}
	}
	for (k = 0; k < 6; k++) { static const char *N[] = { "a", "b", "A", "z", "n", "d" }; mc_check(M_table_column_idx(t, N[k], NULL) == (cidx(N[k]) >= 0), "after %s: column %s is %s", op, N[k], cidx(N[k]) < 0 ? "found but was removed or renamed" : "not found"); if (M.nr) mc_check(hx_streq(M_table_cell(t, 0, N[k]), cidx(N[k]) < 0 ? NULL : at(0, cidx(N[k]))), "after %s: cell 0 of %s", op, N[k]); }
	mc_check(!M_table_cell_at(t, (size_t)M.nr, 0) && !M_table_cell_at(t, 0, (size_t)M.nc) && !M_table_column_name(t, (size_t)M.nc) && !M_table_column_idx(t, "", NULL), "after %s: outside of the table", op);
}
static M_hash_dict_t *dict(int k, const char *kk[3], const char *vv[3], int *n)
{
	M_hash_dict_t *d = M_hash_dict_create(8, 75, M_HASH_DICT_KEYS_ORDERED); int i;
	*n = 0;
	if (k >= 1) { kk[0] = "a"; vv[0] = "1"; *n = 1; }
	if (k == 2) { kk[1] = "d"; vv[1] = "2"; *n = 2; }
	if (k == 3) { kk[0] = "d"; vv[0] = "3"; *n = 1; }
	for (i = 0; i < *n; i++) M_hash_dict_insert(d, kk[i], vv[i]);
	return d;
}
/* rows of the table must be the model's rows in an order that the keys allow; the model follows */
static void resort(M_table_t *t, const char *op, int k1, int k2)
{
	TM n = M; int r, c, q, used[12] = { 0 };
	for (r = 0; r < M.nr; r++) {
		for (q = 0; q < M.nr; q++) { if (used[q]) continue; for (c = 0; c < M.nc; c++) if (!hx_streq(M_table_cell_at(t, (size_t)r, (size_t)c), at(q, c))) break; if (c == M.nc) break; }
		mc_check(q < M.nr, "after %s: row %d is none of the rows before", op, r);
		used[q] = 1; memcpy(n.v[r], M.v[q], sizeof(n.v[r])); memcpy(n.set[r], M.set[q], sizeof(n.set[r]));
	}
	M = n;
	for (r = 1; r < M.nr; r++) {
		const char *a = at(r - 1, k1), *b = at(r, k1); int x = (M.cs ? strcasecmp : strcmp)(a ? a : "", b ? b : "");
		if (!x && k2 >= 0) { a = at(r - 1, k2); b = at(r, k2); x = -strcmp(a ? a : "", b ? b : ""); }
		mc_check(x <= 0, "after %s: rows %d and %d are not in order", op, r - 1, r);
	}
}
static int rev(const void *a, const void *b, void *th) { return -M_sort_compar_str(a, b, th); }
static M_sort_compar_t prim(void) { return mc_choose(2) ? NULL : M.cs ? M_sort_compar_str_casecmp : M_sort_compar_str; }
static const int RI[] = { 0, 1, 9 };
static const unsigned FL[] = { 0, M_TABLE_INSERT_COLADD, M_TABLE_INSERT_COLIGNORE };
static uint64_t hist;
static M_table_t *step(M_table_t *t)
{
	static const char *NM[] = { "a", "A", "d", NULL }; static const char *VL[] = { "x", "", NULL };
	const char *kk[3], *vv[3]; int k, n, i, r, c, e; M_hash_dict_t *d; size_t idx; char op[80]; M_table_t *u; unsigned fl; M_bool ok;
	switch ((k = mc_choose(20))) {
	case 0: n = mc_choose(4); snprintf(op, sizeof(op), "column_insert(%s)", NM[n] ? NM[n] : "-"); ok = M_table_column_insert(t, NM[n]); e = cins(M.nc, NM[n]); break;
	case 1: n = mc_choose(3); i = RI[mc_choose(3)]; snprintf(op, sizeof(op), "column_insert_at(%d, %s)", i, n == 0 ? "n" : n == 1 ? "a" : "-"); ok = M_table_column_insert_at(t, (size_t)i, n == 0 ? "n" : n == 1 ? "a" : NULL); e = cins(i, n == 0 ? "n" : n == 1 ? "a" : NULL); break;
	case 2: { static const char *SN[] = { "a", "z", NULL, "", "A" }; n = mc_choose(5); i = RI[mc_choose(3)]; snprintf(op, sizeof(op), "column_set_name(%d, %s)", i, SN[n] ? SN[n] : "-"); ok = M_table_column_set_name(t, (size_t)i, SN[n]);
		e = i < M.nc && (cidx(SN[n]) < 0 || cidx(SN[n]) == i); if (e) { M.c[i].has = SN[n] && *SN[n]; snprintf(M.c[i].name, 16, "%s", SN[n] ? SN[n] : ""); } break; }
	case 3: n = mc_choose(3); snprintf(op, sizeof(op), "column_remove(%s)", NM[n]); M_table_column_remove(t, NM[n]); crem(cidx(NM[n])); ok = e = 1; break;
	case 4: i = RI[mc_choose(3)]; snprintf(op, sizeof(op), "column_remove_at(%d)", i); M_table_column_remove_at(t, (size_t)i); crem(i); ok = e = 1; break;
	case 5: snprintf(op, sizeof(op), "remove_empty_columns"); for (c = M.nc, n = 0; c-- > 0;) { for (r = 0; r < M.nr && !M.set[r][c]; r++) ; if (r == M.nr) { crem(c); n++; } } ok = M_table_column_remove_empty_columns(t) == (size_t)n; e = 1; break;
	case 6: snprintf(op, sizeof(op), "row_insert"); ok = M_table_row_insert(t) == (size_t)M.nr; e = rins(M.nr); break;
	case 7: i = RI[mc_choose(3)]; snprintf(op, sizeof(op), "row_insert_at(%d)", i); ok = M_table_row_insert_at(t, (size_t)i); e = rins(i); break;
	case 8: case 9: n = mc_choose(4); fl = FL[mc_choose(3)]; i = k == 9 ? RI[mc_choose(3)] : M.nr; snprintf(op, sizeof(op), "row_insert_dict(_at %d) of dict %d, flags %u", i, n, fl); d = dict(n, kk, vv, &n); idx = 77;
		ok = k == 8 ? M_table_row_insert_dict(t, d, fl, &idx) : M_table_row_insert_dict_at(t, (size_t)i, d, fl); M_hash_dict_destroy(d);
		for (e = i <= M.nr, c = 0; c < n && !fl; c++) if (cidx(kk[c]) < 0) e = 0;
		if (e) { rins(i); for (c = 0; c < n; c++) putn(i, kk[c], vv[c], fl); if (k == 8) mc_check(idx == (size_t)i, "index %zu of the row inserted", idx); } break;
	case 10: i = RI[mc_choose(3)]; snprintf(op, sizeof(op), "row_remove(%d)", i); M_table_row_remove(t, (size_t)i); rrem(i); ok = e = 1; break;
	case 11: snprintf(op, sizeof(op), "remove_empty_rows"); for (r = M.nr, n = 0; r-- > 0;) { for (c = 0; c < M.nc && !M.set[r][c]; c++) ; if (c == M.nc) { rrem(r); n++; } } ok = M_table_row_remove_empty_rows(t) == (size_t)n; e = 1; break;
	case 12: r = RI[mc_choose(3)]; n = mc_choose(4); fl = FL[mc_choose(3)]; i = mc_choose(3); snprintf(op, sizeof(op), "cell_set(%d, %s, %s, %u)", r, NM[n] ? NM[n] : "-", VL[i] ? VL[i] : "NULL", fl); ok = M_table_cell_set(t, (size_t)r, NM[n], VL[i], fl); e = putn(r, NM[n], VL[i], fl); break;
	case 13: r = RI[mc_choose(3)]; c = RI[mc_choose(3)]; i = mc_choose(3); snprintf(op, sizeof(op), "cell_set_at(%d, %d, %s)", r, c, VL[i] ? VL[i] : "NULL"); ok = M_table_cell_set_at(t, (size_t)r, (size_t)c, VL[i]); e = put(r, c, VL[i]); break;
	case 14: r = RI[mc_choose(3)]; n = 1 + mc_choose(3); fl = FL[mc_choose(3)]; snprintf(op, sizeof(op), "cell_set_dict(%d, dict %d, %u)", r, n, fl); d = dict(n, kk, vv, &n); ok = M_table_cell_set_dict(t, (size_t)r, d, fl); M_hash_dict_destroy(d);
		for (e = r < M.nr, c = 0; c < n && !fl; c++) if (cidx(kk[c]) < 0) e = 0;
		if (e) for (c = 0; c < n; c++) putn(r, kk[c], vv[c], fl); break;
	case 15: r = RI[mc_choose(3)]; n = mc_choose(3); snprintf(op, sizeof(op), "cell_clear(%d, %s)", r, NM[n]); ok = M_table_cell_clear(t, (size_t)r, NM[n]); e = putn(r, NM[n], NULL, M_TABLE_INSERT_COLIGNORE); if (r >= M.nr) e = 0; break;
	case 16: r = RI[mc_choose(3)]; c = RI[mc_choose(3)]; snprintf(op, sizeof(op), "cell_clear_at(%d, %d)", r, c); ok = M_table_cell_clear_at(t, (size_t)r, (size_t)c); e = put(r, c, NULL); break;
	case 17: n = mc_choose(4);
		if (n < 2) { snprintf(op, sizeof(op), "sort_data(a%s)", n ? ", d" : ""); M_table_column_sort_data(t, "a", prim(), n ? "d" : NULL, n ? rev : NULL, NULL); if (cidx("a") >= 0 && (!n || cidx("d") >= 0)) resort(t, op, cidx("a"), n ? cidx("d") : -1); }
		else { c = n == 3 ? RI[mc_choose(3)] : 0; snprintf(op, sizeof(op), "sort_data_at(%d%s)", c, n == 2 ? ", 1" : ""); M_table_column_sort_data_at(t, (size_t)c, prim(), n == 2 ? 1 : 0, n == 2 ? rev : NULL, NULL); if (c < M.nc && (n != 2 || M.nc > 1)) resort(t, op, c, n == 2 ? 1 : -1); }
		ok = e = 1; break;
	case 18: { TM o = M; int j, used[12] = { 0 }; snprintf(op, sizeof(op), "column_order"); M_table_column_order(t, rev, NULL); 
		mc_check(M_table_column_count(t) == (size_t)M.nc, "column_order changes the number of columns");
		for (c = 0; c < M.nc; c++) {
			const char *nm = M_table_column_name(t, (size_t)c);
			for (j = 0; j < o.nc; j++) { if (used[j] || (o.c[j].has ? !hx_streq(nm, o.c[j].name) : !M_str_isempty(nm))) continue; for (r = 0; r < M.nr; r++) if (!hx_streq(M_table_cell_at(t, (size_t)r, (size_t)c), o.set[r][j] ? o.v[r][j] : NULL)) break; if (r == M.nr) break; }
			mc_check(j < o.nc, "after column_order: column %d is none of the columns before", c);
			used[j] = 1; M.c[c] = o.c[j]; for (r = 0; r < M.nr; r++) { memcpy(M.v[r][c], o.v[r][j], 16); M.set[r][c] = o.set[r][j]; }
			if (c) mc_check(strcmp(M.c[c - 1].name, M.c[c].name) >= 0, "after column_order: columns %s and %s are not in order", M.c[c - 1].name, M.c[c].name);
		}
		ok = e = 1; break; }
	default:
		n = mc_choose(2);
		if (n == 0) { snprintf(op, sizeof(op), "duplicate"); u = M_table_duplicate(t); audit(t, op); if (mc_choose(2)) M_table_destroy(t); else { M_table_destroy(u); u = t; } t = u; ok = e = 1; break; }
		snprintf(op, sizeof(op), "merge"); u = M_table_create(0); M_table_column_insert(u, "d"); M_table_column_insert(u, "a"); M_table_row_insert(u); M_table_cell_set_at(u, 0, 0, "dd"); M_table_cell_set_at(u, 0, 1, "aa"); M_table_row_insert(u); M_table_cell_set_at(u, 1, 1, "");
		ok = M_table_merge(&t, u); if (!ok) M_table_destroy(u);
		for (e = 1, c = 0; c < M.nc; c++) if (!M.c[c].has) e = 0;
		if (e) { rins(M.nr); putn(M.nr - 1, "d", "dd", FL[1]); putn(M.nr - 1, "a", "aa", FL[1]); rins(M.nr); putn(M.nr - 1, "a", "", FL[1]); }
		break;
	}
	if (k != 0 && k != 1 && k != 6 && k != 7 && ok) hist |= 1u << (k == 4 ? 3 : k == 16 || k == 15 ? 14 : k == 9 ? 8 : k == 13 ? 12 : k);
	mc_check(ok == e, "%s returns %d", op, ok);
	audit(t, op);
	return t;
}
static void run_ops(void)
{
	int d = (int)mc_param("depth", 3, 4), i, st = mc_choose(2); M_table_t *t;
	memset(&M, 0, sizeof(M)); M.cs = mc_choose(2);
	t = M_table_create(M.cs ? M_TABLE_COLNAME_CASECMP : 0);
	if (st) { M_table_column_insert(t, "a"); cins(0, "a"); M_table_column_insert(t, NULL); cins(1, NULL); M_table_column_insert(t, "d"); cins(2, "d");
		for (i = 0; i < 4; i++) { static const char *X[] = { "x", "m", "x", NULL }; static const char *Y[] = { "1", NULL, "2", NULL }; M_table_row_insert(t); rins(i); M_table_cell_set_at(t, (size_t)i, 0, X[i]); put(i, 0, X[i]); M_table_cell_set_at(t, (size_t)i, 2, Y[i]); put(i, 2, Y[i]); } audit(t, "construction"); }
	mc_case();
	hist = 0;
	for (i = 0; i < d; i++) {
		uint64_t h; int r, c;
		t = step(t); mc_step();
		/* model plus the kinds of operations that may leave something behind in the table */
		h = mc_h64(hist, (uint64_t)(M.nc * 100 + M.nr * 2 + M.cs));
		for (c = 0; c < M.nc; c++) h = M.c[c].has ? mc_hstr(h, M.c[c].name) : mc_h64(h, 1);
		for (r = 0; r < M.nr; r++) for (c = 0; c < M.nc; c++) h = M.set[r][c] ? mc_hstr(h, M.v[r][c]) : mc_h64(h, 2);
		mc_state(h);
		if (!mc_visit(h, d - 1 - i)) break;
	}
	M_table_destroy(t);
}
static const char *TV[] = { NULL, "", "x", "two words", "\"\\\n", "\xC3\xA9" };
static const char *MV[] = { NULL, "x", "two words", "---", ":", "longer than the others", "|", "a|b", "-" };
/* JSON and Markdown */
static void build(M_table_t *t, int nc, int nr, const char **V, int nv, const char **H, const char *x[3][3])
{
	int r, c; for (c = 0; c < nc; c++) M_table_column_insert(t, H[c]);
	for (r = 0; r < nr; r++) { M_table_row_insert(t); for (c = 0; c < nc; c++) { x[r][c] = V[mc_choose(nv)]; M_table_cell_set_at(t, (size_t)r, (size_t)c, x[r][c]); } }
}
static void run_json(void)
{
	static const char *H[] = { "one", "t\"o\n", "Z" }; static const char *MC[] = { "one", "q" };
	int nc = 1 + mc_choose(2), nr = mc_choose(3), r, c, pre = mc_choose(2); M_table_t *t = M_table_create(0), *u = M_table_create(0); const char *x[3][3]; char *o;
	build(t, nc, nr, TV, HX_N(TV), H, x);
	if (pre) { for (c = 0; c < 2; c++) M_table_column_insert(u, MC[c]); M_table_row_insert(u); M_table_cell_set_at(u, 0, 0, "kept"); }
	mc_case();
	o = M_table_write_json(t, mc_choose(2) ? M_JSON_WRITER_PRETTYPRINT_SPACE : 0);
	mc_check(o != NULL, "M_table_write_json");
	mc_check(M_table_load_json(u, o, strlen(o)), "%s is rejected", mc_escs(o));
	mc_check(M_table_row_count(u) == (size_t)(nr + pre), "%s: %zu rows", mc_escs(o), M_table_row_count(u));
	for (r = 0; r < nr; r++) for (c = 0; c < nc; c++) { const char *g = M_table_cell(u, (size_t)(r + pre), H[c]); mc_check(hx_streq(g, x[r][c]), "cell %d of %s, %s, written in %s is loaded as %s", r, mc_escs(H[c]), mc_escs(x[r][c]), mc_escs(o), mc_escs(g)); }
	if (pre) mc_check(hx_streq(M_table_cell(u, 0, "one"), "kept") && !M_table_cell(u, 0, "q"), "existing row changed");
	M_free(o);
	M_table_column_insert(t, NULL); mc_check(!M_table_write_json(t, 0), "unnamed columns are written as JSON");
	M_table_destroy(t); M_table_destroy(u);
}
static void run_md(void)
{
	static const char *H[] = { "one", "b", "The third one" };
	int nc = 1 + mc_choose(3), nr = 1 + mc_choose(nc == 3 ? 1 : 2), r, c, f = mc_choose(16), pipe = 0, hole = 0; M_table_t *t = M_table_create(0), *u = M_table_create(0); const char *x[3][3]; char *o;
	build(t, nc, nr, MV, HX_N(MV), H, x);
	for (r = 0; r < nr; r++) { int any = 0; for (c = 0; c < nc; c++) { if (x[r][c]) any = 1; if (x[r][c] && strchr(x[r][c], '|')) pipe = 1; } if (!any) hole = 1; }
	mc_case();
	o = M_table_write_markdown(t, (M_uint32)f);
	mc_check(o != NULL, "M_table_write_markdown");
	if (f & M_TABLE_MARKDOWN_PRETTYPRINT && !pipe) { /* every separator is in the same column of every line */
		const char *l = o; size_t first = strcspn(o, "\r\n"), k;
		if (f & M_TABLE_MARKDOWN_OUTERPIPE) while (l) { size_t n = strcspn(l, "\r\n"); mc_check(n == first, "lines of different length in %s", mc_escs(o)); for (k = 0; k < n; k++) mc_check((l[k] == '|') == (o[k] == '|'), "separators are not aligned in %s", mc_escs(o)); l = strchr(l, '\n'); if (l) l++; }
	}
	mc_check(!!strstr(o, "\r\n") == !!(f & M_TABLE_MARKDOWN_LINEEND_WIN), "line ends of %s", mc_escs(o));
	/* rows without any value vanish without outer pipes when there is one column */
	if (!(hole && nc == 1 && !(f & M_TABLE_MARKDOWN_OUTERPIPE))) {
		M_bool ok = M_table_load_markdown(u, o, strlen(o)); int bad = 0;
		if (pipe && mc_known("markdown-pipe")) goto out;
		mc_check(ok, "%s is rejected", mc_escs(o));
		mc_check(M_table_row_count(u) == (size_t)nr && M_table_column_count(u) == (size_t)nc, "%s: %zu rows, %zu columns", mc_escs(o), M_table_row_count(u), M_table_column_count(u));
		for (c = 0; c < nc; c++) mc_check(hx_streq(M_table_column_name(u, (size_t)c), H[c]), "%s: column %d is %s", mc_escs(o), c, mc_escs(M_table_column_name(u, (size_t)c)));
		for (r = 0; r < nr; r++) for (c = 0; c < nc; c++) { const char *g = M_table_cell_at(u, (size_t)r, (size_t)c); mc_check(hx_streq(g, x[r][c]), "cell %d,%d, %s, written in %s is loaded as %s", r, c, mc_escs(x[r][c]), mc_escs(o), mc_escs(g)); }
		(void)bad;
	}
out:
	M_free(o); M_table_destroy(t); M_table_destroy(u);
}
/* short Markdown texts: loaded exactly when header, separator and rows are well formed */
static void run_mdtext(void)
{
	static const char *H[] = { "a", "a|b", "|a|b|", "| a |b" }, *S[] = { "---", "---|---", "|---|:---:|", " --- | -- ", ":--|---", "---|---:", "----:|:---|", "", "-:-|---", "---::|---" }, *R[] = { "1", "1|2", "|1|2|", "1|2|3", "|1", " 1 | 2 |", "||2|", "|1||" }, *E[] = { "\n", "\r\n" };
	int h = mc_choose(HX_N(H)), s = mc_choose(HX_N(S)), r = mc_choose(HX_N(R)), r2 = mc_choose(HX_N(R) + 1), e = mc_choose(2), nc = h ? 2 : 1, sok = s == 0 || s == 1 || s == 2 || s == 5 || s == 6, rok = 1, k; char b[200]; M_table_t *t = M_table_create(0); M_bool ok;
	static const char *V[][2] = { { "1", NULL }, { "1", "2" }, { "1", "2" }, { 0, 0 }, { "1", NULL }, { "1", "2" }, { NULL, "2" }, { "1", NULL } }; static const int W[] = { 1, 2, 2, 3, 1, 2, 2, 2 };
	snprintf(b, sizeof(b), "%s%s%s%s%s%s%s%s", H[h], E[e], S[s], E[e], R[r], r2 ? E[e] : "", r2 ? R[r2 - 1] : "", mc_choose(2) ? E[e] : "");
	if (W[r] > nc || (r2 && W[r2 - 1] > nc)) rok = 0;
	mc_case();
	ok = M_table_load_markdown(t, b, strlen(b));
	mc_check(ok == (sok && rok), "%s is %s", mc_escs(b), ok ? "accepted" : "rejected");
	if (ok) { mc_check(M_table_column_count(t) == (size_t)nc && M_table_row_count(t) == (size_t)(r2 ? 2 : 1), "%s: %zu columns %zu rows", mc_escs(b), M_table_column_count(t), M_table_row_count(t));
		mc_check(hx_streq(M_table_column_name(t, 0), "a") && (nc == 1 || hx_streq(M_table_column_name(t, 1), "b")), "%s: column names", mc_escs(b));
		for (k = 0; k < nc; k++) { mc_check(hx_streq(M_table_cell_at(t, 0, (size_t)k), V[r][k]), "%s: cell 0,%d", mc_escs(b), k); if (r2) mc_check(hx_streq(M_table_cell_at(t, 1, (size_t)k), V[r2 - 1][k]), "%s: cell 1,%d", mc_escs(b), k); } }
	M_table_destroy(t);
}
void mc_run(void)
{
	int only = (int)mc_param("only", -1, -1);
	static void (*R[])(void) = { run_ops, run_json, run_md, run_mdtext };
	R[only >= 0 ? only : mc_choose(HX_N(R))]();
}
