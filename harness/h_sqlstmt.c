// MODE: seq
// MODS: sql thread base
// WRAP: M_module_load M_module_symbol M_module_unload M_thread_sleep
// Parameters reach the driver and rows reach the caller exactly (C14).
#include "hx.h"
#include "mockdb.h"
const char *mc_name = "h_sqlstmt";
void __wrap_M_thread_sleep(M_uint64 us) { (void)us; mc_step(); }
typedef struct { int type, null, i; const char *s; int len; } cell_t;     /* type: M_sql_data_type_t */
#define MR 5
#define MC 3
static cell_t want[MR][MC]; static int wr, wc, seen, chunkmode, bound_any;
static cell_t out[MR][MC]; static int outr, outc, outpos, coltype[MC]; static const char *colname[MC]; static int lastwith;
static const M_uint8 BIN[] = { 0, 'a', 0xff, 0, 7 };
static void cmpcell(M_sql_stmt_t *s, size_t row, size_t c, const cell_t *w)
{
	M_sql_data_type_t t = M_sql_driver_stmt_bind_get_type(s, row, c);
	if ((int)t != w->type) mc_fail("parameter %d of row %d has type %d at the driver, bound %d", (int)c, (int)row + seen, (int)t, w->type);
	if (!!M_sql_driver_stmt_bind_isnull(s, row, c) != w->null) mc_fail("parameter %d of row %d is %s at the driver", (int)c, (int)row + seen, w->null ? "not null" : "null");
	if (t != M_SQL_DATA_TYPE_BOOL && M_sql_driver_stmt_bind_get_bool_addr(s, row, c) != NULL) mc_fail("bool of another type");
	if (t != M_SQL_DATA_TYPE_INT16 && (M_sql_driver_stmt_bind_get_int16_addr(s, row, c) != NULL || M_sql_driver_stmt_bind_get_int16(s, row, c) != 0)) mc_fail("int16 of another type");
	if (t != M_SQL_DATA_TYPE_INT32 && (M_sql_driver_stmt_bind_get_int32_addr(s, row, c) != NULL || M_sql_driver_stmt_bind_get_int32(s, row, c) != 0)) mc_fail("int32 of another type");
	if (t != M_SQL_DATA_TYPE_INT64 && (M_sql_driver_stmt_bind_get_int64_addr(s, row, c) != NULL || M_sql_driver_stmt_bind_get_int64(s, row, c) != 0)) mc_fail("int64 of another type");
	if (t != M_SQL_DATA_TYPE_TEXT && (M_sql_driver_stmt_bind_get_text(s, row, c) != NULL || M_sql_driver_stmt_bind_get_text_len(s, row, c) != 0)) mc_fail("text of another type");
	if (t != M_SQL_DATA_TYPE_BINARY && (M_sql_driver_stmt_bind_get_binary(s, row, c) != NULL || M_sql_driver_stmt_bind_get_binary_len(s, row, c) != 0)) mc_fail("binary of another type");
	if (w->null) { if (t == M_SQL_DATA_TYPE_TEXT && M_sql_driver_stmt_bind_get_text_len(s, row, c)) mc_fail("null text with a length"); if (t == M_SQL_DATA_TYPE_BINARY && M_sql_driver_stmt_bind_get_binary_len(s, row, c)) mc_fail("null binary with a length"); return; }
	switch (t) {
	case M_SQL_DATA_TYPE_BOOL: if (!!M_sql_driver_stmt_bind_get_bool(s, row, c) != (w->i & 1) || !!*M_sql_driver_stmt_bind_get_bool_addr(s, row, c) != (w->i & 1)) mc_fail("bool parameter differs"); if (M_sql_driver_stmt_bind_get_curr_col_size(s, row, c) != sizeof(M_bool)) mc_fail("size of bool"); break;
	case M_SQL_DATA_TYPE_INT16: if (M_sql_driver_stmt_bind_get_int16(s, row, c) != (M_int16)w->i || *M_sql_driver_stmt_bind_get_int16_addr(s, row, c) != (M_int16)w->i) mc_fail("int16 parameter differs"); if (M_sql_driver_stmt_bind_get_curr_col_size(s, row, c) != 2) mc_fail("size of int16"); break;
	case M_SQL_DATA_TYPE_INT32: if (M_sql_driver_stmt_bind_get_int32(s, row, c) != w->i || *M_sql_driver_stmt_bind_get_int32_addr(s, row, c) != w->i) mc_fail("int32 parameter differs"); if (M_sql_driver_stmt_bind_get_curr_col_size(s, row, c) != 4) mc_fail("size of int32"); break;
	case M_SQL_DATA_TYPE_INT64: if (M_sql_driver_stmt_bind_get_int64(s, row, c) != (M_int64)w->i * 5000000000LL || *M_sql_driver_stmt_bind_get_int64_addr(s, row, c) != (M_int64)w->i * 5000000000LL) mc_fail("int64 parameter differs"); if (M_sql_driver_stmt_bind_get_curr_col_size(s, row, c) != 8) mc_fail("size of int64"); break;
	case M_SQL_DATA_TYPE_TEXT: { const char *p = M_sql_driver_stmt_bind_get_text(s, row, c); size_t l = M_sql_driver_stmt_bind_get_text_len(s, row, c); if (l != (size_t)w->len || (l && (p == NULL || memcmp(p, w->s, l)))) mc_fail("text parameter is %s of %d bytes, bound %s of %d", p ? mc_escs(p) : "NULL", (int)l, mc_escs(w->s), w->len); if (p == NULL && l == 0) mc_fail("empty text parameter is NULL at the driver"); if (M_sql_driver_stmt_bind_get_curr_col_size(s, row, c) != l) mc_fail("size of text"); break; }
	case M_SQL_DATA_TYPE_BINARY: { const M_uint8 *p = M_sql_driver_stmt_bind_get_binary(s, row, c); size_t l = M_sql_driver_stmt_bind_get_binary_len(s, row, c); if (l != (size_t)w->len || (l && (p == NULL || memcmp(p, w->s, l)))) mc_fail("binary parameter differs"); if (M_sql_driver_stmt_bind_get_curr_col_size(s, row, c) != l) mc_fail("size of binary"); break; }
	default: mc_fail("type %d", (int)t);
	}
}
static void put(M_sql_stmt_t *s, const cell_t *w, int ct) { M_buf_t *b = M_sql_driver_stmt_result_col_start(s); if (b == NULL) mc_fail("no buffer for a column"); if (w->null) return; M_buf_add_bytes(b, w->s, (size_t)w->len); M_buf_add_byte(b, 0); (void)ct; }
static M_sql_error_t ex(M_sql_conn_t *conn, M_sql_stmt_t *s, size_t *rows, char *e, size_t n)
{
	size_t r, c, nr = M_sql_driver_stmt_bind_rows(s); int k; (void)conn; (void)e; (void)n;
	md.executes++;
	if (M_sql_driver_stmt_get_query(s)[0] == 'S') {
		if (!M_sql_driver_stmt_result_set_num_cols(s, (size_t)outc)) mc_fail("number of columns cannot be set");
		for (k = 0; k < outc; k++) if (!M_sql_driver_stmt_result_set_col_name(s, (size_t)k, colname[k]) || !M_sql_driver_stmt_result_set_col_type(s, (size_t)k, (M_sql_data_type_t)coltype[k], (size_t)(k + 1))) mc_fail("column cannot be described");
		outpos = 0; return outr ? M_SQL_ERROR_SUCCESS_ROW : M_SQL_ERROR_SUCCESS;
	}
	if ((int)nr != wr - seen) mc_fail("%d rows at the driver, %d left of those bound", (int)nr, wr - seen);
	if ((int)M_sql_driver_stmt_bind_cnt(s) != (wr ? wc : 0)) mc_fail("%d parameters at the driver, bound %d", (int)M_sql_driver_stmt_bind_cnt(s), wc);
	for (c = 0; (int)c < wc && nr; c++) { size_t mx = 0; for (r = 0; r < nr; r++) { cmpcell(s, r, c, &want[seen + (int)r][c]); if (!want[seen + (int)r][c].null && (size_t)want[seen + (int)r][c].len > mx) mx = (size_t)want[seen + (int)r][c].len; } if ((want[0][c].type == M_SQL_DATA_TYPE_TEXT || want[0][c].type == M_SQL_DATA_TYPE_BINARY) && M_sql_driver_stmt_bind_get_max_col_size(s, c) != mx) mc_fail("largest size of parameter %d is %d, expected %d", (int)c, (int)M_sql_driver_stmt_bind_get_max_col_size(s, c), (int)mx); if ((int)M_sql_driver_stmt_bind_get_col_type(s, c) != want[0][c].type) mc_fail("type of parameter %d", (int)c); }
	if (!M_sql_driver_stmt_bind_isnull(s, nr, 0) || M_sql_driver_stmt_bind_get_text(s, nr, 0) != NULL || M_sql_driver_stmt_bind_get_int32(s, nr, 0) != 0 || !M_sql_driver_stmt_bind_isnull(s, 0, (size_t)wc)) mc_fail("parameters past the end");
	k = (int)nr > chunkmode ? chunkmode : (int)nr; *rows = (size_t)(k ? k : 1); seen += k; M_sql_driver_stmt_result_set_affected_rows(s, (size_t)k); return M_SQL_ERROR_SUCCESS;
}
static M_sql_error_t fe(M_sql_conn_t *conn, M_sql_stmt_t *s, char *e, size_t n)
{
	int c; (void)conn; (void)e; (void)n;
	if (outpos >= outr) return M_SQL_ERROR_SUCCESS;
	for (c = 0; c < outc; c++) put(s, &out[outpos][c], coltype[c]);
	if (M_sql_driver_stmt_result_col_start(s) != NULL && outc > 0) mc_fail("a column too many is accepted");
	return (M_sql_error_t)0;
}
static M_sql_error_t fe2(M_sql_conn_t *conn, M_sql_stmt_t *s, char *e, size_t n)
{
	int c; (void)conn; (void)e; (void)n;
	if (outpos >= outr) return M_SQL_ERROR_SUCCESS;
	for (c = 0; c < outc; c++) put(s, &out[outpos][c], coltype[c]);
	if (!M_sql_driver_stmt_result_row_finish(s)) mc_fail("row cannot be finished");
	outpos++;
	return outpos >= outr && lastwith ? M_SQL_ERROR_SUCCESS : M_SQL_ERROR_SUCCESS_ROW;
}
static M_sql_connpool_t *pool;
void mc_init(void) { mc_leakcheck = 1; M_sql_connpool_destroy(NULL); md_driver.cb_execute = ex; md_driver.cb_fetch = fe2; (void)fe; }
static const cell_t VALS[] = {   /* every kind of parameter */
	{ M_SQL_DATA_TYPE_INT32, 0, -7, NULL, 0 }, { M_SQL_DATA_TYPE_TEXT, 0, 0, "abc", 3 }, { M_SQL_DATA_TYPE_TEXT, 0, 0, "", 0 }, { M_SQL_DATA_TYPE_TEXT, 1, 0, NULL, 0 }, { M_SQL_DATA_TYPE_BINARY, 0, 0, (const char *)BIN, 5 },
	{ M_SQL_DATA_TYPE_BOOL, 0, 1, NULL, 0 }, { M_SQL_DATA_TYPE_BOOL, 1, 0, NULL, 0 }, { M_SQL_DATA_TYPE_INT16, 0, -32768, NULL, 0 }, { M_SQL_DATA_TYPE_INT16, 1, 0, NULL, 0 }, { M_SQL_DATA_TYPE_INT32, 1, 0, NULL, 0 }, { M_SQL_DATA_TYPE_INT64, 0, 3, NULL, 0 }, { M_SQL_DATA_TYPE_INT64, 1, 0, NULL, 0 }, { M_SQL_DATA_TYPE_BINARY, 1, 0, NULL, 0 }, { M_SQL_DATA_TYPE_BOOL, 0, 0, NULL, 0 }, { M_SQL_DATA_TYPE_TEXT, 0, 0, "a\"b'c;?", 7 } };
static cell_t bindv(M_sql_stmt_t *s, int k, int how)
{
	cell_t c = VALS[k]; int cut = 0; size_t ml = 0; bound_any = 1;
	switch (c.type) {
	case M_SQL_DATA_TYPE_BOOL: if (c.null) M_sql_stmt_bind_bool_null(s); else M_sql_stmt_bind_bool(s, (M_bool)c.i); break;
	case M_SQL_DATA_TYPE_INT16: if (c.null) M_sql_stmt_bind_int16_null(s); else M_sql_stmt_bind_int16(s, (M_int16)c.i); break;
	case M_SQL_DATA_TYPE_INT32: if (c.null) M_sql_stmt_bind_int32_null(s); else M_sql_stmt_bind_int32(s, c.i); break;
	case M_SQL_DATA_TYPE_INT64: if (c.null) M_sql_stmt_bind_int64_null(s); else M_sql_stmt_bind_int64(s, (M_int64)c.i * 5000000000LL); break;
	case M_SQL_DATA_TYPE_TEXT: if (how >= 3) { cut = 1; ml = how == 3 ? 2 : 9; how = how == 3 ? 1 : 2; } if (cut && (size_t)c.len > ml) c.len = (int)ml;
		if (how == 0) M_sql_stmt_bind_text_const(s, c.s, ml); else if (how == 1) M_sql_stmt_bind_text_dup(s, c.s, ml); else M_sql_stmt_bind_text_own(s, c.null ? NULL : M_strdup(c.s), ml); break;
	default: if (how == 0) M_sql_stmt_bind_binary_const(s, (const M_uint8 *)c.s, (size_t)c.len); else if (how == 1) M_sql_stmt_bind_binary_dup(s, (const M_uint8 *)c.s, (size_t)c.len); else M_sql_stmt_bind_binary_own(s, c.null ? NULL : M_memdup(c.s, (size_t)c.len), (size_t)c.len); break;
	}
	return c;
}
static void run_bind(void)
{
	M_sql_stmt_t *s = M_sql_stmt_create(); int r, c, R, C, q, blank, i, bad = 0, rounds, round; char query[64]; M_sql_error_t e; int nops = 0;
	static const char *const Q[] = { "INSERT INTO t VALUES (1)", "INSERT INTO t VALUES (?)", "INSERT INTO t VALUES (?, ?)", "INSERT INTO t VALUES (?, ?, ?)" };
	C = 1 + mc_choose(2); R = 1 + mc_choose(C == 1 ? 4 : 2); q = mc_choose_cost(2) ? mc_choose(4) : C; chunkmode = 1 + (R > 1 ? mc_choose(3) : 0); blank = mc_choose_cost(3); rounds = 1 + mc_choose_cost(2);
	if (M_sql_stmt_prepare(s, Q[q]) != M_SQL_ERROR_SUCCESS) mc_fail("prepare fails");
	(void)query; (void)nops;
	for (round = 0; round < rounds; round++) {
		int base = 0;
		if (round) M_sql_stmt_bind_clear(s);
		bad = 0;
		for (r = 0; r < R; r++) {
			if (r) M_sql_stmt_bind_new_row(s);
			if (r == 1 && blank == 2) { (void)bindv(s, 0, 0); M_sql_stmt_bind_clear_row(s); M_sql_stmt_bind_new_row(s); }
			for (c = 0; c < C; c++) {
				int k; if (r == 0) { k = mc_choose(C == 1 && R <= 2 ? HX_N(VALS) : R <= 2 ? 6 : 3); base = k; } else k = (mc_choose_cost(2) == 0) ? (mc_choose(2) && VALS[base].type == M_SQL_DATA_TYPE_TEXT ? 2 : want[0][c].type == M_SQL_DATA_TYPE_TEXT ? 3 : base) : mc_choose(5);
				if (r && VALS[k].type != want[0][c].type && C > 1) { for (k = 0; VALS[k].type != want[0][c].type; k++) ; }
				want[r][c] = bindv(s, k, VALS[k].type == M_SQL_DATA_TYPE_TEXT || VALS[k].type == M_SQL_DATA_TYPE_BINARY ? (C == 1 && R <= 2 ? mc_choose(VALS[k].type == M_SQL_DATA_TYPE_TEXT && !VALS[k].null ? 5 : 3) : (r + c + k) % (VALS[k].type == M_SQL_DATA_TYPE_TEXT && !VALS[k].null ? 5 : 3)) : 0);
				if (r && want[r][c].type != want[0][c].type) bad = M_SQL_ERROR_PREPARE_INVALID;
			}
		}
		if (blank == 1) { M_sql_stmt_bind_new_row(s); M_sql_stmt_bind_new_row(s); }
		wr = R; wc = C; seen = 0; i = md.executes; if (q != C) bad = M_SQL_ERROR_QUERY_WRONGNUMPARAMS;
		e = M_sql_stmt_execute(pool, s);
		if (bad) { if ((int)e != bad || md.executes != i) mc_fail("invalid binding: execute returns %d, expected %d", (int)e, bad); continue; }
		if (e != M_SQL_ERROR_SUCCESS) mc_fail("execute returns %d: %s", (int)e, M_sql_stmt_get_error_string(s));
		if (seen != R) mc_fail("%d rows executed of %d", seen, R);
		if ((int)M_sql_stmt_result_affected_rows(s) != R) mc_fail("%d rows affected, expected %d", (int)M_sql_stmt_result_affected_rows(s), R);
		seen = 0; if (mc_choose(2)) { e = M_sql_stmt_execute(pool, s); if (e != M_SQL_ERROR_SUCCESS || seen != R || (int)M_sql_stmt_result_affected_rows(s) != R) mc_fail("executing again: %d, %d rows", (int)e, seen); }
	}
	M_sql_stmt_destroy(s);
	mc_outcome((M_uint64)(R * 100 + C * 10 + bad));
}
static const char *const TXT[] = { NULL, "7", "", "x", "-32769", "70000", "3000000000", "yes", "Off", "-32768", "0", "9223372036854775808" };
static M_int64 num(const char *s, int *ok) { M_int64 v = 0; int neg = 0; const char *p = s; *ok = 1; if (s == NULL) return 0; if (*p == '-') { neg = 1; p++; } if (!*p) { *ok = 0; return 0; } for (; *p; p++) { if (*p < '0' || *p > '9') { *ok = 0; return 0; } if (v > 922337203685477580LL || (v == 922337203685477580LL && *p > '7')) { *ok = 0; return 0; } v = v * 10 + (*p - '0'); } return neg ? -v : v; }
static void check_row(M_sql_stmt_t *s, size_t row, int abs)
{
	int c;
	for (c = 0; c < outc; c++) {
		const cell_t *w = &out[abs][c]; M_bool b = 3; const char *t = "?"; const M_uint8 *bp = (const M_uint8 *)"?"; size_t bl = 99; M_sql_error_t e; M_int16 i16 = 99; M_int32 i32 = 99; M_int64 i64 = 99, v; int ok;
		if (M_sql_stmt_result_isnull(s, row, (size_t)c, &b) != M_SQL_ERROR_SUCCESS || !!b != w->null) mc_fail("cell %d of row %d is %s", c, abs, b ? "null" : "not null");
		e = M_sql_stmt_result_text(s, row, (size_t)c, &t);
		if (coltype[c] == M_SQL_DATA_TYPE_BINARY) {
			if (e == M_SQL_ERROR_SUCCESS || t != NULL) mc_fail("text of a binary column");
			if (M_sql_stmt_result_binary(s, row, (size_t)c, &bp, &bl) != M_SQL_ERROR_SUCCESS || (w->null ? bp != NULL || bl != 0 : bl != (size_t)w->len || (bl && memcmp(bp, w->s, bl)))) mc_fail("binary cell %d of row %d differs", c, abs);
			if (M_sql_stmt_result_int32(s, row, (size_t)c, &i32) == M_SQL_ERROR_SUCCESS) mc_fail("number of a binary column");
			continue;
		}
		if (e != M_SQL_ERROR_SUCCESS || !(t == NULL ? w->null : !w->null && !strcmp(t, w->s))) mc_fail("cell %d of row %d reads %s, expected %s", c, abs, t ? mc_escs(t) : "NULL", w->null ? "NULL" : mc_escs(w->s));
		if (M_sql_stmt_result_text_direct(s, row, (size_t)c) != t || !hx_streq(M_sql_stmt_result_text_byname_direct(s, row, colname[c]) ? M_sql_stmt_result_text_byname_direct(s, row, colname[c]) : "", t ? t : "")) mc_fail("text getters disagree");
		if (M_sql_stmt_result_binary(s, row, (size_t)c, &bp, &bl) == M_SQL_ERROR_SUCCESS) mc_fail("binary of a text column");
		v = num(w->null ? NULL : w->s, &ok);
		e = M_sql_stmt_result_int64(s, row, (size_t)c, &i64); if ((e == M_SQL_ERROR_SUCCESS) != ok || (ok && i64 != v)) mc_fail("int64 of %s: %d, %lld", t ? mc_escs(t) : "NULL", (int)e, (long long)i64);
		if (ok && (v > 2147483647LL || v < -2147483648LL)) ok = 0;
		e = M_sql_stmt_result_int32(s, row, (size_t)c, &i32); if ((e == M_SQL_ERROR_SUCCESS) != ok || (ok && i32 != v)) mc_fail("int32 of %s: %d, %d", t ? mc_escs(t) : "NULL", (int)e, (int)i32);
		if (M_sql_stmt_result_int32_direct(s, row, (size_t)c) != (ok ? (M_int32)v : 0) || M_sql_stmt_result_int32_byname_direct(s, row, colname[c]) != (ok ? (M_int32)v : 0)) mc_fail("int32 getters disagree");
		if (ok && (v > 32767 || v < -32768)) ok = 0;
		e = M_sql_stmt_result_int16(s, row, (size_t)c, &i16); if ((e == M_SQL_ERROR_SUCCESS) != ok || (ok && i16 != v)) mc_fail("int16 of %s: %d, %d", t ? mc_escs(t) : "NULL", (int)e, (int)i16);
		if (!w->null) { static const char *const B[] = { "0", "n", "no", "false", "off", "1", "y", "yes", "true", "on" }; int k; for (k = 0; k < 10 && !M_str_caseeq(w->s, B[k]); k++) ; e = M_sql_stmt_result_bool(s, row, (size_t)c, &b); if ((e == M_SQL_ERROR_SUCCESS) != (k < 10) || (k < 10 && !!b != (k >= 5))) mc_fail("bool of %s: %d, %d", mc_escs(w->s), (int)e, (int)b); }
		if (M_sql_stmt_result_int64(s, row, (size_t)outc, &i64) == M_SQL_ERROR_SUCCESS || M_sql_stmt_result_text_byname(s, row, "nope", &t) == M_SQL_ERROR_SUCCESS || t != NULL || M_sql_stmt_result_isnull_direct(s, row, (size_t)outc) != M_TRUE) mc_fail("a column that does not exist can be read");
	}
}
static void run_rows(void)
{
	static const int T[] = { M_SQL_DATA_TYPE_TEXT, M_SQL_DATA_TYPE_INT32, M_SQL_DATA_TYPE_BINARY, M_SQL_DATA_TYPE_BOOL }; static const char *const N1[] = { "a", "Val", "b" };
	M_sql_stmt_t *s = M_sql_stmt_create(); int r, c, max, got = 0, pre, stop; M_sql_error_t e; size_t i, n, idx, sz;
	outc = 1 + mc_choose(2); outr = mc_choose(outc == 1 ? 6 : 4); if (outr > MR) outr = MR; lastwith = mc_choose(2); max = mc_choose(5); pre = mc_choose_cost(2); stop = mc_choose_cost(2);
	for (c = 0; c < outc; c++) { coltype[c] = T[outr > 3 ? 0 : mc_choose(outr > 2 ? 2 : HX_N(T))]; colname[c] = N1[c]; }
	for (r = 0; r < outr; r++) for (c = 0; c < outc; c++) {
		cell_t *w = &out[r][c]; int k = mc_choose(outr * outc > 2 ? 2 : outr * outc > 1 ? 4 : HX_N(TXT)); w->null = TXT[k] == NULL; w->s = TXT[k]; w->len = TXT[k] ? (int)strlen(TXT[k]) : 0; if (outr * outc > 2 && k == 1 && (r & 1)) { w->s = "-8"; w->len = 2; }
		if (coltype[c] == M_SQL_DATA_TYPE_BINARY && k == 3) { w->s = (const char *)BIN; w->len = 5; }
	}
	M_sql_stmt_prepare(s, "SELECT 1"); M_sql_stmt_set_max_fetch_rows(s, (size_t)max);
again:
	e = M_sql_stmt_execute(pool, s); got = 0;
	if (e != (outr && max ? M_SQL_ERROR_SUCCESS_ROW : M_SQL_ERROR_SUCCESS)) mc_fail("execute returns %d for %d rows, at most %d at a time", (int)e, outr, max);
	if (M_sql_stmt_result_num_cols(s) != (size_t)outc || M_sql_stmt_result_col_name(s, (size_t)outc) != NULL || M_sql_stmt_result_col_type(s, (size_t)outc, &sz) != M_SQL_DATA_TYPE_UNKNOWN) mc_fail("%d columns, expected %d", (int)M_sql_stmt_result_num_cols(s), outc);
	for (c = 0; c < outc; c++) { char up[8]; idx = 9; snprintf(up, sizeof(up), "%s", colname[c]); M_str_upper(up); if (!hx_streq(M_sql_stmt_result_col_name(s, (size_t)c), colname[c]) || (int)M_sql_stmt_result_col_type(s, (size_t)c, &sz) != coltype[c] || sz != (size_t)(c + 1) || !M_sql_stmt_result_col_idx(s, up, &idx) || idx != (size_t)c || (int)M_sql_stmt_result_col_type_byname(s, colname[c], NULL) != coltype[c]) mc_fail("column %d is described wrongly", c); }
	if (M_sql_stmt_result_col_idx(s, "nope", NULL)) mc_fail("a column that does not exist is found");
	for (;;) {
		if (max && M_sql_stmt_has_remaining_rows(s)) { if (stop && got) break; e = M_sql_stmt_fetch(s); if (M_sql_error_is_error(e)) mc_fail("fetch fails with %d", (int)e); }
		n = M_sql_stmt_result_num_rows(s); if (max && (int)n > max) mc_fail("%d rows fetched, at most %d asked for", (int)n, max);
		for (i = 0; i < n; i++) { if (got + (int)i >= outr) mc_fail("row %d of %d", got + (int)i, outr); check_row(s, i, got + (int)i); }
		got += (int)n; { const char *t; M_bool b; if (M_sql_stmt_result_text(s, n, 0, &t) == M_SQL_ERROR_SUCCESS || M_sql_stmt_result_isnull(s, n, 0, &b) == M_SQL_ERROR_SUCCESS || M_sql_stmt_result_text_direct(s, n, 0) != NULL) mc_fail("a row past the end can be read"); }
		if ((int)M_sql_stmt_result_total_rows(s) != got) mc_fail("%d rows in total, %d seen", (int)M_sql_stmt_result_total_rows(s), got);
		if (!M_sql_stmt_has_remaining_rows(s)) break;
		if (max == 0) mc_fail("rows remain although all were to be fetched");
	}
	if (!stop && got != outr) mc_fail("%d rows seen of %d", got, outr);
	if (!stop && max) { e = M_sql_stmt_fetch(s); if (e != M_SQL_ERROR_SUCCESS || M_sql_stmt_result_num_rows(s) != 0) mc_fail("fetch after the end returns %d with %d rows", (int)e, (int)M_sql_stmt_result_num_rows(s)); }
	if (pre && !stop) { pre = 0; goto again; }
	M_sql_stmt_destroy(s); mc_outcome((M_uint64)(outr * 100 + outc * 10 + max + 10000));
}
static void run_prepare(void)
{
	static const char *const P[] = { "S", "'", ";", " ", "?", "\t", "\x01", "CREATE TABLE ", "create table x", "INSERT " };
	char q[128] = ""; int i, n = 1 + mc_choose(3), want_e = 0, params = 0, create; size_t l; char *t; M_sql_stmt_t *s = M_sql_stmt_create(); M_sql_error_t e;
	for (i = 0; i < n; i++) strcat(q, P[mc_choose(HX_N(P))]);
	t = M_strdup_trim(q); l = strlen(t); create = !strncasecmp(t, "CREATE TABLE", 12);
	if (l == 0) want_e = M_SQL_ERROR_PREPARE_INVALID; else for (i = 0; i < (int)l && !want_e; i++) { if (t[i] == '\'' && !create) want_e = M_SQL_ERROR_PREPARE_STRNOTBOUND; else if (t[i] == ';' && i != (int)l - 1) want_e = M_SQL_ERROR_PREPARE_NOMULITQUERY; else if (t[i] == '?') params++; else if (t[i] != ';' && t[i] != '\'' && ((t[i] < 32 && t[i] != 9) || t[i] > 126)) want_e = M_SQL_ERROR_PREPARE_INVALID; }
	e = M_sql_stmt_prepare(s, q); if (M_sql_stmt_get_error(s) != e) mc_fail("error of the statement is %d, returned %d", (int)M_sql_stmt_get_error(s), (int)e);
	if ((int)e != want_e && want_e) mc_fail("preparing %s returns %d, expected %d", mc_escs(q), (int)e, want_e);
	if (!want_e && e != M_SQL_ERROR_SUCCESS) mc_fail("preparing %s returns %d", mc_escs(q), (int)e);
	i = md.executes; wr = seen = 0; wc = 0; chunkmode = 1; if (want_e || params) { e = M_sql_stmt_execute(pool, s); if (!M_sql_error_is_error(e) || md.executes != i) mc_fail("%s %s is executed all the same: %d", params && !want_e ? "without its parameters" : "invalid query", mc_escs(q), (int)e); }
	M_free(t); M_sql_stmt_destroy(s); mc_outcome((M_uint64)want_e + 20000);
}
void mc_run(void)
{
	char err[128]; int m;
	md_reset(); bound_any = 0; m = mc_choose(3); if (mc_param("only", -1, -1) >= 0 && mc_param("only", -1, -1) != m) mc_prune(); mc_set_budget((int)mc_param("budget", 2, 3));
	md.chunk = 100; pool = md_pool(1, 0); if (M_sql_connpool_start(pool, err, sizeof(err)) != M_SQL_ERROR_SUCCESS) mc_fail("pool does not start");
	if (m == 0) run_bind(); else if (m == 1) run_rows(); else run_prepare();
	if (M_sql_connpool_destroy(pool) != M_SQL_ERROR_SUCCESS) mc_fail("pool cannot be destroyed, a connection was not given back");
	if (md.stmts || md.opened != md.closed) mc_fail("statements or connections left");
}
