// MODE: seq
// MODS: sql thread base
// WRAP: M_module_load M_module_symbol M_module_unload M_thread_sleep
// Transactions and statements on a simulated database with faults (C13).
#include "hx.h"
#include "mockdb.h"
const char *mc_name = "h_sqltrans";
void mc_init(void) { mc_leakcheck = 1; mc_set_budget((int)mc_param("budget", 2, 3)); M_sql_connpool_destroy(NULL); }
void __wrap_M_thread_sleep(M_uint64 us) { (void)us; mc_step(); }
static M_sql_connpool_t *pool; static int nextv, outs[8], nouts, outok[8], rows_[16], nrows, attempts, lasterr, policy, nops, fetcherr, ops_[4], opsfix, cbres; static char trail[300];
static void tr_(const char *s, int v) { size_t l = strlen(trail); snprintf(trail + l, sizeof(trail) - l, "%s%d ", s, v); }
static void tracecb(M_sql_trace_t type, const M_sql_trace_data_t *d, void *arg)
{
	char *q;
	(void)arg; (void)type; q = M_sql_trace_get_query_formatted(d); M_free(q); (void)M_sql_trace_get_has_result_rows(d); (void)M_sql_trace_get_bind_rows_current(d); (void)M_sql_trace_get_bind_rows_processed(d); (void)M_sql_trace_get_error(d); (void)M_str_len(M_sql_trace_get_error_string(d)); (void)M_sql_trace_get_duration_ms(d); (void)M_sql_trace_get_total_duration_ms(d); (void)M_str_len(M_sql_trace_get_query_user(d)); (void)M_str_len(M_sql_trace_get_query_prepared(d)); (void)M_sql_trace_get_conn_id(d); (void)M_sql_trace_get_conntype(d); (void)M_sql_trace_get_bind_rows(d); (void)M_sql_trace_get_bind_cols(d); (void)M_sql_trace_get_result_row_count(d); (void)M_sql_trace_get_affected_rows(d);
}
static M_sql_error_t ins(M_sql_trans_t *t, int n, int *v0)       /* insert n rows, in t or on its own */
{
	M_sql_stmt_t *s = M_sql_stmt_create(); M_sql_error_t e; int i;
	*v0 = nextv; if (M_sql_stmt_prepare(s, "INSERT INTO t VALUES (?)") != M_SQL_ERROR_SUCCESS) mc_fail("prepare fails");
	for (i = 0; i < n; i++) { if (i) M_sql_stmt_bind_new_row(s); M_sql_stmt_bind_int32(s, nextv++); }
	e = t ? M_sql_trans_execute(t, s) : M_sql_stmt_execute(pool, s);
	if (M_sql_stmt_get_error(s) != e) mc_fail("%s returned %d, error of the statement is %d", t ? "M_sql_trans_execute" : "M_sql_stmt_execute", (int)e, (int)M_sql_stmt_get_error(s));
	if (M_sql_error_is_error(e) && M_str_isempty(M_sql_stmt_get_error_string(s))) mc_fail("error %d without a text", (int)e);
	M_sql_stmt_destroy(s); return e;
}
static M_sql_error_t sel(M_sql_trans_t *t, int max)              /* select 3 rows, max at a time */
{
	M_sql_stmt_t *s = M_sql_stmt_create(); M_sql_error_t e; int got = 0, stop = mc_choose(2);
	M_sql_stmt_prepare(s, "SELECT 3"); M_sql_stmt_set_max_fetch_rows(s, (size_t)max);
	e = t ? M_sql_trans_execute(t, s) : M_sql_stmt_execute(pool, s);
	if (!M_sql_error_is_error(e)) {
		for (;;) {
			size_t i, n; if (max && e == M_SQL_ERROR_SUCCESS_ROW) { if (stop && got) break; e = M_sql_stmt_fetch(s); if (M_sql_error_is_error(e)) { fetcherr = 1; break; } }
			n = M_sql_stmt_result_num_rows(s); if (max && (int)n > max) mc_fail("fetch gave %d rows, at most %d asked for", (int)n, max);
			for (i = 0; i < n; i++, got++) if (M_sql_stmt_result_int32_direct(s, i, 0) != 100 + got) mc_fail("row %d reads %d", got, (int)M_sql_stmt_result_int32_direct(s, i, 0));
			if (e != M_SQL_ERROR_SUCCESS_ROW) break;
		}
		if (!M_sql_error_is_error(e) && got != 3 && !(stop && max)) mc_fail("%d rows of 3", got);
	}
	if (M_sql_error_is_error(e) && e != M_sql_stmt_get_error(s)) mc_fail("select returned %d, error of the statement is %d", (int)e, (int)M_sql_stmt_get_error(s));
	M_sql_stmt_destroy(s); return M_sql_error_is_error(e) ? e : M_SQL_ERROR_SUCCESS;
}
static M_sql_error_t ops(M_sql_trans_t *t)
{
	int i, j, v; M_sql_error_t e = M_SQL_ERROR_SUCCESS;
	nrows = 0;
	for (i = 0; i < nops; i++) {
		M_sql_error_t r = M_SQL_ERROR_SUCCESS; int n = 0;
		switch (ops_[i]) {
		case 0: n = 1; r = ins(t, 1, &v); break;
		case 1: n = 3; r = ins(t, 3, &v); break;
		case 2: r = sel(t, 1); break;
		case 3: r = sel(t, 0); break;
		case 4: if (nouts < 8) { int w; M_sql_error_t q = ins(NULL, 1, &w); outs[nouts] = w; outok[nouts++] = !M_sql_error_is_error(q); } break;
		case 5: r = sel(t, 2); break;
		}
		tr_("op", ops_[i]); tr_("=", (int)r);
		if (!M_sql_error_is_error(r)) { for (j = 0; j < n; j++) rows_[nrows++] = v + j; }
		else { lasterr = (int)r; e = r; if (policy != 1) return r; if (n == 3) { nrows = -1; return r; } }
	}
	return e;
}
static M_sql_error_t cb(M_sql_trans_t *t, void *arg, char *error, size_t n)
{
	M_sql_error_t e; (void)arg; (void)error; (void)n;
	if (attempts++ > 6) mc_fail("more than 6 attempts");
	e = ops(t); cbres = (int)e;
	if (policy != 1 && M_sql_error_is_error(e)) return e;
	switch (policy) { case 2: return (M_sql_error_t)(cbres = M_SQL_ERROR_USER_SUCCESS); case 3: return (M_sql_error_t)(cbres = M_SQL_ERROR_USER_BYPASS); case 4: M_snprintf(error, n, "no"); return (M_sql_error_t)(cbres = M_SQL_ERROR_USER_FAILURE); case 5: if (attempts == 1) return (M_sql_error_t)(cbres = M_SQL_ERROR_USER_RETRY); break; case 6: return (M_sql_error_t)(cbres = M_SQL_ERROR_SUCCESS_ROW); default: break; }
	return (M_sql_error_t)(cbres = M_SQL_ERROR_SUCCESS);
}
static void finish(int ok, int base)                            /* the rows in rows_ are there once if ok, and nothing else */
{
	int i, want = 0, idle;
	for (i = 0; i < nrows; i++) { int c = md_count(rows_[i]); if (c != (ok ? 1 : 0)) mc_fail("row %d is in the database %d times after the transaction %s: %s", rows_[i], c, ok ? "was committed" : "failed", trail); want += ok; }
	for (i = 0; i < nouts; i++) { int c = md_count(outs[i]); if (c != outok[i]) mc_fail("row %d inserted outside the transaction (%s) is there %d times: %s", outs[i], outok[i] ? "success" : "failure", c, trail); want += outok[i]; }
	if (md.n != want + base) mc_fail("%d rows in the database, expected %d: %s", md.n, want + base, trail);
	idle = (int)M_sql_connpool_active_conns(pool, M_FALSE); if (idle != md.conns) mc_fail("pool says %d connections, %d are open: %s", idle, md.conns, trail);
}
void mc_run(void)
{
	char err[256] = "x"; M_sql_error_t e; int mode, i, k, v; M_sql_trans_t *t = NULL; M_uint32 flags;
	static const int NF[] = { 0 };
	(void)NF; md_reset(); trail[0] = 0; nextv = 1; nouts = nrows = attempts = lasterr = policy = nops = cbres = fetcherr = 0;
	mode = mc_choose(4); flags = mc_choose(2) ? M_SQL_CONNPOOL_FLAG_NO_AUTORETRY_QUERY : 0; md.chunk = 1 + mc_choose(2); md.fetch_lastrow = mc_choose(2); md.maxconns = 2;
	if (mc_param("only", -1, -1) >= 0 && mc_param("only", -1, -1) != mode) mc_prune();
	pool = md_pool(2, flags); M_sql_connpool_add_trace(pool, tracecb, NULL);
	if (M_sql_connpool_start(pool, err, sizeof(err)) != M_SQL_ERROR_SUCCESS) mc_fail("pool does not start: %s", err);
	md.nfault_conn = 2; md.nfault_begin = 4; md.nfault_exec = 5; md.nfault_prep = 4; md.nfault_fetch = 4; md.nfault_roll = 2; md.nfault_commit = 4;
	switch (mode) {
	case 0: case 1:      /* M_sql_trans_process, M_sql_trans_begin ... */
		nops = 1 + mc_choose(2); for (i = 0; i < nops; i++) ops_[i] = mc_choose(6);
		policy = mc_choose(mode ? 3 : 7); tr_("policy", policy);
		if (mode == 0) {
			int ne = mc_choose_cost(2);
			e = M_sql_trans_process(pool, M_SQL_ISOLATION_SERIALIZABLE, cb, NULL, ne ? NULL : err, ne ? 0 : sizeof(err)); tr_("process", (int)e);
			if (M_sql_error_is_rollback(e)) mc_fail("M_sql_trans_process returns %d, which must be retried: %s", (int)e, trail);
			if (!M_sql_error_is_error(e)) { if ((int)e != (policy == 1 ? (int)M_SQL_ERROR_SUCCESS : cbres)) mc_fail("M_sql_trans_process returns %d, the commands returned %d: %s", (int)e, cbres, trail); if (policy == 4 || policy == 6) mc_fail("success although the commands failed"); }
			else {
				if (!ne && !fetcherr && policy != 4 && M_str_isempty(err)) mc_fail("error %d without a text: %s", (int)e, trail);
				if (md.faults == 0 && policy != 4 && policy != 6) mc_fail("error %d without a fault: %s", (int)e, trail);
				if (policy == 4 && md.faults == 0 && e != M_SQL_ERROR_USER_FAILURE) mc_fail("error %d instead of the user's", (int)e);
			}
			if (md.faults == 0 && attempts != (policy == 5 ? 2 : 1)) mc_fail("%d attempts without a fault", attempts);
		} else {
			e = M_sql_trans_begin(&t, pool, M_SQL_ISOLATION_SERIALIZABLE, err, sizeof(err)); tr_("begin", (int)e);
			if (e != M_SQL_ERROR_SUCCESS) { if (t != NULL) mc_fail("failed begin gives a transaction"); if (!flags && !M_sql_error_is_fatal(e)) mc_fail("begin returns %d with automatic retries on", (int)e); if (md.faults == 0) mc_fail("begin fails with %d", (int)e); break; }
			e = ops(t); 
			if (policy == 2 || (policy == 0 && M_sql_error_is_error(e))) { e = M_sql_trans_rollback(t); tr_("rollback", (int)e); e = M_SQL_ERROR_USER_FAILURE; }
			else { e = M_sql_trans_commit(t, err, sizeof(err)); tr_("commit", (int)e); if (e != M_SQL_ERROR_SUCCESS && M_str_isempty(err)) mc_fail("commit fails with %d without a text", (int)e); if (e != M_SQL_ERROR_SUCCESS && md.faults == 0) mc_fail("commit fails with %d", (int)e); }
		}
		if (nrows < 0) { mc_prune(); }      /* failure ignored after part of the rows of one statement was inserted */
		finish(!M_sql_error_is_error(e), 0);
		break;
	case 2:              /* M_sql_stmt_execute */
		nops = 1 + mc_choose(2);
		{ int base = 0; for (i = 0; i < nops; i++) { int before = md.n, f0 = md.faults; k = 1 + 2 * mc_choose(2); e = ins(NULL, k, &v); tr_("exec", (int)e);
			if (M_sql_error_is_error(e) && md.faults == f0) mc_fail("execute fails with %d: %s", (int)e, trail);
			if (!flags && M_sql_error_is_rollback(e)) mc_fail("execute returns %d with automatic retries on: %s", (int)e, trail);
			nrows = 0; for (; nrows < k; nrows++) rows_[nrows] = v + nrows; finish(!M_sql_error_is_error(e), before); base = md.n; } (void)base; }
		break;
	default:             /* selects outside transactions, then a statement to see the pool is usable */
		nops = mc_choose(3); e = sel(NULL, nops); tr_("select", (int)e);
		if (M_sql_error_is_error(e) && md.faults == 0) mc_fail("select fails with %d", (int)e);
		e = ins(NULL, 1, &v); nrows = 1; rows_[0] = v; finish(!M_sql_error_is_error(e), 0);
		break;
	}
	md.nfault_conn = md.nfault_begin = md.nfault_exec = md.nfault_prep = md.nfault_fetch = md.nfault_roll = md.nfault_commit = 0;
	/* everything was given back: two transactions at a time still work */
	{ M_sql_trans_t *a, *b; if (M_sql_trans_begin(&a, pool, M_SQL_ISOLATION_SERIALIZABLE, err, sizeof(err)) != M_SQL_ERROR_SUCCESS || M_sql_trans_begin(&b, pool, M_SQL_ISOLATION_SERIALIZABLE, err, sizeof(err)) != M_SQL_ERROR_SUCCESS) mc_fail("pool is unusable afterwards"); M_sql_trans_rollback(a); M_sql_trans_rollback(b); }
	e = M_sql_connpool_destroy(pool); if (e != M_SQL_ERROR_SUCCESS) mc_fail("pool cannot be destroyed: %d: %s", (int)e, trail);
	if (md.opened != md.closed || md.stmts) mc_fail("%d connections opened, %d closed, %d statements left", md.opened, md.closed, md.stmts);
	mc_outcome(mc_h64((M_uint64)(mode * 16 + policy), (M_uint64)md.n));
}
