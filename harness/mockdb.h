// A simulated database behind the SQL driver interface: connections, transactions, cursors and faults chosen by the explorer.
// Every use of a connection that a real server could not honour is a violation. Included after hx.h by the SQL harnesses,
// which must list "WRAP: M_module_load M_module_symbol M_module_unload M_thread_sleep".
#include <mstdlib/mstdlib_sql.h>
#include <mstdlib/sql/m_sql_driver.h>
#include <stdlib.h>
#include <string.h>
#ifndef MD_MAXROWS
#define MD_MAXROWS 32
#endif
struct M_sql_driver_conn { int id, live, dead, in_tx, busy, npend, pend[MD_MAXROWS], cur, curn, nst, ro, host; };
struct M_sql_driver_stmt { struct M_sql_driver_conn *c; char query[128]; int live; };
struct M_sql_driver_connpool { int pools; };
static struct {
	int rows[MD_MAXROWS], n;                        /* committed */
	int conns, maxconns, opened, closed, begins, commits, rollbacks, executes, faults, stmts, nextid, inits, dests;
	int nfault_exec, nfault_begin, nfault_commit, nfault_roll, nfault_conn, nfault_prep, nfault_fetch;  /* how many outcomes to choose from */
	int chunk, hosts; int last_w[MD_MAXROWS]; int fetch_batch, fetch_lastrow;
} md;
#ifndef MD_PREEMPT
#define MD_PREEMPT() do { } while (0)
#define MD_HB(on) do { } while (0)
#else
#define MD_HB(on) sched_hb_off(on)
#endif
static void md_enter(struct M_sql_driver_conn *c, const char *what) { MD_HB(1); if (c == NULL || !c->live) mc_fail("driver: %s on a connection that is closed", what); if (c->dead) mc_fail("driver: %s asked of connection %d which was reported lost", what, c->id); if (c->busy) mc_fail("driver: %s while connection %d is in use by another thread", what, c->id); c->busy = 1; }
static void md_leave(struct M_sql_driver_conn *c) { c->busy = 0; MD_HB(0); }
static int md_fault(int n) { int k; if (n <= 1) return 0; k = mc_choose_cost(n); if (k) md.faults++; return k; }
static void md_drop(struct M_sql_driver_conn *c) { c->in_tx = 0; c->npend = 0; c->cur = c->curn = 0; }
static M_sql_error_t md_err(struct M_sql_driver_conn *c, int k, char *error, size_t n)
{
	M_snprintf(error, n, "fault %d", k);
	if (k == 1) { md_drop(c); return M_SQL_ERROR_QUERY_DEADLOCK; }
	if (k == 2) { md_drop(c); c->dead = 1; return M_SQL_ERROR_CONN_LOST; }
	if (k == 3) return M_SQL_ERROR_QUERY_FAILURE;
	return M_SQL_ERROR_QUERY_CONSTRAINT;
}
static M_bool md_init(char *e, size_t n) { (void)e; (void)n; md.inits++; return M_TRUE; }
static void md_destroy(void) { md.dests++; }
static M_bool md_createpool(M_sql_driver_connpool_t **d, M_sql_connpool_t *p, M_bool ro, const M_hash_dict_t *cs, size_t *hosts, char *e, size_t n) { (void)p; (void)ro; (void)cs; (void)e; (void)n; if (*d == NULL) *d = M_malloc_zero(sizeof(**d)); (*d)->pools++; *hosts = (size_t)(md.hosts ? md.hosts : 1); return M_TRUE; }
static void md_destroypool(M_sql_driver_connpool_t *d) { M_free(d); }
static M_sql_error_t md_connect(M_sql_driver_conn_t **cp, M_sql_connpool_t *pool, M_bool ro, size_t host, char *error, size_t n)
{
	struct M_sql_driver_conn *c;
	if (!hx_streq(M_sql_driver_pool_get_username(pool), "me") || !hx_streq(M_sql_driver_pool_get_password(pool), "secret")) mc_fail("driver: credentials of the pool are wrong");
	MD_PREEMPT(); MD_HB(1);
	if (md_fault(md.nfault_conn)) { MD_HB(0); M_snprintf(error, n, "no connection"); return M_SQL_ERROR_CONN_FAILED; }
	c = M_malloc_zero(sizeof(*c)); c->id = ++md.nextid; c->live = 1; c->ro = (int)ro; c->host = (int)host; *cp = c; md.opened++; md.conns++;
	if (md.maxconns && md.conns > md.maxconns) mc_fail("%d connections open, pool allows %d", md.conns, md.maxconns);
	MD_HB(0); return M_SQL_ERROR_SUCCESS;
}
static const char *md_version(M_sql_driver_conn_t *c) { (void)c; return "mock 1"; }
static void md_disconnect(M_sql_driver_conn_t *c) { if (!c->live) mc_fail("driver: connection %d closed twice", c->id); if (c->busy) mc_fail("driver: connection %d closed while in use", c->id); if (c->in_tx) mc_fail("driver: connection %d closed with an open transaction", c->id); if (c->nst) mc_fail("driver: connection %d closed with %d prepared statements", c->id, c->nst); c->live = 0; md.conns--; md.closed++; M_free(c); }
static char *md_format(M_sql_conn_t *conn, const char *q, size_t np, size_t nr, char *e, size_t n) { char b[160]; (void)conn; (void)np; (void)e; (void)n; snprintf(b, sizeof(b), "%s/%d", q, (int)(nr > (size_t)md.chunk ? (size_t)md.chunk : nr)); return M_strdup(b); }
static size_t md_rowcnt(M_sql_conn_t *conn, size_t np, size_t nr) { (void)conn; (void)np; return nr > (size_t)md.chunk ? (size_t)md.chunk : nr; }
static M_sql_error_t md_prepare(M_sql_driver_stmt_t **sp, M_sql_conn_t *conn, M_sql_stmt_t *stmt, char *error, size_t n)
{
	struct M_sql_driver_conn *c = M_sql_driver_conn_get_conn(conn); struct M_sql_driver_stmt *s; int k;
	md_enter(c, "prepare");
	if (*sp != NULL) { s = *sp; if (!s->live || s->c != c || !hx_streq(s->query, M_sql_driver_stmt_get_query(stmt))) mc_fail("driver: cached statement of another query or connection"); }
	k = md_fault(md.nfault_prep);
	if (k) { *sp = NULL; md_leave(c); return md_err(c, k, error, n); }
	if (*sp == NULL) { s = M_malloc_zero(sizeof(*s)); s->c = c; s->live = 1; snprintf(s->query, sizeof(s->query), "%s", M_sql_driver_stmt_get_query(stmt)); c->nst++; md.stmts++; *sp = s; }
	md_leave(c); return M_SQL_ERROR_SUCCESS;
}
static void md_prepare_destroy(M_sql_driver_stmt_t *s) { if (s == NULL) return; if (!s->live) mc_fail("driver: statement destroyed twice"); if (!s->c->live) mc_fail("driver: statement destroyed after its connection"); s->live = 0; s->c->nst--; md.stmts--; M_free(s); }
static void md_cols(M_sql_stmt_t *stmt) { M_sql_driver_stmt_result_set_num_cols(stmt, 1); M_sql_driver_stmt_result_set_col_name(stmt, 0, "v"); M_sql_driver_stmt_result_set_col_type(stmt, 0, M_SQL_DATA_TYPE_INT32, 0); }
static M_sql_error_t md_execute(M_sql_conn_t *conn, M_sql_stmt_t *stmt, size_t *rows, char *error, size_t n)
{
	struct M_sql_driver_conn *c = M_sql_driver_conn_get_conn(conn); int k, i, nr; const char *q = M_sql_driver_stmt_get_query(stmt); M_sql_driver_stmt_t *s = M_sql_driver_stmt_get_stmt(stmt);
	md_enter(c, "execute"); md.executes++;
	if (s == NULL || s->c != c || !hx_streq(s->query, q)) mc_fail("driver: execute with the wrong statement handle");
	if (c->curn) mc_fail("driver: connection %d executes another statement while rows of the previous one are not fetched", c->id);
	MD_PREEMPT();
	k = md_fault(md.nfault_exec);
	if (k) { md_leave(c); return md_err(c, k, error, n); }
	if (q[0] == 'S') { c->cur = 0; c->curn = q[7] - '0'; md_cols(stmt); if (c->curn == 0) { md_leave(c); return M_SQL_ERROR_SUCCESS; } md_leave(c); return M_SQL_ERROR_SUCCESS_ROW; }
	nr = (int)M_sql_driver_stmt_bind_rows(stmt); if (nr > md.chunk) nr = md.chunk; if (c->ro) mc_fail("driver: insert sent to a read only connection");
	for (i = 0; i < nr; i++) { int v = (int)M_sql_driver_stmt_bind_get_int32(stmt, (size_t)i, 0); if (c->in_tx) c->pend[c->npend++] = v; else md.rows[md.n++] = v; }
	*rows = (size_t)nr; M_sql_driver_stmt_result_set_affected_rows(stmt, (size_t)nr); md_leave(c); return M_SQL_ERROR_SUCCESS;
}
static M_sql_error_t md_fetch(M_sql_conn_t *conn, M_sql_stmt_t *stmt, char *error, size_t n)
{
	struct M_sql_driver_conn *c = M_sql_driver_conn_get_conn(conn); int k, i; char b[16];
	md_enter(c, "fetch"); MD_PREEMPT();
	k = md_fault(md.nfault_fetch); if (k) { c->cur = c->curn = 0; md_leave(c); return md_err(c, k, error, n); }
	for (i = 0; i < (md.fetch_batch ? md.fetch_batch : 1) && c->cur < c->curn; i++) { snprintf(b, sizeof(b), "%d", 100 + c->cur++); { M_buf_t *o = M_sql_driver_stmt_result_col_start(stmt); M_buf_add_str(o, b); M_buf_add_byte(o, 0); } M_sql_driver_stmt_result_row_finish(stmt); }
	if (c->cur >= c->curn && (i == 0 || md.fetch_lastrow)) { c->cur = c->curn = 0; md_leave(c); return M_SQL_ERROR_SUCCESS; }
	md_leave(c); return M_SQL_ERROR_SUCCESS_ROW;
}
static M_sql_error_t md_begin(M_sql_conn_t *conn, M_sql_isolation_t iso, char *error, size_t n)
{
	struct M_sql_driver_conn *c = M_sql_driver_conn_get_conn(conn); int k; (void)iso; md_enter(c, "begin"); md.begins++;
	if (c->in_tx) mc_fail("driver: begin on connection %d which has an open transaction", c->id);
	MD_PREEMPT(); k = md_fault(md.nfault_begin); if (k) { md_leave(c); return md_err(c, k, error, n); }
	c->in_tx = 1; c->npend = 0; md_leave(c); return M_SQL_ERROR_SUCCESS;
}
static M_sql_error_t md_rollback(M_sql_conn_t *conn)
{
	struct M_sql_driver_conn *c = M_sql_driver_conn_get_conn(conn); int k; md_enter(c, "rollback"); md.rollbacks++; MD_PREEMPT();
	k = md_fault(md.nfault_roll); md_drop(c); md_leave(c); if (k) { c->dead = 1; return M_SQL_ERROR_CONN_LOST; } return M_SQL_ERROR_SUCCESS;
}
static M_sql_error_t md_commit(M_sql_conn_t *conn, char *error, size_t n)
{
	struct M_sql_driver_conn *c = M_sql_driver_conn_get_conn(conn); int k, i; md_enter(c, "commit"); md.commits++;
	if (!c->in_tx) mc_fail("driver: commit on connection %d without a transaction", c->id);
	if (c->curn) mc_fail("driver: commit on connection %d with rows not fetched", c->id);
	MD_PREEMPT(); k = md_fault(md.nfault_commit); if (k) { md_drop(c); md_leave(c); return md_err(c, k, error, n); }
	for (i = 0; i < c->npend; i++) md.rows[md.n++] = c->pend[i];
	md_drop(c); md_leave(c); return M_SQL_ERROR_SUCCESS;
}
static M_bool md_datatype(M_sql_connpool_t *p, M_buf_t *b, M_sql_data_type_t t, size_t m, M_bool cast) { (void)p; (void)t; (void)m; (void)cast; M_buf_add_str(b, "T"); return M_TRUE; }
static M_bool md_bitop(M_sql_connpool_t *p, M_buf_t *b, M_sql_query_bitop_t op, const char *a, const char *c) { (void)p; return M_sql_driver_append_bitop(M_SQL_DRIVER_BITOP_CAP_OP, b, op, a, c); }
static M_sql_driver_t md_driver = { M_SQL_DRIVER_VERSION, "mock", "mock driver", "1.0", NULL, md_init, md_destroy, md_createpool, md_destroypool, md_connect, md_version, NULL, md_disconnect, md_format, md_rowcnt, md_prepare, md_prepare_destroy, md_execute, md_fetch, md_begin, md_rollback, md_commit, md_datatype, NULL, NULL, md_bitop, NULL, NULL };
static M_sql_driver_t *md_get(void) { return &md_driver; }
static int md_handle;
M_module_handle_t __wrap_M_module_load(const char *name, char *e, size_t n) { (void)name; (void)e; (void)n; return (M_module_handle_t)&md_handle; }
void *__wrap_M_module_symbol(M_module_handle_t h, const char *s) { (void)h; (void)s; return (void *)(uintptr_t)md_get; }
void __wrap_M_module_unload(M_module_handle_t h) { (void)h; }
static void md_reset(void) { memset(&md, 0, sizeof(md)); md.chunk = 1; }
static M_sql_connpool_t *md_pool(size_t max, M_uint32 flags)
{
	M_sql_connpool_t *p = NULL; char err[256];
	if (M_sql_connpool_create(&p, "mock", "host=x", "me", "secret", max, flags, err, sizeof(err)) != M_SQL_ERROR_SUCCESS) mc_fail("pool cannot be created: %s", err);
	return p;
}
static int md_count(int v) { int i, n = 0; for (i = 0; i < md.n; i++) n += md.rows[i] == v; return n; }
