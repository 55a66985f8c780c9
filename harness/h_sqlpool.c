// MODE: sched
// MODS: sql thread base
// WRAP: M_module_load M_module_symbol M_module_unload
/* C12: the SQL connection pool under every schedule within the bound, on the simulated database of mockdb.h.
 *   scen 0  threads run single statements and partly fetched selects; connections fail at connect, execute and fetch
 *   scen 1  every connection is held, then released while users wait and arrive; the users need each other to go on
 *   scen 2  group inserts: every row exactly once, every caller gets the result of its group
 *   scen 3  (one thread) maximum age, maximum idle time, failover to the other host and back, load balancing
 *   scen 4  read only pool next to the primary one */
#include "hx.h"
#include <mstdlib/mstdlib_thread.h>
#include "mcsched.h"
#define MD_PREEMPT() sched_point()
#include "mockdb.h"
const char *mc_name = "h_sqlpool";
static M_sql_connpool_t *pool; static int scen, kinds[4], res[4], nth, faulty; static volatile int flag[4], need[4]; static const char *gq[4]; static M_sql_error_t errs[4];
static M_sql_error_t ins(int v) { M_sql_stmt_t *s = M_sql_stmt_create(); M_sql_error_t e; M_sql_stmt_prepare(s, "INSERT INTO t VALUES (?)"); M_sql_stmt_bind_int32(s, v); e = M_sql_stmt_execute(pool, s); if (M_sql_stmt_get_error(s) != e) mc_fail("error of the statement is not the one returned"); M_sql_stmt_destroy(s); return e; }
static M_sql_error_t sel(int rows, int upto)
{
	char q[16]; M_sql_stmt_t *s = M_sql_stmt_create(); M_sql_error_t e; int got = 0; snprintf(q, sizeof q, "SELECT %d", rows); M_sql_stmt_prepare(s, q); M_sql_stmt_set_max_fetch_rows(s, 1);
	e = M_sql_stmt_execute(pool, s);
	while (!M_sql_error_is_error(e) && got < upto) { size_t i, n; if (M_sql_stmt_has_remaining_rows(s)) e = M_sql_stmt_fetch(s); if (M_sql_error_is_error(e)) break; n = M_sql_stmt_result_num_rows(s); for (i = 0; i < n; i++) { M_int32 v = M_sql_stmt_result_int32_direct(s, i, 0); if (v != 100 + got) mc_fail("row %d is %d", got, (int)v); got++; } if (!M_sql_stmt_has_remaining_rows(s)) break; }
	if (!M_sql_error_is_error(e) && upto >= rows && got != rows) mc_fail("%d rows of %d", got, rows);
	M_sql_stmt_destroy(s); return e;
}
static void one(int i, int k)
{
	M_sql_error_t e = M_SQL_ERROR_SUCCESS; M_sql_trans_t *t = NULL; char err[64];
	switch (k) {
	case 0: e = ins(i); break;
	case 1: e = sel(2, 9); break;
	case 2: e = sel(3, 1); break;                       /* gives up in the middle */
	case 3:                                             /* a transaction */
		e = M_sql_trans_begin(&t, pool, M_SQL_ISOLATION_READCOMMITTED, err, sizeof err);
		if (M_sql_error_is_error(e)) { if (t != NULL) mc_fail("failed begin gives a transaction"); break; }
		{ M_sql_stmt_t *s = M_sql_stmt_create(); M_sql_stmt_prepare(s, "INSERT INTO t VALUES (?)"); M_sql_stmt_bind_int32(s, i); e = M_sql_trans_execute(t, s); M_sql_stmt_destroy(s); }
		if (M_sql_error_is_error(e)) M_sql_trans_rollback(t); else e = M_sql_trans_commit(t, err, sizeof err);
		break;
	default: break;
	}
	errs[i] = e;
}
static void *client(void *a) { int i = (int)(M_uintptr)a; one(i, kinds[i]); return NULL; }
static M_threadid_t spawn(void *(*f)(void *), int arg) { M_thread_attr_t *at = M_thread_attr_create(); M_threadid_t id; M_thread_attr_set_create_joinable(at, M_TRUE); id = M_thread_create(at, f, (void *)(M_uintptr)arg); M_thread_attr_destroy(at); if (!id) mc_fail("thread cannot be created"); return id; }
static void rows_ok(int i, int k) { int n = md_count(i); if (k != 0 && k != 3) return; if (errs[i] == M_SQL_ERROR_SUCCESS ? n != 1 : n != 0) mc_fail("row %d is there %d times, its statement returned %d", i, n, (int)errs[i]); if (errs[i] != M_SQL_ERROR_SUCCESS && !md.faults) mc_fail("statement fails with %d", (int)errs[i]); }
/* users who hold a connection until the other one has one, too */
static void *partner(void *a)
{
	int i = (int)(M_uintptr)a; M_sql_trans_t *t = NULL; char err[64]; M_sql_error_t e;
	e = M_sql_trans_begin(&t, pool, M_SQL_ISOLATION_READCOMMITTED, err, sizeof err); if (M_sql_error_is_error(e)) mc_fail("begin fails with %d", (int)e);
	flag[i] = 1; sched_wait(&flag[1 - i]);
	e = M_sql_trans_commit(t, err, sizeof err); if (M_sql_error_is_error(e)) mc_fail("commit fails with %d", (int)e);
	return NULL;
}
static void *grouper(void *a)
{
	int i = (int)(M_uintptr)a, again; M_sql_stmt_t *s;
	for (again = 0; again <= need[i]; again++) {
		s = M_sql_stmt_groupinsert_prepare(pool, gq[i]); if (s == NULL) mc_fail("group insert cannot be prepared");
		M_sql_stmt_bind_int32(s, i + 10 * again); errs[i] = M_sql_stmt_execute(pool, s); M_sql_stmt_destroy(s);
		sched_hb_off(1);
		{ int n = md_count(i + 10 * again); if (errs[i] == M_SQL_ERROR_SUCCESS ? n != 1 : n != 0) mc_fail("group insert of row %d returned %d, row is there %d times", i + 10 * again, (int)errs[i], n); if (errs[i] != M_SQL_ERROR_SUCCESS && !md.faults) mc_fail("group insert fails with %d", (int)errs[i]); }
		sched_hb_off(0);
	}
	return NULL;
}
/* one thread: which connection and which host is used */
static int lastconn, lasthost, hostfail[2], ro_seen;
static M_sql_error_t (*real_connect)(M_sql_driver_conn_t **, M_sql_connpool_t *, M_bool, size_t, char *, size_t);
static int tried[8], ntried;
static M_sql_error_t my_connect(M_sql_driver_conn_t **cp, M_sql_connpool_t *p, M_bool ro, size_t host, char *e, size_t n)
{
	if (scen == 3) { if (host >= (size_t)md.hosts) mc_fail("host %d of %d", (int)host, md.hosts); if (ntried < 8) tried[ntried++] = (int)host; if (hostfail[host]) { M_snprintf(e, n, "host down"); if (!hostfail[!host]) { } return M_SQL_ERROR_CONN_FAILED; } }
	return real_connect(cp, p, ro, host, e, n);
}
static M_sql_error_t (*real_execute)(M_sql_conn_t *, M_sql_stmt_t *, size_t *, char *, size_t);
static int exfail, nro, nrw;
static M_sql_error_t my_execute(M_sql_conn_t *c, M_sql_stmt_t *s, size_t *rows, char *e, size_t n)
{
	struct M_sql_driver_conn *d = M_sql_driver_conn_get_conn(c);
	sched_hb_off(1); lastconn = d->id; lasthost = d->host; if (d->ro) nro++; else nrw++;
	if (M_sql_driver_stmt_get_query(s)[0] == 'S' && scen == 4 && !d->in_tx && !d->ro) mc_fail("select sent to the primary although there is a read only pool");
	if (!hx_streq(M_sql_driver_conn_get_username(c), "me") || !hx_streq(M_sql_driver_conn_get_password(c), "secret") || M_sql_driver_conn_get_pool(c) != pool || (int)M_sql_driver_conn_is_readonly(c) != d->ro) mc_fail("credentials, pool or kind of the connection are wrong");
	sched_hb_off(0);
	if (exfail) { exfail = 0; d->dead = 1; d->in_tx = 0; M_snprintf(e, n, "lost"); return M_SQL_ERROR_CONN_LOST; }
	return real_execute(c, s, rows, e, n);
}
static void run_age(void)
{
	static const int STEP[] = { 0, 400, 1100, 2300 }; long long now = 0, born = -1, used = 0, offline[2] = { -1, -1 }; int reconnect = mc_choose(2), idle = mc_choose(2), fb = mc_choose(2), lb = mc_choose(2), nh = 1 + mc_choose(2), cur = 0, n = (int)mc_param("ops", 3, 4), i, id = 1, host = 0, opened; char err[128]; uint64_t t0;
	md.hosts = nh; pool = md_pool(1, lb ? M_SQL_CONNPOOL_FLAG_LOAD_BALANCE : 0); M_sql_connpool_set_timeouts(pool, reconnect ? 2 : 0, idle ? 1 : 0, fb ? 3 : 0); M_sql_connpool_set_timeouts(pool, -1, -1, -1); md.maxconns = 1; ntried = 0;
	if (M_sql_connpool_start(pool, err, sizeof err) != M_SQL_ERROR_SUCCESS) mc_fail("pool does not start: %s", err);
	if (ntried != 1 || tried[0] != 0) mc_fail("the pool starts on host %d", tried[0]); if (lb) cur = (cur + 1) % nh; t0 = sched_now_ns(); born = used = 0;
	for (i = 0; i < n; i++) {
		int op = mc_choose(nh == 2 ? 4 : 3), st = mc_choose(HX_N(STEP)), k; int fail = 0;
		sched_advance_ms((uint64_t)STEP[st]); now = (long long)((sched_now_ns() - t0) / 1000000); opened = md.opened; ntried = 0;
		/* before use: too long idle? */
		if (op == 3) { hostfail[lb ? cur : 0] = 1; }
		if (op == 2 || op == 3) exfail = fail = 1;
		if (id && idle && (now - used) / 1000 > 1) id = 0;
		{ M_sql_error_t e = sel(1, 9); if (e != M_SQL_ERROR_SUCCESS) mc_fail("select fails with %d", (int)e); }
		/* what must have happened: connect if there was none, lose it and connect again when told to fail */
		{ int want = 0, exph[8], ne = 0; long long at = now; int att; 
		  for (att = 0; att < 1 + fail; att++) {
			if (!id) { int h = cur; for (k = 0; k < 6; k++) { h = cur; if (lb) cur = (cur + 1) % nh; else if (cur != 0 && fb && offline[0] >= 0 && offline[0] / 1000 + 3 <= at / 1000) h = 0; exph[ne++] = h; if (!hostfail[h]) break; offline[h] = at; if (!lb && h == cur) cur = (cur + 1) % nh; at += 100; } host = h; id = 1; want++; born = at; }
			if (fail && att == 0) { id = 0; offline[host] = at; if (!lb && host == cur) cur = (cur + 1) % nh; at += 100; }
		  }
		  if (md.opened - opened != want) mc_fail("%d connections opened, expected %d (step %d, operation %d)", md.opened - opened, want, i, op);
		  /* the seconds of host failures are too coarse to say which side of a boundary is right; without fallback the hosts are exact */
		  if (!fb) { if (ntried != ne) mc_fail("%d connection attempts, expected %d", ntried, ne); for (k = 0; k < ne; k++) if (tried[k] != exph[k]) mc_fail("attempt %d goes to host %d, expected %d", k, tried[k], exph[k]); }
		  else { if (offline[0] >= 0 && !lb && ntried) { long long d = now - offline[0]; if (d > 4200 && !hostfail[0] && tried[0] != 0) mc_fail("no fallback to the first host after %lld ms", d); } cur = lb ? cur : cur; if (ntried && ntried != ne) mc_prune(); for (k = 0; k < ne; k++) if (tried[k] != exph[k]) mc_prune(); }
		}
		if (lasthost != host) mc_fail("statement ran on host %d, expected %d", lasthost, host);
		hostfail[0] = hostfail[1] = 0;
		now = (long long)((sched_now_ns() - t0) / 1000000); used = now; 
		if (reconnect && (now - born) / 1000 > 2) id = 0;
		if (M_sql_connpool_active_conns(pool, M_FALSE) != (size_t)id) mc_fail("%d connections, expected %d", (int)M_sql_connpool_active_conns(pool, M_FALSE), id);
	}
	mc_outcome((M_uint64)(md.opened * 10 + host));
}
void mc_init(void)
{
	M_thread_init(M_THREAD_MODEL_NATIVE); { void *p = M_malloc(1); M_free(p); }
	scen = (int)mc_param("scen", 0, 0); sched_timeouts = 0;
	real_connect = md_driver.cb_connect; md_driver.cb_connect = my_connect; real_execute = md_driver.cb_execute; md_driver.cb_execute = my_execute;
	md_reset(); { M_sql_connpool_t *p = md_pool(1, 0); M_sql_connpool_destroy(p); }
}
void mc_run(void)
{
	size_t live; int i, max; M_threadid_t t[4]; char err[128]; M_sql_error_t e;
	md_reset(); memset(errs, 0, sizeof errs); memset((void *)flag, 0, sizeof flag); memset((void *)need, 0, sizeof need); exfail = nro = nrw = 0; hostfail[0] = hostfail[1] = 0; ntried = 0; lasthost = 0; mc_set_budget((int)mc_param("budget", 2, 3));
	sched_begin(); live = sched_heap_live();
	switch (scen) {
	case 0:
		max = 1 + mc_choose(2); nth = (int)mc_param("threads", 3, 3); kinds[0] = mc_choose(4); for (i = 1; i < nth; i++) kinds[i] = kinds[i - 1] + mc_choose(4 - kinds[i - 1]);
		if (mc_choose(2)) { md.nfault_exec = 3; md.nfault_conn = 2; md.nfault_fetch = 3; }
		md.maxconns = max; pool = md_pool((size_t)max, mc_choose(2) ? M_SQL_CONNPOOL_FLAG_PRESPAWN_ALL : 0);
		{ int f = md.nfault_conn; md.nfault_conn = 0; if (M_sql_connpool_start(pool, err, sizeof err) != M_SQL_ERROR_SUCCESS) mc_fail("pool does not start: %s", err); md.nfault_conn = f; }
		for (i = 1; i < nth; i++) t[i] = spawn(client, i);
		client(NULL); for (i = 1; i < nth; i++) M_thread_join(t[i], NULL);
		for (i = 0; i < nth; i++) rows_ok(i, kinds[i]);
		break;
	case 1: {
		M_sql_trans_t *h[2]; int lose = mc_choose(2), spawned = mc_choose(2); md.maxconns = 2; pool = md_pool(2, mc_choose(2) ? M_SQL_CONNPOOL_FLAG_PRESPAWN_ALL : 0); if (M_sql_connpool_start(pool, err, sizeof err) != M_SQL_ERROR_SUCCESS) mc_fail("pool does not start: %s", err);
		for (i = 0; i < 2; i++) if (M_sql_error_is_error(M_sql_trans_begin(&h[i], pool, M_SQL_ISOLATION_READCOMMITTED, err, sizeof err))) mc_fail("begin fails");
		t[0] = spawn(partner, 0); if (spawned) t[1] = spawn(partner, 1);
		if (lose) { M_sql_stmt_t *s = M_sql_stmt_create(); exfail = 1; M_sql_stmt_prepare(s, "SELECT 1"); if (M_sql_trans_execute(h[0], s) != M_SQL_ERROR_CONN_LOST) mc_fail("lost connection not reported"); M_sql_stmt_destroy(s); }
		sched_point();
		for (i = 0; i < 2; i++) { e = lose && i == 0 ? M_sql_trans_rollback(h[i]) : M_sql_trans_commit(h[i], err, sizeof err); if (!(lose && i == 0) && M_sql_error_is_error(e)) mc_fail("commit fails with %d", (int)e); }
		if (!spawned) t[1] = spawn(partner, 1);
		M_thread_join(t[0], NULL); M_thread_join(t[1], NULL);
		break; }
	case 2: {
		static const char *const Q[] = { "INSERT INTO t VALUES (?)", "INSERT INTO t VALUES (?) ", " INSERT INTO t VALUES (?)\n" }; int q = mc_choose(3);
		max = 1 + mc_choose(2); md.maxconns = max; pool = md_pool((size_t)max, 0); md.chunk = mc_choose(2) ? 10 : 1; nth = (int)mc_param("threads", 3, 3);
		if (mc_choose(2)) { md.nfault_exec = 4; md.nfault_commit = 4; md.nfault_begin = 4; }
		if (M_sql_connpool_start(pool, err, sizeof err) != M_SQL_ERROR_SUCCESS) mc_fail("pool does not start: %s", err);
		for (i = 0; i < nth; i++) gq[i] = Q[q]; need[0] = 1;
		for (i = 1; i < nth; i++) t[i] = spawn(grouper, i);
		grouper(NULL); for (i = 1; i < nth; i++) M_thread_join(t[i], NULL);
		break; }
	case 3: run_age(); break;
	default: {
		md.maxconns = 2; pool = md_pool(1, 0); if (M_sql_connpool_add_readonly_pool(pool, "host=y", 1, err, sizeof err) != M_SQL_ERROR_SUCCESS) mc_fail("no read only pool: %s", err);
		if (M_sql_connpool_start(pool, err, sizeof err) != M_SQL_ERROR_SUCCESS) mc_fail("pool does not start: %s", err);
		if (mc_choose(2)) { md.nfault_exec = 3; md.nfault_conn = 2; md.nfault_fetch = 3; }
		nth = 3; kinds[0] = mc_choose(4); for (i = 1; i < nth; i++) kinds[i] = kinds[i - 1] + mc_choose(4 - kinds[i - 1]);
		for (i = 1; i < nth; i++) t[i] = spawn(client, i);
		client(NULL); for (i = 1; i < nth; i++) M_thread_join(t[i], NULL);
		for (i = 0; i < nth; i++) rows_ok(i, kinds[i]);
		break; }
	}
	sched_wait_all();
	if (md.conns > 0) { M_uint32 k = (M_uint32)(M_sql_connpool_active_conns(pool, M_FALSE) + M_sql_connpool_active_conns(pool, M_TRUE)); if ((int)k != md.conns) mc_fail("%d connections are open, the pool knows %d", md.conns, (int)k); }
	if (M_sql_connpool_destroy(pool) != M_SQL_ERROR_SUCCESS) mc_fail("pool cannot be destroyed, a connection was not given back");
	if (md.stmts || md.opened != md.closed) mc_fail("statements or connections left");
	mc_check(sched_heap_live() == live, "%zu bytes leaked", sched_heap_live() - live);
	mc_outcome((M_uint64)(scen * 1000 + md.n * 100 + md.faults * 10 + md.opened));
}
