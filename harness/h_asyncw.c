// MODE: sched
// MODS: thread log
/* C10: asynchronous writer under every schedule within the bound.
 *   scen 0  messages queued while stopped or from the callback itself, sizes around the limit, messages and reports rejected
 *           by the callback: the exact sequence of callback calls is compared with a model of the queue
 *   scen 1  writer threads, limits that force drops, rejections, every way of ending
 *   scen 2  commands (lazy, forced, blocking) from two threads
 *   scen 3  stop and start while a thread writes
 *   scen 4  liveness query; destroy with a timeout while the callback hangs */
#include "hx.h"
#include <mstdlib/mstdlib_thread.h>
#include <mstdlib/mstdlib_log.h>
#include "mcsched.h"
const char *mc_name = "h_asyncw";
#define MAXM 16
typedef struct { char t[24]; size_t len; int accepted, consumed, refused, seq; unsigned beg, end; } msg_t;
static msg_t ms[MAXM]; static int nms; static unsigned stampc;
static M_async_writer_t *W; static int scen, destroyed, stopped_cb, in_cb, rejects, reports_bad, calls;
static unsigned long long reported; static uint64_t delivered; static int consumed_n, order[MAXM]; static int setn[4], deln[4];
static volatile int gate, hang, running_cb; static size_t maxb; static int cbwrites;
/* the model of scenario 0 */
static int mq[MAXM], mqn; static size_t mqb; static unsigned long long mdrop; static int exact, m_flush;
enum { X_MSG, X_REPORT };
static int x_pending; /* message the model expects next after a report */ 
static unsigned long long x_popdrop; static int x_cur = -1, x_phase; /* 0: expects pop, 1: report consumed, message follows */

static int mk(size_t len)
{
	msg_t *m = &ms[nms]; size_t i;
	mc_check(nms < MAXM, "too many messages"); memset(m, 0, sizeof *m);
	m->t[0] = (char)('a' + nms); for (i = 1; i < len; i++) m->t[i] = '.'; m->t[len] = 0; m->len = len;
	return nms++;
}
static int do_write(size_t len)
{
	int id, ok; sched_hb_off(1); id = mk(len); ms[id].beg = ++stampc; sched_hb_off(0);
	ok = M_async_writer_write(W, ms[id].t);
	sched_hb_off(1); ms[id].end = ++stampc; ms[id].accepted = ok;
	if (!ok && len > maxb) ms[id].refused = 1;
	if (exact) {
		if (len > maxb) { mc_check(!ok, "message of %zu bytes accepted, limit %zu", len, maxb); if (!m_flush || !ok) { /* counted unless the writer was flushing */ ms[id].refused = 1; mdrop++; } }
		else if (ok) { mq[mqn++] = id; mqb += len; while (mqb > maxb) { mqb -= ms[mq[0]].len; memmove(mq, mq + 1, sizeof(int) * (size_t)--mqn); mdrop++; } }
		else mc_fail("message of %zu bytes refused, limit %zu", len, maxb);
	}
	sched_hb_off(0);
	return ok;
}
static M_bool cb(char *msg, M_uint64 cmd, void *thunk)
{
	int rej = 0, isrep = 0, id = -1, i, b; unsigned long long n = 0;
	sched_hb_off(1);
	mc_check(thunk == &W && !destroyed, "callback after the thunk was destroyed"); mc_check(!in_cb, "callback entered twice"); in_cb = 1; calls++;
	mc_check(msg || cmd, "callback without message and command");
	for (b = 0; b < 4; b++) if (cmd >> b & 1) { deln[b]++; mc_check(deln[b] <= setn[b], "command %d delivered %d times, set %d times", b, deln[b], setn[b]); }
	mc_check(cmd < 16, "command %llx", (unsigned long long)cmd); delivered |= cmd;
	if (msg && sscanf(msg, "%llu messages were dropped (", &n) == 1) {
		isrep = 1;
		mc_check(n > 0 && !strcmp(msg + strlen(msg) - 1, "\n") && !cmd, "report %s", mc_escs(msg));
		mc_note("  report %llu", n);
	} else if (msg) {
		id = msg[0] - 'a'; mc_check(id >= 0 && id < nms && !strcmp(ms[id].t, msg), "message %s was never written", mc_escs(msg));
		mc_check(!ms[id].consumed, "message %s is offered again after it was written", msg);
		for (i = 0; i < nms; i++) if (ms[i].consumed && i != id && ms[id].end && ms[id].end < ms[i].beg) mc_fail("message %c is offered after the later message %c was written", 'a' + id, 'a' + i);
		mc_note("  message %c", 'a' + id);
	}
	if (exact) {
		/* what the queue offers next */
		if (isrep && x_phase == 0) {
			mc_check(mdrop > 0 || m_flush, "report of %llu dropped messages, none were", n);
			if (n != mdrop && m_flush && n == mdrop + (unsigned)mqn && strstr(msg, "shutdown")) { mdrop = n; mqn = 0; mqb = 0; }
			mc_check(n == mdrop, "report of %llu dropped messages, %llu were", n, mdrop); mdrop = 0; x_popdrop = n; x_phase = 1;
			if (mqn) { x_cur = mq[0]; mqb -= ms[x_cur].len; memmove(mq, mq + 1, sizeof(int) * (size_t)--mqn); } else x_cur = -1;
		} else {
			mc_check(!isrep, "two reports in a row");
			if (x_phase == 0) { mc_check(mdrop == 0 || !msg, "message %s before the report of %llu dropped ones", mc_escs(msg), mdrop); if (msg) { mc_check(mqn, "message %s from an empty queue", msg); x_cur = mq[0]; mqb -= ms[x_cur].len; memmove(mq, mq + 1, sizeof(int) * (size_t)--mqn); } }
			mc_check(!msg || x_cur == id, "message %s, expected %c", mc_escs(msg), x_cur < 0 ? '?' : 'a' + x_cur);
		}
	}
	if (rejects > 0 && msg && !(isrep && strstr(msg, "shutdown")) && (mc_param("rejcost", 0, 0) ? mc_choose_cost(2) : mc_choose(2))) { rej = 1; rejects--; mc_note("    rejected"); }
	sched_hb_off(0);
	if (cbwrites > 0 && !isrep) { int w; sched_hb_off(1); w = mc_choose(4); if (w) cbwrites--; sched_hb_off(0); if (w) { do_write(w == 1 ? 2 : w == 2 ? 4 : 11); } }
	if (!exact) sched_point();
	if (hang) { running_cb = 1; sched_wait(&gate); }
	sched_hb_off(1);
	if (isrep && !rej) reported += n;
	if (id >= 0 && !rej) { ms[id].consumed = 1; order[consumed_n++] = id; }
	if (exact) {
		if (isrep) { if (rej) { /* the message goes back as well */ if (x_cur >= 0) { if (mdrop == 0 && mqb + ms[x_cur].len <= maxb) { memmove(mq + 1, mq, sizeof(int) * (size_t)mqn++); mq[0] = x_cur; mqb += ms[x_cur].len; } else mdrop++; } mdrop += x_popdrop; x_phase = 0; } else if (x_cur < 0) x_phase = 0; else x_phase = 1; }
		else { if (rej) { if (mdrop == 0 && mqb + ms[id].len <= maxb) { memmove(mq + 1, mq, sizeof(int) * (size_t)mqn++); mq[0] = id; mqb += ms[id].len; } else mdrop++; } x_phase = 0; }
	}
	if (msg) msg[0] = rej ? msg[0] : '#'; /* may be changed in place */
	in_cb = 0;
	sched_hb_off(0);
	return rej ? M_FALSE : M_TRUE;
}
static void stopcb(void *t) { sched_hb_off(1); mc_check(!destroyed && !in_cb && t == &W, "stop callback out of order"); stopped_cb++; sched_hb_off(0); }
static void destrcb(void *t) { sched_hb_off(1); mc_check(!destroyed && !in_cb && t == &W, "destroy callback out of order"); destroyed++; sched_hb_off(0); }
static void new_writer(size_t max) { maxb = max; W = M_async_writer_create(max, cb, &W, stopcb, destrcb, M_ASYNC_WRITER_LINE_END_UNIX); }
static void start(void) { mc_check(M_async_writer_start(W), "start failed"); mc_check(M_async_writer_is_running(W), "not running after start"); }
static void cmd(int b, int kind)
{
	int ok; sched_hb_off(1); setn[b]++; sched_hb_off(0);
	if (kind < 2) ok = M_async_writer_set_command(W, 1u << b, kind); else ok = M_async_writer_set_command_block(W, 1u << b);
	sched_hb_off(1); mc_check(ok, "command refused"); if (kind == 2) mc_check(deln[b], "blocking command %d returned before it was processed", b); sched_hb_off(0);
}
/* everything the writer was given is accounted for */
static void account(int leftover)
{
	unsigned long long acc = 0, con = 0; int i; size_t total = 0, toolarge = 0;
	for (i = 0; i < nms; i++) { if (ms[i].accepted || ms[i].refused) acc++; con += (unsigned)ms[i].consumed; mc_check(!ms[i].consumed || ms[i].accepted, "message %c was refused and written", 'a' + i); total += ms[i].len; if (ms[i].len > maxb) toolarge++; }
	mc_check(leftover ? con + reported <= acc : con + reported == acc, "%llu messages given, %llu written and %llu reported as dropped", acc, con, reported);
	if (total <= maxb && !leftover) for (i = 0; i < nms; i++) mc_check(ms[i].consumed || scen == 3 || !ms[i].accepted || reports_bad, "message %c was dropped though everything fits", 'a' + i);
}
static int finish(int how)
{
	/* 0 blocking flush, 1 flush, 2 no flush, 3 blocking without flush, 4 blocking flush with timeout, 5 stop, then destroy */
	int r = 1; mc_note(" end %d", how);
	sched_hb_off(1); reports_bad = how == 2 || how == 3 || how == 5; m_flush = 1; sched_hb_off(0);
	switch (how) {
		case 0: r = M_async_writer_destroy_blocking(W, M_TRUE, 0); break;
		case 1: M_async_writer_destroy(W, M_TRUE); break;
		case 2: M_async_writer_destroy(W, M_FALSE); break;
		case 3: r = M_async_writer_destroy_blocking(W, M_FALSE, 0); break;
		case 4: r = M_async_writer_destroy_blocking(W, M_TRUE, 50); break;
		default: M_async_writer_stop(W); mc_check(!M_async_writer_is_running(W), "running after stop"); M_async_writer_destroy(W, M_FALSE);
	}
	sched_hb_off(1);
	if (how == 0 || how == 3 || how == 5 || (how == 4 && r)) mc_check(destroyed == 1, "not destroyed on return");
	if (how == 0 || how == 3) mc_check(r, "blocking destroy without a timeout returned false");
	if (!r) reports_bad = 1;
	sched_hb_off(0);
	return r;
}
static size_t wl[2][3]; static int wn[2];
static void *writer(void *a) { int p = (int)(M_uintptr)a, i; for (i = 0; i < wn[p]; i++) do_write(wl[p][i]); return NULL; }
static void *commander(void *a) { int k = (int)(M_uintptr)a; cmd(k >> 4, k & 15); return NULL; }
static M_threadid_t spawn(void *(*f)(void *), int arg) { M_thread_attr_t *at = M_thread_attr_create(); M_threadid_t id; M_thread_attr_set_create_joinable(at, M_TRUE); id = M_thread_create(at, f, (void *)(M_uintptr)arg); M_thread_attr_destroy(at); return id; }

void mc_init(void) { M_thread_init(M_THREAD_MODEL_NATIVE); { void *p = M_malloc(1); M_free(p); } sched_timeouts = (int)mc_param("timeouts", 1, 1); }
void mc_run(void)
{
	size_t live; int i, n, left = 0, ss = 0, runs = 1;
	scen = (int)mc_param("scen", 0, 0); mc_set_budget((int)mc_param("budget", 2, 3));
	nms = 0; stampc = 0; destroyed = stopped_cb = in_cb = rejects = reports_bad = calls = 0; reported = 0; delivered = 0; consumed_n = 0; hang = running_cb = 0; gate = 1; cbwrites = 0; memset(setn, 0, sizeof setn); memset(deln, 0, sizeof deln);
	mqn = 0; mqb = 0; mdrop = 0; exact = 0; m_flush = 0; x_cur = -1; x_phase = 0; x_popdrop = 0;
	sched_begin(); live = sched_heap_live();
	switch (scen) {
		case 0: {
			static const size_t L[] = {2, 4, 10, 11};
			exact = 1; new_writer(10); rejects = mc_param("rej", 2, 3); cbwrites = mc_param("cbw", 2, 2);
			n = mc_choose(mc_param("pre", 4, 5)); for (i = 0; i < n; i++) do_write(L[mc_choose(4)]);
			if (mc_choose(2)) cmd(0, mc_choose(2));
			start();
			if (mc_choose(2)) { M_async_writer_stop(W); mc_check(stopped_cb == 1, "%d stop callbacks after stop", stopped_cb); runs = 2; if (mc_choose(2)) do_write(4); start(); }
			n = mc_choose(3); /* flushing: the callback's own writes are refused */
			cbwrites = 0; ss = finish(n ? n + 1 : 0);
			break;
		}
		case 1: {
			static const size_t MX[] = {100, 6, 4}; M_threadid_t t[2]; int nw;
			new_writer(MX[mc_choose(3)]); rejects = mc_choose(2); nw = 1 + mc_choose(2);
			for (i = 0; i < nw; i++) { wn[i] = nw == 1 ? 3 : 2; wl[i][0] = 3; wl[i][1] = i ? 5 : 3; wl[i][2] = 3; }
			if (mc_choose(2)) { start(); for (i = 0; i < nw; i++) t[i] = spawn(writer, i); } else { for (i = 0; i < nw; i++) t[i] = spawn(writer, i); start(); }
			for (i = 0; i < nw; i++) M_thread_join(t[i], NULL);
			n = mc_choose(6); ss = finish(n); left = n == 5;
			break;
		}
		case 2: {
			/* kinds: lazy, forced, blocking; the same or another bit */
			int k1 = mc_choose(3), k2 = mc_choose(3), same = mc_choose(2), w = mc_choose(3); M_threadid_t t;
			new_writer(w == 2 ? 3 : 100); rejects = w == 2 ? mc_choose(2) : 0;
			if (w == 2) { do_write(3); do_write(3); }
			start(); t = spawn(commander, (same ? 0 : 16) + k1); if (w == 1) do_write(2);
			cmd(0, k2); if (mc_choose(2)) cmd(2, 2);
			M_thread_join(t, NULL); n = mc_choose(2); ss = finish(n);
			break;
		}
		case 3: {
			M_threadid_t t; new_writer(mc_choose(2) ? 100 : 6); rejects = mc_choose(2);
			wn[0] = 3; wl[0][0] = wl[0][1] = wl[0][2] = 3; start(); t = spawn(writer, 0);
			M_async_writer_stop(W); runs++; sched_hb_off(1); mc_check(stopped_cb == 1 && !in_cb, "stop returned while the worker runs"); i = calls; sched_hb_off(0);
			if (mc_choose(2)) { sched_point(); sched_hb_off(1); mc_check(calls == i, "callback while stopped"); sched_hb_off(0); }
			start(); M_thread_join(t, NULL); n = mc_choose(4); ss = finish(n);
			break;
		}
		default: {
			int h = mc_choose(3); M_threadid_t t = 0; new_writer(100);
			start(); do_write(3);
			if (h == 0) { M_bool a; if (mc_choose(2)) t = spawn(commander, 1); a = M_async_writer_is_alive(W, 100); mc_check(a || sched_timeouts, "worker did not answer"); if (t) M_thread_join(t, NULL); ss = finish(mc_choose(5)); }
			else {
				hang = 1; gate = 0; if (mc_choose(2)) { do_write(2); sched_wait(&running_cb); }
				if (h == 1) { M_bool a = M_async_writer_is_alive(W, 100); (void)a; }
				ss = finish(4);
				sched_hb_off(1); hang = 0; gate = 1; sched_hb_off(0);
			}
		}
	}
	sched_wait_all();
	mc_check(destroyed == 1, "thunk destroyed %d times", destroyed); mc_check(stopped_cb == runs, "%d stop callbacks, %d runs", stopped_cb, runs);
	account(left || (!ss && 0));
	mc_outcome(mc_h64((uint64_t)consumed_n, mc_h64(reported, mc_h64((uint64_t)calls, (uint64_t)scen))));
	mc_check(sched_heap_live() == live, "writer leaks %ld bytes", (long)(sched_heap_live() - live));
	mc_case();
}
