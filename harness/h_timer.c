// MODE: seq
// MODS: thread io
// WRAP: M_rand pipe2 epoll_create1 clock_gettime gettimeofday epoll_wait poll time
/* C06: timers under virtual time, every operation sequence within bounds, against a model. */
#include "hx.h"
#include <mstdlib/mstdlib_thread.h>
#include <mstdlib/mstdlib_io.h>
#include <sys/epoll.h>
#include <poll.h>
#include <time.h>
#include <sys/time.h>
const char *mc_name = "h_timer";
static uint64_t now; /* ms */ static int blocked_forever;
#define NSBASE 300000ULL
int __wrap_clock_gettime(clockid_t c, struct timespec *ts) { uint64_t b = c == CLOCK_REALTIME ? 1700000000000ULL : 5000000ULL; ts->tv_sec = (time_t)((b + now) / 1000); ts->tv_nsec = (long)((b + now) % 1000 * 1000000 + NSBASE); return 0; }
int __wrap_gettimeofday(struct timeval *tv, void *tz) { struct timespec ts; __wrap_clock_gettime(CLOCK_REALTIME, &ts); tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; return 0; }
time_t __wrap_time(time_t *t) { struct timespec ts; __wrap_clock_gettime(CLOCK_REALTIME, &ts); if (t) *t = ts.tv_sec; return ts.tv_sec; }
#include <unistd.h>
static int fds[8], nfds; /* abandoned executions leave descriptors open */
int __real_pipe2(int *f, int fl); int __real_epoll_create1(int fl);
int __wrap_pipe2(int *f, int fl) { int r = __real_pipe2(f, fl); if (!r && nfds < 6) { fds[nfds++] = f[0]; fds[nfds++] = f[1]; } return r; }
int __wrap_epoll_create1(int fl) { int r = __real_epoll_create1(fl); mc_check(r >= 0, "epoll_create1"); if (nfds < 8) fds[nfds++] = r; return r; }
static uint64_t rnd; uint64_t __wrap_M_rand(void *st) { rnd = rnd * 6364136223846793005ULL + 1442695040888963407ULL; return rnd >> 20; }
static int waited(int ms) { if (ms < 0) { blocked_forever = 1; mc_fail("loop sleeps forever with a bounded timeout"); } now += (uint64_t)ms; return 0; }
int __real_epoll_wait(int fd, struct epoll_event *e, int n, int ms); int __real_poll(struct pollfd *p, nfds_t n, int ms);
int __wrap_epoll_wait(int fd, struct epoll_event *e, int n, int ms) { int r = __real_epoll_wait(fd, e, n, 0); return r ? r : waited(ms); }
int __wrap_poll(struct pollfd *p, nfds_t n, int ms) { int r = __real_poll(p, n, 0); return r ? r : waited(ms); }

#define NT 3
enum { A_NONE, A_STOP, A_REMOVE, A_START4, A_RESETO, A_REMOVEO, A_SLEEP, A_STOPO, A_ADJ, A_TASK, A_CNT };
static const char *const actn[] = { "nothing", "stops itself", "removes itself", "starts itself for 4", "resets the other for 6", "removes the other", "takes 15 ms", "stops the other", "adjusts itself to 2", "queues a task" };
typedef struct { M_event_timer_t *t; int alive, started, mono, autorm, executing, removed, cbv, cbnext; uint64_t iv, next, starttv, endtv; size_t fc, cnt; int action, rescheduled; } tm_t;
static tm_t T[NT]; static M_event_t *ev; static int ntm, inloop, slept; static uint64_t loopend, loopstart, fires; static int taskq[16], tq_put, tq_get;
static void cb0(M_event_t *e, M_event_type_t ty, M_io_t *io, void *arg); static void cb1(M_event_t *e, M_event_type_t ty, M_io_t *io, void *arg);
static void task_cb(M_event_t *e, M_event_type_t ty, M_io_t *io, void *arg) { int id = (int)(uintptr_t)arg; mc_check(tq_get < tq_put && taskq[tq_get] == id, "task %d ran out of order", id); tq_get++; fires++; mc_note("  task %d", id); }

/* the model */
static int m_sched(tm_t *m, int start) /* start: explicit start, otherwise periodic */
{
	uint64_t add = m->iv;
	if (m->iv == 0 && m->fc != 1) return 0;
	if (start || !m->mono) m->next = now;
	if (start && m->starttv) { add = m->starttv > now ? m->starttv - now : 0; m->starttv = 0; if (add > 30ULL * 86400 * 1000) return 0; }
	m->next += add; return 1;
}
static void gone(tm_t *m) { m->alive = 0; m->started = 0; m->t = NULL; }
static void chk(tm_t *m, const char *what)
{
	int i = (int)(m - T);
	if (!m->alive || m->removed) return;
	mc_check(M_event_timer_get_status(m->t) == m->started, "after %s: timer %d status %d, expected %d", what, i, M_event_timer_get_status(m->t), m->started);
	if (!m->executing) { uint64_t r = !m->started || m->next < now ? 0 : m->next - now; mc_check(M_event_timer_get_remaining_ms(m->t) == r, "after %s: timer %d has %llu ms remaining, expected %llu", what, i, (unsigned long long)M_event_timer_get_remaining_ms(m->t), (unsigned long long)r); }
	mc_check(M_event_timer_get_interval_ms(m->t) == m->iv, "after %s: timer %d interval %llu, expected %llu", what, i, (unsigned long long)M_event_timer_get_interval_ms(m->t), (unsigned long long)m->iv);
}
static void chkall(const char *what) { int i; for (i = 0; i < ntm; i++) chk(&T[i], what); mc_step(); }
static void do_start(tm_t *m, uint64_t iv)
{
	tm_t s = *m; int ok = iv <= 30ULL * 86400 * 1000, r;
	if (ok) { m->iv = iv; m->cnt = 0; ok = m_sched(m, 1); if (ok) { m->started = 1; m->rescheduled = m->executing; } else { *m = s; } }
	r = M_event_timer_start(m->t, iv); mc_check(r == ok, "start(%llu) of timer %d with fire count %zu returned %d", (unsigned long long)iv, (int)(m - T), m->fc, r);
}
static void do_stop(tm_t *m) { M_event_timer_t *t = m->t; m->started = 0; m->rescheduled = 0; if (m->autorm) { if (m->executing) m->removed = 1; else gone(m); } mc_check(M_event_timer_stop(t), "stop failed"); }
static void do_remove(tm_t *m) { M_event_timer_t *t = m->t; m->started = 0; if (m->executing) m->removed = 1; else gone(m); mc_check(M_event_timer_remove(t), "remove failed"); }
static void do_reset(tm_t *m, uint64_t iv)
{
	uint64_t niv = iv ? iv : m->iv; int ok, r; tm_t s;
	if (m->started) m->started = 0;
	s = *m; m->iv = niv; m->cnt = 0; ok = niv <= 30ULL * 86400 * 1000 && m_sched(m, 1);
	if (ok) { m->started = 1; m->rescheduled = m->executing; } else *m = s;
	r = M_event_timer_reset(m->t, iv); mc_check(r == ok, "reset(%llu) of timer %d returned %d", (unsigned long long)iv, (int)(m - T), r);
}
static void do_adjust(tm_t *m, uint64_t iv)
{
	int ok = !m->mono && iv != 0, r;
	if (ok && m->started && m->next > now && m->next - now > iv) { m->iv = iv; m->cnt = 0; ok = m_sched(m, 1); m->rescheduled = m->executing; }
	else if (ok) m->iv = iv;
	r = M_event_timer_adjust(m->t, iv); mc_check(r == ok, "adjust(%llu) of timer %d returned %d", (unsigned long long)iv, (int)(m - T), r);
}
static void settle(tm_t *m) /* after the callback of m */
{
	m->executing = 0;
	if (m->cbnext >= 0) { m->cbv = m->cbnext; m->cbnext = -1; }
	if (m->fc && m->cnt >= m->fc) m->started = 0;
	if (m->removed || (!m->started && m->autorm)) { gone(m); return; }
	if (m->started && !m->rescheduled) m_sched(m, 0);
	m->rescheduled = 0;
}
/* timers which reached their end time: the library stops these when they come up */
static void expire(tm_t *f) { int i; for (i = 0; i < ntm; i++) { tm_t *m = &T[i]; if (m == f || !m->alive || !m->started || m->executing || !m->endtv || now < m->endtv) continue; if (m->next < f->next || (m->next == f->next && !m->autorm && !M_event_timer_get_status(m->t))) { m->started = 0; if (m->autorm) gone(m); } else if (m->next == f->next && m->autorm) mc_prune(); } }
static void fire(int i, int variant, M_event_t *e, M_event_type_t ty)
{
	tm_t *m = &T[i], *o = &T[(i + 1) % ntm]; int j;
	expire(m);
	mc_note("  timer %d fires at %llu (%s)", i, (unsigned long long)now, actn[m->action]);
	mc_check(inloop && e == ev && ty == M_EVENT_TYPE_OTHER, "timer callback outside the loop or with wrong arguments");
	mc_check(m->alive && !m->removed, "removed timer %d fired", i);
	mc_check(m->started, "stopped timer %d fired", i);
	mc_check(now >= m->next, "timer %d fired at %llu, due at %llu", i, (unsigned long long)now, (unsigned long long)m->next);
	mc_check(slept || now == m->next || m->next <= loopstart, "timer %d fired late", i);
	mc_check(m->fc == 0 || m->cnt < m->fc, "timer %d fired more than %zu times", i, m->fc);
	mc_check(variant == m->cbv, "timer %d ran the wrong callback", i);
	for (j = 0; j < ntm; j++) if (j != i && T[j].alive && T[j].started && !T[j].executing) mc_check(T[j].next >= m->next, "timer %d (due at %llu) fired before timer %d (due at %llu)", i, (unsigned long long)m->next, j, (unsigned long long)T[j].next);
	m->cnt++; m->executing = 1; fires++;
	switch (m->action) {
		case A_STOP: do_stop(m); break;
		case A_REMOVE: do_remove(m); break;
		case A_START4: do_start(m, 4); break;
		case A_RESETO: if (ntm > 1 && o->alive) do_reset(o, 6); break;
		case A_REMOVEO: if (ntm > 1 && o->alive) do_remove(o); break;
		case A_SLEEP: now += 15; slept = 1; break;
		case A_STOPO: if (ntm > 1 && o->alive) do_stop(o); break;
		case A_ADJ: do_adjust(m, 2); break;
		case A_TASK: if (tq_put < 16) { taskq[tq_put] = tq_put; tq_put++; M_event_queue_task(ev, task_cb, (void *)(uintptr_t)(tq_put - 1)); } break;
	}
	if (!m->removed) m->action = A_NONE; /* only at the first firing */
	chkall("callback");
	settle(m);
	mc_check(fires < 200, "timers fire without end");
}
static void cb0(M_event_t *e, M_event_type_t ty, M_io_t *io, void *arg) { fire((int)(uintptr_t)arg, 0, e, ty); }
static void cb1(M_event_t *e, M_event_type_t ty, M_io_t *io, void *arg) { fire((int)(uintptr_t)arg, 1, e, ty); }

static void do_loop(uint64_t T0)
{
	M_event_err_t rv; int i; uint64_t t0 = now, f0 = M_event_get_statistic(ev, M_EVENT_STATISTIC_TIMER_COUNT), n0 = fires;
	inloop = 1; slept = 0; loopend = now + T0; loopstart = now;
	rv = M_event_loop(ev, T0);
	inloop = 0;
	mc_check(rv == M_EVENT_ERR_TIMEOUT, "loop returned %d", (int)rv);
	mc_check(slept || now == t0 + T0, "loop for %llu ms took %llu", (unsigned long long)T0, (unsigned long long)(now - t0));
	if (!slept) for (i = 0; i < ntm; i++) if (T[i].alive && T[i].started && !(T[i].endtv && now >= T[i].endtv)) mc_check(T[i].next >= now, "timer %d was due at %llu, has not fired at %llu", i, (unsigned long long)T[i].next, (unsigned long long)now);
	/* end time handling of timers that came up exactly now depends on the last pass; follow the library */
	for (i = 0; i < ntm; i++) { tm_t *m = &T[i]; if (!m->alive || !m->started || !m->endtv || now < m->endtv || m->next > now) continue; if (slept || m->next == now) { if (m->autorm) mc_prune(); if (M_event_timer_get_status(m->t)) continue; } m->started = 0; if (m->autorm) gone(m); }
	mc_check(tq_get == tq_put || slept, "queued task did not run");
	mc_check(M_event_get_statistic(ev, M_EVENT_STATISTIC_TIMER_COUNT) - f0 == fires - n0, "timer statistic advanced by %llu for %llu callbacks", (unsigned long long)(M_event_get_statistic(ev, M_EVENT_STATISTIC_TIMER_COUNT) - f0), (unsigned long long)(fires - n0));
}
static void tv(uint64_t at, M_timeval_t *o) { uint64_t b = 1700000000000ULL + at; o->tv_sec = (M_time_t)(b / 1000); o->tv_usec = (M_suseconds_t)(b % 1000 * 1000 + NSBASE / 1000); }

static int depth;
static uint64_t hstate(void) { int i; uint64_t h = 1; for (i = 0; i < ntm; i++) { tm_t *m = &T[i]; if (!m->alive) { h = mc_h64(h, 99); continue; } h = mc_h64(h, (uint64_t)m->started | (uint64_t)m->mono << 1 | (uint64_t)m->autorm << 2 | (uint64_t)m->cbv << 3 | (uint64_t)m->action << 4); h = mc_h64(h, m->started ? m->next - now : 0); h = mc_h64(h, m->iv); h = mc_h64(h, m->fc * 64 + m->cnt); h = mc_h64(h, m->starttv ? m->starttv - now : 0); h = mc_h64(h, m->endtv ? m->endtv - now : 0); } return h; }
void mc_init(void) { depth = (int)mc_param("depth", 3, 5); mc_leakcheck = 1; M_thread_init(M_THREAD_MODEL_NATIVE); M_time_elapsed_start(&(M_timeval_t){0}); }
void mc_run(void)
{
	int i, s, backend;
	while (nfds) close(fds[--nfds]);
	rnd = 12345;
	memset(T, 0, sizeof(T)); now = 100; fires = 0; tq_put = tq_get = 0; inloop = 0;
	ntm = (int)mc_param("ntm", 2, 2); backend = 0;
	ev = M_event_create(backend ? M_EVENT_FLAG_NON_SCALABLE : M_EVENT_FLAG_NONE);
	for (i = 0; i < ntm; i++) {
		/* initial configuration of each timer */
		static const struct { int fc, mono, autorm, start; } init[] = { { 0, 0, 0, 10 }, { 1, 0, 0, 10 }, { 2, 1, 0, 5 }, { 1, 0, 1, 7 }, { 0, 1, 0, 0 }, { 1, 0, 0, 0 }, { 2, 0, 1, 5 } };
		int c = mc_choose(i == 0 ? 7 : 4); T[i].cbnext = -1;
		T[i].t = M_event_timer_add(ev, cb0, (void *)(uintptr_t)i); T[i].alive = 1;
		T[i].fc = (size_t)init[c].fc; M_event_timer_set_firecount(T[i].t, T[i].fc);
		if (init[c].mono) { T[i].mono = 1; M_event_timer_set_mode(T[i].t, M_EVENT_TIMER_MODE_MONOTONIC); }
		if (init[c].autorm) { T[i].autorm = 1; M_event_timer_set_autoremove(T[i].t, M_TRUE); }
		mc_note("timer %d: fire count %d, %s%s, start %d", i, init[c].fc, init[c].mono ? "monotonic" : "relative", init[c].autorm ? ", autoremove" : "", init[c].start);
		if (init[c].start) do_start(&T[i], (uint64_t)init[c].start);
	}
	T[0].action = mc_choose(A_CNT); mc_note("first callback of timer 0 %s", actn[T[0].action]);
	chkall("creation");
	for (s = 0; s < depth; s++) {
		int op; tm_t *m; M_timeval_t t; char what[64];
		if (!mc_visit(mc_h64(hstate(), 7), depth - s)) break;
		mc_state(hstate());
		op = mc_choose(23); m = &T[0]; if (op >= 17 && op < 20) m = &T[1];
		if (op > 2 && op < 20 && !m->alive) mc_prune();
		snprintf(what, sizeof(what), "op %d", op);
		mc_note("%llu: op %d", (unsigned long long)now, op);
		switch (op) {
			case 0: do_loop(5); break;
			case 1: do_loop(10); break;
			case 2: do_loop(31); break;
			case 3: do_start(m, 5); break;
			case 4: do_start(m, 0); break;
			case 5: do_start(m, 30ULL * 86400 * 1000 + (mc_choose(2) ? 1 : 0)); break;
			case 6: do_stop(m); break;
			case 7: do_reset(m, 0); break;
			case 8: do_reset(m, 12); break;
			case 9: do_adjust(m, 3); break;
			case 10: do_adjust(m, 20); break;
			case 11: m->fc = (size_t)mc_choose(3); if (m->iv == 0 && m->started && m->fc != 1) mc_prune(); if (m->started && m->fc && m->cnt >= m->fc) mc_prune(); M_event_timer_set_firecount(m->t, m->fc); break;
			case 12: m->mono = !m->mono; M_event_timer_set_mode(m->t, m->mono ? M_EVENT_TIMER_MODE_MONOTONIC : M_EVENT_TIMER_MODE_RELATIVE); break;
			case 13: m->endtv = now + 12; tv(m->endtv, &t); mc_check(M_event_timer_set_endtv(m->t, &t), "set_endtv"); break;
			case 14: m->starttv = now + 8; tv(m->starttv, &t); mc_check(M_event_timer_set_starttv(m->t, &t), "set_starttv"); break;
			case 15: do_remove(m); break;
			case 16: m->cbv = !m->cbv; M_event_timer_edit_cb(m->t, m->cbv ? cb1 : cb0, (void *)(uintptr_t)(m - T)); break;
			case 17: do_start(m, 3); break;
			case 18: do_stop(m); break;
			case 19: do_remove(m); break;
			case 20: taskq[tq_put] = tq_put; tq_put++; M_event_queue_task(ev, task_cb, (void *)(uintptr_t)(tq_put - 1)); break;
			case 21: now += 25; break; /* time passes outside the loop */
			case 22: T[0].action = A_START4; break;
		}
		chkall(what);
	}
	do_loop(40); chkall("final loop");
	M_event_destroy(ev); nfds = 0;
}
