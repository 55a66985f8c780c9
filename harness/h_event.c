// MODE: sched
// MODS: thread io
/* C05 (and the cross-thread part of C06): event loop under every schedule within the bound. */
#include "hx.h"
#include <mstdlib/mstdlib_thread.h>
#include <mstdlib/mstdlib_io.h>
#include "mcsched.h"
const char *mc_name = "h_event";
#define MAXT 8
static M_event_t *ev, *ev2; static int scen, ntask, K, nprod; static M_event_trigger_t *trA, *trB; static M_event_timer_t *tm1;
static struct { int prod, seq, ran; } tasks[MAXT]; static int lastseq[4], total_ran, produced, expect;
static volatile int dataA, seenA, firedA, firedB, removedB, edited, stopped, tfires, tick, pdone; static uint64_t t_start; static int loop_tid[3];
static int on_loop(M_event_t *e) { int self = sched_self(), i; (void)e; for (i = 0; i < 3; i++) if (loop_tid[i] == self + 1) return 1; return 0; }
static void check_thread(M_event_t *e, const char *what) { mc_check(on_loop(e), "%s ran on thread %d, which does not run the loop", what, sched_self()); }

static void task_cb(M_event_t *e, M_event_type_t type, M_io_t *io, void *arg)
{
	int id = (int)(M_uintptr)arg - 1, fin;
	sched_hb_off(1);
	(void)io; mc_check(type == M_EVENT_TYPE_OTHER, "task delivered with event type %d", (int)type);
	if (scen != 5 && scen != 14) check_thread(e, "task");
	mc_check(!tasks[id].ran, "task %d ran twice", id);
	tasks[id].ran = 1; total_ran++;
	if (scen != 5 && scen != 14) { mc_check(tasks[id].seq == lastseq[tasks[id].prod] + 1, "task %d of producer %d ran after task %d of the same producer", tasks[id].seq, tasks[id].prod, lastseq[tasks[id].prod]); lastseq[tasks[id].prod] = tasks[id].seq; }
	fin = total_ran == expect;
	sched_hb_off(0);
	if (fin && scen != 6 && scen != 7) M_event_done(e);
}
static void qtask(M_event_t *e, int prod, int seq)
{
	int id;
	sched_hb_off(1); id = ntask++; tasks[id].prod = prod; tasks[id].seq = seq; sched_hb_off(0);
	mc_check(M_event_queue_task(e, task_cb, (void *)(M_uintptr)(id + 1)), "queue_task failed");
}
static void trigA_cb(M_event_t *e, M_event_type_t type, M_io_t *io, void *arg)
{
	int fin;
	sched_hb_off(1);
	(void)type; (void)io; (void)arg; check_thread(e, "trigger callback");
	firedA++; seenA = dataA; fin = (scen == 1 && seenA == K) ;
	sched_hb_off(0);
	if (scen == 4) {
		sched_hb_off(1); removedB = 1; sched_hb_off(0);
		M_event_trigger_remove(trB);
		M_event_done(e);
	}
	if (fin) M_event_done(e);
}
static void trigB_cb(M_event_t *e, M_event_type_t type, M_io_t *io, void *arg)
{
	(void)e; (void)type; (void)io; (void)arg;
	sched_hb_off(1); check_thread(e, "trigger callback"); mc_check(!removedB, "removed trigger fired"); firedB++; sched_hb_off(0);
	if (scen == 13) M_event_done(e);
}
static void done_cb(M_event_t *e, M_event_type_t type, M_io_t *io, void *arg) { (void)type; (void)io; (void)arg; M_event_done(e); }
static void mark_cb(M_event_t *e, M_event_type_t type, M_io_t *io, void *arg) { (void)e; (void)type; (void)io; sched_hb_off(1); *(volatile int *)arg = 1; sched_hb_off(0); }
static void timer_cb(M_event_t *e, M_event_type_t type, M_io_t *io, void *arg)
{
	(void)type; (void)io; (void)arg;
	sched_hb_off(1); check_thread(e, "timer callback");
	mc_check(!stopped, "timer fired after it was stopped or removed and a task queued after that had run");
	mc_check(sched_now_ns() >= t_start + 10 * 1000000ULL, "timer of 10 ms fired after %llu ns", (unsigned long long)(sched_now_ns() - t_start));
	tfires++; sched_hb_off(0);
	if (scen == 8) M_event_done(e);
}
static void ping_cb(M_event_t *e, M_event_type_t type, M_io_t *io, void *arg)
{
	int t;
	(void)type; (void)io; (void)arg;
	sched_hb_off(1); t = ++tick; sched_hb_off(0);
	if (t <= 3) M_event_queue_task(e == ev ? ev2 : ev, ping_cb, NULL);
	else { M_event_done(ev); M_event_done(ev2); }
}
static void *producer(void *arg)
{
	int me = (int)(M_uintptr)arg, i;
	switch (scen) {
		case 0: case 5: case 6: case 7: case 14: for (i = 0; i < K; i++) qtask(ev, me, i + 1); break;
		case 1: for (i = 1; i <= K; i++) { sched_hb_off(1); dataA = i; sched_hb_off(0); M_event_trigger_signal(trA); } break;
		case 2: M_event_done(ev); break;
		case 3: M_event_trigger_signal(trA); M_event_trigger_remove(trA); M_event_queue_task(ev, done_cb, NULL); break;
		case 4: M_event_trigger_signal(trB); M_event_trigger_signal(trA); break;
		case 8: sched_hb_off(1); t_start = sched_now_ns(); sched_hb_off(0); tm1 = M_event_timer_oneshot(ev, 10, M_TRUE, timer_cb, NULL); break;
		case 9: case 10: /* stop / remove a running periodic timer from outside */
			sched_hb_off(1); t_start = sched_now_ns(); sched_hb_off(0);
			M_event_timer_start(tm1, 10);
			M_thread_sleep(K == 1 ? 1000 : K == 2 ? 10000 : 25000);
			if (scen == 9) M_event_timer_stop(tm1); else M_event_timer_remove(tm1);
			M_event_queue_task(ev, mark_cb, (void *)&stopped);
			M_thread_sleep(30000);
			M_event_queue_task(ev, done_cb, NULL);
			break;
		case 11: /* remove own trigger: loop created with EXITONEMPTY must notice */
			M_event_trigger_remove(trA); break;
		case 12: break;
		case 13: M_event_trigger_edit_cb(trA, trigB_cb, NULL); M_event_trigger_signal(trA); break;
		case 15: M_event_return(ev); break;
		case 16: M_thread_sleep(5000); M_event_timer_reset(tm1, 10); sched_hb_off(1); t_start = sched_now_ns(); sched_hb_off(0); break;
		case 17: M_event_timer_stop(tm1); break;
		default: break;
	}
	sched_hb_off(1); pdone++; sched_hb_off(0);
	return NULL;
}
static void *loop2(void *arg) { (void)arg; loop_tid[1] = sched_self() + 1; return (void *)(M_uintptr)M_event_loop(ev2, M_TIMEOUT_INF); }
static const char *const names[] = { "tasks", "trigger signals", "done from outside", "trigger signalled and removed from outside", "pending trigger removed by a callback", "pool tasks", "exit on empty with tasks", "loop with timeouts", "oneshot from outside", "timer stopped from outside", "timer removed from outside", "exit on empty after trigger removal", "two loops", "edited trigger", "pool done early", "return from outside" };

static M_threadid_t spawn(void *(*f)(void *), void *a) { M_thread_attr_t *at = M_thread_attr_create(); M_threadid_t id; M_thread_attr_set_create_joinable(at, M_TRUE); id = M_thread_create(at, f, a); M_thread_attr_destroy(at); return id; }
void mc_init(void) { sched_horizon = (int)mc_param("horizon", sched_horizon, sched_horizon); M_thread_init(M_THREAD_MODEL_NATIVE); { void *p = M_malloc(1); M_free(p); } }
void mc_run(void)
{
	M_uint32 flags = 0; M_threadid_t th[3]; size_t live; int i, backend; M_event_err_t rv; M_uint64 to = M_TIMEOUT_INF;
	scen = (int)mc_param("scen", 0, 0);
	mc_set_budget((int)mc_param("budget", 2, 3));
	backend = mc_choose(2); nprod = 1; K = 1;
	switch (scen) {
		case 0: case 6: case 7: nprod = 1 + mc_choose(2); K = 1 + mc_choose(nprod == 1 ? 3 : 2); break;
		case 1: K = 1 + mc_choose(3); break;
		case 5: nprod = 1 + mc_choose(2); K = nprod == 1 ? 1 + mc_choose(2) : 1; break;
		case 9: case 10: K = 1 + mc_choose(3); break;
		default: break;
	}
	expect = nprod * K;
	if (scen == 7) expect = nprod * K;
	if (backend) flags |= M_EVENT_FLAG_NON_SCALABLE;
	if (scen == 6 || scen == 11) flags |= M_EVENT_FLAG_EXITONEMPTY;
	sched_begin();
	mc_note("scenario %d (%s), backend %s, %d producers, K=%d", scen, scen < (int)HX_N(names) ? names[scen] : "?", backend ? "poll" : "epoll", nprod, K);
	live = sched_heap_live();
	ev = scen == 5 || scen == 14 ? M_event_pool_create(2) : M_event_create(flags);
	mc_check(ev != NULL, "no event handle");
	loop_tid[0] = sched_self() + 1;
	if (scen == 1 || scen == 3 || scen == 4 || scen == 11 || scen == 13) trA = M_event_trigger_add(ev, trigA_cb, NULL);
	if (scen == 4) trB = M_event_trigger_add(ev, trigB_cb, NULL);
	if (scen == 9 || scen == 10) tm1 = M_event_timer_add(ev, timer_cb, NULL);
	if (scen == 12) {
		ev2 = M_event_create(flags); th[0] = spawn(loop2, NULL); M_event_queue_task(ev2, ping_cb, NULL);
	} else for (i = 0; i < nprod; i++) th[i] = spawn(producer, (void *)(M_uintptr)i);
	if (scen == 6 || scen == 7) {
		int loops = 0;
		for (;;) {
			int d, r;
			if (scen == 7) to = loops % 2 ? 0 : 5;
			rv = M_event_loop(ev, to); loops++;
			mc_check(rv == (scen == 6 ? M_EVENT_ERR_DONE : M_EVENT_ERR_TIMEOUT), "loop returned %d", (int)rv);
			sched_hb_off(1); d = pdone; r = total_ran; sched_hb_off(0);
			if (d == nprod) {
				if (r == expect) break;
				/* everything was queued before this call: one pass must run it all */
				if (scen == 7) rv = M_event_loop(ev, 5); else rv = M_event_loop(ev, M_TIMEOUT_INF);
				mc_check(total_ran == expect, "%d of %d tasks ran although all were queued before the loop was entered", total_ran, expect);
				break;
			}
			if (loops > 3) { for (i = 0; i < nprod; i++) { M_thread_join(th[i], NULL); th[i] = 0; } }
		}
	} else {
		rv = M_event_loop(ev, to);
		if (scen == 15) mc_check(rv == M_EVENT_ERR_RETURN || (rv == M_EVENT_ERR_DONE && mc_known("event-return-status")), "loop told to return by M_event_return() returned %d, not M_EVENT_ERR_RETURN", (int)rv);
		else mc_check(rv == M_EVENT_ERR_DONE, "loop returned %d after done", (int)rv);
		if (scen != 15) mc_check(M_event_get_status(ev) == (scen == 11 || scen == 6 ? M_EVENT_STATUS_PAUSED : M_EVENT_STATUS_DONE), "status is %d after the loop was done", (int)M_event_get_status(ev));
	}
	for (i = 0; i < (scen == 12 ? 1 : nprod); i++) if (th[i]) M_thread_join(th[i], NULL);
	switch (scen) {
		case 0: case 6: case 7: case 5: for (i = 0; i < ntask; i++) mc_check(tasks[i].ran == 1, "task %d never ran", i); mc_check(ntask == expect && total_ran == expect, "%d tasks ran", total_ran); break;
		case 1: mc_check(seenA == K && firedA <= K, "last signal seen %d of %d, %d callbacks", seenA, K, firedA); break;
		case 3: mc_check(firedA <= 1, "trigger fired %d times for one signal", firedA); break;
		case 4: mc_check(firedA == 1 && firedB <= 1, "trigger fired %d/%d", firedA, firedB); break;
		case 8: mc_check(tfires == 1, "oneshot fired %d times", tfires); break;
		case 9: case 10: break;
		case 12: mc_check(tick == 4, "%d hops", tick); break;
		case 13: mc_check(firedB == 1 && firedA == 0, "edited trigger: old callback %d, new callback %d", firedA, firedB); break;
	}
	if (scen == 9) M_event_timer_remove(tm1);
	mc_outcome(mc_h64((uint64_t)(firedA * 10 + firedB), mc_h64((uint64_t)tfires, (uint64_t)total_ran)));
	M_event_destroy(ev);
	if (scen == 12) M_event_destroy(ev2);
	sched_wait_all();
	mc_check(sched_heap_live() == live, "event loop leaks %ld bytes", (long)(sched_heap_live() - live));
}
