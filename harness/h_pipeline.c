// MODE: sched
// MODS: thread
/* C02: thread pipeline under every schedule within the preemption bound. */
#include "hx.h"
#include <mstdlib/mstdlib_thread.h>
#include "mcsched.h"
const char *mc_name = "h_pipeline";
#define MAXS 3
struct M_thread_pipeline_task { int id; };
typedef M_thread_pipeline_task_t task_t;
typedef struct { int accepted, next_step, in_step, finished, failed; M_thread_pipeline_result_t res; } rec_t;
static rec_t rec[6]; static int nofifo, nrec, nsteps, fail_task, fail_step, noabort, destroying, failed_any, last_started[MAXS], in_step[MAXS];
static M_thread_pipeline_t *pl;

static M_bool step(task_t *t, int s)
{
	rec_t *r; int fail;
	sched_hb_off(1);
	r = &rec[t->id];
	mc_check(!r->finished, "step %d runs for task %d after its finish callback", s, t->id);
	mc_check(r->in_step == 0, "task %d is in two steps at once", t->id);
	mc_check(r->next_step == s, "task %d enters step %d, expected step %d", t->id, s, r->next_step);
	mc_check(!in_step[s], "step %d runs two tasks at once", s);
	mc_check(nofifo || last_started[s] < t->id, "step %d runs task %d after task %d: order of insertion not kept", s, t->id, last_started[s]);
	last_started[s] = t->id; in_step[s] = 1; r->in_step = 1;
	sched_hb_off(0);
	sched_point();
	sched_hb_off(1);
	fail = (t->id == fail_task && s == fail_step);
	in_step[s] = 0; r->in_step = 0; r->next_step = s + 1;
	if (fail) { r->failed = 1; failed_any = 1; }
	sched_hb_off(0);
	return fail ? M_FALSE : M_TRUE;
}
static M_bool s0(task_t *t) { return step(t, 0); }
static M_bool s1(task_t *t) { return step(t, 1); }
static M_bool s2(task_t *t) { return step(t, 2); }
static void fin(task_t *t, M_thread_pipeline_result_t res)
{
	rec_t *r;
	sched_hb_off(1);
	r = &rec[t->id];
	mc_note("[%d] finish task %d result %d", sched_self(), t->id, (int)res);
	mc_check(!r->in_step, "finish callback of task %d while it is in a step", t->id);
	mc_check(!r->finished, "finish callback of task %d ran twice", t->id);
	r->finished = 1; r->res = res;
	if (r->failed) mc_check(res == M_THREAD_PIPELINE_RESULT_FAIL, "task %d failed in a step but its result is %d", t->id, (int)res);
	else if (r->next_step == nsteps) mc_check(res == M_THREAD_PIPELINE_RESULT_SUCCESS, "task %d passed every step but its result is %d", t->id, (int)res);
	else {
		mc_check(res == M_THREAD_PIPELINE_RESULT_ABORT, "task %d did not complete (next step %d) and did not fail, but its result is %d", t->id, r->next_step, (int)res);
		mc_check(destroying || (failed_any && !noabort), "task %d was aborted without a failure or a destroy", t->id);
	}
	sched_hb_off(0);
	M_free(t);
}
static int insert(void)
{
	task_t *t = M_malloc_zero(sizeof(*t)); int id, down; M_bool ok;
	sched_hb_off(1); id = t->id = nrec++; rec[id].accepted = 1; down = 0; sched_hb_off(0);
	ok = M_thread_pipeline_task_insert(pl, t);
	sched_hb_off(1);
	if (!ok) { rec[id].accepted = 0; mc_check(failed_any && !noabort, "insert refused although no task failed"); M_free(t); }
	sched_hb_off(0);
	return ok;
}
static void check_done(int n)
{
	int i;
	sched_hb_off(1);
	for (i = 0; i < n; i++) mc_check(!rec[i].accepted || rec[i].finished, "pipeline reported empty but task %d has not finished", i);
	sched_hb_off(0);
}
static int iplan;
static void *inserter(void *a) { insert(); return NULL; }

void mc_init(void) { sched_spurious = (int)mc_param("spurious", 0, 0); M_thread_init(M_THREAD_MODEL_NATIVE); }
void mc_run(void)
{
	static M_thread_pipeline_task_cb cbs[MAXS] = { s0, s1, s2 };
	M_thread_pipeline_steps_t *st; int n, i, plan, two = 0; size_t live, q; M_threadid_t id = 0;
	mc_set_budget((int)mc_param("budget", 2, 3));
	for (i = 0; i < MAXS; i++) last_started[i] = -1;
	nsteps = 1 + mc_choose(MAXS); n = 1 + mc_choose((int)mc_param("tasks", 3, 3));
	plan = mc_choose(4);   /* 0 wait+destroy, 1 destroy at once, 2 wait(1) between inserts, 3 second inserting thread */
	fail_task = mc_choose(n + 1) - 1; fail_step = fail_task >= 0 ? mc_choose(nsteps) : -1;
	noabort = fail_task >= 0 ? mc_choose(2) : 0;
	if (plan == 3) { if (n > 2) n = 2; }
	if (nsteps == 3 && n == 3 && plan > 1) mc_prune();
	nofifo = plan == 3;
	sched_begin();
	mc_note("steps=%d tasks=%d plan=%d fail task=%d step=%d noabort=%d", nsteps, n, plan, fail_task, fail_step, noabort);
	live = sched_heap_live();
	st = M_thread_pipeline_steps_create();
	for (i = 0; i < nsteps; i++) M_thread_pipeline_steps_insert(st, cbs[i]);
	pl = M_thread_pipeline_create(st, noabort ? M_THREAD_PIPELINE_FLAG_NOABORT : 0, fin);
	M_thread_pipeline_steps_destroy(st);
	if (plan == 3) { M_thread_attr_t *at = M_thread_attr_create(); M_thread_attr_set_create_joinable(at, M_TRUE); id = M_thread_create(at, inserter, NULL); M_thread_attr_destroy(at); }
	for (i = 0; i < n; i++) {
		insert();
		if (plan == 2) { M_thread_pipeline_wait(pl, 1); q = M_thread_pipeline_queue_count(pl); mc_check(q <= 1, "wait(1) returned with %zu tasks pending", q); }
	}
	if (plan == 3) M_thread_join(id, NULL);
	if (plan != 1) {
		M_thread_pipeline_wait(pl, 0);
		check_done(nrec);
		mc_check(M_thread_pipeline_queue_count(pl) == 0, "queue count after wait(0)");
		mc_check(M_thread_pipeline_status(pl) == !(failed_any && !noabort), "pipeline status %d, failed=%d noabort=%d", M_thread_pipeline_status(pl), failed_any, noabort);
		if (failed_any && !noabort) mc_check(!insert(), "task accepted after a failure");
	}
	destroying = 1;
	M_thread_pipeline_destroy(pl);
	check_done(nrec);
	{ uint64_t h = 5; for (i = 0; i < nrec; i++) h = mc_h64(h, (uint64_t)(rec[i].res * 10 + rec[i].next_step)); mc_outcome(mc_h64(h, (uint64_t)(plan * 100 + nsteps))); }
	sched_wait_all();
	mc_check(sched_heap_live() == live, "pipeline leaks %ld bytes", (long)(sched_heap_live() - live));
}
