// MODE: sched
// MODS: thread
/* C01: thread pool under every schedule within the preemption bound. */
#include "hx.h"
#include <mstdlib/mstdlib_thread.h>
#include "mcsched.h"
const char *mc_name = "h_threadpool";
#define MAXTASK 8
typedef struct { int started, done, notified, owner; } task_t;
static task_t tasks[MAXTASK]; static int ntasks, running, maxrun;
static M_threadpool_t *pool; static M_threadpool_parent_t *par[3];
static volatile int clients_done;
static struct { size_t min, max; M_uint64 idle; size_t q; } cfgs[] = {
	{ 0, 1, 0, 0 }, { 1, 1, 0, 1 }, { 0, 1, 10, 1 }, { 1, 2, 10, 2 }, { 0, 2, 0, 2 }, { 2, 2, M_UINT64_MAX, 2 }, { 0, 2, 10, SIZE_MAX }, { 0, 2, M_UINT64_MAX, 2 },
};
static int cfg;

static void task(void *a)
{
	task_t *t = a;
	sched_hb_off(1);
	mc_check(t->started == 0, "task %d started a second time", (int)(t - tasks));
	t->started = 1;
	running++; if (running > maxrun) maxrun = running;
	mc_check((size_t)running <= cfgs[cfg].max, "%d tasks run at once in a pool of at most %zu threads", running, cfgs[cfg].max);
	sched_hb_off(0);
	sched_point();
	sched_hb_off(1);
	running--; t->done = 1;
	sched_hb_off(0);
}
static void fin(void *a)
{
	task_t *t = a;
	sched_hb_off(1);
	mc_check(t->done == 1, "finished callback of task %d before its task completed", (int)(t - tasks));
	mc_check(t->notified == 0, "finished callback of task %d ran twice", (int)(t - tasks));
	t->notified = 1;
	sched_hb_off(0);
}
static void dispatch(int p, int n)
{
	void *args[MAXTASK]; int i;
	sched_hb_off(1);
	for (i = 0; i < n; i++) { tasks[ntasks].owner = p; args[i] = &tasks[ntasks++]; }
	sched_hb_off(0);
	M_threadpool_dispatch_notify(par[p], task, args, (size_t)n, fin);
}
static void check_pool(void)
{
	size_t n = M_threadpool_num_threads(pool), s = M_threadpool_available_slots(pool);
	mc_check(n <= cfgs[cfg].max && n >= cfgs[cfg].min, "pool has %zu threads, limits are %zu..%zu", n, cfgs[cfg].min, cfgs[cfg].max);
	(void)s;
}
static void wait_parent(int p)
{
	int i, n;
	sched_hb_off(1); n = ntasks; sched_hb_off(0);
	M_threadpool_parent_wait(par[p]);
	sched_hb_off(1);
	for (i = 0; i < n; i++) if (tasks[i].owner == p) mc_check(tasks[i].done && tasks[i].notified, "waiting for parent %d returned although its task %d has not finished", p, i);
	sched_hb_off(0);
}
static void client(int p, int kind)
{
	switch (kind) {
		case 0: dispatch(p, 1); wait_parent(p); break;
		case 1: dispatch(p, 1); wait_parent(p); dispatch(p, 1); wait_parent(p); break;
		case 2: dispatch(p, 2); wait_parent(p); break;
		case 3: dispatch(p, 1); dispatch(p, 1); wait_parent(p); break;
		case 4: dispatch(p, 3); wait_parent(p); break;
		case 5: dispatch(p, 1); M_threadpool_wait_available_thread(par[p]); dispatch(p, 1); wait_parent(p); break;
		case 6: dispatch(p, 4); wait_parent(p); break;
	}
	mc_check(M_threadpool_parent_destroy(par[p]), "parent %d cannot be destroyed after waiting for it", p);
}
static int kinds[2];
static void *cl(void *a) { int p = (int)(M_uintptr)a; client(p, kinds[p]); return NULL; }

void mc_init(void) { sched_spurious = (int)mc_param("spurious", 0, 0); M_thread_init(M_THREAD_MODEL_NATIVE); { void *p = M_malloc(1); M_free(p); } }
void mc_run(void)
{
	/* scenario: kinds of the two clients (-1: none) */
	static const signed char sc[][2] = { { 1, -1 }, { 3, -1 }, { 4, -1 }, { 6, -1 }, { 5, -1 }, { 0, 0 }, { 2, 0 }, { 5, 2 }, { 2, 2 } };
	int nsc = (int)mc_param("scenarios", 8, 9), s, k, i, n2; size_t live;
	mc_set_budget((int)mc_param("budget", 2, 3));
	cfg = mc_choose((int)HX_N(cfgs)); s = mc_choose(nsc); 
	kinds[0] = sc[s][0]; kinds[1] = sc[s][1];
	sched_begin();
	mc_note("pool min=%zu max=%zu idle=%llu queue=%zu, clients %d %d", cfgs[cfg].min, cfgs[cfg].max, (unsigned long long)cfgs[cfg].idle, cfgs[cfg].q, kinds[0], kinds[1]);
	live = sched_heap_live();
	pool = M_threadpool_create(cfgs[cfg].min, cfgs[cfg].max, cfgs[cfg].idle, cfgs[cfg].q);
	n2 = kinds[1] >= 0;
	par[0] = M_threadpool_parent_create(pool);
	if (n2) {
		M_thread_attr_t *at = M_thread_attr_create(); M_threadid_t id;
		if (n2) { par[1] = M_threadpool_parent_create(pool); }
		M_thread_attr_set_create_joinable(at, M_TRUE);
		id = M_thread_create(at, cl, (void *)(M_uintptr)1);
		M_thread_attr_destroy(at);
		client(0, kinds[0]);
		M_thread_join(id, NULL);
	} else client(0, kinds[0]);
	check_pool();
	for (i = 0; i < ntasks; i++) mc_check(tasks[i].started == 1 && tasks[i].done && tasks[i].notified == 1, "task %d: started %d, done %d, notified %d", i, tasks[i].started, tasks[i].done, tasks[i].notified);
	k = mc_choose_cost(2);
	if (k) sched_advance_ms(1000);
	M_threadpool_destroy(pool);
	mc_outcome(mc_h64((uint64_t)maxrun, mc_h64((uint64_t)sched_nthreads(), (uint64_t)(cfg * 10 + s))));
	sched_wait_all();
	mc_check(sched_heap_live() == live, "pool leaks %ld bytes", (long)(sched_heap_live() - live));
}
