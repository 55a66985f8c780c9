// MODE: sched
// MODS: thread
/* C04: thread creation, joining, thread-local values, thread destructors under every schedule within the bound. */
#include "hx.h"
#include <mstdlib/mstdlib_thread.h>
#include "mcsched.h"
const char *mc_name = "h_thread";
#define MT 4
static struct { int ran, idx; M_threadid_t self; void *arg; } th[MT];
static M_thread_tls_key_t key[2]; static int ndtor[16]; static M_threadid_t setter[16]; static int d1, d2, nd1[MT + 1], nd2[MT + 1], seq_[MT + 1]; static int tlsprog;

static M_threadid_t spawn(void *(*f)(void *), long a, M_bool join)
{
	M_thread_attr_t *at = M_thread_attr_create(); M_threadid_t id;
	M_thread_attr_set_create_joinable(at, join);
	id = M_thread_create(at, f, (void *)a); M_thread_attr_destroy(at);
	mc_check(id != 0, "thread creation failed");
	return id;
}
static void enter(long i)
{
	sched_hb_off(1);
	mc_check(i >= 1 && i < MT, "thread function got a wrong argument");
	th[i].ran++; mc_check(th[i].ran == 1, "thread function %ld ran twice", i);
	th[i].self = M_thread_self();
	sched_hb_off(0);
}
static void *t_ret(void *a) { enter((long)a); sched_point(); mc_check(M_thread_self() == th[(long)a].self, "M_thread_self changed"); return (void *)((long)a * 1000 + 7); }
static void *t_warm(void *a) { return a; }
static void *t_nest(void *a)
{
	M_threadid_t id; void *rv = NULL; (void)a; enter(1);
	id = spawn(t_ret, 2, M_TRUE);
	mc_check(M_thread_join(id, &rv) && rv == (void *)2007L, "nested join failed or gave a wrong value");
	mc_check(id == th[2].self, "id returned by create differs from the thread's own");
	return (void *)1007L;
}
/* ---- tls ---- */
static void dtor(void *v)
{
	long i = (long)v;
	if (v == NULL) return;
	mc_check(i >= 1 && i < 16, "TLS destructor called with an unknown value %ld", i);
	sched_hb_off(1);
	mc_check(setter[i] == M_thread_self(), "TLS destructor for value %ld ran on another thread", i);
	mc_check(++ndtor[i] == 1, "TLS destructor ran twice for value %ld", i);
	sched_hb_off(0);
}
static void set(int k, long v)
{
	if (v) setter[v] = M_thread_self();
	mc_check(M_thread_tls_setspecific(key[k], (void *)v), "tls set failed");
}
static void want(int k, long v) { void *g = M_thread_tls_getspecific(key[k]); mc_check(g == (void *)v, "thread sees TLS value %ld, set %ld", (long)g, v); }
static void *t_tls(void *a)
{
	long i = (long)a; long b = i * 4;
	enter(i); want(0, 0); want(1, 0);
	set(0, b); sched_point(); want(0, b); want(1, 0);
	if (tlsprog & 1) { set(1, b + 1); want(0, b); want(1, b + 1); }
	if (tlsprog & 2) { set(0, b + 2); want(0, b + 2); }
	if (tlsprog & 4) { set(0, 0); want(0, 0); }
	if (tlsprog & 8) { set(0, b + 3); want(0, b + 3); }
	return (void *)(i * 1000 + 7);
}
static int idx(void) { M_threadid_t s = M_thread_self(); int i; for (i = 1; i < MT; i++) if (th[i].ran && th[i].self == s) return i; return 0; }
static void dt1(void) { int i; sched_hb_off(1); i = idx(); mc_check(i > 0, "thread destructor ran on the wrong thread"); nd1[i]++; sched_hb_off(0); }
static void dt2(void) { int i; sched_hb_off(1); i = idx(); mc_check(i > 0, "thread destructor ran on the wrong thread"); nd2[i]++; mc_check(nd1[i] == (d1 ? 1 : 0), "destructors ran out of order"); sched_hb_off(0); }

void mc_init(void) { M_thread_init(M_THREAD_MODEL_NATIVE); { void *p = M_malloc(1); M_free(p); } }
void mc_run(void)
{
	int scen = (int)mc_param("scen", -1, -1), n, i, raw, sp; M_threadid_t id[MT]; void *rv; size_t live, cnt;
	int b = (int)mc_param("budget", 2, 3);
	if (scen < 0) scen = mc_choose(5);
	raw = (int)mc_param("raw", -1, -1); if (raw < 0) raw = mc_choose(2); sp = (scen == 2 || scen == 3) ? 0 : mc_choose(2);
	sched_raw_create = raw; sched_spurious = sp; sched_unlock_points = 0;
	mc_set_budget(b - raw);
	sched_begin();
	sched_nopreempt(1); { M_threadid_t w = spawn(t_warm, 0, M_TRUE); M_thread_join(w, NULL); } sched_nopreempt(0);
	cnt = M_thread_count(); live = sched_heap_live();
	switch (scen) {
	case 0:
		n = 1 + mc_choose(raw ? 2 : 3);
		for (i = 1; i <= n; i++) id[i] = spawn(t_ret, i, M_TRUE);
		mc_check(M_thread_count() >= cnt, "thread count below the number before");
		for (i = n; i >= 1; i--) { rv = NULL; mc_check(M_thread_join(id[i], &rv), "join failed"); mc_check(rv == (void *)((long)i * 1000 + 7), "join returned a wrong value"); mc_check(th[i].ran == 1, "joined thread never ran"); mc_check(th[i].self == id[i], "id returned by create differs from the thread's own"); mc_check(!M_thread_join(id[i], &rv), "a thread was joined twice"); }
		break;
	case 1:
		n = 1 + mc_choose(2);
		{ int at = mc_choose(2); for (i = 1; i <= n; i++) { id[i] = at ? spawn(t_ret, i, M_FALSE) : M_thread_create(NULL, t_ret, (void *)(long)i); } }
		sched_wait_all();
		for (i = 1; i <= n; i++) { mc_check(th[i].ran == 1 && th[i].self == id[i], "detached thread did not run exactly once under its id"); mc_check(!M_thread_join(id[i], &rv), "a finished detached thread was joined"); }
		break;
	case 2:
		tlsprog = mc_choose(16); n = 1 + (tlsprog < 8 && tlsprog != 6);
		key[0] = M_thread_tls_key_create(dtor); key[1] = M_thread_tls_key_create(mc_choose(2) ? dtor : NULL);
		mc_check(key[0] != key[1] && key[0] && key[1], "TLS keys not distinct");
		mc_check(!M_thread_tls_setspecific(key[1] + 1, &n) && M_thread_tls_getspecific(key[1] + 1) == NULL, "unknown TLS key accepted");
		live = sched_heap_live();
		for (i = 1; i <= n; i++) id[i] = spawn(t_tls, i, M_TRUE);
		want(0, 0);
		for (i = 1; i <= n; i++) { mc_check(M_thread_join(id[i], &rv) && rv == (void *)((long)i * 1000 + 7), "join"); mc_check(ndtor[i * 4] == 1, "TLS destructor ran %d times for a value", ndtor[i * 4]); if (tlsprog & 2) mc_check(ndtor[i * 4 + 2] == 1, "TLS destructor ran %d times for a value", ndtor[i * 4 + 2]); if (tlsprog & 8) mc_check(ndtor[i * 4 + 3] == 1, "TLS destructor ran %d times for a value", ndtor[i * 4 + 3]); }
		want(0, 0); want(1, 0);
		break;
	case 3:
		d1 = mc_choose(2); d2 = mc_choose(3);
		if (d1) { mc_check(M_thread_destructor_insert(dt1), "destructor refused"); mc_check(!M_thread_destructor_insert(dt1), "same destructor registered twice"); }
		if (d2) mc_check(M_thread_destructor_insert(dt2), "destructor refused");
		if (d2 == 2) M_thread_destructor_remove(dt2);
		live = sched_heap_live();
		for (i = 1; i <= 2; i++) id[i] = spawn(t_ret, i, M_TRUE);
		for (i = 1; i <= 2; i++) { mc_check(M_thread_join(id[i], &rv), "join"); mc_check(nd1[i] == d1 && nd2[i] == (d2 == 1), "thread destructors ran %d and %d times, expected %d and %d", nd1[i], nd2[i], d1, d2 == 1); }
		break;
	default:
		id[1] = spawn(t_nest, 1, M_TRUE); n = 1;
		mc_check(M_thread_join(id[1], &rv) && rv == (void *)1007L && id[1] == th[1].self, "join");
		break;
	}
	sched_wait_all();
	mc_check(M_thread_count() == cnt, "thread count is %zu, was %zu before the threads were created", M_thread_count(), cnt);
	mc_check(sched_heap_live() == live, "leak: %ld bytes", (long)(sched_heap_live() - live));
	mc_outcome((uint64_t)(scen * 16 + tlsprog));
}
