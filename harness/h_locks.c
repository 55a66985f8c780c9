// MODE: sched
// MODS: thread
/* C03: mutex, condition, rwlock (native and emulated), spinlock, once: every schedule within the bound. */
#include "hx.h"
#include <mstdlib/mstdlib_thread.h>
#include "mcsched.h"
/* internal prototypes (thread/m_thread_int.h) */
M_thread_rwlock_t *M_thread_rwlock_emu_create(void);
void M_thread_rwlock_emu_destroy(M_thread_rwlock_t *rwlock);
M_bool M_thread_rwlock_emu_lock(M_thread_rwlock_t *rwlock, M_thread_rwlock_type_t type);
M_bool M_thread_rwlock_emu_unlock(M_thread_rwlock_t *rwlock);
const char *mc_name = "h_locks";
static int scen, nthr;
static struct { char k; char ops[8]; } prog[4];
static int writers, readers, other;       /* holders */
static int data_, expect_;                /* protected data */
static M_thread_mutex_t *mtx; static M_thread_cond_t *cond, *cond2; static M_thread_rwlock_t *rw; static int emu;
static M_thread_spinlock_t spin; static M_thread_once_t once; static int nonce, once_done, once_ran;
static int flag, woken, waiting, ndone, items, got;

static M_threadid_t spawn(void *(*f)(void *), long a)
{
	M_thread_attr_t *at = M_thread_attr_create(); M_threadid_t id;
	M_thread_attr_set_create_joinable(at, M_TRUE);
	id = M_thread_create(at, f, (void *)a); M_thread_attr_destroy(at);
	return id;
}
static void enter_w(const char *what) { sched_hb_off(1); mc_check(writers == 0 && readers == 0, "%s: exclusive holder entered while %d exclusive and %d shared holders are inside", what, writers, readers); writers++; sched_hb_off(0); }
static void leave_w(void) { sched_hb_off(1); writers--; sched_hb_off(0); }
static void enter_r(const char *what) { sched_hb_off(1); mc_check(writers == 0, "%s: shared holder entered while an exclusive one is inside", what); readers++; sched_hb_off(0); }
static void leave_r(void) { sched_hb_off(1); readers--; sched_hb_off(0); }
static void cs_w(const char *what) { int v; enter_w(what); v = data_; sched_point(); data_ = v + 1; leave_w(); }

/* 0: mutex lock / trylock / recursive */
static void *t_mutex(void *a)
{
	long id = (long)a; int rec = other; (void)id;
	if (id == 2) { if (M_thread_mutex_trylock(mtx)) { cs_w("mutex trylock"); data_--; M_thread_mutex_unlock(mtx); } return NULL; }
	M_thread_mutex_lock(mtx);
	if (rec) { mc_check(M_thread_mutex_lock(mtx), "recursive mutex cannot be locked twice by its owner"); mc_check(M_thread_mutex_trylock(mtx), "recursive mutex trylock failed for its owner"); M_thread_mutex_unlock(mtx); cs_w("recursive mutex"); M_thread_mutex_unlock(mtx); enter_w("recursive mutex"); leave_w(); }
	else cs_w("mutex");
	M_thread_mutex_unlock(mtx);
	return NULL;
}
/* 1: rwlock */
static M_bool rl(M_thread_rwlock_type_t t) { return emu ? M_thread_rwlock_emu_lock(rw, t) : M_thread_rwlock_lock(rw, t); }
static M_bool ru(void) { return emu ? M_thread_rwlock_emu_unlock(rw) : M_thread_rwlock_unlock(rw); }
static void *t_rw(void *a)
{
	const char *p = prog[(long)a].ops; int v;
	for (; *p; p++) {
		if (*p == 'w') { mc_check(rl(M_THREAD_RWLOCK_TYPE_WRITE), "write lock failed"); cs_w("write lock"); mc_check(ru(), "unlock failed"); }
		else { mc_check(rl(M_THREAD_RWLOCK_TYPE_READ), "read lock failed"); enter_r("read lock"); v = data_; sched_point(); mc_check(v == data_, "data changed under a read lock"); leave_r(); mc_check(ru(), "unlock failed"); }
	}
	return NULL;
}
/* 2: readers really share: two readers each wait for the other inside the lock */
static int inside[3];
static void *t_share(void *a)
{
	long i = (long)a;
	rl(M_THREAD_RWLOCK_TYPE_READ); enter_r("read lock");
	sched_hb_off(1); inside[i] = 1; sched_hb_off(0);
	sched_wait(&inside[!i]);
	leave_r(); ru();
	return NULL;
}
/* 3: writer preference: reader holds, writer waits, new reader must come after the writer */
static int hold, order[4], norder;
static void *t_pref(void *a)
{
	long i = (long)a;
	if (i == 1) { sched_hb_off(1); hold = 1; sched_hb_off(0); rl(M_THREAD_RWLOCK_TYPE_WRITE); enter_w("write lock"); sched_hb_off(1); order[norder++] = 1; sched_hb_off(0); leave_w(); ru(); }
	else { rl(M_THREAD_RWLOCK_TYPE_READ); enter_r("read lock"); sched_hb_off(1); order[norder++] = 2; sched_hb_off(0); leave_r(); ru(); }
	return NULL;
}
/* 4: spinlock */
static void *t_spin(void *a)
{
	int k;
	for (k = 0; k < 2; k++) { if (k && (long)a == 2) break; M_thread_spinlock_lock(&spin); mc_check(spin.threadid == M_thread_self(), "spinlock owner is not the locking thread"); cs_w("spinlock"); M_thread_spinlock_unlock(&spin); if (nthr == 3) break; }
	return NULL;
}
/* 5: once */
static void once_fn(M_uint64 f) { mc_check(f == 7, "init flags not passed"); nonce++; sched_point(); once_done = 1; }
static void *t_once(void *a)
{
	M_bool r = M_thread_once(&once, once_fn, 7);
	mc_check(once_done == 1, "M_thread_once returned before the initialisation had finished");
	sched_hb_off(1); once_ran += r ? 1 : 0; sched_hb_off(0);
	(void)a; return NULL;
}
/* 6: condition variable producer/consumer with signal under the mutex */
static void *t_cons(void *a)
{
	(void)a;
	M_thread_mutex_lock(mtx);
	while (items == 0) { mc_check(M_thread_cond_wait(cond, mtx), "cond wait failed"); enter_w("mutex after condition wait"); leave_w(); }
	items--; got++;
	M_thread_mutex_unlock(mtx);
	return NULL;
}
/* 7: timed waits */
static int tw_kind; static M_uint64 tw_ms;
static void *t_timed(void *a)
{
	M_timeval_t tv; M_bool r; uint64_t t0, el; (void)a;
	M_thread_mutex_lock(mtx);
	t0 = sched_now_ns();
	if (tw_kind) { M_time_gettimeofday(&tv); tv.tv_sec += (M_time_t)(tw_ms / 1000 / 2); tv.tv_usec += (M_suseconds_t)((tw_ms - (tw_ms / 1000 / 2) * 1000) * 1000); r = M_thread_cond_timedwait_abs(cond, mtx, &tv); }
	else r = M_thread_cond_timedwait(cond, mtx, tw_ms);
	el = sched_now_ns() - t0;
	enter_w("mutex after timed wait"); leave_w();
	if (!r) mc_check(el / 1000 + 1 >= tw_ms * 1000, "timed wait of %llu ms timed out after %llu ms", (unsigned long long)tw_ms, (unsigned long long)(el / 1000000));
	mc_check(el <= tw_ms * 1000000 + 2000000, "timed wait of %llu ms lasted %llu ms", (unsigned long long)tw_ms, (unsigned long long)(el / 1000000));
	if (r) mc_check(flag, "timed wait reported a wakeup, nobody signalled");
	woken = r ? 1 : 2;
	M_thread_mutex_unlock(mtx);
	return NULL;
}

void mc_init(void)
{
	sched_unlock_points = 1; M_thread_init(M_THREAD_MODEL_NATIVE); { void *p = M_malloc(1); M_free(p); }
}
static const char *const rwprogs[] = { "w", "r", "ww", "rw", "wr", "rr" };
void mc_run(void)
{
	M_threadid_t id[4]; int i, n = 0, w; void *rv;
	scen = (int)mc_param("scen", -1, -1); if (scen < 0) scen = mc_choose(9);
	mc_set_budget((int)mc_param("budget", 3, 4));
	writers = readers = data_ = other = emu = flag = woken = waiting = items = got = nonce = once_done = once_ran = hold = norder = 0; inside[0] = inside[1] = 0;
	switch (scen) {
	case 0:
		other = mc_choose(2); nthr = 2 + mc_choose(2); sched_begin();
		mtx = M_thread_mutex_create(other ? M_THREAD_MUTEXATTR_RECURSIVE : M_THREAD_MUTEXATTR_NONE);
		for (i = 0; i < nthr; i++) id[i] = spawn(t_mutex, i);
		for (i = 0; i < nthr; i++) M_thread_join(id[i], &rv);
		mc_check(data_ == 2, "counter is %d after 2 increments under the mutex", data_);
		mc_check(M_thread_mutex_trylock(mtx), "trylock of a free mutex failed"); M_thread_mutex_unlock(mtx);
		M_thread_mutex_destroy(mtx);
		break;
	case 1:
		emu = mc_choose(2); nthr = 2 + mc_choose(2);
		for (i = 0; i < nthr; i++) strcpy(prog[i].ops, rwprogs[mc_choose(nthr == 3 ? 4 : 6)]);
		for (i = 0; i + 1 < nthr; i++) if (strcmp(prog[i].ops, prog[i + 1].ops) > 0) mc_prune();
		if (nthr == 3) mc_set_budget((int)mc_param("budget", 3, 4) - 1);
		sched_begin();
		rw = emu ? M_thread_rwlock_emu_create() : M_thread_rwlock_create();
		for (i = 0; i < nthr; i++) id[i] = spawn(t_rw, i);
		for (i = 0, w = 0; i < nthr; i++) { const char *p; for (p = prog[i].ops; *p; p++) w += *p == 'w'; }
		for (i = 0; i < nthr; i++) M_thread_join(id[i], &rv);
		mc_check(data_ == w, "counter is %d after %d increments under the write lock", data_, w);
		if (emu) M_thread_rwlock_emu_destroy(rw); else M_thread_rwlock_destroy(rw);
		break;
	case 2:
		emu = mc_choose(2); sched_begin();
		rw = emu ? M_thread_rwlock_emu_create() : M_thread_rwlock_create();
		for (i = 0; i < 2; i++) id[i] = spawn(t_share, i);
		for (i = 0; i < 2; i++) M_thread_join(id[i], &rv);
		if (emu) M_thread_rwlock_emu_destroy(rw); else M_thread_rwlock_destroy(rw);
		break;
	case 3:
		emu = mc_choose(2); sched_begin();
		rw = emu ? M_thread_rwlock_emu_create() : M_thread_rwlock_create();
		rl(M_THREAD_RWLOCK_TYPE_READ); enter_r("read lock");
		id[0] = spawn(t_pref, 1);
		sched_point();
		sched_hb_off(1); i = hold; sched_hb_off(0); w = i && sched_kind(1) == (emu ? 2 : 5);        /* the writer is now waiting for the lock (or not yet) */
		id[1] = spawn(t_pref, 2);
		sched_point();
		leave_r(); ru();
		for (i = 0; i < 2; i++) M_thread_join(id[i], &rv);
		mc_check(norder == 2, "lost");
		if (w) mc_check(order[0] == 1, "a new reader got the lock before the writer that was already waiting");
		if (emu) M_thread_rwlock_emu_destroy(rw); else M_thread_rwlock_destroy(rw);
		break;
	case 4:
		nthr = 2 + mc_choose(2); { static const M_uint32 st[] = { 0, 0xFFFFFFFFu }; M_uint32 s = st[mc_choose(2)]; sched_unlock_points = 0; mc_set_budget((int)mc_param("budget", 3, 4) - 1); spin.current = spin.queue = s; spin.threadid = 0; }
		sched_begin();
		for (i = 0; i < nthr; i++) id[i] = spawn(t_spin, i);
		for (i = 0; i < nthr; i++) M_thread_join(id[i], &rv);
		n = nthr == 3 ? 3 : 4;
		mc_check(data_ == n, "counter is %d after %d increments under the spinlock", data_, n);
		break;
	case 5:
		nthr = 2 + mc_choose(2); memset(&once, 0, sizeof(once)); sched_begin();
		mc_check(!M_thread_once_reset(&once), "reset of a once control that never ran returned true");
		for (i = 0; i < nthr; i++) id[i] = spawn(t_once, i);
		for (i = 0; i < nthr; i++) M_thread_join(id[i], &rv);
		mc_check(nonce == 1, "initialisation ran %d times", nonce);
		mc_check(once_ran == 1, "%d callers were told that they ran the initialisation", once_ran);
		mc_check(M_thread_once_reset(&once), "reset failed");
		mc_check(M_thread_once(&once, once_fn, 7) && nonce == 2, "initialisation did not run again after a reset");
		break;
	case 6:
		/* 1-2 consumers; one producer signals per item or broadcasts; every item must be consumed */
		nthr = 1 + mc_choose(2); other = mc_choose(2); sched_spurious = mc_choose(2); sched_begin();
		mtx = M_thread_mutex_create(M_THREAD_MUTEXATTR_NONE); cond = M_thread_cond_create(M_THREAD_CONDATTR_NONE);
		for (i = 0; i < nthr; i++) id[i] = spawn(t_cons, i);
		if (other == 0) for (i = 0; i < nthr; i++) { M_thread_mutex_lock(mtx); items++; M_thread_cond_signal(cond); M_thread_mutex_unlock(mtx); }
		else { M_thread_mutex_lock(mtx); items += nthr; M_thread_cond_broadcast(cond); M_thread_mutex_unlock(mtx); }
		for (i = 0; i < nthr; i++) M_thread_join(id[i], &rv);
		mc_check(got == nthr && items == 0, "%d of %d items consumed", got, nthr);
		M_thread_cond_destroy(cond); M_thread_mutex_destroy(mtx);
		break;
	case 7: {
		static const M_uint64 ms[] = { 0, 1, 999, 1000, 1500, 4294967, 4294968, 4294967296ULL, 86400000ULL * 366 };
		tw_kind = mc_choose(2); tw_ms = ms[mc_choose((int)HX_N(ms))]; other = mc_choose(3);
		sched_begin();
		mtx = M_thread_mutex_create(M_THREAD_MUTEXATTR_NONE); cond = M_thread_cond_create(M_THREAD_CONDATTR_NONE);
		id[0] = spawn(t_timed, 0);
		if (other) { M_thread_mutex_lock(mtx); flag = 1; if (other == 1) M_thread_cond_signal(cond); else M_thread_cond_broadcast(cond); M_thread_mutex_unlock(mtx); }
		M_thread_join(id[0], &rv);
		mc_check(woken != 0, "lost");
		M_thread_cond_destroy(cond); M_thread_mutex_destroy(mtx);
		break; }
	case 8:
		/* misuse is refused */
		sched_begin();
		mc_check(!M_thread_mutex_lock(NULL) && !M_thread_mutex_trylock(NULL) && !M_thread_mutex_unlock(NULL), "NULL mutex accepted");
		mc_check(!M_thread_rwlock_lock(NULL, M_THREAD_RWLOCK_TYPE_READ) && !M_thread_rwlock_unlock(NULL), "NULL rwlock accepted");
		break;
	}
	sched_wait_all();
	mc_outcome((uint64_t)(scen * 100 + data_ * 10 + woken));
}
