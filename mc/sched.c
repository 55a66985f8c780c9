/* sched.c - controlled scheduler for the real, multi-threaded code under test.
 *
 * Real pthreads, of which exactly one (the baton holder) runs at any time.  Every synchronization operation
 * of the code under test is intercepted at link time (--wrap) and modelled here; the code is compiled with
 * gcc -fsanitize=thread, whose instrumentation calls end up in the __tsan_* functions below: atomics are
 * scheduling points, plain accesses feed a vector-clock race detector whose findings become scheduling points
 * of the next exploration round, and heap accesses are checked against a never-reusing allocator
 * (use after free, out of bounds, double free).  Time is virtual.  Each execution runs in a forked child. */
#define _GNU_SOURCE
#include "mcsched.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <errno.h>
#include <pthread.h>
#include <signal.h>
#include <time.h>
#include <poll.h>
#include <fcntl.h>
#include <dlfcn.h>
#include <limits.h>
#include <sys/time.h>
#include <sys/select.h>
#include <sys/mman.h>
#include <sys/epoll.h>
#include <sys/syscall.h>
#include <sys/personality.h>
#include <sys/socket.h>
#include <linux/futex.h>
#include <sched.h>

extern void *__real_memset(void *, int, size_t); extern void *__real_memmove(void *, const void *, size_t); extern int __real_nanosleep(const struct timespec *, struct timespec *);
#define memset __real_memset
#define memcpy __real_memmove
#define memmove __real_memmove
extern long __real_syscall(long, ...);
#define MAXT 10
enum { RUN, B_MUTEX, B_COND, B_JOIN, B_RD, B_WR, B_SLEEP, B_FD, B_YIELD, B_ALL, B_FLAG, DONE };
static const char *const stname[] = { "running", "mutex lock", "condition wait", "join", "read lock", "write lock", "sleep", "fd wait", "spin", "wait for all threads", "harness flag", "finished" };

typedef struct obj obj_t;
typedef struct {
	volatile int go;
	int  st, id, detached, joined, signalled, timedout, nopreempt, hboff;
	obj_t *o, *m;                    /* object waited for; mutex of a condition wait */
	int64_t deadline;                /* ns, -1 none */
	struct pollfd *pf; nfds_t npf; int joinid; volatile int *flag;
	void *(*fn)(void *); void *arg, *ret; pthread_t real, vid;
	uint32_t vc[MAXT];
	uint64_t ops; uintptr_t spin_pc, spin_addr; uint64_t spin_ops, spin_val; size_t spin_len; uint64_t yield_t; int yield_go;
	uintptr_t bt[8];
} thr_t;
struct obj { uintptr_t addr; int kind, owner, count, type, destroyed, wpref, readers[MAXT]; uint32_t vc[MAXT]; };
enum { O_MUTEX = 1, O_COND, O_RW, O_ATOMIC, O_FD };

int sched_unlock_points, sched_spurious, sched_raw_create, sched_timeouts = 1, sched_horizon = 20000, sched_io_points = 1, sched_delay = 1;
void (*sched_deadlock_hook)(void);
static thr_t T[MAXT]; static int nt, active, maxalive;
static __thread thr_t *me;
static int64_t vnow = 1700000000LL * 1000000000LL;
static uint64_t npoints, seq;
#define NOBJ 6000
#define NOIDX 8192
static obj_t *objs; static uint16_t *oidx; static int nobjs;

/* ---- racing program counters ---- */
#define NRACE 512
typedef struct { volatile uintptr_t pc[NRACE]; } races_t;
static races_t *found; static uintptr_t act[NRACE]; static int nact;
static char extra[NRACE * 20];
static int is_active_pc(uintptr_t pc)
{
	unsigned i, h = (unsigned)(pc * 2654435761u) >> 7;
	for (i = 0; i < NRACE; i++) { uintptr_t v = act[(h + i) % NRACE]; if (v == pc) return 1; if (v == 0) return 0; }
	return 0;
}
static int act_add(uintptr_t pc)
{
	unsigned i, h = (unsigned)(pc * 2654435761u) >> 7;
	for (i = 0; i < NRACE; i++) { uintptr_t *v = &act[(h + i) % NRACE]; if (*v == pc) return 0; if (*v == 0) { if (nact >= NRACE / 2) return 0; *v = pc; nact++; return 1; } }
	return 0;
}
static void race(uintptr_t a, uintptr_t b)
{
	uintptr_t p[2] = { a, b }; int k; unsigned i;
	if (mc_replaying) return;
	if (getenv("MC_RACES")) fprintf(stderr, "race %lx %lx\n", (unsigned long)a, (unsigned long)b);
	for (k = 0; k < 2; k++) for (i = 0; i < NRACE; i++) { uintptr_t v = found->pc[i]; if (v == p[k]) break; if (v == 0) { if (__sync_bool_compare_and_swap(&found->pc[i], 0, p[k])) break; i--; } }
}
static int round_hook(void) { int i, n = 0; for (i = 0; i < NRACE && found->pc[i]; i++) n += act_add(found->pc[i]); return n; }
static const char *extra_save(void) { int i; char *p = extra; *p = 0; for (i = 0; i < NRACE; i++) if (act[i]) p += sprintf(p, "%lx ", (unsigned long)act[i]); return extra; }
static void extra_load(const char *s) { char *e; for (;;) { unsigned long v = strtoul(s, &e, 16); if (e == s) break; act_add(v); s = e; } }

/* ---- symbols (replay only) ---- */
static const char *sym(uintptr_t pc)
{
	static char ring[8][300]; static int k; char *o = ring[k++ & 7], cmd[4400], exe[4096]; FILE *p; ssize_t n;
	snprintf(o, 300, "0x%lx", (unsigned long)pc);
	if (!mc_replaying) return o;
	n = readlink("/proc/self/exe", exe, sizeof(exe) - 1); if (n <= 0) return o;
	exe[n] = 0;
	snprintf(cmd, sizeof(cmd), "addr2line -s -f -p -e %s 0x%lx 2>/dev/null", exe, (unsigned long)pc - 1);
	p = popen(cmd, "r"); if (!p) return o;
	if (fgets(o, 300, p)) o[strcspn(o, "\n")] = 0;
	pclose(p);
	return o;
}
static void save_bt(void)
{
	uintptr_t *fp = __builtin_frame_address(0); int i = 0, k;
	for (k = 0; k < 14 && i < 8 && fp && ((uintptr_t)fp & 7) == 0; k++) {
		uintptr_t ret = fp[1], *nx = (uintptr_t *)fp[0];
		if (ret > 0x400000 && ret < 0x4000000) me->bt[i++] = ret; else break;
		if (nx <= fp || (char *)nx > (char *)fp + (1 << 20)) break;
		fp = nx;
	}
	while (i < 8) me->bt[i++] = 0;
}
static void dump(char *out, size_t sz)
{
	int i, j; size_t l = 0;
	for (i = 0; i < nt; i++) if (T[i].st != DONE) {
		l += (size_t)snprintf(out + l, sz - l, "; thread %d: %s", i, T[i].st == RUN ? "runnable" : stname[T[i].st]);
		if (l >= sz) return;
		if (mc_replaying && T[i].st != RUN) for (j = 0; j < 8 && T[i].bt[j]; j++) { const char *s = sym(T[i].bt[j]); if (strstr(s, "__wrap_") || strstr(s, "sched.c") || strstr(s, "m_thread_pthread.c")) continue; l += (size_t)snprintf(out + l, sz - l, " < %s", s); if (l >= sz) return; }
	}
}
static void die(const char *what) { static char b[3800]; b[0] = 0; dump(b, sizeof(b)); mc_fail("%s%s", what, b); }

/* ---- baton ---- */
static void fwait(volatile int *w) { while (__atomic_load_n(w, __ATOMIC_ACQUIRE) == 0) __real_syscall(SYS_futex, w, FUTEX_WAIT_PRIVATE, 0, NULL, NULL, 0); *w = 0; }
static void fwake(volatile int *w) { __atomic_store_n(w, 1, __ATOMIC_RELEASE); __real_syscall(SYS_futex, w, FUTEX_WAKE_PRIVATE, 1, NULL, NULL, 0); }

extern int __real_poll(struct pollfd *, nfds_t, int);
static int deadline_passed(thr_t *t) { return t->deadline >= 0 && t->deadline <= vnow; }
static int mutex_free(obj_t *m) { return m->owner < 0; }
extern void *__real_memcpy(void *, const void *, size_t);
static uint64_t tseq;
static uint64_t rdval(uintptr_t a, size_t n) { uint64_t v = 0; __real_memcpy(&v, (void *)a, n > 8 ? 8 : n); return v; }
static int wwait(obj_t *o) { int i; if (!o->wpref) return 0; for (i = 0; i < nt; i++) if (T[i].st == B_WR && T[i].o == o) return 1; return 0; }
static int enabled(thr_t *t)
{
	int i;
	switch (t->st) {
		case RUN: return 1;
		case B_MUTEX: return mutex_free(t->o);
		case B_COND: return (t->signalled || t->timedout) && mutex_free(t->m);
		case B_JOIN: return T[t->joinid].st == DONE;
		case B_RD: return t->o->owner < 0 && !wwait(t->o);
		case B_WR: for (i = 0; i < nt; i++) if (t->o->readers[i]) return 0; return t->o->owner < 0;
		case B_SLEEP: return deadline_passed(t);
		case B_FD: return deadline_passed(t) || __real_poll(t->pf, t->npf, 0) > 0;
		case B_YIELD: return t->yield_go || t->yield_t != tseq || rdval(t->spin_addr, t->spin_len) != t->spin_val;
		case B_ALL: for (i = 0; i < nt; i++) if (&T[i] != t && T[i].st != DONE) return 0; return 1;
		case B_FLAG: return *t->flag != 0;
	}
	return 0;
}
static int64_t earliest(void)
{
	int i; int64_t d = -1;
	for (i = 0; i < nt; i++) if ((T[i].st == B_SLEEP || T[i].st == B_FD || (T[i].st == B_COND && !T[i].signalled && !T[i].timedout)) && T[i].deadline > vnow && (d < 0 || T[i].deadline < d)) d = T[i].deadline;
	return d;
}
static void advance(int64_t d) { int i; tseq++; if (d > vnow) vnow = d; for (i = 0; i < nt; i++) if (T[i].st == B_COND && !T[i].signalled && deadline_passed(&T[i])) T[i].timedout = 1; }

static void hash_state(void)
{
	uint64_t h = 17; int i;
	for (i = 0; i < nt; i++) h = mc_h64(mc_h64(h, (uint64_t)T[i].st), T[i].ops);
	mc_state(mc_h64(h, (uint64_t)(vnow / 1000000)));
}
static void tick(void)
{
	mc_step(); seq++;
	if (++npoints > (uint64_t)sched_horizon) die("livelock: no end after the maximum number of scheduling points");
	hash_state();
}
static void resume(thr_t *t)      /* t is enabled and will run now */
{
	switch (t->st) {
		case B_MUTEX: t->o->owner = t->id; t->o->count = 1; break;
		case B_COND: t->m->owner = t->id; t->m->count = 1; break;
		case B_RD: t->o->readers[t->id]++; break;
		case B_WR: t->o->owner = t->id; break;
	}
	if (t->st != DONE) t->st = RUN;
}
static void switch_to(thr_t *t)
{
	thr_t *self = me;
	resume(t);
	if (mc_verbose) mc_note("  -> thread %d", t->id);
	if (t == self) return;
	fwake(&t->go);
	if (self->st == DONE) return;
	fwait(&self->go);
}
/* Pick the next thread.  cur_ok: the current thread may continue at no cost. */
static void pick(int cur_ok)
{
	thr_t *opt[2 * MAXT + 2]; uint8_t cost[2 * MAXT + 2]; int n, i, k, c, np, adv; int64_t d;
	int after_adv = 0;
again:
	n = 0; adv = -1;
	if (cur_ok) { opt[n] = me; cost[n++] = 0; }
	np = 0;
	if (!cur_ok) for (i = 0; i < nt; i++) if (T[i].st != DONE && T[i].nopreempt && enabled(&T[i])) np++;
	for (k = 1; k <= nt; k++) {
		i = (me->id + k) % nt;
		if ((cur_ok && &T[i] == me) || T[i].st == DONE) continue;
		if (np && !T[i].nopreempt) continue;
		if (enabled(&T[i])) { opt[n] = &T[i]; cost[n] = (uint8_t)(cur_ok ? !after_adv : sched_delay && n); n++; }
		else if (sched_spurious && T[i].st == B_COND && mutex_free(T[i].m) && !np) { opt[n] = &T[i]; cost[n++] = 1; }
	}
	d = earliest();
	if (n == 0 || (n == 1 && !cur_ok && !enabled(opt[0]))) {
		if (d < 0) {
			/* spinning threads with nobody left to change anything */
			for (i = 0; i < nt; i++) if (T[i].st == B_YIELD) T[i].yield_go = 1;
			for (i = 0; i < nt; i++) if (T[i].st == B_YIELD) { opt[n] = &T[i]; cost[n++] = 0; }
			if (n == 0) { if (sched_deadlock_hook) sched_deadlock_hook(); die("deadlock: no thread can make progress"); }
		} else if (n == 0) { advance(d); after_adv = 1; goto again; }
	}
	if (d >= 0 && sched_timeouts && !np && !after_adv && n > 0) { adv = n; opt[n] = NULL; cost[n++] = 1; }
	if (n == 1) c = 0; else c = mc_choose_sub(n, cost);
	if (c == adv) { if (mc_verbose) mc_note("  time advances to +%.6f s", (double)(d - 1700000000LL * 1000000000LL) / 1e9); advance(d); after_adv = 1; goto again; }
	if (opt[c] == me && cur_ok) { return; }
	switch_to(opt[c]);
}
static void point(const char *what)
{
	if (!active || !me) return;
	me->ops++;
	if (me->nopreempt) return;
	tick();
	if (mc_verbose) { save_bt(); mc_note("[%d] %s", me->id, what); }
	pick(1);
}
static void block(int st)
{
	me->st = st; me->ops++;
	if (mc_replaying) save_bt();
	if (mc_verbose) mc_note("[%d] waits: %s", me->id, stname[st]);
	tick();
	if (st != B_COND && st != B_SLEEP && enabled(me) && st != B_YIELD) { /* became ready meanwhile */ }
	pick(0);
}

/* ---- objects ---- */
static obj_t *obj(const void *a, int kind)
{
	unsigned i, h = (unsigned)((((uintptr_t)a) * 0x9E3779B97F4A7C15ULL) >> 40);
	for (i = 0; i < NOIDX; i++) {
		uint16_t *x = &oidx[(h + i) % NOIDX]; obj_t *o;
		if (*x == 0) { if (nobjs >= NOBJ) break; *x = (uint16_t)(++nobjs); o = &objs[nobjs - 1]; o->addr = (uintptr_t)a; o->kind = kind; o->owner = -1; return o; }
		o = &objs[*x - 1];
		if (o->addr == (uintptr_t)a && o->kind == kind) return o;
	}
	mc_internal("too many synchronization objects");
}
static void acquire(obj_t *o) { int i; for (i = 0; i < MAXT; i++) if (o->vc[i] > me->vc[i]) me->vc[i] = o->vc[i]; }
static void release(obj_t *o) { int i; for (i = 0; i < MAXT; i++) if (me->vc[i] > o->vc[i]) o->vc[i] = me->vc[i]; me->vc[me->id]++; }

/* ---- heap ---- */
#define ABASE 0x200000000000ULL
#define ASIZE (1ULL << 30)
#define SBASE 0x210000000000ULL
static uint64_t abrk; static size_t live;
extern void __real_free(void *);
static void heap_init(void)
{
	if (abrk) return;
	if (mmap((void *)ABASE, ASIZE, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED, -1, 0) == MAP_FAILED || mmap((void *)SBASE, ASIZE / 8, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED, -1, 0) == MAP_FAILED) { perror("mmap"); _exit(3); }
	abrk = 64;
}
static inline int in_arena(uintptr_t a) { return a - ABASE < ASIZE; }
static uint8_t *shadow(uintptr_t a) { return (uint8_t *)SBASE + ((a - ABASE) >> 3); }
static void *aalloc(size_t n)
{
	size_t r = (n + 7) & ~(size_t)7, i; uintptr_t p;
	heap_init();
	if (r < n || abrk + r + 64 > ASIZE) { if (n > ASIZE / 2) return NULL; mc_internal("arena exhausted"); }
	p = ABASE + ((abrk + 15) & ~15ULL) + 16;
	((uint64_t *)p)[-1] = n; ((uint64_t *)p)[-2] = 0xA110CA7EDULL;
	abrk = p - ABASE + r + 16;
	memset(shadow(p), 8, r / 8);
	if (n & 7) shadow(p)[r / 8 - 1] = (uint8_t)(n & 7);
	(void)i; live += n;
	return (void *)p;
}
static void access_range(uintptr_t a, size_t n, int wr, uintptr_t pc);
static void afree(void *v, uintptr_t pc)
{
	uintptr_t p = (uintptr_t)v; size_t n;
	if (!p) return;
	if (!in_arena(p)) { __real_free(v); return; }
	n = ((uint64_t *)p)[-1];
	if (((uint64_t *)p)[-2] == 0xDEADULL) { char b[400]; snprintf(b, sizeof(b), "double free by %s", sym(pc)); die(b); }
	if (((uint64_t *)p)[-2] != 0xA110CA7EDULL) { char b[400]; snprintf(b, sizeof(b), "invalid free by %s", sym(pc)); die(b); }
	if (active && me && n) access_range(p, n > 128 ? 128 : n, 1, pc);
	((uint64_t *)p)[-2] = 0xDEADULL; live -= n;
	memset(shadow(p), 0xFD, (n + 7) / 8);
}
size_t sched_heap_live(void) { return live; }
void *__wrap_malloc(size_t n) { void *p = aalloc(n); if (p) memset(p, 0xCD, n > 8192 ? 8192 : n); return p; }
void *__wrap_calloc(size_t a, size_t b) { size_t n; if (__builtin_mul_overflow(a, b, &n)) return NULL; return aalloc(n); }
void __wrap_free(void *p) { afree(p, (uintptr_t)__builtin_return_address(0)); }
void *__wrap_realloc(void *p, size_t n)
{
	void *q; size_t o;
	if (!p) return __wrap_malloc(n);
	if (!in_arena((uintptr_t)p)) mc_internal("realloc of foreign memory");
	o = ((uint64_t *)p)[-1];
	q = aalloc(n); if (!q) return NULL;
	memcpy(q, p, o < n ? o : n);
	afree(p, (uintptr_t)__builtin_return_address(0));
	return q;
}
char *__wrap_strdup(const char *s) { size_t n = strlen(s) + 1; char *p = aalloc(n); memcpy(p, s, n); return p; }
int __wrap_posix_memalign(void **o, size_t al, size_t n) { uintptr_t p; if (al <= 16) { *o = aalloc(n); return 0; } *o = aalloc(n + al); p = ((uintptr_t)*o + al - 1) & ~(al - 1); if (p != (uintptr_t)*o) { ((uint64_t *)p)[-1] = n; ((uint64_t *)p)[-2] = 0xA110CA7EDULL; } *o = (void *)p; return 0; }

/* ---- race detection ---- */
typedef struct { uint32_t clk : 24, mask : 8; uint32_t pc; } acc_t;
typedef struct { uintptr_t key; acc_t w; uint32_t wtid; acc_t r[MAXT]; } cell_t;
/* open-addressing index into a dense pool, so that a forked execution touches few pages */
#define NIDX (1u << 15)
#define NCELL (NIDX - NIDX / 4)
static uint16_t *cidx; static cell_t *cells; static unsigned ncells; static uint64_t naccess;
static void one(uintptr_t word, uint8_t mask, int wr, uintptr_t pc)
{
	unsigned i, h = (unsigned)((word * 0x9E3779B97F4A7C15ULL) >> 44); cell_t *c = NULL; int t, id = me->id;
	for (i = 0; ; i++) {
		uint16_t *x = &cidx[(h + i) & (NIDX - 1)];
		if (*x == 0) { if (ncells >= NCELL) return; *x = (uint16_t)(++ncells); c = &cells[ncells - 1]; c->key = word; break; }
		c = &cells[*x - 1];
		if (c->key == word) break;
	}
	if (c->w.mask & mask && (int)c->wtid != id && c->w.clk > me->vc[c->wtid]) race(pc, c->w.pc);
	if (wr) {
		for (t = 0; t < nt; t++) if (t != id && (c->r[t].mask & mask) && c->r[t].clk > me->vc[t]) race(pc, c->r[t].pc);
		if ((int)c->wtid == id && c->w.clk == me->vc[id]) mask |= c->w.mask;
		c->wtid = (uint32_t)id; c->w.clk = me->vc[id]; c->w.pc = (uint32_t)pc; c->w.mask = mask;
	} else {
		acc_t *r = &c->r[id];
		if (r->clk == me->vc[id]) r->mask |= mask; else r->mask = mask;
		r->clk = me->vc[id]; r->pc = (uint32_t)pc;
	}
}
static void access_range(uintptr_t a, size_t n, int wr, uintptr_t pc)
{
	uintptr_t e = a + n, w;
	if (nt > 1 && !me->hboff) for (w = a & ~7ULL; w < e; w += 8) {
		unsigned lo = w < a ? (unsigned)(a - w) : 0, hi = e - w < 8 ? (unsigned)(e - w) : 8;
		one(w, (uint8_t)(((1u << hi) - 1) & ~((1u << lo) - 1)), wr, pc);
	}
}
static void bad(uintptr_t a, size_t n, int wr, uintptr_t pc, int sv) __attribute__((noreturn, noinline));
static void bad(uintptr_t a, size_t n, int wr, uintptr_t pc, int sv)
{
	static char b[1200]; size_t l; int j;
	if (!active) { fprintf(stderr, "memory error outside exploration at %s\n", sym(pc)); abort(); }
	save_bt();
	l = (size_t)snprintf(b, sizeof(b), "%s of %zu bytes %s by thread %d at %s", wr ? "write" : "read", n, sv == 0xFD ? "after free" : "out of bounds", me->id, sym(pc));
	if (mc_replaying) for (j = 2; j < 8 && me->bt[j] && l < sizeof(b) - 200; j++) l += (size_t)snprintf(b + l, sizeof(b) - l, " < %s", sym(me->bt[j]));
	die(b);
	abort();
}
static void maccess(uintptr_t a, size_t n, int wr, uintptr_t pc)
{
	uintptr_t w, e;
	if (!active || !me) return;
	if (nact && nt > 1 && !me->nopreempt && is_active_pc(pc)) {
		if (!wr && me->spin_pc == pc && me->spin_addr == a && me->spin_ops == me->ops && rdval(a, n) == me->spin_val) {
			/* a spinning loop: the value has not changed since the last read; wait for it to change */
			me->spin_len = n; me->yield_t = tseq; me->yield_go = 0; me->st = B_YIELD; if (mc_replaying) save_bt(); tick(); pick(0); me->spin_pc = 0;
		} else {
			point(wr ? "racy write" : "racy read");
			me->spin_pc = wr ? 0 : pc; me->spin_addr = a; me->spin_ops = me->ops; me->spin_val = rdval(a, n);
		}
	}
	if (in_arena(a)) for (e = a + n, w = a & ~7ULL; w < e; w += 8) {
		uint8_t s = *shadow(w); unsigned hi = e - w < 8 ? (unsigned)(e - w) : 8;
		if (s != 8 && (s == 0 || s == 0xFD || hi > s)) bad(a, n, wr, pc, s);
	}
	if (++naccess > 400000000ULL) die("livelock: execution does not terminate");
	access_range(a, n, wr, pc);
}
#define PC ((uintptr_t)__builtin_return_address(0))
#define RW(n) \
 void __tsan_read##n(void *a) { maccess((uintptr_t)a, n, 0, PC); } \
 void __tsan_write##n(void *a) { maccess((uintptr_t)a, n, 1, PC); } \
 void __tsan_unaligned_read##n(void *a) { maccess((uintptr_t)a, n, 0, PC); } \
 void __tsan_unaligned_write##n(void *a) { maccess((uintptr_t)a, n, 1, PC); } \
 void __tsan_volatile_read##n(void *a) { maccess((uintptr_t)a, n, 0, PC); } \
 void __tsan_volatile_write##n(void *a) { maccess((uintptr_t)a, n, 1, PC); } \
 void __tsan_unaligned_volatile_read##n(void *a) { maccess((uintptr_t)a, n, 0, PC); } \
 void __tsan_unaligned_volatile_write##n(void *a) { maccess((uintptr_t)a, n, 1, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *a, unsigned long n) { if (n) maccess((uintptr_t)a, n, 0, PC); }
void __tsan_write_range(void *a, unsigned long n) { if (n) maccess((uintptr_t)a, n, 1, PC); }
void __tsan_init(void) {}
void __tsan_func_entry(void *p) { (void)p; }
void __tsan_func_exit(void) {}
#undef memset
#undef memcpy
#undef memmove
void *__wrap_memcpy(void *d, const void *s, size_t n) { if (n && active && me) { maccess((uintptr_t)s, n, 0, PC); maccess((uintptr_t)d, n, 1, PC); } return __real_memmove(d, s, n); }
void *__wrap_memmove(void *d, const void *s, size_t n) { if (n && active && me) { maccess((uintptr_t)s, n, 0, PC); maccess((uintptr_t)d, n, 1, PC); } return __real_memmove(d, s, n); }
void *__wrap_memset(void *d, int c, size_t n) { if (n && active && me) maccess((uintptr_t)d, n, 1, PC); return __real_memset(d, c, n); }

static void at_pre(void *a, size_t n, const char *w) { point(w); if (active && me) { obj_t *o = obj(a, O_ATOMIC); if (in_arena((uintptr_t)a)) { uint8_t s = *shadow((uintptr_t)a & ~7ULL); if (s == 0 || s == 0xFD) bad((uintptr_t)a, n, 1, (uintptr_t)__builtin_return_address(1), s); } acquire(o); } }
static void at_post(void *a) { if (active && me) release(obj(a, O_ATOMIC)); }
#define AT(b, ty) \
 ty __tsan_atomic##b##_load(const volatile ty *a, int mo) { ty v; at_pre((void *)a, sizeof(ty), "atomic load"); v = *a; return v; } \
 void __tsan_atomic##b##_store(volatile ty *a, ty v, int mo) { at_pre((void *)a, sizeof(ty), "atomic store"); *a = v; at_post((void *)a); } \
 ty __tsan_atomic##b##_exchange(volatile ty *a, ty v, int mo) { ty o; at_pre((void *)a, sizeof(ty), "atomic exchange"); o = *a; *a = v; at_post((void *)a); return o; } \
 ty __tsan_atomic##b##_fetch_add(volatile ty *a, ty v, int mo) { ty o; at_pre((void *)a, sizeof(ty), "atomic add"); o = *a; *a = (ty)(o + v); at_post((void *)a); return o; } \
 ty __tsan_atomic##b##_fetch_sub(volatile ty *a, ty v, int mo) { ty o; at_pre((void *)a, sizeof(ty), "atomic sub"); o = *a; *a = (ty)(o - v); at_post((void *)a); return o; } \
 ty __tsan_atomic##b##_fetch_and(volatile ty *a, ty v, int mo) { ty o; at_pre((void *)a, sizeof(ty), "atomic and"); o = *a; *a = o & v; at_post((void *)a); return o; } \
 ty __tsan_atomic##b##_fetch_or(volatile ty *a, ty v, int mo) { ty o; at_pre((void *)a, sizeof(ty), "atomic or"); o = *a; *a = o | v; at_post((void *)a); return o; } \
 ty __tsan_atomic##b##_fetch_xor(volatile ty *a, ty v, int mo) { ty o; at_pre((void *)a, sizeof(ty), "atomic xor"); o = *a; *a = o ^ v; at_post((void *)a); return o; } \
 int __tsan_atomic##b##_compare_exchange_strong(volatile ty *a, ty *e, ty v, int mo, int mo2) { int r; at_pre((void *)a, sizeof(ty), "atomic cas"); if (*a == *e) { *a = v; r = 1; } else { *e = *a; r = 0; } at_post((void *)a); return r; } \
 int __tsan_atomic##b##_compare_exchange_weak(volatile ty *a, ty *e, ty v, int mo, int mo2) { return __tsan_atomic##b##_compare_exchange_strong(a, e, v, mo, mo2); } \
 ty __tsan_atomic##b##_compare_exchange_val(volatile ty *a, ty e, ty v, int mo, int mo2) { __tsan_atomic##b##_compare_exchange_strong(a, &e, v, mo, mo2); return e; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) {}
void __tsan_atomic_signal_fence(int mo) {}

/* ---- pthread ---- */
static int live_threads(void) { int i, n = 0; for (i = 0; i < nt; i++) n += T[i].st != DONE; return n; }
extern int __real_pthread_create(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
extern int __real_pthread_join(pthread_t, void **);
extern int __real_pthread_detach(pthread_t);
extern pthread_t __real_pthread_self(void);
/* Virtual pthread_t values: the lowest one not in use, so that values are reused as soon as POSIX allows it
   (after a join, or after a detached thread has ended). */
static pthread_t freevid(void)
{
	pthread_t v; int i;
	for (v = 0x10000; ; v += 0x100) { for (i = 0; i < nt; i++) if (T[i].vid == v && !T[i].joined && !(T[i].detached && T[i].st == DONE)) break; if (i == nt) return v; }
}
static void *trampoline(void *v)
{
	thr_t *t = v;
	fwait(&t->go);
	me = t;
	t->ret = t->fn(t->arg);
	t->st = DONE; t->nopreempt = 0; t->vc[t->id]++;
	if (mc_verbose) mc_note("[%d] exits", t->id);
	tick();
	pick(0);
	return t->ret;
}
int __wrap_pthread_create(pthread_t *out, const pthread_attr_t *attr, void *(*fn)(void *), void *arg)
{
	thr_t *t; int r, d = 0;
	if (!active || !me) mc_internal("pthread_create outside of an exploration");
	if (nt >= MAXT) mc_internal("too many threads");
	point("thread create");
	t = &T[nt]; memset(t, 0, sizeof(*t)); t->id = nt; t->fn = fn; t->arg = arg; t->deadline = -1;
	if (me->nopreempt) t->nopreempt = 1;
	memcpy(t->vc, me->vc, sizeof(t->vc)); t->vc[t->id] = 1; me->vc[me->id]++;
	if (attr) { pthread_attr_getdetachstate(attr, &d); t->detached = d == PTHREAD_CREATE_DETACHED; }
	t->vid = freevid();
	r = __real_pthread_create(&t->real, attr, trampoline, t);
	if (r) mc_internal("pthread_create: %s", strerror(r));
	nt++;
	{ int l = live_threads() - 1; if (l > maxalive) maxalive = l; }
	*out = t->vid;
	if (mc_verbose) mc_note("[%d] creates thread %d", me->id, t->id);
	return 0;
}
static thr_t *bypt(pthread_t p) { int i; for (i = nt - 1; i >= 0; i--) if (T[i].id && T[i].vid == p && !T[i].joined && !(T[i].detached && T[i].st == DONE)) return &T[i]; return NULL; }
int __wrap_pthread_join(pthread_t p, void **ret)
{
	thr_t *t = bypt(p); int i;
	if (!t) die("pthread_join of an unknown or already joined thread");
	if (t->detached) die("pthread_join of a detached thread");
	point("join");
	if (t->st != DONE) { me->joinid = t->id; block(B_JOIN); }
	if (t->joined) die("pthread_join: thread joined twice");
	t->joined = 1;
	for (i = 0; i < MAXT; i++) if (t->vc[i] > me->vc[i]) me->vc[i] = t->vc[i];
	if (ret) *ret = t->ret;
	__real_pthread_join(t->real, NULL);
	return 0;
}
int __wrap_pthread_detach(pthread_t p) { thr_t *t = bypt(p); if (!t) die("pthread_detach of an unknown thread"); t->detached = 1; return __real_pthread_detach(t->real); }
pthread_t __wrap_pthread_self(void) { return active && me ? me->vid : __real_pthread_self(); }
void __wrap_pthread_exit(void *r) { die("pthread_exit called"); abort(); }
int __wrap_pthread_setschedparam(pthread_t p, int a, const struct sched_param *s) { return 0; }
int __wrap_pthread_setaffinity_np(pthread_t p, size_t n, const cpu_set_t *c) { return 0; }
int __wrap_sched_setaffinity(pid_t p, size_t n, const cpu_set_t *c) { return 0; }
int __wrap_setpriority(int a, int b, int c) { return 0; }
pid_t __wrap_getpid(void) { return 4242; }
long __wrap_syscall(long n, long a, long b, long c, long d, long e, long f) { if (n == SYS_gettid) return 5000 + (me ? me->id : 0); return __real_syscall(n, a, b, c, d, e, f); }

static int mtype(const pthread_mutexattr_t *a) { int t = PTHREAD_MUTEX_DEFAULT; if (a) pthread_mutexattr_gettype(a, &t); return t; }
int __wrap_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) { obj_t *o = obj(m, O_MUTEX); o->owner = -1; o->count = 0; o->destroyed = 0; o->type = mtype(a); return 0; }
static void chk(obj_t *o, const char *what) { if (o->destroyed) { static char b[300]; snprintf(b, sizeof(b), "%s after its destruction (thread %d)", what, me ? me->id : 0); if (mc_replaying && me) save_bt(); die(b); } }
int __wrap_pthread_mutex_destroy(pthread_mutex_t *m)
{
	obj_t *o = obj(m, O_MUTEX);
	if (!active || !me) { o->destroyed = 1; return 0; }
	point("mutex destroy");
	chk(o, "mutex destroyed");
	if (o->owner >= 0) return EBUSY;
	o->destroyed = 1;
	return 0;
}
int __wrap_pthread_mutex_lock(pthread_mutex_t *m)
{
	obj_t *o = obj(m, O_MUTEX);
	if (!active || !me) return 0;
	chk(o, "mutex locked");
	if (o->owner == me->id) { if (o->type == PTHREAD_MUTEX_RECURSIVE) { o->count++; return 0; } if (o->type == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK; if (mc_replaying) save_bt(); die("thread locks a mutex it already holds"); }
	point("mutex lock");
	chk(o, "mutex locked");
	if (mutex_free(o)) { o->owner = me->id; o->count = 1; }
	else { me->o = o; me->deadline = -1; block(B_MUTEX); chk(o, "mutex locked (waiter woke up)"); }
	acquire(o);
	return 0;
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t *m)
{
	obj_t *o = obj(m, O_MUTEX);
	if (!active || !me) return 0;
	chk(o, "mutex trylock");
	point("mutex trylock");
	if (o->owner == me->id && o->type == PTHREAD_MUTEX_RECURSIVE) { o->count++; return 0; }
	if (!mutex_free(o)) return EBUSY;
	o->owner = me->id; o->count = 1; acquire(o);
	return 0;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m)
{
	obj_t *o = obj(m, O_MUTEX);
	if (!active || !me) return 0;
	chk(o, "mutex unlocked");
	if (o->owner != me->id) { if (o->type == PTHREAD_MUTEX_ERRORCHECK || o->type == PTHREAD_MUTEX_RECURSIVE) return EPERM; if (mc_replaying) save_bt(); die("mutex unlocked by a thread that does not hold it"); }
	if (sched_unlock_points) point("mutex unlock");
	if (--o->count > 0) return 0;
	release(o);
	o->owner = -1; me->ops++; seq++;
	if (mc_verbose) mc_note("[%d] mutex unlock", me->id);
	return 0;
}
int __wrap_pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *a) { obj_t *o = obj(c, O_COND); o->destroyed = 0; return 0; }
int __wrap_pthread_cond_destroy(pthread_cond_t *c)
{
	obj_t *o = obj(c, O_COND); int i;
	if (!active || !me) { o->destroyed = 1; return 0; }
	point("cond destroy");
	chk(o, "condition destroyed");
	for (i = 0; i < nt; i++) if (T[i].st == B_COND && T[i].o == o && !T[i].signalled && !T[i].timedout) die("condition variable destroyed while a thread waits on it");
	o->destroyed = 1;
	return 0;
}
static int cwait(pthread_cond_t *c, pthread_mutex_t *m, int64_t dl)
{
	obj_t *o = obj(c, O_COND), *mo = obj(m, O_MUTEX); int cnt, to;
	if (!active || !me) mc_internal("cond wait outside of an exploration");
	chk(o, "condition waited for"); chk(mo, "condition wait with a mutex");
	if (mo->owner != me->id) die("condition wait without holding the mutex");
	point("cond wait");
	if (dl >= 0 && dl <= vnow) { /* already expired: unlock, let others run, relock */
		cnt = mo->count; release(mo); mo->owner = -1; seq++;
		point("cond wait expired");
		if (mutex_free(mo)) mo->owner = me->id; else { me->o = mo; block(B_MUTEX); }
		mo->count = cnt; acquire(mo);
		return ETIMEDOUT;
	}
	cnt = mo->count;
	release(mo); mo->owner = -1; seq++;
	me->o = o; me->m = mo; me->signalled = me->timedout = 0; me->deadline = dl;
	block(B_COND);
	chk(mo, "mutex relocked by a condition wait");
	to = me->timedout && !me->signalled; me->deadline = -1;
	mo->count = cnt; acquire(mo); acquire(o);
	me->signalled = me->timedout = 0;
	return to ? ETIMEDOUT : 0;
}
int __wrap_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { return cwait(c, m, -1); }
int __wrap_pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts) { return cwait(c, m, (int64_t)ts->tv_sec * 1000000000LL + ts->tv_nsec); }
int __wrap_pthread_cond_signal(pthread_cond_t *c)
{
	obj_t *o = obj(c, O_COND); int i, n = 0; thr_t *w[MAXT];
	if (!active || !me) return 0;
	chk(o, "condition signalled");
	point("cond signal");
	chk(o, "condition signalled");
	release(o);
	for (i = 0; i < nt; i++) if (T[i].st == B_COND && T[i].o == o && !T[i].signalled && !T[i].timedout) w[n++] = &T[i];
	if (n) { thr_t *t = w[n == 1 || me->nopreempt ? 0 : sched_delay ? mc_choose_cost(n) : mc_choose(n)]; t->signalled = 1; if (mc_verbose) mc_note("[%d] signal wakes thread %d", me->id, t->id); }
	seq++;
	return 0;
}
int __wrap_pthread_cond_broadcast(pthread_cond_t *c)
{
	obj_t *o = obj(c, O_COND); int i;
	if (!active || !me) return 0;
	chk(o, "condition signalled");
	point("cond broadcast");
	chk(o, "condition signalled");
	release(o);
	for (i = 0; i < nt; i++) if (T[i].st == B_COND && T[i].o == o && !T[i].timedout) T[i].signalled = 1;
	seq++;
	return 0;
}
int __wrap_pthread_rwlock_init(pthread_rwlock_t *l, const pthread_rwlockattr_t *a) { obj_t *o = obj(l, O_RW); o->owner = -1; o->destroyed = 0; o->wpref = 0; if (a) { int k = 0; pthread_rwlockattr_getkind_np(a, &k); o->wpref = k == PTHREAD_RWLOCK_PREFER_WRITER_NONRECURSIVE_NP; } memset(o->readers, 0, sizeof(o->readers)); return 0; }
int __wrap_pthread_rwlock_destroy(pthread_rwlock_t *l) { obj_t *o = obj(l, O_RW); int i; if (active && me) { point("rwlock destroy"); chk(o, "rwlock destroyed"); if (o->owner >= 0) die("rwlock destroyed while write-locked"); for (i = 0; i < nt; i++) if (o->readers[i]) die("rwlock destroyed while read-locked"); } o->destroyed = 1; return 0; }
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t *l)
{
	obj_t *o = obj(l, O_RW); if (!active || !me) return 0;
	chk(o, "rwlock locked"); if (o->owner == me->id) return EDEADLK;
	point("rdlock");
	if (o->owner < 0 && !wwait(o)) o->readers[me->id]++; else { me->o = o; block(B_RD); }
	acquire(o); return 0;
}
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t *l)
{
	obj_t *o = obj(l, O_RW); int i, busy = 0; if (!active || !me) return 0;
	chk(o, "rwlock locked"); if (o->owner == me->id) return EDEADLK;
	point("wrlock");
	for (i = 0; i < nt; i++) busy |= o->readers[i];
	if (o->owner < 0 && !busy) o->owner = me->id; else { me->o = o; block(B_WR); }
	acquire(o); return 0;
}
int __wrap_pthread_rwlock_unlock(pthread_rwlock_t *l)
{
	obj_t *o = obj(l, O_RW); if (!active || !me) return 0;
	chk(o, "rwlock unlocked");
	release(o);
	if (o->owner == me->id) o->owner = -1; else if (o->readers[me->id]) o->readers[me->id]--; else die("rwlock unlocked by a thread that does not hold it");
	seq++; return 0;
}

/* ---- time ---- */
int __wrap_clock_gettime(clockid_t c, struct timespec *ts) { ts->tv_sec = vnow / 1000000000LL; ts->tv_nsec = vnow % 1000000000LL; return 0; }
int __wrap_gettimeofday(struct timeval *tv, void *tz) { tv->tv_sec = vnow / 1000000000LL; tv->tv_usec = vnow % 1000000000LL / 1000; return 0; }
time_t __wrap_time(time_t *t) { time_t v = vnow / 1000000000LL; if (t) *t = v; return v; }
uint64_t sched_now_ns(void) { return (uint64_t)vnow; }
void sched_advance_ms(uint64_t ms) { advance(vnow + (int64_t)ms * 1000000LL); }
static void vsleep(int64_t ns)
{
	if (!active || !me) { struct timespec ts = { ns / 1000000000LL, ns % 1000000000LL }; __real_nanosleep(&ts, NULL); return; }
	if (ns <= 0) ns = 1000;
	me->deadline = vnow + ns;
	block(B_SLEEP);
	me->deadline = -1;
}
int __wrap_nanosleep(const struct timespec *a, struct timespec *b) { vsleep((int64_t)a->tv_sec * 1000000000LL + a->tv_nsec); return 0; }
int __wrap_usleep(useconds_t u) { vsleep((int64_t)u * 1000); return 0; }
int __wrap_sched_yield(void) { vsleep(1000); return 0; }
int __wrap_select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *tv) { if (n) mc_internal("select with descriptors"); vsleep((int64_t)tv->tv_sec * 1000000000LL + tv->tv_usec * 1000); return 0; }

/* ---- descriptors ---- */
static obj_t *fdo(void) { return obj((void *)8, O_FD); }
static void fd_hb(void) { if (active && me) { obj_t *o = fdo(); acquire(o); release(o); } seq++; }
static void fpoint(const char *s) { if (sched_io_points) point(s); }
static int fdwait(struct pollfd *p, nfds_t n, int64_t ns)
{
	int r = __real_poll(p, n, 0);
	if (r != 0 || ns == 0) return r;
	me->pf = p; me->npf = n; me->deadline = ns < 0 ? -1 : vnow + ns;
	block(B_FD);
	me->deadline = -1;
	return __real_poll(p, n, 0);
}
int __wrap_poll(struct pollfd *p, nfds_t n, int ms)
{
	int r;
	if (!active || !me) return __real_poll(p, n, ms);
	if (n == 0) { vsleep((int64_t)ms * 1000000LL); return 0; }
	fpoint("poll");
	r = fdwait(p, n, ms < 0 ? -1 : (int64_t)ms * 1000000LL);
	fd_hb();
	return r;
}
extern int __real_epoll_wait(int, struct epoll_event *, int, int);
int __wrap_epoll_wait(int fd, struct epoll_event *ev, int n, int ms)
{
	struct pollfd p = { fd, POLLIN, 0 }; int r;
	if (!active || !me) return __real_epoll_wait(fd, ev, n, ms);
	fpoint("epoll_wait");
	r = fdwait(&p, 1, ms < 0 ? -1 : (int64_t)ms * 1000000LL);
	if (r > 0) r = __real_epoll_wait(fd, ev, n, 0);
	fd_hb();
	return r;
}
extern ssize_t __real_read(int, void *, size_t); extern ssize_t __real_write(int, const void *, size_t); extern int __real_close(int);
ssize_t __wrap_read(int fd, void *b, size_t n)
{
	ssize_t r; int fl;
	if (!active || !me) return __real_read(fd, b, n);
	fpoint("read");
	fl = fcntl(fd, F_GETFL);
	if (fl >= 0 && !(fl & O_NONBLOCK)) { struct pollfd p = { fd, POLLIN, 0 }; fdwait(&p, 1, -1); }
	r = __real_read(fd, b, n); fl = errno; fd_hb(); errno = fl;
	return r;
}
ssize_t __wrap_write(int fd, const void *b, size_t n)
{
	ssize_t r; int fl;
	if (!active || !me) return __real_write(fd, b, n);
	fpoint("write");
	fd_hb();
	fl = fcntl(fd, F_GETFL);
	if (fl >= 0 && !(fl & O_NONBLOCK)) { struct pollfd p = { fd, POLLOUT, 0 }; fdwait(&p, 1, -1); }
	r = __real_write(fd, b, n);
	return r;
}
int __wrap_close(int fd) { if (active && me) { fpoint("close"); fd_hb(); } return __real_close(fd); }

/* ---- M_thread_create: keep its handshake and the exit path free of scheduling choices unless asked ---- */
typedef struct { void *(*f)(void *); void *a; } boot_t;
static void *boot(void *v)
{
	boot_t *b = v; void *(*f)(void *) = b->f, *a = b->a, *r;
	me->nopreempt = 0;
	point("thread start");
	r = f(a);
	me->nopreempt = 1;
	return r;
}
uint64_t __real_M_thread_create(const void *, void *(*)(void *), void *) __attribute__((weak));
uint64_t __wrap_M_thread_create(const void *attr, void *(*f)(void *), void *a)
{
	boot_t *b; uint64_t r;
	if (sched_raw_create || !active || !me || !f) return __real_M_thread_create(attr, f, a);
	point("M_thread_create");
	b = aalloc(sizeof(*b)); live -= sizeof(*b); b->f = f; b->a = a;
	me->nopreempt++;
	r = __real_M_thread_create(attr, boot, b);
	me->nopreempt--;
	point("thread created");
	return r;
}

/* ---- harness side ---- */
void sched_begin(void)
{
	static thr_t *z; (void)z;
	memset(T, 0, sizeof(T)); nt = 1; me = &T[0]; me->deadline = -1; me->vc[0] = 1; me->real = __real_pthread_self(); me->vid = 0x10000; active = 1; npoints = 0; maxalive = 0;
}
void sched_wait_all(void) { if (live_threads() > 1) { me->deadline = -1; block(B_ALL); } { int i, k; for (k = 0; k < nt; k++) for (i = 0; i < MAXT; i++) if (T[k].vc[i] > me->vc[i]) me->vc[i] = T[k].vc[i]; } }
void sched_wait(volatile int *p) { if (*p == 0) { me->flag = p; me->deadline = -1; block(B_FLAG); } }
int sched_alive(void) { return live_threads() - 1; }
int sched_blocked(int t) { return t < nt && T[t].st != RUN && T[t].st != DONE && !enabled(&T[t]); }
int sched_self(void) { return me ? me->id : 0; }
int sched_kind(int t) { return t < nt ? T[t].st : -1; }
void sched_point(void) { point("harness point"); }
void sched_nopreempt(int on) { me->nopreempt += on ? 1 : -1; }
void sched_hb_off(int on) { me->hboff += on ? 1 : -1; }
int sched_nthreads(void) { return nt; }
int sched_max_alive(void) { return maxalive; }

static void prerun(void) { active = 0; }
__attribute__((constructor)) static void sched_ctor(void)
{
	int p = personality(0xffffffff);
	if (p >= 0 && !(p & ADDR_NO_RANDOMIZE)) {
		if (personality((unsigned long)p | ADDR_NO_RANDOMIZE) >= 0) {
			/* re-exec with the same arguments, once */
			static char buf[1 << 16]; static char *av[512]; int n = 0, fd = open("/proc/self/cmdline", O_RDONLY); ssize_t l = __real_read(fd, buf, sizeof(buf) - 1); char *q = buf;
			__real_close(fd);
			if (l > 0 && (personality(0xffffffff) & ADDR_NO_RANDOMIZE)) { while (q < buf + l && n < 511) { av[n++] = q; q += strlen(q) + 1; } av[n] = NULL; execv("/proc/self/exe", av); }
		}
	}
	heap_init();
	objs = mmap(NULL, NOBJ * sizeof(obj_t), PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
	cidx = mmap(NULL, NIDX * sizeof(uint16_t), PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS, -1, 0);
	oidx = mmap(NULL, NOIDX * sizeof(uint16_t), PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS, -1, 0);
	cells = mmap(NULL, NCELL * sizeof(cell_t), PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
	found = mc_shared_alloc(sizeof(*found));
	mc_forkmode = 1; mc_hang_secs = 8;
	mc_prerun_hook = prerun; mc_round_hook = round_hook; mc_replay_extra_save = extra_save; mc_replay_extra_load = extra_load;
	if (!mc_assume[0]) mc_assume[0] = "Sequentially consistent memory; every lock, condition, atomic, descriptor and clock operation goes through the interposed entry points; unsynchronized accesses found by the race detector are scheduling points of the following round.";
}
