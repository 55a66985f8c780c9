/* mc.c - stateless bounded exhaustive explorer.
 *
 * An execution is determined by the sequence of answers to mc_choose().  The explorer enumerates every
 * sequence, depth first, on several worker processes that share work by splitting the shallowest open
 * choice point.  Each worker's current sequence lives in shared memory, so a crash or hang of the code
 * under test is attributed to the exact sequence, replayed alone, and reported. */
#define _GNU_SOURCE
#include "mc.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <errno.h>
#include <setjmp.h>
#include <signal.h>
#include <time.h>
#include <sched.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/syscall.h>

#define MAXDEPTH 16384
#define MAXW     64
#define QCAP     128
#define HIST     6
#define TABBITS  23

typedef struct { int len, base; uint16_t c[MAXDEPTH]; } task_t;
typedef struct { int len; uint16_t c[MAXDEPTH]; } trail_t;

typedef struct {
	volatile int      pid;
	volatile int      depth;             /* choices made so far in the running execution */
	volatile int      prefix;            /* forced prefix length */
	uint16_t          c[MAXDEPTH];       /* choice */
	uint16_t          n[MAXDEPTH];       /* effective number of alternatives */
	volatile uint64_t execs, steps, cases, pruned, cap_hits;
	volatile int      maxdepth;
	volatile int      failed;            /* 1 fail, 2 internal */
	volatile int      finished;
	volatile double   exec_start;        /* wall clock, 0 = idle */
	char              msg[4096];
	volatile int      npend;
	uint64_t          pend[8192];        /* fork mode: states seen by the child, inserted by the worker */
	trail_t           hist[HIST];        /* previous trails (ring), for context replays */
	volatile int      nhist;
	trail_t           sample[3];
	volatile int      nsample;
} worker_t;

typedef struct {
	volatile int      lock;
	volatile int      qn;
	volatile int      idle;
	volatile int      stop;              /* 1 = failure found, 2 = time cap */
	volatile int      capped;
	volatile uint64_t nstates, noutcomes, visits, tabfull;
	task_t            q[QCAP];
	worker_t          w[MAXW];
	char              known_seen[64][256];
	volatile int      nknown;
	volatile uint64_t tab[1u << TABBITS];
	volatile uint64_t vtab[1u << TABBITS];
	volatile uint64_t otab[1u << 22];
} shared_t;

static shared_t *S;
static worker_t *W;               /* my slot */
static int       nworkers = 8;
static double    tlimit   = 0, t0;
static int       budget_max, budget_used;
static jmp_buf   jb;
static char      params[64][64];
static int       nparams;
static char      knownkeys[128][256];
static int       nknownkeys;
static const char *outjson, *replaydir = ".", *propid = "C00";
static char     *notebuf; static size_t notelen, notecap;

int mc_verbose, mc_thorough, mc_leakcheck, mc_forkmode, mc_replaying, mc_hang_secs = 20;
const char *mc_assume[16];
void (*mc_prerun_hook)(void);
int (*mc_round_hook)(void);
const char *(*mc_replay_extra_save)(void);
void (*mc_replay_extra_load)(const char *);

size_t __sanitizer_get_current_allocated_bytes(void) __attribute__((weak));
const char *__asan_default_options(void) { return "detect_leaks=0:quarantine_size_mb=16:malloc_context_size=6:allocator_may_return_null=1:max_allocation_size_mb=2048:detect_stack_use_after_return=0:handle_abort=1"; }

static double now(void) { struct timespec ts; extern int __real_clock_gettime(clockid_t, struct timespec*) __attribute__((weak));
	if (__real_clock_gettime) __real_clock_gettime(CLOCK_MONOTONIC, &ts); else clock_gettime(CLOCK_MONOTONIC, &ts);
	return (double)ts.tv_sec + ts.tv_nsec * 1e-9; }
static void lock(void) { while (__sync_lock_test_and_set(&S->lock, 1)) sched_yield(); }
static void unlock(void) { __sync_lock_release(&S->lock); }

void *mc_shared_alloc(size_t n)
{
	void *p = mmap(NULL, n, PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
	if (p == MAP_FAILED) { perror("mmap"); exit(3); }
	return p;
}

uint64_t mc_hbytes(uint64_t h, const void *p, size_t n)
{
	const uint8_t *b = p; size_t i;
	h = mc_h64(h, n);
	for (i = 0; i < n; i++) h = (h ^ b[i]) * 0x100000001b3ULL;
	return mc_h64(h, 7);
}
uint64_t mc_hstr(uint64_t h, const char *s) { return s ? mc_hbytes(h, s, strlen(s)) : mc_h64(h, 0xdead); }

const char *mc_esc(const void *p, size_t n)
{
	static char ring[16][1200]; static int k; char *o = ring[k++ & 15]; size_t i, j = 0; const uint8_t *b = p;
	if (!p) return "NULL";
	o[j++] = '"';
	for (i = 0; i < n && j < 1150; i++) {
		if (b[i] == '"' || b[i] == '\\') { o[j++] = '\\'; o[j++] = (char)b[i]; }
		else if (b[i] == '\n') { o[j++] = '\\'; o[j++] = 'n'; }
		else if (b[i] == '\r') { o[j++] = '\\'; o[j++] = 'r'; }
		else if (b[i] == '\t') { o[j++] = '\\'; o[j++] = 't'; }
		else if (b[i] < 32 || b[i] > 126) j += (size_t)sprintf(o + j, "\\x%02x", b[i]);
		else o[j++] = (char)b[i];
	}
	if (i < n) j += (size_t)sprintf(o + j, "...(%zu)", n);
	o[j++] = '"'; o[j] = 0;
	return o;
}

/* ---- choices ---- */
void mc_internal(const char *fmt, ...)
{
	va_list ap; va_start(ap, fmt);
	vsnprintf(W->msg, sizeof(W->msg), fmt, ap);
	va_end(ap);
	W->failed = 2;
	fprintf(stderr, "mc internal error: %s\n", W->msg);
	_exit(3);
}

static int choose_rec(int n)
{
	int d = W->depth, c;
	if (n < 1) mc_internal("mc_choose(%d)", n);
	if (d >= MAXDEPTH) { if (mc_forkmode) mc_fail("livelock: an execution makes more than %d scheduling choices without ending", MAXDEPTH); mc_internal("execution makes more than %d choices", MAXDEPTH); }
	if (d < W->prefix) {
		c = W->c[d];
		if (c >= n) mc_internal("divergence while replaying a prefix: choice %d at depth %d of %d alternatives", c, d, n);
	} else { c = 0; W->c[d] = 0; }
	W->n[d] = (uint16_t)n;
	__sync_synchronize();
	W->depth = d + 1;
	return c;
}

int mc_choose(int n) { if (n == 1) return 0; return choose_rec(n); }

int mc_choose_cost(int n)
{
	int c;
	if (n <= 1 || budget_used >= budget_max) return 0;
	c = choose_rec(n);
	if (c) budget_used++;
	return c;
}

int mc_choose_sub(int n, const uint8_t *cost)
{
	int map[256], k = 0, i, c;
	for (i = 0; i < n && k < 256; i++) if (budget_used + cost[i] <= budget_max) map[k++] = i;
	if (k == 0) { map[0] = 0; k = 1; }
	c = map[k == 1 ? 0 : choose_rec(k)];
	budget_used += cost[c];
	return c;
}
int mc_budget_left(void) { return budget_max - budget_used; }
void mc_set_budget(int n) { budget_max = n; }

void mc_prune(void) { W->pruned++; if (mc_forkmode) { fflush(NULL); _exit(0); } longjmp(jb, 2); }

void mc_fail(const char *fmt, ...)
{
	va_list ap; va_start(ap, fmt);
	if (W->failed == 0) vsnprintf(W->msg, sizeof(W->msg), fmt, ap);
	va_end(ap);
	W->failed = 1;
	if (mc_forkmode) { if (mc_replaying) { mc_note_("FAIL: %s", W->msg); fwrite(notebuf, 1, notelen, stdout); printf("FAIL: %s\n", W->msg); fflush(stdout); } _exit(41); }
	longjmp(jb, 1);
}

void mc_note_(const char *fmt, ...)
{
	va_list ap; char tmp[2048]; int n;
	va_start(ap, fmt); n = vsnprintf(tmp, sizeof(tmp) - 1, fmt, ap); va_end(ap);
	if (n < 0) return;
	if (n > (int)sizeof(tmp) - 2) n = sizeof(tmp) - 2;
	tmp[n++] = '\n';
	if (notelen + (size_t)n + 1 > notecap) {
		if (notecap == 0) { notecap = 8 << 20; notebuf = mmap(NULL, notecap, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0); }
		else return;
	}
	memcpy(notebuf + notelen, tmp, (size_t)n); notelen += (size_t)n;
}

static int tab_insert(volatile uint64_t *t, uint64_t mask, uint64_t h)
{
	uint64_t i, k = 0; if (h == 0) h = 1;
	for (i = h & mask; k < 256; i = (i + 1) & mask, k++) {
		uint64_t v = t[i];
		if (v == h) return 0;
		if (v == 0) { if (__sync_bool_compare_and_swap(&t[i], 0, h)) return 1; if (t[i] == h) return 0; }
	}
	S->tabfull = 1;
	return 1;
}
int mc_state(uint64_t h) { if (mc_replaying) return 1; if (mc_forkmode) { if (W->npend < 8192) W->pend[W->npend++] = h; return 1; } if (tab_insert(S->tab, (1u << TABBITS) - 1, h)) { __sync_fetch_and_add(&S->nstates, 1); return 1; } return 0; }
void mc_outcome(uint64_t h) { if (!mc_replaying && tab_insert(S->otab, (1u << 22) - 1, h)) __sync_fetch_and_add(&S->noutcomes, 1); }

/* Visited table with remaining depth: entry = hash (upper 56 bits) | remaining+1 (low 8 bits). */
int mc_visit(uint64_t h, int remaining)
{
	uint64_t mask = (1u << TABBITS) - 1, key = h & ~0xffULL, i, k = 0;
	if (mc_replaying || W->depth < W->prefix) return 1;
	if (key == 0) key = 0x100;
	mc_state(h);
	for (i = (h >> 8) & mask; k < 256; i = (i + 1) & mask, k++) {
		uint64_t v = S->vtab[i];
		if (v == 0) { if (__sync_bool_compare_and_swap(&S->vtab[i], 0, key | (uint64_t)(remaining + 1))) return 1; v = S->vtab[i]; }
		if ((v & ~0xffULL) == key) {
			if ((int)(v & 0xff) >= remaining + 1) return 0;
			__sync_bool_compare_and_swap(&S->vtab[i], v, key | (uint64_t)(remaining + 1));
			return 1;
		}
	}
	return 1;
}
void mc_step(void) { W->steps++; }
void mc_steps(uint64_t n) { W->steps += n; }
void mc_case(void) { W->cases++; }

long mc_param(const char *name, long q, long t)
{
	int i; size_t l = strlen(name);
	for (i = 0; i < nparams; i++) if (!strncmp(params[i], name, l) && params[i][l] == '=') return atol(params[i] + l + 1);
	return mc_thorough ? t : q;
}

int mc_known(const char *key)
{
	int i;
	for (i = 0; i < nknownkeys; i++) if (!strcmp(knownkeys[i], key)) {
		int j; lock();
		for (j = 0; j < S->nknown; j++) if (!strcmp(S->known_seen[j], key)) break;
		if (j == S->nknown && S->nknown < 64) { snprintf(S->known_seen[j], 256, "%s", key); S->nknown++; }
		unlock();
		return 1;
	}
	return 0;
}

/* ---- running one execution ---- */
static int run_inproc(void)
{
	size_t before = 0, after; int r, tries;
	for (tries = 0; ; tries++) {
		volatile size_t b2;
		W->depth = 0; budget_used = 0; budget_max = (int)mc_param("budget", 0, 0);
		b2 = before = (mc_leakcheck && __sanitizer_get_current_allocated_bytes) ? __sanitizer_get_current_allocated_bytes() : 0;
		if (mc_prerun_hook) mc_prerun_hook();
		r = setjmp(jb);
		if (r == 0) mc_run();
		before = b2;
		if (r == 1) return 1;
		if (r == 0 && W->depth < W->prefix) mc_internal("divergence: execution ended after %d of %d prefix choices", W->depth, W->prefix);
		if (!mc_leakcheck || r == 2 || !__sanitizer_get_current_allocated_bytes) return 0;
		after = __sanitizer_get_current_allocated_bytes();
		if (after <= before) return 0;
		if (tries >= 3) {
			snprintf(W->msg, sizeof(W->msg), "memory leak: this execution leaves %zu bytes allocated every time it is repeated", after - before);
			W->failed = 1;
			return 1;
		}
		W->prefix = W->depth; /* rerun exactly the same execution: lazily built globals settle after one run */
	}
}

/* returns 0 ok, 1 failure, 2 crash/hang of child */
static int run_forked(void)
{
	int st, pid, i;
	W->depth = 0; W->npend = 0;
	pid = fork();
	if (pid < 0) mc_internal("fork: %s", strerror(errno));
	if (pid == 0) {
		budget_used = 0; budget_max = (int)mc_param("budget", 0, 0);
		if (mc_prerun_hook) mc_prerun_hook();
		mc_run();
		if (W->depth < W->prefix) mc_internal("divergence: execution ended after %d of %d prefix choices", W->depth, W->prefix);
		_exit(0);
	}
	while (waitpid(pid, &st, 0) < 0) if (errno != EINTR) mc_internal("waitpid: %s", strerror(errno));
	for (i = 0; i < W->npend; i++) if (tab_insert(S->tab, (1u << TABBITS) - 1, W->pend[i])) __sync_fetch_and_add(&S->nstates, 1);
	if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return 0;
	if (WIFEXITED(st) && WEXITSTATUS(st) == 41) return 1;
	if (W->failed == 2) _exit(3);
	if (WIFSIGNALED(st)) snprintf(W->msg, sizeof(W->msg), WTERMSIG(st) == SIGPROF || WTERMSIG(st) == SIGXCPU ? "hang: execution does not terminate" : "crash: killed by signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st)));
	else snprintf(W->msg, sizeof(W->msg), "crash: child exit code %d", WEXITSTATUS(st));
	W->failed = 1;
	return 1;
}

static void save_hist(void)
{
	trail_t *t = &W->hist[W->nhist % HIST];
	t->len = W->depth; memcpy(t->c, W->c, sizeof(uint16_t) * (size_t)W->depth);
	W->nhist++;
}

static void donate(int *base)
{
	int i, j, d = W->depth;
	if (S->idle == 0 || S->qn >= S->idle || S->qn >= QCAP - 1) return;
	for (i = *base; i < d; i++) if (W->c[i] + 1 < W->n[i]) break;
	if (i >= d) return;
	lock();
	if (S->qn < QCAP) {
		task_t *t = &S->q[S->qn];
		for (j = 0; j < i; j++) t->c[j] = W->c[j];
		t->c[i] = (uint16_t)(W->c[i] + 1);
		t->len = i + 1; t->base = i;
		S->qn++;
		*base = i + 1;
	}
	unlock();
}

static void worker(int id)
{
	static task_t t;
	W = &S->w[id];
	prctl(PR_SET_PDEATHSIG, SIGKILL);
	if (mc_forkmode) { cpu_set_t cs; long n = sysconf(_SC_NPROCESSORS_ONLN); CPU_ZERO(&cs); CPU_SET(id % (n > 0 ? n : 1), &cs); syscall(SYS_sched_setaffinity, 0, sizeof(cs), &cs); }
	for (;;) {
		int base, got = 0, isidle = 0;
		for (;;) {
			if (S->stop) goto out;
			lock();
			if (S->qn) { t = S->q[--S->qn]; got = 1; if (isidle) S->idle--; }
			else if (!isidle) { isidle = 1; S->idle++; }
			unlock();
			if (got) break;
			if (S->idle == nworkers) goto out;
			usleep(200);
		}
		base = t.base;
		memcpy(W->c, t.c, sizeof(uint16_t) * (size_t)t.len);
		W->prefix = t.len;
		for (;;) {
			int r, i;
			if (S->stop) goto out;
			if (tlimit > 0 && now() - t0 > tlimit) { S->capped = 1; S->stop = 2; goto out; }
			W->exec_start = now();
			r = mc_forkmode ? run_forked() : run_inproc();
			W->exec_start = 0;
			W->execs++;
			if (W->depth > W->maxdepth) W->maxdepth = W->depth;
			if (r) { S->stop = 1; goto out; }
			if (!mc_forkmode) save_hist();
			if (W->execs == 1 || W->execs == 200 || W->execs == 5000) { trail_t *s = &W->sample[W->nsample++]; s->len = W->depth; memcpy(s->c, W->c, sizeof(uint16_t) * (size_t)W->depth); }
			donate(&base);
			for (i = W->depth - 1; i >= base; i--) if (W->c[i] + 1 < W->n[i]) break;
			if (i < base) break;
			W->c[i]++;
			W->prefix = i + 1;
		}
	}
out:
	W->finished = 1;
}

/* ---- replay ---- */
static void write_trail(FILE *f, const trail_t *t) { int i; fprintf(f, "trail %d", t->len); for (i = 0; i < t->len; i++) fprintf(f, " %d", t->c[i]); fprintf(f, "\n"); }

static void write_replay(const char *path, const trail_t *ts, int n, const char *msg)
{
	FILE *f = fopen(path, "w"); int i;
	if (!f) { perror(path); exit(3); }
	fprintf(f, "harness %s\nthorough %d\n", mc_name, mc_thorough);
	for (i = 0; i < nparams; i++) fprintf(f, "param %s\n", params[i]);
	if (mc_replay_extra_save) { const char *x = mc_replay_extra_save(); if (x && *x) fprintf(f, "extra %s\n", x); }
	for (i = 0; i < n; i++) write_trail(f, &ts[i]);
	if (msg) { const char *p = msg; fputs("message ", f); for (; *p; p++) fputc(*p == '\n' ? ' ' : *p, f); fputc('\n', f); }
	fclose(f);
}

static int do_replay(const char *path)
{
	FILE *f = fopen(path, "r"); static char line[1 << 18]; static trail_t ts[HIST + 1]; int n = 0, i, rc = 0;
	if (!f) { perror(path); return 3; }
	while (fgets(line, sizeof(line), f)) {
		line[strcspn(line, "\n")] = 0;
		if (!strncmp(line, "trail ", 6)) {
			char *p = line + 6; int len = (int)strtol(p, &p, 10);
			ts[n].len = len;
			for (i = 0; i < len; i++) ts[n].c[i] = (uint16_t)strtol(p, &p, 10);
			if (n < HIST) n++;
		} else if (!strncmp(line, "param ", 6)) snprintf(params[nparams++], 64, "%s", line + 6);
		else if (!strncmp(line, "thorough ", 9)) mc_thorough = atoi(line + 9);
		else if (!strncmp(line, "extra ", 6) && mc_replay_extra_load) mc_replay_extra_load(line + 6);
	}
	fclose(f);
	mc_replaying = 1; W = &S->w[0];
	signal(SIGPROF, SIG_DFL);
	mc_init();
	for (i = 0; i < n; i++) {
		int r;
		struct itimerval it = { {0, 0}, {mc_hang_secs * 3, 0} };
		setitimer(ITIMER_PROF, &it, NULL);
		mc_verbose = (i == n - 1); notelen = 0;
		memcpy(W->c, ts[i].c, sizeof(uint16_t) * (size_t)ts[i].len); W->prefix = ts[i].len;
		if (mc_forkmode) { budget_used = 0; budget_max = (int)mc_param("budget", 0, 0); W->depth = 0; if (mc_prerun_hook) mc_prerun_hook(); mc_run(); fwrite(notebuf, 1, notelen, stdout); printf("OK\n"); fflush(stdout); _exit(0); }
		r = run_inproc();
		if (i == n - 1) { fwrite(notebuf, 1, notelen, stdout); if (r) printf("FAIL: %s\n", W->msg); else printf("OK\n"); }
		if (r) { rc = 41; if (i != n - 1) { printf("FAIL (earlier trail): %s\n", W->msg); } break; }
	}
	fflush(stdout);
	return rc;
}

static char self[4096];
/* run self --replay; returns exit status (41 fail, 0 ok, >=128 signal) and captures output */
static int spawn_replay(const char *path, char **out)
{
	int p[2], pid, st; size_t cap = 1 << 16, len = 0; char *b = malloc(cap); double ts = now();
	if (pipe(p)) return 3;
	pid = fork();
	if (pid == 0) {
		char a[32]; 
		dup2(p[1], 1); dup2(p[1], 2); close(p[0]); close(p[1]);
		snprintf(a, sizeof(a), "%d", mc_thorough);
		{
			static char *av[64]; int k = 0, i; static char kn[128][270];
			av[k++] = self; av[k++] = "--prop"; av[k++] = (char *)propid; av[k++] = "--replay"; av[k++] = (char *)path;
			for (i = 0; i < nknownkeys && k < 60; i++) { snprintf(kn[i], sizeof(kn[i]), "%s", knownkeys[i]); av[k++] = "--known"; av[k++] = kn[i]; }
			av[k] = NULL;
			execv(self, av);
		}
		_exit(3);
	}
	close(p[1]);
	fcntl(p[0], F_SETFL, O_NONBLOCK);
	for (;;) {
		ssize_t n;
		if (len + 4096 > cap) { if (cap < (64u << 20)) b = realloc(b, cap *= 2); else len = cap / 2; }
		n = read(p[0], b + len, 4095);
		if (n == 0) break;
		if (n > 0) { len += (size_t)n; continue; }
		if (now() - ts > mc_hang_secs * 3 + 60) { kill(pid, SIGKILL); break; }
		usleep(500);
	}
	close(p[0]);
	b[len] = 0;
	waitpid(pid, &st, 0);
	*out = b;
	if (WIFEXITED(st)) return WEXITSTATUS(st);
	return 128 + WTERMSIG(st);
}

static void json_str(FILE *f, const char *s)
{
	fputc('"', f);
	for (; *s; s++) {
		unsigned char c = (unsigned char)*s;
		if (c == '"' || c == '\\') fprintf(f, "\\%c", c);
		else if (c == '\n') fputs("\\n", f);
		else if (c < 32 || c > 126) fprintf(f, "\\u%04x", c);
		else fputc(c, f);
	}
	fputc('"', f);
}

static char sampletxt[4][6000]; static int nsamples;
static int nondet;

static void explore(void)
{
	int i, st, alive;
	memset((void *)S->tab, 0, sizeof(S->tab)); memset((void *)S->vtab, 0, sizeof(S->vtab)); memset((void *)S->otab, 0, sizeof(S->otab));
	S->nstates = S->noutcomes = 0; S->stop = S->capped = S->idle = 0; S->lock = 0;
	for (i = 0; i < nworkers; i++) memset(&S->w[i], 0, sizeof(S->w[i]));
	S->qn = 1; S->q[0].len = 0; S->q[0].base = 0;
	fflush(NULL);
	for (i = 0; i < nworkers; i++) {
		int pid = fork();
		if (pid == 0) { worker(i); fflush(NULL); _exit(0); }
		S->w[i].pid = pid;
	}
	alive = nworkers;
	while (alive) {
		int pid = waitpid(-1, &st, WNOHANG);
		if (pid > 0) {
			for (i = 0; i < nworkers; i++) if (S->w[i].pid == pid) break;
			if (i == nworkers) continue;
			alive--;
			if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && S->w[i].finished) continue;
			if (S->w[i].failed == 0) {
				S->w[i].failed = 1;
				if (WIFSIGNALED(st)) snprintf(S->w[i].msg, sizeof(S->w[i].msg), WTERMSIG(st) == SIGKILL ? "hang: execution does not terminate" : "crash: killed by signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st)));
				else snprintf(S->w[i].msg, sizeof(S->w[i].msg), "crash: code under test aborted (exit code %d; sanitizer report in the replay output)", WEXITSTATUS(st));
			}
			S->stop = 1;
			continue;
		}
		for (i = 0; i < nworkers; i++) {
			double es = S->w[i].exec_start;
			if (!S->w[i].finished && es > 0 && now() - es > mc_hang_secs * (S->stop ? 1 : 3)) {
				snprintf(S->w[i].msg, sizeof(S->w[i].msg), "hang: execution does not terminate");
				S->w[i].failed = 1; S->stop = 1;
				kill(S->w[i].pid, SIGKILL);
			}
		}
		usleep(2000);
	}
}

int main(int argc, char **argv)
{
	int i, j, rc = 0, round = 0; const char *replay = NULL; char rpath[4200] = ""; char *viol_out = NULL; char viol_msg[4200] = "";
	uint64_t ex = 0, steps = 0, cases = 0, pruned = 0; int maxd = 0; ssize_t n;
	n = readlink("/proc/self/exe", self, sizeof(self) - 1); if (n > 0) self[n] = 0;
	{ long c = sysconf(_SC_NPROCESSORS_ONLN); nworkers = c > 0 ? (int)c : 4; if (nworkers > 16) nworkers = 16; }
	for (i = 1; i < argc; i++) {
		if (!strcmp(argv[i], "-j")) nworkers = atoi(argv[++i]);
		else if (!strcmp(argv[i], "-p")) snprintf(params[nparams++], 64, "%s", argv[++i]);
		else if (!strcmp(argv[i], "--thorough")) mc_thorough = 1;
		else if (!strcmp(argv[i], "--time")) tlimit = atof(argv[++i]);
		else if (!strcmp(argv[i], "--json")) outjson = argv[++i];
		else if (!strcmp(argv[i], "--replaydir")) replaydir = argv[++i];
		else if (!strcmp(argv[i], "--prop")) propid = argv[++i];
		else if (!strcmp(argv[i], "--known")) snprintf(knownkeys[nknownkeys++], 256, "%s", argv[++i]);
		else if (!strcmp(argv[i], "--replay")) replay = argv[++i];
		else { fprintf(stderr, "unknown argument %s\n", argv[i]); return 3; }
	}
	S = mc_shared_alloc(sizeof(*S));
	W = &S->w[0];
	t0 = now();
	if (replay) return do_replay(replay);
	mc_init();
	do { explore(); } while (++round < 12 && S->stop == 0 && mc_round_hook && mc_round_hook());
	for (i = 0; i < nworkers; i++) {
		worker_t *w = &S->w[i];
		ex += w->execs; steps += w->steps; cases += w->cases; pruned += w->pruned; if (w->maxdepth > maxd) maxd = w->maxdepth;
	}
	/* failures: confirm by replaying alone in a fresh process */
	if (S->stop == 1) {
		int confirmed = 0, internal = 0;
		for (i = 0; i < nworkers && !confirmed; i++) {
			worker_t *w = &S->w[i]; static trail_t ts[HIST + 1]; int k, ctx; int isint = (w->failed == 2);
			if (!w->failed) continue;
			ts[0].len = w->depth; memcpy(ts[0].c, w->c, sizeof(uint16_t) * (size_t)w->depth);
			snprintf(rpath, sizeof(rpath), "%s/%s-%s.replay", replaydir, propid, mc_name);
			write_replay(rpath, ts, 1, w->msg);
			k = spawn_replay(rpath, &viol_out);
			if (k != 0 && k != 3) { confirmed = 1; }
			else {
				/* depends on what ran before in the same process: replay with the preceding executions */
				ctx = w->nhist < HIST ? w->nhist : HIST;
				if (ctx > 0 && !mc_forkmode) {
					for (j = 0; j < ctx; j++) ts[j] = w->hist[(w->nhist - ctx + j) % HIST];
					ts[ctx].len = w->depth; memcpy(ts[ctx].c, w->c, sizeof(uint16_t) * (size_t)w->depth);
					/* do_replay holds HIST trails: drop the oldest if needed */
					if (ctx + 1 > HIST) { memmove(ts, ts + 1, sizeof(ts[0]) * HIST); ctx--; }
					write_replay(rpath, ts, ctx + 1, w->msg);
					free(viol_out);
					k = spawn_replay(rpath, &viol_out);
					if (k != 0 && k != 3) confirmed = 1;
				}
			}
			if (confirmed) {
				FILE *f = fopen(rpath, "a"); char *p;
				snprintf(viol_msg, sizeof(viol_msg), "%s", w->msg);
				if ((p = strstr(viol_out, "\nFAIL: ")) || (!strncmp(viol_out, "FAIL: ", 6) && (p = viol_out - 1))) { char *e = strchr(p + 1, '\n'); snprintf(viol_msg, sizeof(viol_msg), "%.*s", (int)(e ? e - p - 7 : (long)strlen(p + 7)), p + 7); }
				else if ((p = strstr(viol_out, "ERROR: AddressSanitizer"))) { char *e = strchr(p, '\n'); snprintf(viol_msg, sizeof(viol_msg), "%.*s", (int)(e ? e - p : 200), p); }
				if (f) { fprintf(f, "---- replay output ----\n%.*s\n", 60000, viol_out); fclose(f); }
			} else if (isint) { internal = 1; fprintf(stderr, "worker %d internal error: %s\n", i, w->msg); }
			else { fprintf(stderr, "NOT REPRODUCED: %s (trail in %s)\n", w->msg, rpath); nondet++; }
		}
		if (confirmed) { rc = 1; printf("violation: %s\n", viol_msg); printf("VIOLATION property=%s replay=%s\n", propid, rpath); }
		else { rc = 2; if (internal) rc = 3; }
	}
	/* samples: replay a few executions twice, the observations must agree */
	if (rc == 0) for (i = 0; i < nworkers && nsamples < 3; i++) for (j = 0; j < S->w[i].nsample && nsamples < 3; j++) {
		char sp[4200], *o1, *o2; int a, b;
		if (i == 0 && j > 1) break;
		if (i > 0 && j != S->w[i].nsample - 1) continue;
		snprintf(sp, sizeof(sp), "%s/.%s-%s-%d.sample", replaydir, propid, mc_name, nsamples);
		write_replay(sp, &S->w[i].sample[j], 1, NULL);
		a = spawn_replay(sp, &o1); b = spawn_replay(sp, &o2);
		if (a != 0 || b != 0) { fprintf(stderr, "sample replay failed (%d,%d): %s\n", a, b, o1); nondet++; rc = 4; }
		else if (strcmp(o1, o2)) { fprintf(stderr, "sample replay diverges:\n%s\n----\n%s\n", o1, o2); nondet++; rc = 4; }
		snprintf(sampletxt[nsamples++], sizeof(sampletxt[0]), "%s", o1);
		unlink(sp); free(o1); free(o2);
	}
	for (i = 0; i < S->nknown; i++) printf("KNOWN-FINDING: property=%s %s\n", propid, S->known_seen[i]);
	if (outjson) {
		FILE *f = fopen(outjson, "w");
		if (!f) { perror(outjson); return 3; }
		fprintf(f, "{\"harness\": \"%s\", \"executions\": %llu, \"transitions\": %llu, \"cases\": %llu, \"states\": %llu, \"outcomes\": %llu, \"pruned\": %llu, \"max_choices\": %d, \"capped\": %s, \"state_table_full\": %s, \"rounds\": %d, \"wall_s\": %.2f, \"rc\": %d, \"nondet\": %d, \"params\": [",
			mc_name, (unsigned long long)ex, (unsigned long long)steps, (unsigned long long)cases, (unsigned long long)S->nstates, (unsigned long long)S->noutcomes, (unsigned long long)pruned, maxd, S->capped ? "true" : "false", S->tabfull ? "true" : "false", round, now() - t0, rc, nondet);
		for (i = 0; i < nparams; i++) { if (i) fputs(", ", f); json_str(f, params[i]); }
		fprintf(f, "], \"assumptions\": [");
		for (i = 0; mc_assume[i]; i++) { if (i) fputs(", ", f); json_str(f, mc_assume[i]); }
		fprintf(f, "], \"samples\": [");
		for (i = 0; i < nsamples; i++) { if (i) fputs(", ", f); json_str(f, sampletxt[i]); }
		fprintf(f, "], \"known\": [");
		for (i = 0; i < S->nknown; i++) { if (i) fputs(", ", f); json_str(f, S->known_seen[i]); }
		fprintf(f, "], \"violation\": "); json_str(f, viol_msg); fprintf(f, ", \"replay\": "); json_str(f, rc == 1 ? rpath : "");
		fprintf(f, "}\n"); fclose(f);
	}
	fprintf(stderr, "[%s] %llu executions, %llu transitions, %llu states, %llu outcomes, depth %d%s, %.1fs, rc %d\n", mc_name, (unsigned long long)ex, (unsigned long long)steps, (unsigned long long)S->nstates, (unsigned long long)S->noutcomes, maxd, S->capped ? " (CAPPED)" : "", now() - t0, rc);
	fflush(stdout);
	_exit(rc);
}
