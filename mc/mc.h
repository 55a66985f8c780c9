/* mc: bounded exhaustive explorer for C code.  See mc.c. */
#ifndef MC_H
#define MC_H
#include <stdint.h>
#include <stddef.h>
#include <stdarg.h>
#ifdef __cplusplus
extern "C" {
#endif

/* ---- supplied by the harness ---- */
extern const char *mc_name;          /* harness name */
void mc_init(void);                  /* once per process, before exploring */
void mc_run(void);                   /* one execution; calls mc_choose() */

/* ---- nondeterminism ---- */
int  mc_choose(int n);               /* 0..n-1, all explored */
int  mc_choose_cost(int n);          /* as mc_choose, every alternative but 0 spends one unit of the budget */
int  mc_choose_sub(int n, const uint8_t *cost); /* alternative i costs cost[i] units */
int  mc_budget_left(void);
void mc_set_budget(int n);           /* at start of an execution; default: -p budget=N or 0 */
static inline int mc_bool(void) { return mc_choose(2); }
void mc_prune(void) __attribute__((noreturn)); /* abandon this execution silently (its prefix is a duplicate) */

/* ---- verdicts and bookkeeping ---- */
void mc_fail(const char *fmt, ...) __attribute__((format(printf,1,2))) __attribute__((noreturn));
#define mc_check(c, ...) do { if (!(c)) mc_fail(__VA_ARGS__); } while (0)
extern int mc_verbose;
void mc_note_(const char *fmt, ...) __attribute__((format(printf,1,2)));
#define mc_note(...) do { if (mc_verbose) mc_note_(__VA_ARGS__); } while (0)
int  mc_state(uint64_t h);           /* record a (canonical) state; returns 1 if new */
int  mc_visit(uint64_t h, int remaining); /* 1 if h must be explored with this many steps remaining, 0 if already covered */
void mc_step(void);                  /* one transition (operation) executed on the implementation */
void mc_steps(uint64_t n);
void mc_outcome(uint64_t h);         /* distinct observed outcomes */
void mc_case(void);                  /* one more input evaluated inside an execution */
long mc_param(const char *name, long quick, long thorough);
extern int mc_thorough;
extern int mc_leakcheck;             /* set to 1 in mc_init(): every execution must free what it allocated */
extern int mc_forkmode;              /* one child process per execution (set by the scheduler) */
extern int mc_hang_secs;             /* CPU seconds after which one execution counts as a hang */
extern const char *mc_assume[16];    /* assumptions, for the evidence file */

/* hashing helpers */
static inline uint64_t mc_h64(uint64_t h, uint64_t v) { h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdULL; h ^= h >> 33; return h; }
uint64_t mc_hbytes(uint64_t h, const void *p, size_t n);
uint64_t mc_hstr(uint64_t h, const char *s);

/* known findings: returns 1 (and records the finding as seen) when `key` is listed for this property */
int  mc_known(const char *key);

/* printable rendering of bytes (static ring of buffers) */
const char *mc_esc(const void *p, size_t n);
static inline const char *mc_escs(const char *s) { size_t n = 0; if (!s) return "NULL"; while (s[n]) n++; return mc_esc(s, n); }

/* ---- fault-free internals for sched.c ---- */
void mc_internal(const char *fmt, ...) __attribute__((format(printf,1,2))) __attribute__((noreturn));
void *mc_shared_alloc(size_t n);     /* zeroed memory shared by all processes of this run; call in mc_init */
extern int mc_replaying;
extern void (*mc_prerun_hook)(void); /* called in the child/in process before each execution */
extern int (*mc_round_hook)(void);   /* called by the parent after exploration; nonzero: explore again from scratch */
extern const char *(*mc_replay_extra_save)(void);
extern void (*mc_replay_extra_load)(const char *);
#ifdef __cplusplus
}
#endif
#endif
