/* Controlled scheduler, see sched.c. */
#ifndef SCHED_H
#define SCHED_H
#include "mc.h"
/* In mc_init(): configure. */
extern int sched_unlock_points;   /* also schedule before mutex unlocks (code that uses trylock) */
extern int sched_spurious;        /* condition variables may wake up spuriously (one budget unit each) */
extern int sched_raw_create;      /* schedule inside M_thread_create()'s handshake and the thread exit path too */
extern int sched_timeouts;        /* offer early expiry of timeouts as an alternative (default 1) */
extern int sched_horizon;         /* scheduling points per execution before it counts as a livelock */
extern int sched_io_points;       /* schedule before read/write/poll (default 1) */
extern int sched_delay;           /* 1 (default): delay bounding - when the running thread blocks, the next thread in
                                     round-robin order continues for free and any other one costs a budget unit;
                                     0: every enabled thread is a free choice */
/* In mc_run(). */
void sched_begin(void);           /* main thread takes the baton; call first */
void sched_wait_all(void);        /* block until every other thread has finished */
int  sched_alive(void);           /* number of other threads not finished */
int  sched_blocked(int tid);      /* thread (creation order, main = 0) is blocked */
int  sched_self(void);            /* index of the calling thread in creation order (main = 0) */
int  sched_kind(int tid);         /* what it waits for: 0 running, 1 mutex, 2 condition, 3 join, 4 read lock, 5 write lock */
void sched_point(void);           /* explicit scheduling point */
void sched_nopreempt(int on);     /* nested */
void sched_wait(volatile int *p); /* block until *p != 0 (harness-side waiting; no happens-before edge) */
void sched_hb_off(int on);        /* harness bookkeeping: accesses are not race-checked while on */
uint64_t sched_now_ns(void);
void sched_advance_ms(uint64_t ms);
int  sched_nthreads(void);        /* threads ever created, incl. main */
int  sched_max_alive(void);
size_t sched_heap_live(void);     /* bytes allocated and not freed */
/* user handler called on deadlock instead of failing; return to fail */
extern void (*sched_deadlock_hook)(void);
#endif
