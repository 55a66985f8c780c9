From 41b47ea9db4b6e86ddf1b27c546c6451b86d4454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:15 +0000
Subject: [PATCH 001/268] fix: stable binary insert index goes after the last
 equal element

The scan for the end of a run of equal elements stopped at the upper bound left
over from the search, so inserting an element equal to a run that reaches (or
is cut off by) that bound returned an index before the last equal element,
and a stable sorted list placed later duplicates before earlier ones.
---
 base/sort/m_sort_binary.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/base/sort/m_sort_binary.c b/base/sort/m_sort_binary.c
index a6809bf..8592cca 100644
--- a/base/sort/m_sort_binary.c
+++ b/base/sort/m_sort_binary.c
@@ -142,14 +142,16 @@ static M_bool M_sort_binary_idx(const void *base, size_t nmemb, size_t esize, co
 		*idx = mid;
 	} else {
 		/* Insert after the index. */
-		if (eq > 0)
+		if (eq >= 0)
 			mid++;
 
 		/* Since we're not finding a match, that means we're probably inserting,
-		 * so we want to insert to the *end* of the identical matches */
-		while (mid < (size_t)right && eq == 0) {
-			mid++;
+		 * so we want to insert to the *end* of the identical matches.  The run of
+		 * identical values may extend past the range left by the search. */
+		while (mid < nmemb && eq == 0) {
 			eq = compar(key, (const unsigned char *)base+(mid*esize), thunk);
+			if (eq == 0)
+				mid++;
 		}
 		*idx = mid;
 	}
-- 
2.43.0


From 50dfe432505d40f7010196f9db09c2473dad320b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:11 +0000
Subject: [PATCH 002/268] fix: thread pool task lost when it is queued while an
 idle thread exits

A worker that decided to exit released the queue lock before it stopped being
counted in num_threads.  A task dispatched in that window neither spawned a
thread (the pool looked full) nor was processed, so waiting on its parent
blocked forever; several workers could also time out together and drop the
pool below min_threads.  Account for the exit under the same lock.
---
 thread/m_threadpool.c | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/thread/m_threadpool.c b/thread/m_threadpool.c
index ee0b176..c24ec61 100644
--- a/thread/m_threadpool.c
+++ b/thread/m_threadpool.c
@@ -188,6 +188,17 @@ static M_bool M_threadpool_queue_fetch(M_threadpool_t *pool, M_threadpool_queue_
 
 		pool->num_idle_threads--;
 	}
+
+	/* The caller exits if there is nothing to do.  The thread must stop being counted
+	 * before the lock is released, otherwise it could be mistaken for a thread that will
+	 * still process the queue. */
+	if (!acquired) {
+		pool->num_threads--;
+		/* On M_threadpool_destroy() it will block on queue_icond until woken up
+		 * with the thread count at 0 */
+		if (!pool->up && pool->num_threads == 0)
+			M_thread_cond_broadcast(pool->queue_icond);
+	}
 	M_thread_mutex_unlock(pool->queue_lock);
 
 	return acquired;
@@ -228,14 +239,6 @@ static void *M_threadpool_thread(void *arg)
 		M_thread_mutex_unlock(task.parent->lock);
 	}
 
-	M_thread_mutex_lock(pool->queue_lock);
-	pool->num_threads--;
-	/* On M_threadpool_destroy() it will block on queue_icond until woken up
-	 * with the thread count at 0 */
-	if (!pool->up && pool->num_threads == 0)
-		M_thread_cond_broadcast(pool->queue_icond);
-	M_thread_mutex_unlock(pool->queue_lock);
-
 	return NULL;
 }
 
-- 
2.43.0


From f65739677b422345b077b46104b97053059932f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:42 +0000
Subject: [PATCH 003/268] fix: pipeline reported wrong results for failed and
 aborted tasks

A task that failed in any step but the last one was reported as ABORT, and a
task abandoned while waiting for the next step's slot was reported as FAIL
although none of its steps failed.
---
 thread/m_thread_pipeline.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/thread/m_thread_pipeline.c b/thread/m_thread_pipeline.c
index 4bedfc4..374f4bd 100644
--- a/thread/m_thread_pipeline.c
+++ b/thread/m_thread_pipeline.c
@@ -220,8 +220,8 @@ static void pipeline_finish_step(M_thread_pipeline_step_t *step, M_thread_pipeli
 		M_thread_cond_broadcast(pipeline->cond);
 	}
 
-	/* If system went down, abort, don't pass on */
-	if (!pipeline->status && idx != pipeline->num_steps-1)
+	/* If system went down, abort, don't pass on.  A task that failed itself is still reported as failed. */
+	if (!pipeline->status && rv == M_THREAD_PIPELINE_RESULT_SUCCESS && idx != pipeline->num_steps-1)
 		rv = M_THREAD_PIPELINE_RESULT_ABORT;
 
 	/* Complete task if last step, or failure */
@@ -237,7 +237,7 @@ static void pipeline_finish_step(M_thread_pipeline_step_t *step, M_thread_pipeli
 
 	/* Make sure system is still online, if not, don't enqueue, abort! */
 	if (!pipeline->status) {
-		pipeline_finish_task(pipeline, task, M_THREAD_PIPELINE_RESULT_FAIL);
+		pipeline_finish_task(pipeline, task, M_THREAD_PIPELINE_RESULT_ABORT);
 		return;
 	}
 
-- 
2.43.0


From 4f8c2d613d048f5d758620165c30d564c4a9c4ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:42 +0000
Subject: [PATCH 004/268] fix: pipeline shutdown deadlock while a step waits
 for the next step's slot

When the pipeline goes down the next step clears its slot without notifying
the previous step, which then waited forever and M_thread_pipeline_destroy()
never returned from joining it.
---
 thread/m_thread_pipeline.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/thread/m_thread_pipeline.c b/thread/m_thread_pipeline.c
index 374f4bd..6a731ee 100644
--- a/thread/m_thread_pipeline.c
+++ b/thread/m_thread_pipeline.c
@@ -229,8 +229,9 @@ static void pipeline_finish_step(M_thread_pipeline_step_t *step, M_thread_pipeli
 		pipeline_finish_task(pipeline, task, rv);
 		return;
 	}
-	/* send to next step in pipeline */
-	while (pipeline->steps[idx+1].task != NULL) {
+	/* send to next step in pipeline. If the system goes down the next step may exit without
+	 * ever notifying us that it released its slot. */
+	while (pipeline->status && pipeline->steps[idx+1].task != NULL) {
 		/* Wait to be notified */
 		M_thread_cond_wait(step->cond, pipeline->lock);
 	}
-- 
2.43.0


From 66260da07b79f2f37cb0e5b665e5ef8f67e071b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:12 +0000
Subject: [PATCH 005/268] fix: long condition wait timeouts were truncated to
 32 bits of microseconds

---
 thread/m_thread.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/thread/m_thread.c b/thread/m_thread.c
index aa937f7..5e75b12 100644
--- a/thread/m_thread.c
+++ b/thread/m_thread.c
@@ -815,8 +815,14 @@ M_bool M_thread_cond_timedwait(M_thread_cond_t *cond, M_thread_mutex_t *mutex, M
 
 	M_time_gettimeofday(&tv);
 
-	/* Convert delay to microseconds, add to microseconds field. */
-	tv.tv_usec += (M_uint32)(millisec * 1000);
+	/* Split the delay so long delays don't overflow the microseconds field.  Clamp to
+	 * a year that can never be reached so the seconds field can't overflow either. */
+	if (millisec / 1000 > M_INT32_MAX) {
+		tv.tv_sec  += M_INT32_MAX;
+	} else {
+		tv.tv_sec  += (M_time_t)(millisec / 1000);
+		tv.tv_usec += (M_suseconds_t)((millisec % 1000) * 1000);
+	}
 
 	/* M_thread_cond_timedwait_abs() will normalize the time struct for us. */
 	return M_thread_cond_timedwait_abs(cond, mutex, &tv);
-- 
2.43.0


From 6dfb11ef15b9de9d025cf01c89f2dd4634e12f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:27 +0000
Subject: [PATCH 006/268] fix: thread creation handshake survives spurious
 condition wakeups

---
 thread/m_thread.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/thread/m_thread.c b/thread/m_thread.c
index 5e75b12..697844a 100644
--- a/thread/m_thread.c
+++ b/thread/m_thread.c
@@ -71,6 +71,7 @@ typedef struct {
 	void             *(*func)(void *arg);
 	void             *arg;
 	M_bool            joinable;
+	M_bool            ready;      /*!< Parent is done with this data, thread may continue */
 	M_threadid_t     *thread_id;  /*!< Pointer to OS thread id */
 	M_thread_cond_t  *cond;       /*!< Pointer for Conditional for signalling when OS thread id has been filled */
 	M_thread_mutex_t *mutex;      /*!< Pointer for Mutex for OS thread id filling */
@@ -101,8 +102,9 @@ static void *M_thread_wrapfunc(void *arg)
 	*(data->thread_id) = thread_cbs.thread_self(NULL);
 	M_thread_cond_signal(data->cond);
 
-	/* Wait for parent to say it is ok to continue */
-	M_thread_cond_wait(data->cond, data->mutex);
+	/* Wait for parent to say it is ok to continue (conditions can wake up spuriously) */
+	while (!data->ready)
+		M_thread_cond_wait(data->cond, data->mutex);
 
 	/* Destroy unneeded data */
 	M_thread_mutex_unlock(data->mutex);
@@ -500,6 +502,7 @@ M_threadid_t M_thread_create(const M_thread_attr_t *attr, void *(*func)(void *),
 	data->mutex     = mutex;
 	data->thread_id = &id;
 	data->joinable  = M_thread_attr_get_create_joinable(attr);
+	data->ready     = M_FALSE;
 
 	/* ensure an attr is created so threads are setup properly (in a detachted state by default). */
 	if (attr == NULL) {
@@ -521,8 +524,10 @@ M_threadid_t M_thread_create(const M_thread_attr_t *attr, void *(*func)(void *),
 		return 0;
 	}
 
-	/* Wait to be signaled that the thread id has been set by the thread */
-	M_thread_cond_wait(cond, mutex);
+	/* Wait to be signaled that the thread id has been set by the thread (conditions can
+	 * wake up spuriously) */
+	while (id == 0)
+		M_thread_cond_wait(cond, mutex);
 
 	/* Add to thread map */
 	M_thread_mutex_lock(threadid_mutex);
@@ -540,6 +545,7 @@ M_threadid_t M_thread_create(const M_thread_attr_t *attr, void *(*func)(void *),
 
 	/* Signal thread its ok to continue as we've recorded the necessary information
 	 * NOTE:  it is the responsibility of the thread to destroy cond and mutex */
+	data->ready = M_TRUE;
 	M_thread_cond_signal(cond);
 	M_thread_mutex_unlock(mutex);
 
-- 
2.43.0


From be53b51818cc0a196437cbc62309cd950c337aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:33 +0000
Subject: [PATCH 007/268] fix: writer preference of read/write locks was never
 enabled

---
 thread/m_thread_pthread.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/thread/m_thread_pthread.c b/thread/m_thread_pthread.c
index ad914f7..cbd13ae 100644
--- a/thread/m_thread_pthread.c
+++ b/thread/m_thread_pthread.c
@@ -562,7 +562,8 @@ static M_thread_rwlock_t *M_thread_pthread_rwlock_create(void)
 	int                   ret;
 
 	pthread_rwlockattr_init(&attr);
-#if defined(HAVE_PTHREAD_RWLOCKATTR_SETKIND_NP) && defined(PTHREAD_RWLOCK_PREFER_WRITER_NONRECURSIVE_NP)
+	/* NOTE: PTHREAD_RWLOCK_PREFER_WRITER_NONRECURSIVE_NP is an enum value, not a macro */
+#ifdef HAVE_PTHREAD_RWLOCKATTR_SETKIND_NP
 	pthread_rwlockattr_setkind_np(&attr, PTHREAD_RWLOCK_PREFER_WRITER_NONRECURSIVE_NP);
 #endif
 
-- 
2.43.0


From c07714b5c2ca263d182a88ab0e0bf0cf1c6421e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:58 +0000
Subject: [PATCH 008/268] fix: sorted linked list inserts equal elements in
 insertion order

---
 base/list/m_llist.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/list/m_llist.c b/base/list/m_llist.c
index 7d1a75f..b63651a 100644
--- a/base/list/m_llist.c
+++ b/base/list/m_llist.c
@@ -254,7 +254,7 @@ static M_bool M_llist_insert_sorted(M_llist_node_t *node)
 		if (n1 != NULL) {
 			/* At the current level, scan forward to find the insertion point.  Our
 			 * node will be appended to the node found */
-			while (n1->links.sorted.next[i] != NULL && d->equality(&(node->val), &(n1->links.sorted.next[i]->val), d->equality_thunk) > 0) {
+			while (n1->links.sorted.next[i] != NULL && d->equality(&(node->val), &(n1->links.sorted.next[i]->val), d->equality_thunk) >= 0) {
 				n1 = n1->links.sorted.next[i];
 			}
 		}
-- 
2.43.0


From e1f7390f3ad29492b7d8ab21a09a75b111cb8cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:43 +0000
Subject: [PATCH 009/268] fix: removing an IO object from another thread wakes
 an exit-on-empty event loop

---
 io/m_event.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/io/m_event.c b/io/m_event.c
index c417479..763a705 100644
--- a/io/m_event.c
+++ b/io/m_event.c
@@ -765,6 +765,9 @@ void M_event_remove(M_io_t *io)
 	M_hashtable_remove(event->u.loop.reg_ios, io, M_TRUE);
 	M_event_queue_pending_clear(event, io);
 
+	/* The loop may need to exit if this was its last object (M_EVENT_FLAG_EXITONEMPTY) */
+	M_event_wake(event);
+
 	M_event_unlock(event);
 //M_printf("%s(): event %p io %p exit\n", __FUNCTION__, event, io);
 
-- 
2.43.0


From d8dd99471024dbb8a0f3e77af01cba6daa8956eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:52 +0000
Subject: [PATCH 010/268] fix: queued timer removal examined the timer list
 without holding the event lock

---
 io/m_event_timer.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/io/m_event_timer.c b/io/m_event_timer.c
index ea8c773..9a3f89e 100644
--- a/io/m_event_timer.c
+++ b/io/m_event_timer.c
@@ -200,11 +200,15 @@ static void M_event_timer_remove_cb(M_event_t *event, M_event_type_t type, M_io_
 	(void)type;
 	(void)io;
 
-	/* Destroyed out from under us */
-	if (!M_queue_exists(event->u.loop.timers, timer))
-		return;
+	/* Callbacks are executed without holding the lock, but other threads may be
+	 * adding timers */
+	M_event_lock(event);
+
+	/* Might have been destroyed out from under us */
+	if (M_queue_exists(event->u.loop.timers, timer))
+		M_event_timer_remove(timer);
 
-	M_event_timer_remove(timer);
+	M_event_unlock(event);
 }
 
 
-- 
2.43.0


From 464dcbbe4817e431c3eada5e23979b75641edf57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:21 +0000
Subject: [PATCH 011/268] fix: a failed start of a running timer made it fire
 at once

---
 io/m_event_timer.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/io/m_event_timer.c b/io/m_event_timer.c
index 9a3f89e..50bdf00 100644
--- a/io/m_event_timer.c
+++ b/io/m_event_timer.c
@@ -290,7 +290,9 @@ static M_bool M_event_timer_schedule(M_event_timer_t *timer)
 
 M_bool M_event_timer_start(M_event_timer_t *timer, M_uint64 interval_ms)
 {
-	M_bool rv;
+	M_uint64    last_interval_ms;
+	M_timeval_t last_next_run;
+	M_bool      rv;
 
 	if (timer == NULL || timer->event == NULL || interval_ms > INTERVAL_MAX) {
 		return M_FALSE;
@@ -299,11 +301,13 @@ M_bool M_event_timer_start(M_event_timer_t *timer, M_uint64 interval_ms)
 	M_event_lock(timer->event);
 	if (!timer->executing) /* Recursion! */
 		M_event_timer_dequeue(timer);
+	last_interval_ms   = timer->interval_ms;
+	last_next_run      = timer->next_run;
 	timer->interval_ms = interval_ms;
-	timer->cnt         = 0;
 	M_mem_set(&timer->next_run, 0, sizeof(timer->next_run));
 	rv = M_event_timer_schedule(timer);
 	if (rv) {
+		timer->cnt = 0;
 //M_printf("%s(): timer %p started for %llu ms\n", __FUNCTION__, timer, interval_ms); fflush(stdout);
 		timer->started = M_TRUE;
 		if (!timer->executing) { /* Recursion! */
@@ -311,6 +315,9 @@ M_bool M_event_timer_start(M_event_timer_t *timer, M_uint64 interval_ms)
 			M_event_wake(timer->event);
 		}
 	} else {
+		/* Leave the timer as it was */
+		timer->interval_ms = last_interval_ms;
+		timer->next_run    = last_next_run;
 		if (!timer->executing) /* Recursion! */
 			M_event_timer_enqueue(timer);
 	}
-- 
2.43.0


From f8f03e278960494960f66b3136942976ce3d80d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:30 +0000
Subject: [PATCH 012/268] fix: timer start time was applied to an already
 running timer

---
 io/m_event_timer.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/io/m_event_timer.c b/io/m_event_timer.c
index 50bdf00..b26dcd1 100644
--- a/io/m_event_timer.c
+++ b/io/m_event_timer.c
@@ -245,7 +245,7 @@ static M_bool M_event_timer_tvset(M_timeval_t *tv)
 }
 
 
-static M_bool M_event_timer_schedule(M_event_timer_t *timer)
+static M_bool M_event_timer_schedule(M_event_timer_t *timer, M_bool is_start)
 {
 	M_uint64 add_ms = 0;
 
@@ -258,8 +258,9 @@ static M_bool M_event_timer_schedule(M_event_timer_t *timer)
 		M_time_elapsed_start(&timer->next_run);
 	}
 
-	/* If a start offset is set, go ahead and figure out how far in the future it is */
-	if (M_event_timer_tvset(&timer->start_tv)) {
+	/* If a start offset is set, go ahead and figure out how far in the future it is.  It
+	 * only applies when (re)started, not to a timer that is already running */
+	if (is_start && M_event_timer_tvset(&timer->start_tv)) {
 		M_int64     time_ms;
 		M_timeval_t tv;
 
@@ -305,7 +306,7 @@ M_bool M_event_timer_start(M_event_timer_t *timer, M_uint64 interval_ms)
 	last_next_run      = timer->next_run;
 	timer->interval_ms = interval_ms;
 	M_mem_set(&timer->next_run, 0, sizeof(timer->next_run));
-	rv = M_event_timer_schedule(timer);
+	rv = M_event_timer_schedule(timer, M_TRUE);
 	if (rv) {
 		timer->cnt = 0;
 //M_printf("%s(): timer %p started for %llu ms\n", __FUNCTION__, timer, interval_ms); fflush(stdout);
@@ -606,7 +607,7 @@ void M_event_timer_process(M_event_t *event)
 
 		/* Reschedule */
 		if (timer->started)
-			M_event_timer_schedule(timer);
+			M_event_timer_schedule(timer, M_FALSE);
 
 		/* re-enqueue */
 		M_event_timer_enqueue(timer);
-- 
2.43.0


From 1f4ed8ae996aa2800edea68825920e8c97b9e4dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:57 +0000
Subject: [PATCH 013/268] fix: timer started from its own callback was
 scheduled twice

---
 io/m_event_timer.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/io/m_event_timer.c b/io/m_event_timer.c
index b26dcd1..3bb89df 100644
--- a/io/m_event_timer.c
+++ b/io/m_event_timer.c
@@ -45,6 +45,7 @@ struct M_event_timer {
 	/* State data */
 	M_event_t           *event;
 	M_bool               started;
+	M_bool               restarted;    /* Started from within its own callback, next_run is already set */
 	size_t               cnt;
 	M_timeval_t          next_run;     /* Next run, based on M_time_elapse_start() */
 	M_timeval_t          last_run;     /* Last run time, to prevent starvation of other tasks */
@@ -310,7 +311,8 @@ M_bool M_event_timer_start(M_event_timer_t *timer, M_uint64 interval_ms)
 	if (rv) {
 		timer->cnt = 0;
 //M_printf("%s(): timer %p started for %llu ms\n", __FUNCTION__, timer, interval_ms); fflush(stdout);
-		timer->started = M_TRUE;
+		timer->started   = M_TRUE;
+		timer->restarted = timer->executing;
 		if (!timer->executing) { /* Recursion! */
 			M_event_timer_enqueue(timer);
 			M_event_wake(timer->event);
@@ -605,10 +607,12 @@ void M_event_timer_process(M_event_t *event)
 		 * tasks ready to run immediately, thus starving them */
 		M_time_elapsed_start(&timer->last_run);
 
-		/* Reschedule */
-		if (timer->started)
+		/* Reschedule, unless the callback already did so by starting the timer */
+		if (timer->started && !timer->restarted)
 			M_event_timer_schedule(timer, M_FALSE);
 
+		timer->restarted = M_FALSE;
+
 		/* re-enqueue */
 		M_event_timer_enqueue(timer);
 
-- 
2.43.0


From ce2b7317ebdfa22acc15ba17374381db7e8c2d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:01 +0000
Subject: [PATCH 014/268] fix: M_hashtable_multi_remove keeps the value count
 in step

Removing one of several values of a key left num_values unchanged, so
M_hashtable_enumerate() kept announcing items which no longer exist.
---
 base/hash/m_hashtable.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/base/hash/m_hashtable.c b/base/hash/m_hashtable.c
index 0d1bf5b..bf69f9f 100644
--- a/base/hash/m_hashtable.c
+++ b/base/hash/m_hashtable.c
@@ -682,6 +682,7 @@ M_bool M_hashtable_multi_remove(M_hashtable_t *h, const void *key, size_t idx, M
 		return M_hashtable_remove(h, key, destroy_vals);
 
 	value = M_list_take_at(entry->value.multi_value, idx);
+	h->num_values--;
 	if (destroy_vals)
 		h->value_free(value);
 
-- 
2.43.0


From 8f1b38a177607dac7b5782e4d612177988f31725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:45 +0000
Subject: [PATCH 015/268] fix: M_hashtable_merge of tables with sorted
 multi-values frees duplicate keys

The temporary key tables inherited MULTI_SORTED without a value equality
callback, so creating them failed and keys already in dest leaked.
---
 base/hash/m_hashtable.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/base/hash/m_hashtable.c b/base/hash/m_hashtable.c
index bf69f9f..9cb102b 100644
--- a/base/hash/m_hashtable.c
+++ b/base/hash/m_hashtable.c
@@ -898,9 +898,10 @@ void M_hashtable_merge(M_hashtable_t **dest, M_hashtable_t *src)
 	callbacks.key_duplicate_insert   = src->key_duplicate_insert;
 	callbacks.key_duplicate_copy     = src->key_duplicate_copy;
 	callbacks.key_free               = src->key_free;
-	h3 = M_hashtable_create(src->size, src->fillpct, src->key_hash, src->key_equality, src->flags, &callbacks);
+	/* Only keys are tracked so value sorting (which needs a value equality callback) must not be requested. */
+	h3 = M_hashtable_create(src->size, src->fillpct, src->key_hash, src->key_equality, src->flags & (M_uint32)~M_HASHTABLE_MULTI_SORTED, &callbacks);
 	/* hm is for tracking keys that have been put into other hashtables. We don't want anything freed. */
-	hm = M_hashtable_create(src->size, src->fillpct, src->key_hash, src->key_equality, src->flags, NULL);
+	hm = M_hashtable_create(src->size, src->fillpct, src->key_hash, src->key_equality, src->flags & (M_uint32)~M_HASHTABLE_MULTI_SORTED, NULL);
 
 	/* Since will be doing direct pointer copying of keys and values,
 	 * rather than reallocing and freeing the old ones.  Make sure
-- 
2.43.0


From 656764cbe23683b711c3b1b39dfc4241bc7239bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:56 +0000
Subject: [PATCH 016/268] fix: M_str_explode_quoted honours an escaped escape
 character before a quote

A section such as "a\\" (an escaped backslash before the closing quote)
was taken as not terminated, so dictionaries serialized with values
ending in the escape character did not deserialize to the same value.
---
 base/data/m_str.c | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/base/data/m_str.c b/base/data/m_str.c
index cfc864e..3bc727b 100644
--- a/base/data/m_str.c
+++ b/base/data/m_str.c
@@ -973,6 +973,23 @@ char **M_str_explode_lines(size_t max_lines, size_t max_chars, const char *src_s
 	return out;
 }
 
+/*! Whether the character at idx is escaped. An escape character that is itself escaped does not escape
+ *  the character following it. */
+static M_bool M_str_explode_is_escaped(const char *s, size_t idx, unsigned char escape_char)
+{
+	M_bool escaped = M_FALSE;
+
+	if (escape_char == 0)
+		return M_FALSE;
+
+	while (idx > 0 && (unsigned char)s[idx-1] == escape_char) {
+		escaped = !escaped;
+		idx--;
+	}
+	return escaped;
+}
+
+
 char **M_str_explode_quoted(unsigned char delim, const char *s, size_t s_len, unsigned char quote_char, unsigned char escape_char, size_t max_sects, size_t *num, size_t **len_array)
 {
 	size_t          i;
@@ -1005,7 +1022,7 @@ char **M_str_explode_quoted(unsigned char delim, const char *s, size_t s_len, un
 			if (quote_char == escape_char && dupstr[i+1] == quote_char) {
 				i++;
 				continue;
-			} else if (escape_char != 0 && quote_char != escape_char && i > 0 && dupstr[i-1] == escape_char) {
+			} else if (quote_char != escape_char && M_str_explode_is_escaped(dupstr, i, escape_char)) {
 				continue;
 			} else if (on_quote) {
 				on_quote = M_FALSE;
@@ -1041,7 +1058,7 @@ char **M_str_explode_quoted(unsigned char delim, const char *s, size_t s_len, un
 			if (quote_char == escape_char && dupstr[i+1] == quote_char) {
 				i++;
 				continue;
-			} else if (escape_char != 0 && quote_char != escape_char && i > 0 && dupstr[i-1] == escape_char) {
+			} else if (quote_char != escape_char && M_str_explode_is_escaped(dupstr, i, escape_char)) {
 				continue;
 			} else if (on_quote) {
 				on_quote = M_FALSE;
-- 
2.43.0


From 3c1753437eee427cc2eb753450e2e6f717111773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:05 +0000
Subject: [PATCH 017/268] fix: M_hash_dict_serialize hex-encodes bytes above
 0x7F as two digits

The char was sign extended, giving [FFFFFFE9] instead of [E9].
---
 base/hash/m_hash_dict.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/hash/m_hash_dict.c b/base/hash/m_hash_dict.c
index bfa7d61..533e8b7 100644
--- a/base/hash/m_hash_dict.c
+++ b/base/hash/m_hash_dict.c
@@ -353,7 +353,7 @@ M_bool M_hash_dict_serialize_buf(const M_hash_dict_t *dict, M_buf_t *buf, char d
 					M_buf_add_byte(buf, (unsigned char)escape);
 
 				if (!M_chr_isprint(*val) && flags & M_HASH_DICT_SER_FLAG_HEXENCODE_NONPRINT) {
-					M_bprintf(buf, "[%02X]", (unsigned int)*val);
+					M_bprintf(buf, "[%02X]", (unsigned int)(unsigned char)*val);
 				} else {
 					M_buf_add_byte(buf, (unsigned char)*val);
 				}
-- 
2.43.0


From 54a5ba91fc6b043fa3defd95d64dd1a0f2f10c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:42 +0000
Subject: [PATCH 018/268] fix: M_list_insert_at appends when the index is past
 the end and honours stack order

---
 base/list/m_list.c | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/base/list/m_list.c b/base/list/m_list.c
index 1c4ea1f..3e7f205 100644
--- a/base/list/m_list.c
+++ b/base/list/m_list.c
@@ -94,14 +94,13 @@ static __inline__ size_t M_list_convert_idx_at(const M_list_t *d, size_t idx)
 
 static __inline__ size_t M_list_convert_idx_insert(const M_list_t *d, size_t idx)
 {
-	size_t new_idx;
-
 	if (d == NULL || d->elements == 0)
 		return 0;
-	new_idx = M_list_convert_idx_at(d, idx);
+	if (idx > d->elements)
+		idx = d->elements;
 	if (!(d->flags & M_LIST_STACK))
-		return new_idx;
-	return new_idx+1;
+		return idx;
+	return d->elements-idx;
 }
 
 static void M_list_shift_data(M_list_t *d, M_bool force)
@@ -497,7 +496,7 @@ M_bool M_list_insert_at(M_list_t *d, const void *val, size_t idx)
 	if ((d->flags & M_LIST_SORTED) && !d->multi_insert) {
 		return M_FALSE;
 	}
-	return M_list_insert_at_int(d, val, M_list_convert_idx_at(d, idx), M_LIST_INSERT_INITIAL|M_LIST_INSERT_DUP);
+	return M_list_insert_at_int(d, val, M_list_convert_idx_insert(d, idx), M_LIST_INSERT_INITIAL|M_LIST_INSERT_DUP);
 }
 
 void M_list_insert_begin(M_list_t *d)
-- 
2.43.0


From 4c07d7ac7b0a719f89226eed3ec63294c799bc1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:42 +0000
Subject: [PATCH 019/268] fix: M_list_remove_val removed the wrong elements of
 a stack

---
 base/list/m_list.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/list/m_list.c b/base/list/m_list.c
index 3e7f205..e0a5282 100644
--- a/base/list/m_list.c
+++ b/base/list/m_list.c
@@ -351,7 +351,7 @@ static size_t M_list_match_op_val_int(M_list_t *d, const void *val, const void *
 				d->value_free(d->start[i]);
 				d->start[i] = ptr;
 			} else if (match_op == M_LIST_MATCH_OP_REMOVE) {
-				M_list_remove_at(d, i);
+				M_list_remove_at(d, M_list_convert_idx_at(d, i));
 			}
 			cnt++;
 		}
-- 
2.43.0


From 30f11d8af95fda0b6d8f365597209fa218c3a79b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:42 +0000
Subject: [PATCH 020/268] fix: M_list_remove_range of a stack used a reversed
 range

---
 base/list/m_list.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/base/list/m_list.c b/base/list/m_list.c
index e0a5282..6418ebc 100644
--- a/base/list/m_list.c
+++ b/base/list/m_list.c
@@ -707,16 +707,24 @@ size_t M_list_remove_val(M_list_t *d, const void *val, M_uint32 type)
 M_bool M_list_remove_range(M_list_t *d, size_t start, size_t end)
 {
 	size_t i;
+	size_t temp;
 	M_bool remove_to_end = M_FALSE;
 
 	if (d == NULL || start > end || start >= d->elements)
 		return M_FALSE;
 
+	if (end >= d->elements)
+		end = d->elements-1;
+
 	start = M_list_convert_idx_at(d, start);
 	end   = M_list_convert_idx_at(d, end);
 
-	if (end >= d->elements)
-		end = d->elements-1;
+	/* A stack is stored in reverse so the range is too. */
+	if (start > end) {
+		temp  = start;
+		start = end;
+		end   = temp;
+	}
 
 	if (end == d->elements-1)
 		remove_to_end = M_TRUE;
-- 
2.43.0


From 31b8a780fc8d63083f420f539b231d3540812b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:42 +0000
Subject: [PATCH 021/268] fix: M_list_remove_duplicates of a sorted list
 removed a distinct element

---
 base/list/m_list.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/base/list/m_list.c b/base/list/m_list.c
index 6418ebc..1487a87 100644
--- a/base/list/m_list.c
+++ b/base/list/m_list.c
@@ -782,8 +782,8 @@ void M_list_remove_duplicates(M_list_t *d, M_uint32 type)
 					;
 				/* We want to do a bulk remove since the duplicates will be contiguous and one move
 				 * operation will be faster than multiple. */
-				if (j > i)
-					M_list_remove_range(d, M_list_convert_idx_at(d, i+1), M_list_convert_idx_at(d, j));
+				if (j > i+1)
+					M_list_remove_range(d, i+1, j-1);
 			}
 		}
 	/* O(n^2) because we're unsorted so insertion order is assumed and we want to maintain the insertion order. */
-- 
2.43.0


From b5ca19a9a0a000f430f5674cc9612c9574150065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:42 +0000
Subject: [PATCH 022/268] fix: removing all pointer matches from a sorted list
 removed a wrong element

---
 base/list/m_list.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/base/list/m_list.c b/base/list/m_list.c
index 1487a87..52c73cb 100644
--- a/base/list/m_list.c
+++ b/base/list/m_list.c
@@ -291,6 +291,9 @@ static size_t M_list_match_op_val_int(M_list_t *d, const void *val, const void *
 					if (val == d->start[i]) {
 						if (match_op == M_LIST_MATCH_OP_REMOVE || match_op == M_LIST_MATCH_OP_REPLACE) {
 							M_list_remove_at(d, i);
+							/* The match we started from has moved down. */
+							start--;
+							end--;
 						}
 						cnt++;
 					}
-- 
2.43.0


From a2860420594cb5416c5a40bb3271bfdd4b756ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:42 +0000
Subject: [PATCH 023/268] fix: list comparisons always receive the list's thunk

---
 base/list/m_list.c | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/base/list/m_list.c b/base/list/m_list.c
index 52c73cb..e1c6768 100644
--- a/base/list/m_list.c
+++ b/base/list/m_list.c
@@ -436,7 +436,7 @@ void M_list_change_sorting(M_list_t *d, M_sort_compar_t equality, M_uint32 sorte
 	/* Nothing is changing */
 	if ((sorted_flags & M_LIST_SORTED) == (d->flags & M_LIST_SORTED)     &&
 			(sorted_flags & M_LIST_STABLE) == (d->flags & M_LIST_STABLE) &&
-			equality == d->equality)
+			equality == d->equality && thunk == d->thunk)
 	{
 		return;
 	}
@@ -570,7 +570,7 @@ M_bool M_list_index_of(const M_list_t *d, const void *val, M_uint32 type, size_t
 			/* Scan up if we don't have a match for entries that also match the value. */
 			if (!ret) {
 				for (i=(*idx)+1; i<d->elements; i++) {
-					if (d->equality(&val, &d->start[i], NULL) != 0) {
+					if (d->equality(&val, &d->start[i], d->thunk) != 0) {
 						break;
 					}
 					if (val == d->start[i]) {
@@ -583,7 +583,7 @@ M_bool M_list_index_of(const M_list_t *d, const void *val, M_uint32 type, size_t
 			/* Scan down if we don't have a match for entries that also match the value. */
 			if (!ret) {
 				for (i=*idx; i-->0; ) {
-					if (d->equality(&val, &d->start[i], NULL) != 0) {
+					if (d->equality(&val, &d->start[i], d->thunk) != 0) {
 						break;
 					}
 					if (val == d->start[i]) {
@@ -609,7 +609,7 @@ M_bool M_list_index_of(const M_list_t *d, const void *val, M_uint32 type, size_t
 				return M_TRUE;
 			}
 		} else {
-			if (d->equality(&val, &d->start[i], NULL) == 0) {
+			if (d->equality(&val, &d->start[i], d->thunk) == 0) {
 				*idx = M_list_convert_idx_at(d, i);
 				return M_TRUE;
 			}
@@ -772,7 +772,7 @@ void M_list_remove_duplicates(M_list_t *d, M_uint32 type)
 			if (type & M_LIST_MATCH_PTR) {
 				/* Matching pointers means we have to find each individual match and remove it. */
 				/* Only look forward until we run out of matches because matches will be adjacent. */
-				for (j=i+1; j<d->elements && d->equality(&d->start[i], &d->start[j], NULL) == 0; j++) {
+				for (j=i+1; j<d->elements && d->equality(&d->start[i], &d->start[j], d->thunk) == 0; j++) {
 					/* Only remove if the pointer actually matches. */
 					if (d->start[i] == d->start[j]) {
 						M_list_remove_at(d, M_list_convert_idx_at(d, j));
@@ -781,7 +781,7 @@ void M_list_remove_duplicates(M_list_t *d, M_uint32 type)
 				}
 			} else {
 				/* Matching values means we can find where the value starts and ends an only remove the range. */
-				for (j=i+1; j<d->elements && d->equality(&d->start[i], &d->start[j], NULL) == 0; j++)
+				for (j=i+1; j<d->elements && d->equality(&d->start[i], &d->start[j], d->thunk) == 0; j++)
 					;
 				/* We want to do a bulk remove since the duplicates will be contiguous and one move
 				 * operation will be faster than multiple. */
@@ -793,7 +793,7 @@ void M_list_remove_duplicates(M_list_t *d, M_uint32 type)
 	} else {
 		for (i=0; i<d->elements; i++) {
 			for (j=i+1; j<d->elements; j++) {
-				if ((!(type & M_LIST_MATCH_PTR) && d->equality(&d->start[i], &d->start[j], NULL) == 0) || (type & M_LIST_MATCH_PTR && d->start[i] == d->start[j])) {
+				if ((!(type & M_LIST_MATCH_PTR) && d->equality(&d->start[i], &d->start[j], d->thunk) == 0) || (type & M_LIST_MATCH_PTR && d->start[i] == d->start[j])) {
 					M_list_remove_at(d, M_list_convert_idx_at(d, j));
 					/* Need to ensure we don't skip anything. We've removed item at j and the item after
  					 * as shifted to fill j. We need to decrement j so the for loop will increment j and
@@ -854,6 +854,7 @@ M_list_t *M_list_duplicate(const M_list_t *d)
 	callbacks.duplicate_copy   = d->duplicate_copy;
 	callbacks.value_free       = d->value_free;
 	dupd = M_list_create(&callbacks, d->flags);
+	dupd->thunk = d->thunk;
 
 	M_list_insert_begin(dupd);
 	for (i=0; i<d->elements; i++) {
@@ -889,6 +890,7 @@ static void M_list_merge_int(M_list_t **dest, M_list_t *src, const M_list_t *dup
 		callbacks.duplicate_copy   = src->duplicate_copy;
 		callbacks.value_free       = src->value_free;
 		*dest = M_list_create(&callbacks, src->flags);
+		(*dest)->thunk = src->thunk;
 	}
 
 	/* If dest is a set we're never going to include duplicates. */
-- 
2.43.0


From 2508f4a8b39a305b94c41c20afa43bc91fb612ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:42 +0000
Subject: [PATCH 024/268] fix: M_list_swap rejects an index past the end and
 honours stack order

---
 base/list/m_list.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/base/list/m_list.c b/base/list/m_list.c
index e1c6768..ef4fa98 100644
--- a/base/list/m_list.c
+++ b/base/list/m_list.c
@@ -827,9 +827,12 @@ M_bool M_list_swap(M_list_t *d, size_t idx1, size_t idx2)
 {
 	void *temp;
 
-	if (d == NULL || d->elements == 0 || (d->flags & M_LIST_SORTED) || idx1 == idx2 || idx1 > d->elements || idx2 > d->elements)
+	if (d == NULL || d->elements == 0 || (d->flags & M_LIST_SORTED) || idx1 == idx2 || idx1 >= d->elements || idx2 >= d->elements)
 		return M_FALSE;
 
+	idx1 = M_list_convert_idx_at(d, idx1);
+	idx2 = M_list_convert_idx_at(d, idx2);
+
 	temp           = d->start[idx1];
 	d->start[idx1] = d->start[idx2];
 	d->start[idx2] = temp;
-- 
2.43.0


From 3fb28faca2015fc4e106d4499d12440ed5d9bf96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:12 +0000
Subject: [PATCH 025/268] fix: wrapped binary comparison ignored the end of the
 data and read uninitialised bytes

---
 base/sort/m_sort_compar.c | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/base/sort/m_sort_compar.c b/base/sort/m_sort_compar.c
index f60d5d5..eb5666d 100644
--- a/base/sort/m_sort_compar.c
+++ b/base/sort/m_sort_compar.c
@@ -79,10 +79,10 @@ int M_sort_compar_u64_desc(const void *arg1, const void *arg2, void *thunk)
 
 int M_sort_compar_binwraped(const void *arg1, const void *arg2, void *thunk)
 {
-	M_uint8 *val1;
-	M_uint8 *val2;
-	size_t   len1;
-	size_t   len2;
+	const M_uint8 *val1;
+	const M_uint8 *val2;
+	size_t         len1;
+	size_t         len2;
 
 	(void)thunk;
 
@@ -93,12 +93,10 @@ int M_sort_compar_binwraped(const void *arg1, const void *arg2, void *thunk)
 	if (arg2 == NULL)
 		return 1;
 
-	val1 = *(M_uint8 * const *)arg1;
-	val2 = *(M_uint8 * const *)arg2;
-	M_mem_copy(&len1, val1, sizeof(len1));
-	M_mem_copy(&len2, val2, sizeof(len1));
+	val1 = M_bin_unwrap(*(M_uint8 * const *)arg1, &len1);
+	val2 = M_bin_unwrap(*(M_uint8 * const *)arg2, &len2);
 
-	return M_mem_cmpsort(val1, len1+sizeof(len1), val2, len2+sizeof(len2));
+	return M_mem_cmpsort(val1, len1, val2, len2);
 }
 
 /* - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - */
-- 
2.43.0


From 65f91beab4a12a16b73160f748f52318985a3556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:12 +0000
Subject: [PATCH 026/268] fix: M_list_u64_insert_idx compared a pointer instead
 of the value

---
 base/list/m_list_u64.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/list/m_list_u64.c b/base/list/m_list_u64.c
index e0d36d0..9c31968 100644
--- a/base/list/m_list_u64.c
+++ b/base/list/m_list_u64.c
@@ -108,7 +108,7 @@ M_bool M_list_u64_insert(M_list_u64_t *d, M_uint64 val)
 
 size_t M_list_u64_insert_idx(const M_list_u64_t *d, M_uint64 *val)
 {
-	return M_list_insert_idx((const M_list_t *)d, &val);
+	return M_list_insert_idx((const M_list_t *)d, val);
 }
 
 M_bool M_list_u64_insert_at(M_list_u64_t *d, M_uint64 val, size_t idx)
-- 
2.43.0


From 1295bf3aa15471c61fe85d5484de16d48efa5aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:12 +0000
Subject: [PATCH 027/268] fix: M_list_bin leaked values rejected by the list

---
 base/list/m_list_bin.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/base/list/m_list_bin.c b/base/list/m_list_bin.c
index 7e82aaf..b156b14 100644
--- a/base/list/m_list_bin.c
+++ b/base/list/m_list_bin.c
@@ -73,7 +73,11 @@ void M_list_bin_destroy(M_list_bin_t *d)
 M_bool M_list_bin_insert(M_list_bin_t *d, const M_uint8 *val, size_t len)
 {
 	M_uint8 *duped_val = M_bin_wrap(val, len);
-	return M_list_insert((M_list_t *)d, duped_val);
+	M_bool   ret       = M_list_insert((M_list_t *)d, duped_val);
+
+	if (!ret)
+		M_free(duped_val);
+	return ret;
 }
 
 size_t M_list_bin_insert_idx(const M_list_bin_t *d, const M_uint8 *val, size_t len)
@@ -91,7 +95,11 @@ size_t M_list_bin_insert_idx(const M_list_bin_t *d, const M_uint8 *val, size_t l
 M_bool M_list_bin_insert_at(M_list_bin_t *d, const M_uint8 *val, size_t len, size_t idx)
 {
 	M_uint8 *duped_val = M_bin_wrap(val, len);
-	return M_list_insert_at((M_list_t *)d, duped_val, idx);
+	M_bool   ret       = M_list_insert_at((M_list_t *)d, duped_val, idx);
+
+	if (!ret)
+		M_free(duped_val);
+	return ret;
 }
 
 /* - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - */
-- 
2.43.0


From 7baccc11fada6396d2a8fdba33154d9037bafce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:12 +0000
Subject: [PATCH 028/268] fix: M_list_replace_at could put a duplicate into a
 set

---
 base/list/m_list.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/base/list/m_list.c b/base/list/m_list.c
index ef4fa98..bd31f20 100644
--- a/base/list/m_list.c
+++ b/base/list/m_list.c
@@ -812,10 +812,19 @@ size_t M_list_replace_val(M_list_t *d, const void *val, const void *new_val, M_u
 
 M_bool M_list_replace_at(M_list_t *d, const void *val, size_t idx)
 {
+	size_t cur_idx;
+
 	if (d == NULL || idx >= d->elements || ((d->flags & M_LIST_SORTED) && !d->multi_insert)) {
 		return M_FALSE;
 	}
 
+	/* A set can't have the value a second time at another position. */
+	if (d->flags & (M_LIST_SET_VAL|M_LIST_SET_PTR) &&
+		M_list_index_of(d, val, (d->flags&M_LIST_SET_PTR)?M_LIST_MATCH_PTR:M_LIST_MATCH_VAL, &cur_idx) && cur_idx != idx)
+	{
+		return M_FALSE;
+	}
+
 	idx = M_list_convert_idx_at(d, idx);
 
 	d->value_free(d->start[idx]);
-- 
2.43.0


From 646f09da7c06a97d26b00eb87d1021a79724de61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:43 +0000
Subject: [PATCH 029/268] fix: unsorted string lists ignored the case
 insensitive flag

---
 base/list/m_list_str.c  | 6 +++---
 base/list/m_llist_str.c | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/base/list/m_list_str.c b/base/list/m_list_str.c
index 586343f..117959f 100644
--- a/base/list/m_list_str.c
+++ b/base/list/m_list_str.c
@@ -36,10 +36,10 @@ static void M_list_str_get_sorting(M_list_str_flags_t flags, M_sort_compar_t *eq
 {
 	*equality = M_sort_compar_str;
 
-	if (flags & M_LIST_STR_CASECMP && flags & M_LIST_STR_SORTASC) {
-		*equality = M_sort_compar_str_casecmp;
-	} else if (flags & M_LIST_STR_CASECMP && flags & M_LIST_STR_SORTDESC) {
+	if (flags & M_LIST_STR_CASECMP && flags & M_LIST_STR_SORTDESC) {
 		*equality = M_sort_compar_str_casecmp_desc;
+	} else if (flags & M_LIST_STR_CASECMP) {
+		*equality = M_sort_compar_str_casecmp;
 	} else if (flags & M_LIST_STR_SORTDESC) {
 		*equality = M_sort_compar_str_desc;
 	}
diff --git a/base/list/m_llist_str.c b/base/list/m_llist_str.c
index 0f0ee98..57cffa9 100644
--- a/base/list/m_llist_str.c
+++ b/base/list/m_llist_str.c
@@ -37,10 +37,10 @@ static void M_llist_str_get_sorting(M_llist_str_flags_t flags, M_sort_compar_t *
 	*equality = M_sort_compar_str;
 	*sorted   = M_FALSE;
 
-	if (flags & M_LLIST_STR_CASECMP && flags & M_LLIST_STR_SORTASC) {
-		*equality = M_sort_compar_str_casecmp;
-	} else if (flags & M_LLIST_STR_CASECMP && flags & M_LLIST_STR_SORTDESC) {
+	if (flags & M_LLIST_STR_CASECMP && flags & M_LLIST_STR_SORTDESC) {
 		*equality = M_sort_compar_str_casecmp_desc;
+	} else if (flags & M_LLIST_STR_CASECMP) {
+		*equality = M_sort_compar_str_casecmp;
 	} else if (flags & M_LLIST_STR_SORTDESC) {
 		*equality = M_sort_compar_str_desc;
 	}
-- 
2.43.0


From d4f6688b9079be87be30ba6d5b3db1899386f068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:43 +0000
Subject: [PATCH 030/268] fix: the stable flag of string and integer lists
 requested sorting instead

---
 base/list/m_list_str.c | 2 +-
 base/list/m_list_u64.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/base/list/m_list_str.c b/base/list/m_list_str.c
index 117959f..ad233e5 100644
--- a/base/list/m_list_str.c
+++ b/base/list/m_list_str.c
@@ -47,7 +47,7 @@ static void M_list_str_get_sorting(M_list_str_flags_t flags, M_sort_compar_t *eq
 	if (flags & (M_LIST_STR_SORTASC|M_LIST_STR_SORTDESC))
 		*sorted |= M_LIST_SORTED;
 	if (flags & M_LIST_STR_STABLE)
-		*sorted |= M_LIST_SORTED;
+		*sorted |= M_LIST_STABLE;
 }
 
 static M_list_match_type_t M_list_str_convert_match_type(M_list_str_match_type_t type)
diff --git a/base/list/m_list_u64.c b/base/list/m_list_u64.c
index 9c31968..d77c350 100644
--- a/base/list/m_list_u64.c
+++ b/base/list/m_list_u64.c
@@ -46,7 +46,7 @@ static void M_list_u64_get_sorting(M_list_u64_flags_t flags, M_sort_compar_t *eq
 		}
 	}
 	if (flags & M_LIST_U64_STABLE)
-		*sorted |= M_LIST_SORTED;
+		*sorted |= M_LIST_STABLE;
 }
 
 static M_list_match_type_t M_list_u64_convert_match_type(M_list_u64_match_type_t type)
-- 
2.43.0


From 1336a213aed2b23b65c49590d102dcc095b03412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:02 +0000
Subject: [PATCH 031/268] fix: M_list_bin_replace_val leaked the new value when
 a set already has it

---
 base/list/m_list_bin.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/base/list/m_list_bin.c b/base/list/m_list_bin.c
index b156b14..bd24401 100644
--- a/base/list/m_list_bin.c
+++ b/base/list/m_list_bin.c
@@ -232,7 +232,8 @@ size_t M_list_bin_replace_val(M_list_bin_t *d, const M_uint8 *val, size_t len, c
 	cnt = M_list_replace_val((M_list_t *)d, duped_val, new_duped_val, M_list_bin_convert_match_type(type));
 	M_free(duped_val);
 
-	if (cnt == 0)
+	/* A set that already has the new value only removes, the list didn't take it. */
+	if (cnt == 0 || !M_list_index_of((M_list_t *)d, new_duped_val, M_LIST_MATCH_PTR, NULL))
 		M_free(new_duped_val);
 	return cnt;
 }
-- 
2.43.0


From fc99dd4b7ed811f6467a4fe71ff53b924fd3e225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:15 +0000
Subject: [PATCH 032/268] fix: M_llist_merge called the free callback with NULL
 for moved values

---
 base/list/m_llist.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/list/m_llist.c b/base/list/m_llist.c
index b63651a..f01453d 100644
--- a/base/list/m_llist.c
+++ b/base/list/m_llist.c
@@ -163,7 +163,7 @@ static void M_llist_node_destory(M_llist_node_t *n, M_bool destroy_val)
 	if (n == NULL) 
 		return; 
 
-	if (destroy_val)
+	if (destroy_val && n->val != NULL)
 		n->parent->value_free(n->val);
 	n->val = NULL; 
 
-- 
2.43.0


From 61db002ee02466714d8c27f49b963422c09b5e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:15 +0000
Subject: [PATCH 033/268] fix: removing the last node of a circular list left
 dangling head and tail

---
 base/list/m_llist.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/base/list/m_llist.c b/base/list/m_llist.c
index f01453d..493be21 100644
--- a/base/list/m_llist.c
+++ b/base/list/m_llist.c
@@ -195,6 +195,13 @@ static void M_llist_node_unlink(M_llist_node_t *n)
 	/* Unlink n and relink it's neighbors. */
 	next = n->links.unsorted.next;
 	prev = n->links.unsorted.prev;
+
+	/* The only node of a circular list links to itself. */
+	if (next == n)
+		next = NULL;
+	if (prev == n)
+		prev = NULL;
+
 	if (next != NULL)
 		next->links.unsorted.prev = prev;
 	if (prev != NULL)
@@ -202,9 +209,9 @@ static void M_llist_node_unlink(M_llist_node_t *n)
 
 	/* Fix head and tail. */
 	if (n == d->head.unsorted.head)
-		d->head.unsorted.head = n->links.unsorted.next;
+		d->head.unsorted.head = next;
 	if (n == d->tail)
-		d->tail = n->links.unsorted.prev;
+		d->tail = prev;
 
 	n->links.unsorted.next = NULL;
 	n->links.unsorted.prev = NULL;
-- 
2.43.0


From ac79b005fd9d1fbe229e04dc15c7a3e5a1101658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:15 +0000
Subject: [PATCH 034/268] fix: M_llist_duplicate lost the sorting thunk

---
 base/list/m_llist.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/base/list/m_llist.c b/base/list/m_llist.c
index 493be21..f3cc566 100644
--- a/base/list/m_llist.c
+++ b/base/list/m_llist.c
@@ -1025,6 +1025,7 @@ M_llist_t *M_llist_duplicate(const M_llist_t *d)
 	callbacks.duplicate_copy   = d->duplicate_copy;
 	callbacks.value_free       = d->value_free;
 	dupd = M_llist_create(&callbacks, d->flags);
+	dupd->equality_thunk = d->equality_thunk;
 
 	first = M_llist_first(d);
 	node  = first;
-- 
2.43.0


From b43c7a99b528e8fc2af051c6b5a098362f6b8000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:53 +0000
Subject: [PATCH 035/268] fix: M_llist_remove_val of a circular list used a
 removed node

---
 base/list/m_llist.c | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/base/list/m_llist.c b/base/list/m_llist.c
index f3cc566..a4ccee3 100644
--- a/base/list/m_llist.c
+++ b/base/list/m_llist.c
@@ -356,11 +356,11 @@ static M_bool M_llist_insert_node(M_llist_node_t *node)
 static size_t M_llist_match_op_val_int(M_llist_t *d, const void *val, M_llist_match_op_t type, M_llist_match_op_t match_op)
 {
 	M_llist_node_t *node;
-	M_llist_node_t *first = NULL;
 	M_llist_node_t *next;
 	M_bool          val_match;
 	M_bool          match;
 	size_t          cnt = 0;
+	size_t          left;
 
 	if (d == NULL || val == NULL || (!(type & M_LLIST_MATCH_PTR) && d->equality == NULL))
 		return 0;
@@ -370,15 +370,18 @@ static size_t M_llist_match_op_val_int(M_llist_t *d, const void *val, M_llist_ma
 		/* Find is stable so it always returns the first value so we don't have to do any look back here. */
 		node = M_llist_find(d, val, type);
 	} else {
-		first = d->head.unsorted.head;
-		node  = first;
+		node = d->head.unsorted.head;
 	}
 
+	/* Look at each node only once. We can't watch for the first node to detect the end
+	 * of a circular list because it could be removed. */
+	left = d->elements;
+
 	/* Move forward operating on every node we find that matches.
  	 * When sorted this will start with the first matching node.
 	 * When unsorted this will start with head.
  	 */
-	while (node != NULL) {
+	while (node != NULL && left-- > 0) {
 		/* Store the next pointer in case we're removing so we know where we're moving to. */
 		next      = M_llist_node_next(node);
 		val_match = M_FALSE;
@@ -425,10 +428,6 @@ static size_t M_llist_match_op_val_int(M_llist_t *d, const void *val, M_llist_ma
 			break;
 		}
 		node = next;
-
-		if (node == first) {
-			break;
-		}
 	}
 	
 	return cnt;
-- 
2.43.0


From fb1f40c77b01eef60f87a6db876eb901048e38c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:23 +0000
Subject: [PATCH 036/268] fix: cache duplicated the key instead of the value

---
 base/cache/m_cache.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/base/cache/m_cache.c b/base/cache/m_cache.c
index 680cea9..7e73fc0 100644
--- a/base/cache/m_cache.c
+++ b/base/cache/m_cache.c
@@ -57,8 +57,8 @@ static M_cache_value_t *M_cache_value_create(const M_cache_t *c, const void *key
 		cval->key = M_CAST_OFF_CONST(void *, key);
 	}
 
-	if (c->value_duplicate != NULL) {
-		cval->value = c->value_duplicate(key);
+	if (c->value_duplicate != NULL && value != NULL) {
+		cval->value = c->value_duplicate(value);
 	} else {
 		cval->value = M_CAST_OFF_CONST(void *, value);
 	}
@@ -184,7 +184,7 @@ M_bool M_cache_insert(M_cache_t *c, const void *key, const void *value)
 	if (!newval) {
 		/* Update bucket data value. */
 		if (c->value_duplicate != NULL && value != NULL) {
-			cval->value = c->value_duplicate(key);
+			cval->value = c->value_duplicate(value);
 		} else {
 			cval->value = M_CAST_OFF_CONST(void *, value);
 		}
-- 
2.43.0


From e7c458d5d8a25f22f861cf1e7ad47e77dd3a3520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:13 +0000
Subject: [PATCH 037/268] fix: merging a buffer with dropped bytes appended the
 dropped part

---
 base/data/m_buf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/data/m_buf.c b/base/data/m_buf.c
index c28148f..2794867 100644
--- a/base/data/m_buf.c
+++ b/base/data/m_buf.c
@@ -167,7 +167,7 @@ void M_buf_merge(M_buf_t *dest, M_buf_t *source)
 {
 	if (dest == NULL || source == NULL)
 		return;
-	M_buf_add_bytes(dest, source->data, source->data_length);
+	M_buf_add_bytes(dest, M_buf_peek(source), source->data_length);
 	M_buf_cancel(source);
 }
 
-- 
2.43.0


From 9f1ae2737e9c3e19d38f7b0489f39e25be531b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:13 +0000
Subject: [PATCH 038/268] fix: justified add to a buffer with dropped bytes
 used a stale offset

---
 base/data/m_buf.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/base/data/m_buf.c b/base/data/m_buf.c
index 2794867..2e3395f 100644
--- a/base/data/m_buf.c
+++ b/base/data/m_buf.c
@@ -674,6 +674,7 @@ M_bool M_buf_decode(M_buf_t *buf, M_bincodec_codec_t codec)
 static void M_buf_add_bytes_just_transform(M_buf_t *buf, M_uint32 transform_type, const void *bytes, size_t bytes_length, M_str_justify_type_t justify_type, unsigned char fill_char, size_t width)
 {
 	size_t  offset;
+	size_t  orig_length;
 	size_t  justified_length;
 
 	if (buf == NULL || width == 0)
@@ -684,8 +685,8 @@ static void M_buf_add_bytes_just_transform(M_buf_t *buf, M_uint32 transform_type
 	if (bytes == NULL && bytes_length > 0)
 		return;
 
-	/* Record offset before appending anything */
-	offset       = buf->data_consumed + buf->data_length;
+	/* Record length before appending anything */
+	orig_length  = buf->data_length;
 
 	/* Perform transformation on data *first*, record length appended */
 	bytes_length = M_buf_add_bytes_transform(buf, transform_type, bytes, bytes_length);
@@ -695,6 +696,9 @@ static void M_buf_add_bytes_just_transform(M_buf_t *buf, M_uint32 transform_type
 		ensure_space(buf, width);
 	}
 
+	/* Offset of the appended data, making space may have moved everything */
+	offset = buf->data_consumed + orig_length;
+
 	/* Justify data in-place */
 	justified_length   = M_str_justify_max(((char *)buf->data) + offset, M_MAX(bytes_length, width) + 1, ((char *)buf->data) + offset, bytes_length, justify_type, fill_char, width);
 	if (justified_length >= bytes_length) {
-- 
2.43.0


From 7db5c7683775bbc12af6e5352df50c6f92afa12e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:13 +0000
Subject: [PATCH 039/268] fix: M_buf_add_bytes_hex reports a decode error

---
 base/data/m_buf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/data/m_buf.c b/base/data/m_buf.c
index 2e3395f..f9e3af3 100644
--- a/base/data/m_buf.c
+++ b/base/data/m_buf.c
@@ -443,7 +443,7 @@ M_bool M_buf_add_bytes_hex(M_buf_t *buf, const char *hex_bytes)
 	bin_len = M_bincodec_decode(bin, bin_len, hex_bytes, hex_len, M_BINCODEC_HEX);
 	M_buf_direct_write_end(buf, bin_len);
 
-	return M_TRUE;
+	return (bin_len > 0)? M_TRUE : M_FALSE;
 }
 
 
-- 
2.43.0


From bb893bd9ae12e527c425ca116aa88fa2d1b93c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:13 +0000
Subject: [PATCH 040/268] fix: justified negative amounts: minimum value and
 leftover sign on failure

---
 base/data/m_buf.c | 34 +++++++++++++++++-----------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/base/data/m_buf.c b/base/data/m_buf.c
index f9e3af3..894c4a6 100644
--- a/base/data/m_buf.c
+++ b/base/data/m_buf.c
@@ -800,7 +800,8 @@ static size_t num_digits(M_int64 n, unsigned char base)
 
 M_bool M_buf_add_int_just(M_buf_t *buf, M_int64 n, size_t width)
 {
-	char space[32];
+	char     space[32];
+	M_uint64 un = (M_uint64)n;
 
 	if (buf == NULL || width == 0)
 		return M_FALSE;
@@ -808,11 +809,11 @@ M_bool M_buf_add_int_just(M_buf_t *buf, M_int64 n, size_t width)
 	/* Prepend negative */
 	if (width >= 1 && n < 0) {
 		M_buf_add_byte(buf, '-');
-		n *= -1;
+		un = 0 - un;
 		width--;
 	}
 
-	M_snprintf(space, sizeof(space), "%lld", n);
+	M_snprintf(space, sizeof(space), "%llu", un);
 	M_buf_add_str_just(buf, space, M_STR_JUSTIFY_RIGHT, '0', width);
 	return M_str_len(space) <= width;
 }
@@ -978,9 +979,9 @@ M_bool  M_buf_add_int_money(M_buf_t *buf, M_int64 amount, size_t max_width)
 
 M_bool M_buf_add_int_money_dot(M_buf_t *buf, M_int64 amount, size_t max_width)
 {
-	char   space[32];
-	size_t r;
-	M_uint64 amnt = (M_uint64)M_ABS(amount);
+	char     space[32];
+	size_t   r;
+	M_uint64 amnt = (amount < 0) ? 0 - (M_uint64)amount : (M_uint64)amount;
 
 	if (buf == NULL)
 		return M_FALSE;
@@ -1000,24 +1001,23 @@ M_bool M_buf_add_int_money_just(M_buf_t *buf, M_int64 amount, size_t max_width)
 
 M_bool M_buf_add_int_money_dot_just(M_buf_t *buf, M_int64 amount, size_t max_width)
 {
-	char   space[32];
-	size_t r;
+	char     space[32];
+	size_t   r;
+	M_uint64 amnt     = (amount < 0) ? 0 - (M_uint64)amount : (M_uint64)amount;
+	size_t   sign_len = (amount < 0) ? 1 : 0;
 
 	if (buf == NULL)
 		return M_FALSE;
 
+	r = M_snprintf(space, sizeof(space), "%llu.%02llu", amnt / 100, amnt % 100);
+	if (r + sign_len > max_width)
+		return M_FALSE;
+
 	/* Prepend negative */
-	if (max_width >= 1 && amount < 0) {
+	if (sign_len != 0)
 		M_buf_add_byte(buf, '-');
-		amount *= -1;
-		max_width--;
-	}
-
-	r = M_snprintf(space, sizeof(space), "%lld.%02lld", amount / 100, amount % 100);
-	if (r > max_width)
-		return M_FALSE;
 
-	M_buf_add_str_just(buf, space, M_STR_JUSTIFY_RIGHT, '0', max_width);
+	M_buf_add_str_just(buf, space, M_STR_JUSTIFY_RIGHT, '0', max_width - sign_len);
 	return M_TRUE;
 }
 
-- 
2.43.0


From 037220156c73fe96dbe3d00378f1e62e013f9747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:13 +0000
Subject: [PATCH 041/268] fix: M_buf_add_decimal_just appended zeros on the
 right and so changed the value

---
 base/data/m_buf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/data/m_buf.c b/base/data/m_buf.c
index 894c4a6..5d2c9de 100644
--- a/base/data/m_buf.c
+++ b/base/data/m_buf.c
@@ -1099,7 +1099,7 @@ M_bool M_buf_add_decimal_just(M_buf_t *buf, const M_decimal_t *decimal, M_bool i
 		M_buf_add_byte(buf, '-');
 	}
 
-	M_buf_add_str_just(buf, ptr, M_STR_JUSTIFY_LEFT, '0', max_width);
+	M_buf_add_str_just(buf, ptr, M_STR_JUSTIFY_RIGHT, '0', max_width);
 
 	return M_TRUE;
 }
-- 
2.43.0


From 957e0315463e309d750d1f588294e4b9cb77b17a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:13 +0000
Subject: [PATCH 042/268] fix: M_buf_add_str_quoted quotes an empty string as
 documented

---
 base/data/m_buf.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/base/data/m_buf.c b/base/data/m_buf.c
index 5d2c9de..646f362 100644
--- a/base/data/m_buf.c
+++ b/base/data/m_buf.c
@@ -1164,7 +1164,8 @@ void M_buf_add_str_quoted(M_buf_t *buf, char quote_char, char escape_char, const
 	if (buf == NULL || src == NULL)
 		return;
 
-	if (always_quote)
+	/* An empty string is always quoted to differentiate it from NULL */
+	if (always_quote || *src == '\0')
 		quote_level = 1;
 
 	for (i=0; src[i] != '\0' && quote_level < 2; i++) {
-- 
2.43.0


From 27e729114352821746b49e8d2122a6362a8166a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:26 +0000
Subject: [PATCH 043/268] fix: ending a direct write with nothing written
 restores the terminator

---
 base/data/m_buf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/data/m_buf.c b/base/data/m_buf.c
index 646f362..556ff13 100644
--- a/base/data/m_buf.c
+++ b/base/data/m_buf.c
@@ -300,7 +300,7 @@ unsigned char *M_buf_direct_write_start(M_buf_t *buf, size_t *len)
 
 void M_buf_direct_write_end(M_buf_t *buf, size_t len)
 {
-	if (buf == NULL || len == 0)
+	if (buf == NULL || buf->data == NULL)
 		return;
 
 	buf->data_length += len;
-- 
2.43.0


From e8ee6c73705922268321e28be29762b2e16b0887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:12 +0000
Subject: [PATCH 044/268] fix: appending to a fully consumed parser left a mark
 beyond the data

---
 base/data/m_parser.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/base/data/m_parser.c b/base/data/m_parser.c
index c523923..4c44826 100644
--- a/base/data/m_parser.c
+++ b/base/data/m_parser.c
@@ -429,9 +429,9 @@ static void M_parser_ensure_space(M_parser_t *parser, size_t len)
 
 		keep_len   = parser->data_len + len_marked;
 
-		/* Make sure we don't move to same position where we are, and we are actually moving
-		 * data at all */
-		if (parser->data_dyn != mark_start && keep_len != 0) {
+		/* Make sure we don't move to same position where we are.  Marks have to follow even
+		 * if there is no data to move. */
+		if (parser->data_dyn != mark_start) {
 			/* Update mark offsets.  Remember, they can be different, so just
 			 * do math instead of setting them to 0 */
 			if (parser->mark_int != -1)
@@ -440,7 +440,8 @@ static void M_parser_ensure_space(M_parser_t *parser, size_t len)
 				parser->mark_user -= (mark_start - parser->data_dyn);
 
 			/* Move the data into position */
-			M_mem_move(parser->data_dyn, mark_start, keep_len);
+			if (keep_len != 0)
+				M_mem_move(parser->data_dyn, mark_start, keep_len);
 		}
 
 		parser->data = parser->data_dyn + len_marked;
-- 
2.43.0


From a2347ac6c75f7d9e41473ec878d87feba5a5c008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:12 +0000
Subject: [PATCH 045/268] fix: boundary consume read past an empty parser and
 missed a pattern after a partial match

---
 base/data/m_parser.c | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/base/data/m_parser.c b/base/data/m_parser.c
index 4c44826..4511a44 100644
--- a/base/data/m_parser.c
+++ b/base/data/m_parser.c
@@ -999,19 +999,15 @@ size_t M_parser_consume_boundary(M_parser_t *parser, const unsigned char *pat, s
 	if (parser == NULL || pat == NULL || len == 0)
 		return 0;
 
-	do {
-		M_bool eq = (parser->data[i] == pat[j]);
-		i++;
-		if (eq) {
-			j++;
-			if (j >= len) {
-				*found = M_TRUE;
-			}
-		} else {
-			consumed_len = i;
-			j            = 0;
-		}
-	} while (i < parser->data_len && !(*found));
+	for (i=0; i<parser->data_len && !(*found); i++) {
+		/* The position may match the full pattern or the data may end within it. */
+		j = M_MIN(len, parser->data_len - i);
+		if (!M_mem_eq(parser->data + i, pat, j))
+			continue;
+		*found = (j == len)?M_TRUE:M_FALSE;
+		break;
+	}
+	consumed_len = i;
 
 	/* Skip past end of boundry if it was fully found. */
 	if (*found && eat_pat)
-- 
2.43.0


From 7cc6b986b75115eabf5a5b0418510971ea5ea8a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:12 +0000
Subject: [PATCH 046/268] fix: truncating whitespace to newline read before an
 empty parser

---
 base/data/m_parser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/data/m_parser.c b/base/data/m_parser.c
index 4511a44..71e2b05 100644
--- a/base/data/m_parser.c
+++ b/base/data/m_parser.c
@@ -775,7 +775,7 @@ size_t M_parser_truncate_whitespace(M_parser_t *parser, M_uint32 flags)
 
 	/* If we start on a newline, go ahead and consume that even if we're consuming
 	 * whitespace to the new line */
-	if (flags & M_PARSER_WHITESPACE_TO_NEWLINE && parser->data[dlen-1] == '\n')
+	if (flags & M_PARSER_WHITESPACE_TO_NEWLINE && dlen != 0 && parser->data[dlen-1] == '\n')
 		dlen--;
 
 	for ( ; dlen != 0; dlen--) {
-- 
2.43.0


From f2ae0c2f2fe26bc4064622227ef71e58b5c450d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:46 +0000
Subject: [PATCH 047/268] fix: a read into a too small buffer lost the data and
 rewinding did not clear the mark

---
 base/data/m_parser.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/base/data/m_parser.c b/base/data/m_parser.c
index 71e2b05..d7625e5 100644
--- a/base/data/m_parser.c
+++ b/base/data/m_parser.c
@@ -121,6 +121,9 @@ static void M_parser_mark_clear_int(M_parser_t *parser, enum M_PARSER_MARKED_TYP
 }
 
 
+static size_t M_parser_mark_rewind_int(M_parser_t *parser, enum M_PARSER_MARKED_TYPE type);
+
+
 static size_t M_parser_read_bytes_mark_int(M_parser_t *parser, enum M_PARSER_MARKED_TYPE type, unsigned char *buf, size_t buf_len)
 {
 	const unsigned char *ptr;
@@ -134,8 +137,12 @@ static size_t M_parser_read_bytes_mark_int(M_parser_t *parser, enum M_PARSER_MAR
 	if (ptr == NULL || len == 0)
 		return 0;
 
-	if (len > buf_len)
+	if (len > buf_len) {
+		/* Don't lose the data an internal read consumed if it can't be output */
+		if (type & M_PARSER_MARKED_INT)
+			M_parser_mark_rewind_int(parser, M_PARSER_MARKED_INT);
 		return 0;
+	}
 
 	M_mem_copy(buf, ptr, len);
 
@@ -677,6 +684,9 @@ static size_t M_parser_mark_rewind_int(M_parser_t *parser, enum M_PARSER_MARKED_
 	
 	if (len != 0)
 		M_parser_rewind_int(parser, len);
+
+	/* Rewinding clears the mark */
+	M_parser_mark_clear_int(parser, type);
 	return len;
 }
 
-- 
2.43.0


From c7bd72010661a4a16015b0e05cbc33073689b1ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:46 +0000
Subject: [PATCH 048/268] fix: rewinding a parser restores the column at the
 mark

---
 base/data/m_parser.c     | 17 +++++++++++------
 base/data/m_parser_int.h |  3 +++
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/base/data/m_parser.c b/base/data/m_parser.c
index d7625e5..24e1ccc 100644
--- a/base/data/m_parser.c
+++ b/base/data/m_parser.c
@@ -87,10 +87,14 @@ static void M_parser_mark_int(M_parser_t *parser, enum M_PARSER_MARKED_TYPE type
 		pos = (size_t)(parser->data - ptr);
 	}
 
-	if (type & M_PARSER_MARKED_USER)
-		parser->mark_user = (ssize_t)pos;
-	if (type & M_PARSER_MARKED_INT)
-		parser->mark_int  = (ssize_t)pos;
+	if (type & M_PARSER_MARKED_USER) {
+		parser->mark_user     = (ssize_t)pos;
+		parser->mark_user_col = parser->curr_col;
+	}
+	if (type & M_PARSER_MARKED_INT) {
+		parser->mark_int      = (ssize_t)pos;
+		parser->mark_int_col  = parser->curr_col;
+	}
 }
 
 
@@ -682,8 +686,9 @@ static size_t M_parser_mark_rewind_int(M_parser_t *parser, enum M_PARSER_MARKED_
 		len = M_parser_mark_len(parser);
 	}
 	
-	if (len != 0)
-		M_parser_rewind_int(parser, len);
+	/* The data before the mark may be gone so the column has to come from the mark */
+	if (len != 0 && M_parser_rewind_int(parser, len) && parser->flags & M_PARSER_FLAG_TRACKLINES)
+		parser->curr_col = (type & M_PARSER_MARKED_INT)?parser->mark_int_col:parser->mark_user_col;
 
 	/* Rewinding clears the mark */
 	M_parser_mark_clear_int(parser, type);
diff --git a/base/data/m_parser_int.h b/base/data/m_parser_int.h
index a7ffa73..a2e911e 100644
--- a/base/data/m_parser_int.h
+++ b/base/data/m_parser_int.h
@@ -47,6 +47,9 @@ struct M_parser {
 	ssize_t              mark_user;     /*!< Position marked by user for future reference */
 	ssize_t              mark_int;      /*!< Internal marked position by parser functions (so it doesn't clobber user marks) */
 
+	size_t               mark_user_col; /*!< Column number at user mark */
+	size_t               mark_int_col;  /*!< Column number at internal mark */
+
 	size_t               curr_col;      /*!< Current column number */
 	size_t               curr_line;     /*!< Current line number */
 };
-- 
2.43.0


From da9dbae6e31e79e88aabb8c4f7f67e64ebe58321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:46 +0000
Subject: [PATCH 049/268] fix: ASCII integer read with a length accepted a
 shorter integer

---
 base/data/m_parser.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/base/data/m_parser.c b/base/data/m_parser.c
index 24e1ccc..00d9b27 100644
--- a/base/data/m_parser.c
+++ b/base/data/m_parser.c
@@ -341,7 +341,8 @@ static M_bool M_parser_read_int_binary(M_parser_t *parser, size_t len, M_bool is
 static M_bool M_parser_read_int_ascii(M_parser_t *parser, size_t len, unsigned char base, M_int64 *integer)
 {
 	M_str_int_retval_t  rv;
-	const char         *end = NULL;
+	const char         *end   = NULL;
+	M_bool              exact = (len != 0)?M_TRUE:M_FALSE;
 
 	if (parser == NULL || integer == NULL || len > parser->data_len || parser->data_len == 0)
 		return M_FALSE;
@@ -353,6 +354,10 @@ static M_bool M_parser_read_int_ascii(M_parser_t *parser, size_t len, unsigned c
 	if (rv != M_STR_INT_SUCCESS)
 		return M_FALSE;
 
+	/* If specified, the length must be matched exactly */
+	if (exact && (const unsigned char *)end != parser->data + len)
+		return M_FALSE;
+
 	M_parser_consume(parser, (size_t)(((const unsigned char *)end) - parser->data));
 	return M_TRUE;
 }
@@ -361,7 +366,8 @@ static M_bool M_parser_read_int_ascii(M_parser_t *parser, size_t len, unsigned c
 static M_bool M_parser_read_uint_ascii(M_parser_t *parser, size_t len, unsigned char base, M_uint64 *integer)
 {
 	M_str_int_retval_t  rv;
-	const char         *end = NULL;
+	const char         *end   = NULL;
+	M_bool              exact = (len != 0)?M_TRUE:M_FALSE;
 
 	if (parser == NULL || integer == NULL || len > parser->data_len || parser->data_len == 0)
 		return M_FALSE;
@@ -373,6 +379,10 @@ static M_bool M_parser_read_uint_ascii(M_parser_t *parser, size_t len, unsigned
 	if (rv != M_STR_INT_SUCCESS)
 		return M_FALSE;
 
+	/* If specified, the length must be matched exactly */
+	if (exact && (const unsigned char *)end != parser->data + len)
+		return M_FALSE;
+
 	M_parser_consume(parser, (size_t)(((const unsigned char *)end) - parser->data));
 	return M_TRUE;
 }
-- 
2.43.0


From 959a5e20dd2616698c97df459589e7faba95745d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:46 +0000
Subject: [PATCH 050/268] fix: BCD read reports a value that does not fit

---
 base/data/m_parser.c | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/base/data/m_parser.c b/base/data/m_parser.c
index 00d9b27..3d7f7d0 100644
--- a/base/data/m_parser.c
+++ b/base/data/m_parser.c
@@ -1168,18 +1168,27 @@ M_bool M_parser_read_uint(M_parser_t *parser, enum M_PARSER_INTEGER_TYPE type, s
 
 M_bool M_parser_read_uint_bcd(M_parser_t *parser, size_t len, M_uint64 *integer)
 {
-	size_t pos = 1;
-	size_t i;
+	M_uint64 pos = 1;
+	size_t   i;
 
 	if (parser == NULL || integer == NULL || len == 0 || len > 10 || len > parser->data_len)
 		return M_FALSE;
 
 	*integer = 0;
 	for (i=len; i-->0; ) {
-		*integer += (parser->data[i] & 0x0F) * pos;
+		M_uint64 lo = (M_uint64)(parser->data[i] & 0x0F) * pos;
+		M_uint64 hi;
+
 		pos *= 10;
-		*integer += (parser->data[i] >> 4) * pos;
+		/* The last digit of the maximum length can only be 0 or 1 */
+		if (i == 0 && len == 10 && (parser->data[i] >> 4) > 1)
+			return M_FALSE;
+		hi   = (M_uint64)(parser->data[i] >> 4) * pos;
 		pos *= 10;
+
+		if (*integer > M_UINT64_MAX - lo || *integer + lo > M_UINT64_MAX - hi)
+			return M_FALSE;
+		*integer += lo + hi;
 	}
 
 	M_parser_consume(parser, len);
-- 
2.43.0


From bcf31b33cf1f22d49b9f6fcba15b85e5fff3e84c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:46 +0000
Subject: [PATCH 051/268] fix: M_parser_read_buf_max returns the number of
 bytes read

---
 base/data/m_parser.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/base/data/m_parser.c b/base/data/m_parser.c
index 3d7f7d0..5d7256d 100644
--- a/base/data/m_parser.c
+++ b/base/data/m_parser.c
@@ -1966,11 +1966,11 @@ size_t M_parser_read_buf_max(M_parser_t *parser, M_buf_t *buf, size_t len)
 		len = parser->data_len;
 
 	if (len == 0)
-		return M_FALSE;
+		return 0;
 
 	M_buf_add_bytes(buf, parser->data, len);
 	M_parser_consume(parser, len);
-	return M_TRUE;
+	return len;
 }
 
 size_t M_parser_read_buf_until(M_parser_t *parser, M_buf_t *buf, const unsigned char *pat, size_t pat_len, M_bool eat_pat)
-- 
2.43.0


From 9121d440dd5fd5bd1d571b02f7b51a1298f04266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:46 +0000
Subject: [PATCH 052/268] fix: freeing the result of splitting an empty parser
 leaked it

---
 base/data/m_parser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/data/m_parser.c b/base/data/m_parser.c
index 5d7256d..b25a7e8 100644
--- a/base/data/m_parser.c
+++ b/base/data/m_parser.c
@@ -1849,7 +1849,7 @@ M_parser_t **M_parser_split_str_pat(M_parser_t *parser, const char *pat, size_t
 void M_parser_split_free(M_parser_t **parsers, size_t cnt)
 {
 	size_t i;
-	if (parsers == NULL || cnt == 0)
+	if (parsers == NULL)
 		return;
 
 	for (i=0; i<cnt; i++)
-- 
2.43.0


From 88181df838cb985c861feae79925c04175b2494b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:04 +0000
Subject: [PATCH 053/268] fix: integer conversion read one byte past an all
 whitespace input

---
 base/data/m_str_num.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/data/m_str_num.c b/base/data/m_str_num.c
index fec26e3..2b84a04 100644
--- a/base/data/m_str_num.c
+++ b/base/data/m_str_num.c
@@ -31,7 +31,7 @@ M_BEGIN_IGNORE_DEPRECATIONS
 
 static void eat_whitespace(const char **s, size_t *len)
 {
-	for (; M_chr_isspace(**s) && *len; (*s)++, (*len)--)
+	for (; *len && M_chr_isspace(**s); (*s)++, (*len)--)
 		;
 }
 
-- 
2.43.0


From 6595daf6cc61b1fac168604f04609991b7dd5237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:04 +0000
Subject: [PATCH 054/268] fix: integer conversion missed overflows that wrap to
 a larger value

---
 base/data/m_str_num.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/data/m_str_num.c b/base/data/m_str_num.c
index 2b84a04..46a0156 100644
--- a/base/data/m_str_num.c
+++ b/base/data/m_str_num.c
@@ -90,7 +90,7 @@ static M_str_int_retval_t M_str_to_uint64_int(const char *s, size_t len, unsigne
 			break;
 
 		v = ret * base + digit;
-		if (v < ret) {
+		if (ret > (M_UINT64_MAX - digit) / base) {
 			overflow = M_true;
 			/* Don't stop consuming valid characters
 			 * break; */
-- 
2.43.0


From bbce30286aa7a9de306a56e92ea7ebddffd76f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:04 +0000
Subject: [PATCH 055/268] fix: 0x prefix of an integer was not recognised

---
 base/data/m_str_num.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/base/data/m_str_num.c b/base/data/m_str_num.c
index 46a0156..f22c23d 100644
--- a/base/data/m_str_num.c
+++ b/base/data/m_str_num.c
@@ -123,7 +123,7 @@ static void M_str_intconv_prep(const char **s, size_t *len, unsigned char *base,
 
 	/* Auto-determine base */
 	if (*base == 0) {
-		if (*len >= 2 && M_str_caseeq_max(*s, "0x", *len)) {
+		if (*len >= 2 && M_str_caseeq_max(*s, "0x", 2)) {
 			*base = 16;
 		} else if (*len >= 1 && **s== '0') {
 			*base = 8;
@@ -133,7 +133,7 @@ static void M_str_intconv_prep(const char **s, size_t *len, unsigned char *base,
 	}
 
 	/* Hex is allowed a 0x prefix ... strip it */
-	if (*base == 16 && *len >= 2 && M_str_caseeq_max(*s, "0x", *len)) {
+	if (*base == 16 && *len >= 2 && M_str_caseeq_max(*s, "0x", 2)) {
 		(*s) += 2;
 		(*len)    -= 2;
 	}
-- 
2.43.0


From e8e89f6b3af04d33ac7fa975914861e7ffeb7fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:32 +0000
Subject: [PATCH 056/268] fix: truncating a bit buffer to more bits than it has
 must leave it alone

---
 base/data/m_bit_buf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/data/m_bit_buf.c b/base/data/m_bit_buf.c
index 2cea9c6..6605c82 100644
--- a/base/data/m_bit_buf.c
+++ b/base/data/m_bit_buf.c
@@ -112,7 +112,7 @@ void M_bit_buf_truncate(M_bit_buf_t *bbuf, size_t len_bits)
 	size_t num_full_bytes = len_bits / 8; /* number of FULL bytes, does not include last partial byte. */
 	size_t part_bits      = len_bits % 8;
 
-	if (bbuf == NULL) {
+	if (bbuf == NULL || len_bits >= bbuf->nbits) {
 		return;
 	}
 	bbuf->nbits = len_bits;
-- 
2.43.0


From 4da900dd1fd3ad30ed0d55ea0898b4ed792f328e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:32 +0000
Subject: [PATCH 057/268] fix: clear the unused bits of the last byte added to
 a bit buffer

---
 base/data/m_bit_buf.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/base/data/m_bit_buf.c b/base/data/m_bit_buf.c
index 6605c82..1f32daf 100644
--- a/base/data/m_bit_buf.c
+++ b/base/data/m_bit_buf.c
@@ -272,7 +272,11 @@ void M_bit_buf_add_bytes(M_bit_buf_t *bbuf, const void *vbytes, size_t nbits)
 	 * to the internal buffer.
 	 */
 	if ((bbuf->nbits % 8) == 0) {
-		M_buf_add_bytes(bbuf->bits, bytes, nbytes_whole + (nbits_left > 0? 1 : 0));
+		M_buf_add_bytes(bbuf->bits, bytes, nbytes_whole);
+		if (nbits_left > 0) {
+			/* Bits past the end must be zero, bits added later are or'd in. */
+			M_buf_add_byte(bbuf->bits, (M_uint8)(bytes[nbytes_whole] & ~((1 << (8 - nbits_left)) - 1)));
+		}
 		bbuf->nbits += nbits;
 		return;
 	}
-- 
2.43.0


From 627f2af3e9789316f7ab4fb2719c5364d481a731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:32 +0000
Subject: [PATCH 058/268] fix: bit parser read one byte past the end of its
 data

---
 base/data/m_bit_parser.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/base/data/m_bit_parser.c b/base/data/m_bit_parser.c
index d4d4f5f..bff5e22 100644
--- a/base/data/m_bit_parser.c
+++ b/base/data/m_bit_parser.c
@@ -66,7 +66,7 @@ static size_t peek_next_bytes(const M_bit_parser_t *bparser, M_uint8 *dest, size
 	if (nbits == 0) {
 		return 0;
 	}
-	if (bparser->offset + nbits > bparser->nbits) {
+	if (nbits > M_bit_parser_len(bparser)) {
 		return 0;
 	}
 
@@ -86,7 +86,11 @@ static size_t peek_next_bytes(const M_bit_parser_t *bparser, M_uint8 *dest, size
 		M_uint8 invskip = (M_uint8)(8 - bitskip); /* number of bits to skip from right side of next byte */
 		size_t  i;
 		for (i=0; i<nbytes; i++) {
-			dest[i] = (M_uint8)((src[i] << bitskip) | (src[i + 1] >> invskip));
+			dest[i] = (M_uint8)(src[i] << bitskip);
+			/* Only look at the next byte if some of the bits we want are in it. */
+			if (nbits - (i * 8) > invskip) {
+				dest[i] = (M_uint8)(dest[i] | (src[i + 1] >> invskip));
+			}
 		}
 	}
 
-- 
2.43.0


From 0a117a04df48eb6926f4311f5f524aba89e495ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:32 +0000
Subject: [PATCH 059/268] fix: bit parser counted bits past the end of its data

---
 base/data/m_bit_parser.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/base/data/m_bit_parser.c b/base/data/m_bit_parser.c
index bff5e22..d57c2ab 100644
--- a/base/data/m_bit_parser.c
+++ b/base/data/m_bit_parser.c
@@ -287,6 +287,12 @@ size_t M_bit_parser_count(const M_bit_parser_t *bparser, M_uint8 bit)
 		count += M_uint8_popcount(bparser->bytes[byte_idx]);
 	}
 
+	/* Don't count set bits in the last byte that are past the end of the data. */
+	if (bparser->nbits % 8 != 0) {
+		M_uint8 mask = (M_uint8)((1 << (8 - bparser->nbits % 8)) - 1);
+		count -= M_uint8_popcount((M_uint8)(bparser->bytes[nbytes - 1] & mask));
+	}
+
 	/* If user requested number of unset bits, subtract count from total number of bits, and return that.
 	 * If user requested number of set bits, return count directly.
 	 */
-- 
2.43.0


From 2b7aa3500fcc4bcd232e64e231af1d662031f366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:32 +0000
Subject: [PATCH 060/268] fix: reading a signed integer from a bit parser with
 too few bits must fail without moving

---
 base/data/m_bit_parser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/data/m_bit_parser.c b/base/data/m_bit_parser.c
index d57c2ab..741cbd2 100644
--- a/base/data/m_bit_parser.c
+++ b/base/data/m_bit_parser.c
@@ -526,7 +526,7 @@ M_bool M_bit_parser_read_int(M_bit_parser_t *bparser, size_t nbits, M_bit_parser
 		*res = 0;
 	}
 
-	if (bparser == NULL || nbits < 2 || res == NULL) {
+	if (nbits < 2 || nbits > 64 || res == NULL || M_bit_parser_len(bparser) < nbits) {
 		return M_FALSE;
 	}
 
-- 
2.43.0


From bebd4ef4fd0faa7b91dd3690b734c86ddd8210f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:43 +0000
Subject: [PATCH 061/268] fix: initialise the running flag of interleaved
 states

---
 base/data/m_state_machine.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/base/data/m_state_machine.c b/base/data/m_state_machine.c
index d8c46ac..1db94bf 100644
--- a/base/data/m_state_machine.c
+++ b/base/data/m_state_machine.c
@@ -189,6 +189,7 @@ static M_state_machine_state_t *M_state_machine_state_create_interleaved(M_uint6
 	s->d.interleaved.subs = M_list_create(&lcbs, M_LIST_NONE);
 	s->d.interleaved.pre  = pre;
 	s->d.interleaved.post = post;
+	s->d.interleaved.running = M_FALSE;
 	s->d.interleaved.idx  = 0;
 
 	return s;
-- 
2.43.0


From ce9647c200a7a6acf3e09ac0d136f5d49845ba54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:43 +0000
Subject: [PATCH 062/268] fix: state machine reported a bad id instead of a
 missing previous state

---
 base/data/m_state_machine.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/data/m_state_machine.c b/base/data/m_state_machine.c
index 1db94bf..a35fc60 100644
--- a/base/data/m_state_machine.c
+++ b/base/data/m_state_machine.c
@@ -479,7 +479,7 @@ static M_state_machine_status_t M_state_machine_run_states(M_state_machine_t *ma
 
 		/* Get the state for the current id. */
 		vp = NULL;
-		if (!M_hash_u64vp_get(current->states, current->current_id, &vp)) {
+		if (!M_hash_u64vp_get(current->states, current->current_id, &vp) && current->cleanup_reason == M_STATE_MACHINE_CLEANUP_REASON_NONE) {
 			/* No state associated with the id. */
 			current->cleanup_reason = M_STATE_MACHINE_CLEANUP_REASON_ERROR;
 			current->return_status  = M_STATE_MACHINE_STATUS_ERROR_BAD_ID;
-- 
2.43.0


From f3ea44fe523f88a15462ba66fe11ab892f7867ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:02 +0000
Subject: [PATCH 063/268] fix: a state that returns continue was skipped and
 must not be cleaned up

---
 base/data/m_state_machine.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/base/data/m_state_machine.c b/base/data/m_state_machine.c
index a35fc60..03a2f49 100644
--- a/base/data/m_state_machine.c
+++ b/base/data/m_state_machine.c
@@ -733,8 +733,8 @@ static M_state_machine_status_t M_state_machine_run_states(M_state_machine_t *ma
 			}
 		}
 
-		/* State ran so it should cleanup if necessary. */
-		if (state->type != M_STATE_MACHINE_STATE_TYPE_SUBM && state->type != M_STATE_MACHINE_STATE_TYPE_INTERLEAVED && status != M_STATE_MACHINE_STATUS_WAIT) {
+		/* State ran (was not skipped) so it should cleanup if necessary. */
+		if (state->type != M_STATE_MACHINE_STATE_TYPE_SUBM && state->type != M_STATE_MACHINE_STATE_TYPE_INTERLEAVED && status != M_STATE_MACHINE_STATUS_WAIT && status != M_STATE_MACHINE_STATUS_CONTINUE) {
 			M_list_u64_insert(current->cleanup_ids, current->current_id);
 		}
 
-- 
2.43.0


From b0213f0816d517f96f6f5f60f38774d9d396300c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:02 +0000
Subject: [PATCH 064/268] fix: one_cleanup abandoned a cleanup that waited and
 repeated one that failed

---
 base/data/m_state_machine.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/base/data/m_state_machine.c b/base/data/m_state_machine.c
index 03a2f49..a847b6d 100644
--- a/base/data/m_state_machine.c
+++ b/base/data/m_state_machine.c
@@ -368,6 +368,10 @@ static M_state_machine_status_t M_state_machine_run_cleanup(M_state_machine_t *m
 				/* Put the id back so when this is called again this cleanup
 				 * machine will run. */
 				M_list_u64_insert(current->cleanup_ids, id);
+				if (current->flags & M_STATE_MACHINE_ONE_CLEANUP) {
+					/* It has only been started, don't skip it when we come back. */
+					M_hash_u64vp_remove(current->cleanup_seen_ids, id, M_FALSE);
+				}
 				return status;
 			case M_STATE_MACHINE_STATUS_DONE:
 				continue;
@@ -386,10 +390,6 @@ static M_state_machine_status_t M_state_machine_run_cleanup(M_state_machine_t *m
 				break;
 		}
 
-		/* If we're only allowing cleanup run once we need to track that this one ran. */
-		if (current->flags & M_STATE_MACHINE_ONE_CLEANUP) {
-			M_hash_u64vp_remove(current->cleanup_seen_ids, id, M_FALSE);
-		}
 	}
 
 	/* All cleanup machines ran so clear the seen states. */
-- 
2.43.0


From 849ab195e893b33929c84e1c6d4733667db3f156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:03 +0000
Subject: [PATCH 065/268] fix: pause returned instead of running a sub state
 machine must move to the next state

---
 base/data/m_state_machine.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/data/m_state_machine.c b/base/data/m_state_machine.c
index a847b6d..e588e89 100644
--- a/base/data/m_state_machine.c
+++ b/base/data/m_state_machine.c
@@ -590,7 +590,7 @@ static M_state_machine_status_t M_state_machine_run_states(M_state_machine_t *ma
 			}
 			/* If the post callback returns pause it's not the sub state machine that's returning pause. It's this
 			 * parent state machine because post is called by the parent. */
-			if (!done_called && status == M_STATE_MACHINE_STATUS_PAUSE) {
+			if (run_sub && !done_called && status == M_STATE_MACHINE_STATUS_PAUSE) {
 				sub_pause = M_TRUE;
 			}
 		} else if (state->type == M_STATE_MACHINE_STATE_TYPE_INTERLEAVED) {
-- 
2.43.0


From fb919b5fe46342ae732565b2df27465b15abb845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:34 +0000
Subject: [PATCH 066/268] fix: resetting a state machine during cleanup of a
 bad transition did nothing

---
 base/data/m_state_machine.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/base/data/m_state_machine.c b/base/data/m_state_machine.c
index e588e89..783de68 100644
--- a/base/data/m_state_machine.c
+++ b/base/data/m_state_machine.c
@@ -1091,10 +1091,11 @@ void M_state_machine_reset(M_state_machine_t *m, M_state_machine_cleanup_reason_
 	if (m == NULL || !m->running)
 		return;
 
-	if (!M_hash_u64vp_get(m->states, m->current_id, &vp))
-		return;
+	/* There is no current state when cleanup is due to an invalid transition. */
+	s = NULL;
+	if (M_hash_u64vp_get(m->states, m->current_id, &vp))
+		s = vp;
 
-	s = vp;
 	if (s != NULL && s->type == M_STATE_MACHINE_STATE_TYPE_SUBM && s->d.sub.subm->running) {
 		M_state_machine_reset(s->d.sub.subm, reason);
 	} else if (s != NULL && s->type == M_STATE_MACHINE_STATE_TYPE_INTERLEAVED) {
-- 
2.43.0


From 22e5c5fcc23fd923c960e93b3b1ca529d9d7ad95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:35 +0000
Subject: [PATCH 067/268] fix: resetting a state machine in an interleaved
 state skipped the sub machines' cleanup

---
 base/data/m_state_machine.c | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/base/data/m_state_machine.c b/base/data/m_state_machine.c
index 783de68..954b75b 100644
--- a/base/data/m_state_machine.c
+++ b/base/data/m_state_machine.c
@@ -510,7 +510,13 @@ static M_state_machine_status_t M_state_machine_run_states(M_state_machine_t *ma
 							}
 						}
 					}
+					for (i=0; i<len; i++) {
+						M_state_machine_interleaved_sub_t *ilsub = M_CAST_OFF_CONST(M_state_machine_interleaved_sub_t *, M_list_at(state->d.interleaved.subs, i));
+						/* Clear the sub status for the next time we need to run. */
+						ilsub->status = M_STATE_MACHINE_STATUS_NONE;
+					}
 					state->d.interleaved.running = M_FALSE;
+					state->d.interleaved.idx     = 0;
 				}
 			}
 
@@ -1098,7 +1104,7 @@ void M_state_machine_reset(M_state_machine_t *m, M_state_machine_cleanup_reason_
 
 	if (s != NULL && s->type == M_STATE_MACHINE_STATE_TYPE_SUBM && s->d.sub.subm->running) {
 		M_state_machine_reset(s->d.sub.subm, reason);
-	} else if (s != NULL && s->type == M_STATE_MACHINE_STATE_TYPE_INTERLEAVED) {
+	} else if (s != NULL && s->type == M_STATE_MACHINE_STATE_TYPE_INTERLEAVED && s->d.interleaved.running) {
 		size_t len = M_list_len(s->d.interleaved.subs);
 		size_t i;
 		for (i=0; i<len; i++) {
@@ -1106,10 +1112,11 @@ void M_state_machine_reset(M_state_machine_t *m, M_state_machine_cleanup_reason_
 			M_state_machine_reset(ilsub->subm, reason);
 			ilsub->status = M_STATE_MACHINE_STATUS_NONE;
 		}
-		s->d.interleaved.running = M_FALSE;
-		s->d.interleaved.idx     = 0;
-		/* Reset any clean up sms associated. */
-		M_state_machine_reset((M_state_machine_t *)s->cleanup, reason);
+		/* Stays running if the sub state machines still need to clean up. */
+		if (reason == M_STATE_MACHINE_CLEANUP_REASON_NONE) {
+			s->d.interleaved.running = M_FALSE;
+			s->d.interleaved.idx     = 0;
+		}
 	} else {
 		/* We're at the last state to run. When we run
 		 * the cancel it will go into the clean up ids
-- 
2.43.0


From 3e3b7d89657d9bcaf1daa3fb8d43fbf3679eda85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:35 +0000
Subject: [PATCH 068/268] fix: interleaved sub machines stopped by an error
 resumed in the middle when run again

---
 base/data/m_state_machine.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/base/data/m_state_machine.c b/base/data/m_state_machine.c
index 954b75b..20f0ca2 100644
--- a/base/data/m_state_machine.c
+++ b/base/data/m_state_machine.c
@@ -676,6 +676,8 @@ static M_state_machine_status_t M_state_machine_run_states(M_state_machine_t *ma
 						}
 						/* Clear the sub status for the next time we need to run. */
 						ilsub->status = M_STATE_MACHINE_STATUS_NONE;
+						/* Anything still running was aborted and must not resume in the middle next time. */
+						M_state_machine_reset(ilsub->subm, M_STATE_MACHINE_CLEANUP_REASON_NONE);
 					}
 					/* Run our post function (if set) if we're not a clean up. */
 					if (current->cleanup_reason == M_STATE_MACHINE_CLEANUP_REASON_NONE) {
-- 
2.43.0


From c348690d560ab4981a6f08c482bd6c18f9e695c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:32 +0000
Subject: [PATCH 069/268] fix: tell a cleanup sub state machine why cleanup is
 run

---
 base/data/m_state_machine.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/base/data/m_state_machine.c b/base/data/m_state_machine.c
index 20f0ca2..cb3c7b0 100644
--- a/base/data/m_state_machine.c
+++ b/base/data/m_state_machine.c
@@ -569,6 +569,9 @@ static M_state_machine_status_t M_state_machine_run_states(M_state_machine_t *ma
 					M_list_u64_insert(current->cleanup_ids, current->current_id);
 				}
 
+				/* Pass the reason along if this is a cleanup sm run by a cleanup sm. */
+				state->d.sub.subm->pcleanup_reason = current->pcleanup_reason;
+
 				/* Run the sub state machine */
 				status = M_state_machine_run_machine(master, state->d.sub.subm, data);
 				/* If we get a wait or a pause we want to forward that up and our next call will be back into the
-- 
2.43.0


From 1c47b6906482653238786a0a798eaa0930fa7648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:05 +0000
Subject: [PATCH 070/268] fix: replacing a string at the very end duplicated
 the tail

---
 base/data/m_str.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/base/data/m_str.c b/base/data/m_str.c
index 3bc727b..457eaf4 100644
--- a/base/data/m_str.c
+++ b/base/data/m_str.c
@@ -1789,11 +1789,10 @@ char *M_strdup_replace_str(const char *s, const char *b, const char *a)
 		M_buf_add_str(buf, a);
 
 		p += b_len;
+		lp = p;
 		if ((size_t)(p-s) >= s_len) {
 			break;
 		}
-
-		lp = p;
 	}
 
 	if ((size_t)(lp-s) <= s_len)
-- 
2.43.0


From 3441ebbf9857b930287e8a4f0a1a2ff930963237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:39 +0000
Subject: [PATCH 071/268] fix: replacing everything in a string with nothing
 returned NULL

---
 base/data/m_str.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/base/data/m_str.c b/base/data/m_str.c
index 457eaf4..ed6ba6b 100644
--- a/base/data/m_str.c
+++ b/base/data/m_str.c
@@ -1730,6 +1730,16 @@ char *M_str_replace_chr(char *s, char b, char a)
 	return s;
 }
 
+/* A buffer nothing was added to finishes as NULL, which isn't an empty string. */
+static char *M_str_finish_buf(M_buf_t *buf)
+{
+	if (M_buf_len(buf) == 0) {
+		M_buf_cancel(buf);
+		return M_strdup("");
+	}
+	return M_buf_finish_str(buf, NULL);
+}
+
 char *M_strdup_replace_charset(const char *s, const unsigned char *bcs, size_t bcs_len, const char *a)
 {
 	M_buf_t *buf;
@@ -1755,7 +1765,7 @@ char *M_strdup_replace_charset(const char *s, const unsigned char *bcs, size_t b
 		}
 	}
 
-	return M_buf_finish_str(buf, NULL);
+	return M_str_finish_buf(buf);
 }
 
 char *M_strdup_replace_str(const char *s, const char *b, const char *a)
@@ -1798,7 +1808,7 @@ char *M_strdup_replace_str(const char *s, const char *b, const char *a)
 	if ((size_t)(lp-s) <= s_len)
 		M_buf_add_str(buf, lp);
 
-	return M_buf_finish_str(buf, NULL);
+	return M_str_finish_buf(buf);
 }
 
 
-- 
2.43.0


From dac1572a5a05d0a03a453d834beaa2a7c07a75c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:39 +0000
Subject: [PATCH 072/268] fix: delimiter, quote and escape characters above
 0x7f were never recognised

---
 base/data/m_str.c | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/base/data/m_str.c b/base/data/m_str.c
index ed6ba6b..eaa1901 100644
--- a/base/data/m_str.c
+++ b/base/data/m_str.c
@@ -153,7 +153,7 @@ static M_bool M_str_implode_has_restricted_chars(const char *s, unsigned char de
 
 	len = M_str_len(s);
 	for (i=0; i<len; i++) {
-		if (s[i] == delim|| s[i] == enclose_char || s[i] == escape_char) {
+		if ((unsigned char)s[i] == delim || (unsigned char)s[i] == enclose_char || (unsigned char)s[i] == escape_char) {
 			return M_TRUE;
 		}
 	}
@@ -167,7 +167,7 @@ static void M_str_implode_escape(M_buf_t *buf, const char *s, unsigned char encl
 
 	len = M_str_len(s);
 	for (i=0; i<len; i++) {
-		if (s[i] == enclose_char || s[i] == escape_char) {
+		if ((unsigned char)s[i] == enclose_char || (unsigned char)s[i] == escape_char) {
 			M_buf_add_byte(buf, escape_char);
 		}
 
@@ -1017,9 +1017,9 @@ char **M_str_explode_quoted(unsigned char delim, const char *s, size_t s_len, un
 	/* Count number of delimiters to get number of output sections */
 	on_quote = M_FALSE;
 	for (i=0; i<s_len; i++) {
-		if (quote_char != 0 && dupstr[i] == quote_char) {
+		if (quote_char != 0 && (unsigned char)dupstr[i] == quote_char) {
 			/* Doubling the quote char acts as escaping */
-			if (quote_char == escape_char && dupstr[i+1] == quote_char) {
+			if (quote_char == escape_char && (unsigned char)dupstr[i+1] == quote_char) {
 				i++;
 				continue;
 			} else if (quote_char != escape_char && M_str_explode_is_escaped(dupstr, i, escape_char)) {
@@ -1030,7 +1030,7 @@ char **M_str_explode_quoted(unsigned char delim, const char *s, size_t s_len, un
 				on_quote = M_TRUE;
 			}
 		}
-		if (dupstr[i] == delim && !on_quote) {
+		if ((unsigned char)dupstr[i] == delim && !on_quote) {
 			num_strs++;
 			beginsect = i+1;
 			if (max_sects != 0 && num_strs == max_sects-1) {
@@ -1053,9 +1053,9 @@ char **M_str_explode_quoted(unsigned char delim, const char *s, size_t s_len, un
 	beginsect = 0;
 	on_quote  = M_FALSE;
 	for (i=0; i<s_len; i++) {
-		if (quote_char != 0 && dupstr[i] == quote_char) {
+		if (quote_char != 0 && (unsigned char)dupstr[i] == quote_char) {
 			/* Doubling the quote char acts as escaping */
-			if (quote_char == escape_char && dupstr[i+1] == quote_char) {
+			if (quote_char == escape_char && (unsigned char)dupstr[i+1] == quote_char) {
 				i++;
 				continue;
 			} else if (quote_char != escape_char && M_str_explode_is_escaped(dupstr, i, escape_char)) {
@@ -1066,7 +1066,7 @@ char **M_str_explode_quoted(unsigned char delim, const char *s, size_t s_len, un
 				on_quote = M_TRUE;
 			}
 		}
-		if (dupstr[i] == delim && !on_quote) {
+		if ((unsigned char)dupstr[i] == delim && !on_quote) {
 			dupstr[i]       = 0;
 			out[num_strs++] = dupstr+beginsect;
 			if (len_array != NULL)
@@ -1564,7 +1564,7 @@ char *M_str_unquote_max(char *s, unsigned char quote, unsigned char escape, size
 		return s;
 
 	/* String must start and end with a quote to be considered quoted. */
-	if (*s != quote || s[len-1] != quote)
+	if ((unsigned char)*s != quote || (unsigned char)s[len-1] != quote)
 		return s;
 
 	/* strip the start and end quotes */
@@ -1578,7 +1578,7 @@ char *M_str_unquote_max(char *s, unsigned char quote, unsigned char escape, size
 	for (i=0; i<len; i++) {
 		/* Remove escaping from escaped escape characters. */
 		if ((unsigned char)s[i] == escape) {
-			if (s[i+1] == escape || s[i+1] == quote) {
+			if ((unsigned char)s[i+1] == escape || (unsigned char)s[i+1] == quote) {
 				M_mem_move(s+i, s+i+1, len-i);
 				len--;
 			}
@@ -1611,7 +1611,7 @@ char *M_str_quote_max(const char *s, unsigned char quote, unsigned char escape,
 
 	M_buf_add_byte(buf, quote);
 	for (i=0; i<len; i++) {
-		if (s[i] == quote || s[i] == escape) {
+		if ((unsigned char)s[i] == quote || (unsigned char)s[i] == escape) {
 			M_buf_add_bytes(buf, s+start, i-start);
 			M_buf_add_byte(buf, escape);
 			start = i;
@@ -1642,7 +1642,7 @@ M_bool M_str_quote_if_necessary(char **out, const char *s, unsigned char quote,
 	}
 
 	for (i=0; i<len; i++) {
-		if (s[i] == quote || s[i] == delim) {
+		if ((unsigned char)s[i] == quote || (unsigned char)s[i] == delim) {
 			*out = M_str_quote(s, quote, escape);
 			return M_TRUE;
 		}
@@ -1757,7 +1757,7 @@ char *M_strdup_replace_charset(const char *s, const unsigned char *bcs, size_t b
 	for (i=0; i<len; i++) {
 		M_buf_add_byte(buf, (unsigned char)s[i]);
 		for (j=0; j<bcs_len; j++) {
-			if (s[i] == bcs[j]) {
+			if ((unsigned char)s[i] == bcs[j]) {
 				M_buf_truncate(buf, M_buf_len(buf)-1);
 				M_buf_add_str(buf, a);
 				break;
-- 
2.43.0


From f7e306ae9a1c2b0281db9893d1cf4a094112e6e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:39 +0000
Subject: [PATCH 073/268] fix: exploding into at most one section returned all
 of them

---
 base/data/m_str.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/base/data/m_str.c b/base/data/m_str.c
index eaa1901..9a47ff8 100644
--- a/base/data/m_str.c
+++ b/base/data/m_str.c
@@ -1016,7 +1016,7 @@ char **M_str_explode_quoted(unsigned char delim, const char *s, size_t s_len, un
 
 	/* Count number of delimiters to get number of output sections */
 	on_quote = M_FALSE;
-	for (i=0; i<s_len; i++) {
+	for (i=0; i<s_len && max_sects != 1; i++) {
 		if (quote_char != 0 && (unsigned char)dupstr[i] == quote_char) {
 			/* Doubling the quote char acts as escaping */
 			if (quote_char == escape_char && (unsigned char)dupstr[i+1] == quote_char) {
@@ -1052,7 +1052,7 @@ char **M_str_explode_quoted(unsigned char delim, const char *s, size_t s_len, un
 	num_strs  = 0;
 	beginsect = 0;
 	on_quote  = M_FALSE;
-	for (i=0; i<s_len; i++) {
+	for (i=0; i<s_len && max_sects != 1; i++) {
 		if (quote_char != 0 && (unsigned char)dupstr[i] == quote_char) {
 			/* Doubling the quote char acts as escaping */
 			if (quote_char == escape_char && (unsigned char)dupstr[i+1] == quote_char) {
-- 
2.43.0


From 5414463230f230380ed8d43f3ab1bbe6f67f9228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:39 +0000
Subject: [PATCH 074/268] fix: explode returned nothing for data starting with
 a NUL and read past empty data

---
 base/data/m_str.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/data/m_str.c b/base/data/m_str.c
index 9a47ff8..adb9108 100644
--- a/base/data/m_str.c
+++ b/base/data/m_str.c
@@ -837,7 +837,7 @@ char **M_str_explode(unsigned char delim, const char *s, size_t s_len, size_t *n
 	if (len_array != NULL)
 		*len_array = NULL;
 
-	if (s == NULL || *s == '\0' || num == NULL)
+	if (s == NULL || s_len == 0 || num == NULL)
 		return NULL;
 
 	/* Duplicate memory and make sure there is a NULL terminator in case we're
-- 
2.43.0


From 4b35bbbaada950d5662c65eb36025f49937cdb8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:39 +0000
Subject: [PATCH 075/268] fix: unquoting zero characters accessed the byte
 before the string

---
 base/data/m_str.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/data/m_str.c b/base/data/m_str.c
index adb9108..234246d 100644
--- a/base/data/m_str.c
+++ b/base/data/m_str.c
@@ -1560,7 +1560,7 @@ char *M_str_unquote_max(char *s, unsigned char quote, unsigned char escape, size
 		return s;
 
 	len = M_str_len_max(s, max);
-	if (len == 1)
+	if (len <= 1)
 		return s;
 
 	/* String must start and end with a quote to be considered quoted. */
-- 
2.43.0


From 83cdee3a3011898c8b19af177b30fd4926688368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:52 +0000
Subject: [PATCH 076/268] fix: an escaped character in a pattern's brackets was
 interpreted a second time

---
 base/data/m_str_patmatch.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/base/data/m_str_patmatch.c b/base/data/m_str_patmatch.c
index 28291ae..2f257bb 100644
--- a/base/data/m_str_patmatch.c
+++ b/base/data/m_str_patmatch.c
@@ -129,6 +129,7 @@ static M_bool pattern_matches(const char *pat, const char *s, size_t pat_start,
 									return M_FALSE;
 								return pattern_matches(pat, s, (size_t)(rb-pat)+1, str_start+1, casecmp);
 							}
+							i++; /* The escaped character has been dealt with */
 						} else {
 							return M_FALSE; /* Error in pattern */
 						}
-- 
2.43.0


From 390dec7131cce9c8fc43519667b1627afc9753c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:52 +0000
Subject: [PATCH 077/268] fix: ranges in patterns ignored case insensitivity
 and characters above 0x7f

---
 base/data/m_str_patmatch.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/base/data/m_str_patmatch.c b/base/data/m_str_patmatch.c
index 2f257bb..1e7a9c9 100644
--- a/base/data/m_str_patmatch.c
+++ b/base/data/m_str_patmatch.c
@@ -66,6 +66,12 @@ static const char *pattern_range_close(const char *pat)
 	return NULL;
 }
 
+/* Whether c is between (not equal to) the ends of a range. */
+static M_bool pattern_in_range(char from, char c, char to)
+{
+	return ((unsigned char)from < (unsigned char)c && (unsigned char)c < (unsigned char)to) ? M_TRUE : M_FALSE;
+}
+
 /* Match pattern (pat) starting at pat_start to string (str) starting at str_start */
 static M_bool pattern_matches(const char *pat, const char *s, size_t pat_start, size_t str_start, M_bool casecmp)
 {
@@ -143,7 +149,9 @@ static M_bool pattern_matches(const char *pat, const char *s, size_t pat_start,
 							}
 						} else {
 							/* Check Range */
-							if (pat[i-1] < s[str_start] && s[str_start] < pat[i+1]) {
+							if (pattern_in_range(pat[i-1], s[str_start], pat[i+1]) ||
+									(casecmp && (pattern_in_range(pat[i-1], M_chr_tolower(s[str_start]), pat[i+1]) ||
+									pattern_in_range(pat[i-1], M_chr_toupper(s[str_start]), pat[i+1])))) {
 								if (not_pat)
 									return M_FALSE;
 								return pattern_matches(pat, s, (size_t)(rb-pat)+1, str_start+1, casecmp);
-- 
2.43.0


From 76d84dc394fd6cf0a4a44d6a138dbf2e1d53d9c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:08 +0000
Subject: [PATCH 078/268] fix: removing or keeping quoted text wrote before the
 output when quotes escape themselves

---
 base/data/m_str.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/base/data/m_str.c b/base/data/m_str.c
index 234246d..31fd3d8 100644
--- a/base/data/m_str.c
+++ b/base/data/m_str.c
@@ -1463,7 +1463,10 @@ char *M_str_remove_quoted(const char *src, char quote, char escape)
 	}
 	
 	while (*src_pos != '\0') {
-		if (*src_pos == quote && !is_escaped(src, src_pos, escape)) {
+		if (*src_pos == quote && quote == escape && in_quotes && src_pos[1] == quote) {
+			/* A doubled quote within quotes is an escaped quote. */
+			src_pos++;
+		} else if (*src_pos == quote && (quote == escape || !is_escaped(src, src_pos, escape))) {
 			in_quotes = !in_quotes; /* toggle */
 		} else if (!in_quotes) {
 			/* Add the current character to the destination string. */
@@ -1510,7 +1513,12 @@ char *M_str_keep_quoted(const char *src, char quote, char escape)
 	}
 	
 	while (*src_pos != '\0') {
-		if (*src_pos == quote && !is_escaped(src, src_pos, escape)) {
+		if (*src_pos == quote && quote == escape && in_quotes && src_pos[1] == quote) {
+			/* A doubled quote within quotes is an escaped quote. */
+			*dst_pos = quote;
+			dst_pos++;
+			src_pos++;
+		} else if (*src_pos == quote && (quote == escape || !is_escaped(src, src_pos, escape))) {
 			in_quotes = !in_quotes; /* toggle */
 		} else if (in_quotes) {
 			/* Add the current character to the destination string. */
-- 
2.43.0


From 25ba181d6d8dbbd9ec234c376629e58921b472a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:36 +0000
Subject: [PATCH 079/268] fix: allocation size attributes claimed less memory
 than duplicating functions return

---
 include/mstdlib/base/m_mem.h |  2 +-
 include/mstdlib/base/m_str.h | 12 ++++++------
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/mstdlib/base/m_mem.h b/include/mstdlib/base/m_mem.h
index 754a068..0b92b07 100644
--- a/include/mstdlib/base/m_mem.h
+++ b/include/mstdlib/base/m_mem.h
@@ -350,7 +350,7 @@ M_API void *M_memdup(const void *src, size_t size) M_ALLOC_SIZE(2) M_WARN_UNUSED
  *
  * \see M_free
  */
-M_API void *M_memdup_max(const void *src, size_t size, size_t min_alloc_size) M_ALLOC_SIZE(2) M_WARN_UNUSED_RESULT M_WARN_NONNULL(1) M_MALLOC;
+M_API void *M_memdup_max(const void *src, size_t size, size_t min_alloc_size) M_WARN_UNUSED_RESULT M_WARN_NONNULL(1) M_MALLOC;
 
 
 /* - - - - - - - - - - - - - - - - - - - - - - - - - */
diff --git a/include/mstdlib/base/m_str.h b/include/mstdlib/base/m_str.h
index c070dca..1f39cb0 100644
--- a/include/mstdlib/base/m_str.h
+++ b/include/mstdlib/base/m_str.h
@@ -851,7 +851,7 @@ M_API char *M_strdup_unquote(const char *s, unsigned char quote, unsigned char e
  *
  * \see M_free
  */
-M_API char *M_strdup_max(const char *s, size_t max) M_ALLOC_SIZE(2) M_WARN_UNUSED_RESULT M_MALLOC;
+M_API char *M_strdup_max(const char *s, size_t max) M_WARN_UNUSED_RESULT M_MALLOC;
 
 
 /*! Create a duplicate of the NULL-terminated string s, but copy at most max bytes and additionally applies
@@ -871,7 +871,7 @@ M_API char *M_strdup_max(const char *s, size_t max) M_ALLOC_SIZE(2) M_WARN_UNUSE
  * \see M_str_upper_max
  * \see M_free
  */
-M_API char *M_strdup_upper_max(const char *s, size_t max) M_ALLOC_SIZE(2) M_WARN_UNUSED_RESULT M_MALLOC;
+M_API char *M_strdup_upper_max(const char *s, size_t max) M_WARN_UNUSED_RESULT M_MALLOC;
 
 
 /*! Create a duplicate of the NULL-terminated string s, but copy at most max bytes and additionally applies
@@ -888,7 +888,7 @@ M_API char *M_strdup_upper_max(const char *s, size_t max) M_ALLOC_SIZE(2) M_WARN
  * \see M_str_lower_max
  * \see M_free
  */
-M_API char *M_strdup_lower_max(const char *s, size_t max) M_ALLOC_SIZE(2) M_WARN_UNUSED_RESULT M_MALLOC;
+M_API char *M_strdup_lower_max(const char *s, size_t max) M_WARN_UNUSED_RESULT M_MALLOC;
 
 
 /*! Create new string with a given number of characters converted to title case.
@@ -908,7 +908,7 @@ M_API char *M_strdup_lower_max(const char *s, size_t max) M_ALLOC_SIZE(2) M_WARN
  * \param[in] max max number of characters to copy from \a s, may be less if \a s contains a null character
  * \return        newly allocated string on success, \c NULL on failure.
  */
-M_API char *M_strdup_title_max(const char *s, size_t max) M_ALLOC_SIZE(2) M_WARN_UNUSED_RESULT M_MALLOC;
+M_API char *M_strdup_title_max(const char *s, size_t max) M_WARN_UNUSED_RESULT M_MALLOC;
 
 
 /*! Create a duplicate of the NULL-terminated string s, but copy at most max bytes and additionally applies
@@ -928,7 +928,7 @@ M_API char *M_strdup_title_max(const char *s, size_t max) M_ALLOC_SIZE(2) M_WARN
  * \see M_str_trim_max
  * \see M_free
  */
-M_API char *M_strdup_trim_max(const char *s, size_t max) M_ALLOC_SIZE(2) M_WARN_UNUSED_RESULT M_MALLOC;
+M_API char *M_strdup_trim_max(const char *s, size_t max) M_WARN_UNUSED_RESULT M_MALLOC;
 
 
 /*! Create a duplicate of the NULL-terminated string s, but copy at most max bytes and additionally applies
@@ -948,7 +948,7 @@ M_API char *M_strdup_trim_max(const char *s, size_t max) M_ALLOC_SIZE(2) M_WARN_
  * \see M_strdup_max
  * \see M_free
  */
-M_API char *M_strdup_unquote_max(const char *s, unsigned char quote, unsigned char escape, size_t max) M_ALLOC_SIZE(2) M_WARN_UNUSED_RESULT M_MALLOC;
+M_API char *M_strdup_unquote_max(const char *s, unsigned char quote, unsigned char escape, size_t max) M_WARN_UNUSED_RESULT M_MALLOC;
 
 
 /*! Justifies the input source as specified by the parameters and writes it to a new duplicate string.
-- 
2.43.0


From 90139e6300a834214fcaeac3fe2f36325140324f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:11 +0000
Subject: [PATCH 080/268] fix: printing a double got digits wrong (43.0 printed
 as 42)

---
 base/data/m_str_fmt.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/base/data/m_str_fmt.c b/base/data/m_str_fmt.c
index b5cc22a..9fc0dde 100644
--- a/base/data/m_str_fmt.c
+++ b/base/data/m_str_fmt.c
@@ -496,7 +496,11 @@ static ssize_t M_str_fmt_add_double_just(M_str_fmt_t *data, double dval, M_str_f
 	}
 
 	/* Convert the integer part to a string. */
-	offset = M_str_fmt_double_to_str(int_part, (char *)bytes, sizeof(bytes));
+	if (int_part < 18446744073709551616.0) {
+		offset = M_str_fmt_integer_to_str((M_uint64)int_part, 10, M_FALSE, (char *)bytes, sizeof(bytes));
+	} else {
+		offset = M_str_fmt_double_to_str(int_part, (char *)bytes, sizeof(bytes));
+	}
 
 	/* Convert the fractional part to a string. */
 	if (prec_len > 0) {
@@ -504,7 +508,11 @@ static ssize_t M_str_fmt_add_double_just(M_str_fmt_t *data, double dval, M_str_f
 		offset++;
 
 		/* Determine the number of fractional digits. */
-		added = M_str_fmt_double_to_str(frac_part, (char *)bytes+offset, sizeof(bytes)-offset);
+		if (frac_part <= (double)M_UINT32_MAX) {
+			added = M_str_fmt_integer_to_str((M_uint64)frac_part, 10, M_FALSE, (char *)bytes+offset, sizeof(bytes)-offset);
+		} else {
+			added = M_str_fmt_double_to_str(frac_part, (char *)bytes+offset, sizeof(bytes)-offset);
+		}
 
 		/* If less digits were added then there are total for
  		 * the fractional part we need to prepend with zeros. We had something
-- 
2.43.0


From 22782c3a60876424b4f92f3cf00716efc635a0be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:11 +0000
Subject: [PATCH 081/268] fix: nan and inf were padded with zeros

---
 base/data/m_str_fmt.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/base/data/m_str_fmt.c b/base/data/m_str_fmt.c
index 9fc0dde..ab77ed4 100644
--- a/base/data/m_str_fmt.c
+++ b/base/data/m_str_fmt.c
@@ -471,6 +471,8 @@ static ssize_t M_str_fmt_add_double_just(M_str_fmt_t *data, double dval, M_str_f
 #  pragma GCC diagnostic pop
 #endif
 		M_mem_copy(bytes, const_temp, M_str_len(const_temp));
+		/* These aren't numbers, never pad with zeros. */
+		pad_char = ' ';
 		olen += M_str_fmt_add_sign(data, bytes, M_str_len((const char *)bytes), pos, sign_type, pad_char, &pad_len);
 		olen += M_str_fmt_add_bytes_just(data, bytes, M_str_len((const char *)bytes), pad_char, pad_len, ljust);
 		return olen;
-- 
2.43.0


From e3ccb51168af9a1f9bbb8dfb85157f526ff3cfdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:11 +0000
Subject: [PATCH 082/268] fix: negative width and precision arguments of
 formats were ignored

---
 base/data/m_str_fmt.c | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/base/data/m_str_fmt.c b/base/data/m_str_fmt.c
index ab77ed4..8e97ed1 100644
--- a/base/data/m_str_fmt.c
+++ b/base/data/m_str_fmt.c
@@ -655,6 +655,7 @@ static ssize_t M_str_fmt_handle_control(M_str_fmt_t *data, M_parser_t *parser, M
 	M_bool                 ljust      = M_FALSE;
 	M_str_fmt_sign_type_t  sign_type  = M_STR_FMT_SIGN_TYPE_NEG;
 	M_bool                 have_len   = M_FALSE;
+	M_bool                 no_prec    = M_FALSE;
 	M_bool                 ret;
 	unsigned char          pad_char   = ' ';
 	size_t                 pad_len    = 0;
@@ -759,13 +760,20 @@ static ssize_t M_str_fmt_handle_control(M_str_fmt_t *data, M_parser_t *parser, M
 			case '*':
 				sdval = va_arg(ap->ap, int);
 				if (have_len) {
-					if (sdval > 0) {
+					if (sdval >= 0) {
 						input_len = (size_t)sdval;
+					} else {
+						/* Negative precision is the same as none. */
+						no_prec = M_TRUE;
 					}
 				} else {
-					if (sdval > 0) {
-						pad_len = (size_t)sdval;
+					/* Negative width is the '-' flag and a width. */
+					if (sdval < 0) {
+						ljust    = M_TRUE;
+						pad_char = ' ';
+						sdval    = -sdval;
 					}
+					pad_len = (size_t)sdval;
 				}
 				break;
 
@@ -870,7 +878,7 @@ static ssize_t M_str_fmt_handle_control(M_str_fmt_t *data, M_parser_t *parser, M
 			case 'G':
 				data_type = M_STR_FMT_DATA_TYPE_DOUBLE;
 				ddval     = M_str_fmt_get_double(data_type, ap);
-				if (!have_len) {
+				if (!have_len || no_prec) {
 					/* Default is 6 decimal digits. */
 					input_len = 6;
 				}
@@ -886,7 +894,7 @@ static ssize_t M_str_fmt_handle_control(M_str_fmt_t *data, M_parser_t *parser, M
 			/* String. */
 			case 's':
 				const_temp = va_arg(ap->ap, char *);
-				if (have_len) {
+				if (have_len && !no_prec) {
 					input_len = M_str_len_max(const_temp, input_len);
 				} else {
 					input_len = M_str_len(const_temp);
-- 
2.43.0


From 828ddf4030d673bcf79feda2ee3462ecaa825890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:11 +0000
Subject: [PATCH 083/268] fix: the I size modifier was ignored unless it was
 near the end of the format

---
 base/data/m_str_fmt.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/base/data/m_str_fmt.c b/base/data/m_str_fmt.c
index 8e97ed1..34e9166 100644
--- a/base/data/m_str_fmt.c
+++ b/base/data/m_str_fmt.c
@@ -805,10 +805,11 @@ static ssize_t M_str_fmt_handle_control(M_str_fmt_t *data, M_parser_t *parser, M
 					if (M_mem_eq(temp, "64", 2)) {
 						data_type = M_STR_FMT_DATA_TYPE_LONGLONG;
 						M_parser_consume(parser, 2);
+						break;
 					} else if (M_mem_eq(temp, "32", 2)) {
 						M_parser_consume(parser, 2);
+						break;
 					}
-					break;
 				}
 				/* 'I' without 64 or 32 after is
 				 * the same as 'z'
-- 
2.43.0


From 6aede570ba0eb6c5aff04ac257c439ec2dc5382f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:11 +0000
Subject: [PATCH 084/268] fix: zero printed as hex does not get a 0x prefix

---
 base/data/m_str_fmt.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/data/m_str_fmt.c b/base/data/m_str_fmt.c
index 34e9166..4d66719 100644
--- a/base/data/m_str_fmt.c
+++ b/base/data/m_str_fmt.c
@@ -856,7 +856,7 @@ static ssize_t M_str_fmt_handle_control(M_str_fmt_t *data, M_parser_t *parser, M
 			case 'x':
 			case 'X':
 				udval   = M_str_fmt_get_unsigned_integer(data_type, ap);
-				out_len = M_str_fmt_add_integer_just(data, udval, 16, M_TRUE, M_STR_FMT_SIGN_TYPE_NEG, add_prefix, b=='X'?M_TRUE:M_FALSE, pad_char, pad_len, ljust);
+				out_len = M_str_fmt_add_integer_just(data, udval, 16, M_TRUE, M_STR_FMT_SIGN_TYPE_NEG, (add_prefix && udval != 0)?M_TRUE:M_FALSE, b=='X'?M_TRUE:M_FALSE, pad_char, pad_len, ljust);
 				goto done;
 
 			/* Pseudo integral type.
-- 
2.43.0


From 3aa199f9819a42d6aac43c53581c7d73d0723821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:11 +0000
Subject: [PATCH 085/268] fix: M_asprintf of an empty result returned NULL

---
 base/data/m_str_fmt.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/base/data/m_str_fmt.c b/base/data/m_str_fmt.c
index 4d66719..708e9f3 100644
--- a/base/data/m_str_fmt.c
+++ b/base/data/m_str_fmt.c
@@ -1166,6 +1166,10 @@ size_t M_vasprintf(char **ret, const char *fmt, va_list ap)
 
 	if (ret != NULL) {
 		*ret = M_buf_finish_str(buf, &len);
+		/* An empty buffer finishes as NULL. */
+		if (*ret == NULL) {
+			*ret = M_strdup("");
+		}
 	} else {
 		len = M_buf_len(buf);
 		M_buf_cancel(buf);
-- 
2.43.0


From aadfa0d72d0d088beb700c39c87b78368bf3a6be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:02 +0000
Subject: [PATCH 086/268] fix: rounding of decimals looked at a single digit
 and ignored most divisors

---
 base/math/m_decimal.c | 63 +++++++++++++++++++------------------------
 1 file changed, 27 insertions(+), 36 deletions(-)

diff --git a/base/math/m_decimal.c b/base/math/m_decimal.c
index 9104b4f..c01aec5 100644
--- a/base/math/m_decimal.c
+++ b/base/math/m_decimal.c
@@ -119,10 +119,20 @@ static M_NOINLINE M_IGNORE_SIGNED_OVERFLOW enum M_DECIMAL_RETVAL M_decimal_mult_
 }
 
 
+static M_uint64 M_decimal_abs(M_int64 num)
+{
+	/* Special case */
+	if (num == M_INT64_MIN) {
+		return ((M_uint64)M_INT64_MAX)+1;
+	}
+
+	return num<0?(M_uint64)(num * -1):(M_uint64)num;
+}
+
+
 static enum M_DECIMAL_RETVAL M_decimal_div_int64(M_int64 *out, M_int64 num, M_int64 denom, M_decimal_round_t round)
 {
 	enum M_DECIMAL_RETVAL rv;
-	M_int64               moddenom;
 
 	if (denom == 0)
 		return M_DECIMAL_INVALID;
@@ -138,32 +148,24 @@ static enum M_DECIMAL_RETVAL M_decimal_div_int64(M_int64 *out, M_int64 num, M_in
 
 	/* Round */
 	if (round != M_DECIMAL_ROUND_NONE) {
-		moddenom = denom/10;
-		if (moddenom) {
-			M_uint8 digit = (M_uint8)(M_ABS(num / moddenom) % 10);
-			if (num > 0 && digit > 5) {
+		M_uint64 adenom = M_decimal_abs(denom);
+		M_uint64 arem   = M_decimal_abs(num % denom);
+		M_bool   up     = M_FALSE;
+
+		if (arem > adenom - arem) {
+			/* More than half */
+			up = M_TRUE;
+		} else if (arem == adenom - arem) {
+			/* Exactly half */
+			if (round == M_DECIMAL_ROUND_TRADITIONAL || (round == M_DECIMAL_ROUND_BANKERS && *out % 2 != 0))
+				up = M_TRUE;
+		}
+
+		if (up) {
+			if ((num < 0) == (denom < 0)) {
 				(*out)++;
-			} else if (num < 0 && digit > 5) {
+			} else {
 				(*out)--;
-			} else if (digit == 5) {
-				if (round == M_DECIMAL_ROUND_TRADITIONAL) {
-					if (num > 0) {
-						(*out)++;
-					} else {
-						(*out)--;
-					}
-				} else if (round == M_DECIMAL_ROUND_BANKERS) {
-					if ((M_ABS(*out) % 10) % 2) {
-						/* Digit is odd, round to even */
-						if (num > 0) {
-							(*out)++;
-						} else {
-							(*out)--;
-						}
-					} else {
-						/* Digit is even, do nothing */
-					}
-				}
 			}
 		}
 	}
@@ -563,17 +565,6 @@ M_int8 M_decimal_cmp(const M_decimal_t *dec1, const M_decimal_t *dec2)
 }
 
 
-static M_uint64 M_decimal_abs(M_int64 num)
-{
-	/* Special case */
-	if (num == M_INT64_MIN) {
-		return ((M_uint64)M_INT64_MAX)+1;
-	}
-
-	return num<0?(M_uint64)(num * -1):(M_uint64)num;
-}
-
-
 enum M_DECIMAL_RETVAL M_decimal_to_str(const M_decimal_t *dec, char *buf, size_t buf_len)
 {
 	char    *ptr           = buf;
-- 
2.43.0


From 542250085972034b00dbba730b191996f267ae4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:13 +0000
Subject: [PATCH 087/268] fix: dropping more decimal places than a number has
 digits failed as an overflow

---
 base/math/m_decimal.c | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/base/math/m_decimal.c b/base/math/m_decimal.c
index c01aec5..ebbc409 100644
--- a/base/math/m_decimal.c
+++ b/base/math/m_decimal.c
@@ -235,10 +235,20 @@ enum M_DECIMAL_RETVAL M_decimal_transform(M_decimal_t *dec, M_uint8 num_dec, M_d
 	/* num_dec < dec->num_dec */
 	if (dec->num != 0) {
 		rv = M_decimal_exp_int64(&opnum, 10, (M_uint8)(dec->num_dec - num_dec));
-		if (rv == M_DECIMAL_OVERFLOW)
-			return rv; /* Not possible, is it? */
+		if (rv == M_DECIMAL_OVERFLOW) {
+			/* More decimal places are dropped than there are digits, only a half of the last place can remain. */
+			M_uint64 num  = M_decimal_abs(dec->num);
+			M_uint64 half = M_uint64_exp(10, 19) / 2;
 
-		rv = M_decimal_div_int64(&dec->num, dec->num, opnum, round);
+			if (dec->num_dec - num_dec == 19 && round != M_DECIMAL_ROUND_NONE && (num > half || (num == half && round == M_DECIMAL_ROUND_TRADITIONAL))) {
+				dec->num = dec->num < 0 ? -1 : 1;
+			} else {
+				dec->num = 0;
+			}
+			rv = M_DECIMAL_TRUNCATION;
+		} else {
+			rv = M_decimal_div_int64(&dec->num, dec->num, opnum, round);
+		}
 	}
 	dec->num_dec = num_dec;
 	return rv;
-- 
2.43.0


From a724f3d0238d3ed3605b148eddb1537b18bacac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:13 +0000
Subject: [PATCH 088/268] fix: comparing decimals that do not fit a common
 number of places was wrong

---
 base/math/m_decimal.c | 25 ++++++++++---------------
 1 file changed, 10 insertions(+), 15 deletions(-)

diff --git a/base/math/m_decimal.c b/base/math/m_decimal.c
index ebbc409..ff4081e 100644
--- a/base/math/m_decimal.c
+++ b/base/math/m_decimal.c
@@ -535,7 +535,8 @@ M_int8 M_decimal_cmp(const M_decimal_t *dec1, const M_decimal_t *dec2)
 	M_decimal_t           tdec1;
 	M_decimal_t           tdec2;
 	M_uint8               wanted_dec;
-	M_uint8               num_dec;
+	M_int64               num1;
+	M_int64               num2;
 
 	/* Invalid scenarios, but do something somewhat logical */
 	if (dec1 && !dec2)
@@ -551,21 +552,15 @@ M_int8 M_decimal_cmp(const M_decimal_t *dec1, const M_decimal_t *dec2)
 	M_decimal_duplicate(&tdec2, dec2);
 	M_decimal_reduce(&tdec2);
 
+	/* Represent both by the same number of decimal places, when one can't be then it is larger than anything
+	 * the other could be. */
+	num1       = tdec1.num;
+	num2       = tdec2.num;
 	wanted_dec = M_MAX(tdec1.num_dec, tdec2.num_dec);
-
-	/* Loop until both numbers can be represented by the same number of
-	 * decimal places */
-	num_dec    = wanted_dec;
-	while (num_dec) {
-		M_decimal_duplicate(&tdec1, dec1);
-		M_decimal_duplicate(&tdec2, dec2);
-
-		if (M_decimal_transform(&tdec1, num_dec, M_DECIMAL_ROUND_TRADITIONAL) == M_DECIMAL_SUCCESS &&
-		    M_decimal_transform(&tdec2, num_dec, M_DECIMAL_ROUND_TRADITIONAL) == M_DECIMAL_SUCCESS) {
-			break;
-		}
-		num_dec--;
-	}
+	if (M_decimal_transform(&tdec1, wanted_dec, M_DECIMAL_ROUND_NONE) == M_DECIMAL_OVERFLOW)
+		return num1 > 0 ? 1 : -1;
+	if (M_decimal_transform(&tdec2, wanted_dec, M_DECIMAL_ROUND_NONE) == M_DECIMAL_OVERFLOW)
+		return num2 > 0 ? -1 : 1;
 
 	if (tdec1.num > tdec2.num)
 		return 1;
-- 
2.43.0


From b48e087ca1da4a63de148c80613e8133eafd1998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:13 +0000
Subject: [PATCH 089/268] fix: quotients too large for decimal places were
 garbage or an overflow

---
 base/math/m_decimal.c | 57 +++++++++++++------------------------------
 1 file changed, 17 insertions(+), 40 deletions(-)

diff --git a/base/math/m_decimal.c b/base/math/m_decimal.c
index ff4081e..8289fa0 100644
--- a/base/math/m_decimal.c
+++ b/base/math/m_decimal.c
@@ -397,6 +397,12 @@ enum M_DECIMAL_RETVAL M_decimal_divide(M_decimal_t *dest, const M_decimal_t *dec
 	if (dest == NULL || (preprv = M_decimal_prepmath(&tdec1, &tdec2, dec1, dec2, M_FALSE)) == M_DECIMAL_INVALID)
 		return M_DECIMAL_INVALID;
 
+	/* A divisor that can't be told from zero with the decimal places there are room for */
+	if (tdec2.num == 0 && dec2->num != 0) {
+		M_decimal_create(dest);
+		return M_DECIMAL_OVERFLOW;
+	}
+
 	M_decimal_create(dest);
 
 	if (tdec2.num == 0)
@@ -414,56 +420,27 @@ enum M_DECIMAL_RETVAL M_decimal_divide(M_decimal_t *dest, const M_decimal_t *dec
 
 	/* Loop until we can get the most decimal places that will fit in our
 	 * number . Always go for the maximum 18. */
-	wanted_dec = 18;
-
-	while (wanted_dec) {
+	for (wanted_dec = 18; wanted_dec; wanted_dec--) {
 		M_int64 exp;
 
 		if ((rv = M_decimal_exp_int64(&exp, 10, wanted_dec)) != M_DECIMAL_SUCCESS)
 			return rv;
 
-		rv = M_decimal_mult_int64(&remexp, rem, exp);
-		if (rv == M_DECIMAL_SUCCESS)
-			break;
+		if (M_decimal_mult_int64(&remexp, rem, exp) != M_DECIMAL_SUCCESS || M_decimal_mult_int64(&dest->num, num, exp) != M_DECIMAL_SUCCESS)
+			continue;
 
-		wanted_dec--;
-	}
+		/* Calculate the number after the decimal */
+		afterdecrv = M_decimal_div_int64(&afterdec, remexp, tdec2.num, round);
+		if (afterdecrv != M_DECIMAL_SUCCESS && afterdecrv != M_DECIMAL_TRUNCATION)
+			return afterdecrv;
 
-	/* Check for unrecoverable error, could be we can't represent any decimal
-	 * places at all */
-	if (rv != M_DECIMAL_SUCCESS)
-		return rv;
-
-	/* Calculate the number after the decimal */
-	rv = M_decimal_div_int64(&afterdec, remexp, tdec2.num, round);
-	if (rv != M_DECIMAL_SUCCESS && rv != M_DECIMAL_TRUNCATION)
-		return rv;
-
-	if (rv == M_DECIMAL_TRUNCATION)
-		afterdecrv = M_DECIMAL_TRUNCATION;
-
-	/* Loop losing precision until we can represent the number appropriately */
-	while (wanted_dec) {
-		M_int64 exp;
-
-		if ((rv = M_decimal_exp_int64(&exp, 10, wanted_dec)) != M_DECIMAL_SUCCESS)
-			return rv;
-
-		rv = M_decimal_mult_int64(&dest->num, num, exp);
-		if (rv == M_DECIMAL_SUCCESS)
+		if (M_decimal_add_int64(&dest->num, dest->num, afterdec) == M_DECIMAL_SUCCESS)
 			break;
-
-		/* Otherwise overflow occurred trying to store such a big number, so we need
-		 * to truncate.  However, if we're truncating zeros, that's fine */
-		if (M_decimal_div_int64(&afterdec, afterdec, 10, round) == M_DECIMAL_TRUNCATION)
-			afterdecrv = M_DECIMAL_TRUNCATION;
-
-		wanted_dec--;
 	}
 
-	if (wanted_dec) {
-		dest->num += afterdec;
-	}
+	/* Can't represent any decimal places at all */
+	if (!wanted_dec)
+		afterdecrv = M_decimal_div_int64(&dest->num, tdec1.num, tdec2.num, round);
 
 	dest->num_dec = wanted_dec;
 
-- 
2.43.0


From 963074b053dc4929240f3c8adc0093a46f810988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:13 +0000
Subject: [PATCH 090/268] fix: multiplying decimals lost small factors by
 aligning them first

---
 base/math/m_decimal.c | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/base/math/m_decimal.c b/base/math/m_decimal.c
index 8289fa0..130f007 100644
--- a/base/math/m_decimal.c
+++ b/base/math/m_decimal.c
@@ -341,13 +341,19 @@ enum M_DECIMAL_RETVAL M_decimal_multiply(M_decimal_t *dest, const M_decimal_t *d
 	M_decimal_t           tdec1;
 	M_decimal_t           tdec2;
 	enum M_DECIMAL_RETVAL rv;
-	enum M_DECIMAL_RETVAL preprv;
 	M_int64               num;
+	size_t                num_dec;
 	size_t                i;
 
-	if (dest == NULL || (preprv = M_decimal_prepmath(&tdec1, &tdec2, dec1, dec2, M_TRUE)) == M_DECIMAL_INVALID)
+	if (dest == NULL || dec1 == NULL || dec2 == NULL)
 		return M_DECIMAL_INVALID;
 
+	/* Both don't need to have the same number of decimal places */
+	M_decimal_duplicate(&tdec1, dec1);
+	M_decimal_duplicate(&tdec2, dec2);
+	M_decimal_reduce(&tdec1);
+	M_decimal_reduce(&tdec2);
+
 	M_decimal_create(dest);
 
 	/* We multiply in a loop.  We're ok with losing precision, to prevent
@@ -358,22 +364,32 @@ enum M_DECIMAL_RETVAL M_decimal_multiply(M_decimal_t *dest, const M_decimal_t *d
 		if (rv != M_DECIMAL_OVERFLOW)
 			break;
 
-		if (tdec1.num_dec == 0)
+		if (tdec1.num_dec == 0 && tdec2.num_dec == 0)
 			break;
 
 		/* reduce to avoid overflow */
-		M_decimal_transform(&tdec1, (M_uint8)(tdec1.num_dec - 1), M_DECIMAL_ROUND_TRADITIONAL);
-		M_decimal_transform(&tdec2, (M_uint8)(tdec2.num_dec - 1), M_DECIMAL_ROUND_TRADITIONAL);
+		if (tdec1.num_dec != 0)
+			M_decimal_transform(&tdec1, (M_uint8)(tdec1.num_dec - 1), M_DECIMAL_ROUND_TRADITIONAL);
+		if (tdec2.num_dec != 0)
+			M_decimal_transform(&tdec2, (M_uint8)(tdec2.num_dec - 1), M_DECIMAL_ROUND_TRADITIONAL);
 	}
 
 	if (rv != M_DECIMAL_SUCCESS)
 		return rv;
 
-	if (i != 0 || preprv == M_DECIMAL_TRUNCATION)
+	if (i != 0)
 		rv = M_DECIMAL_TRUNCATION;
 
+	/* multiplication adds up precision */
+	num_dec = (size_t)tdec1.num_dec + tdec2.num_dec;
+	for ( ; num_dec > 255; num_dec--) {
+		if (num % 10)
+			rv = M_DECIMAL_TRUNCATION;
+		num /= 10;
+	}
+
 	dest->num     = num;
-	dest->num_dec = (M_uint8)(tdec1.num_dec * 2); /* multiplication doubles precision */
+	dest->num_dec = (M_uint8)num_dec;
 	/* Reduce to minimum number of decimal places */
 	M_decimal_reduce(dest);
 
-- 
2.43.0


From 95cf0cfd1d1dbe0cbf2f0498a56ca8c553d75f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:13 +0000
Subject: [PATCH 091/268] fix: printing a decimal with more than 19 places
 divided by garbage or zero

---
 base/math/m_decimal.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/math/m_decimal.c b/base/math/m_decimal.c
index 130f007..cf7e614 100644
--- a/base/math/m_decimal.c
+++ b/base/math/m_decimal.c
@@ -617,7 +617,7 @@ enum M_DECIMAL_RETVAL M_decimal_to_str(const M_decimal_t *dec, char *buf, size_t
 	ptr_len--;
 
 	/* Output digits after decimal */
-	M_snprintf(ptr, ptr_len, "%0*llu", (int)dec->num_dec, num % M_uint64_exp(10, dec->num_dec));
+	M_snprintf(ptr, ptr_len, "%0*llu", (int)dec->num_dec, dec->num_dec >= num_digits ? num : num % M_uint64_exp(10, dec->num_dec));
 
 	return M_DECIMAL_SUCCESS;
 }
-- 
2.43.0


From 0ceaf99a0cc0bedba1ce6c4966a38683fa46fc9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:57 +0000
Subject: [PATCH 092/268] fix: decimals between -1 and 0 lost their sign after
 leading white space

---
 base/math/m_decimal.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/base/math/m_decimal.c b/base/math/m_decimal.c
index cf7e614..917bc7c 100644
--- a/base/math/m_decimal.c
+++ b/base/math/m_decimal.c
@@ -647,7 +647,9 @@ enum M_DECIMAL_RETVAL M_decimal_from_str(const char *string, size_t len, M_decim
 
 	/* Handle a case of -0.123, where "-0" will be read before decimal but we
 	 * need to apply it after */
-	if (*string == '-') {
+	for (num_read = 0; num_read < len && M_chr_isspace(string[num_read]); num_read++)
+		;
+	if (num_read < len && string[num_read] == '-') {
 		is_neg = M_TRUE;
 	}
 
-- 
2.43.0


From 3faf74f0b46adbfcb410542fe95b05b460e83d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:57 +0000
Subject: [PATCH 093/268] fix: signs and spaces were accepted after the decimal
 point, no digits at all were a number

---
 base/math/m_decimal.c | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/base/math/m_decimal.c b/base/math/m_decimal.c
index 917bc7c..77a3b84 100644
--- a/base/math/m_decimal.c
+++ b/base/math/m_decimal.c
@@ -677,14 +677,21 @@ enum M_DECIMAL_RETVAL M_decimal_from_str(const char *string, size_t len, M_decim
 
 		len_left = len - num_read;
 
+		/* Only digits can follow, and there must be some */
+		for (num_digits = 0; num_digits < len_left && M_chr_isdigit(ptr[num_digits]); num_digits++)
+			;
+		if (num_digits == 0)
+			return M_DECIMAL_INVALID;
+		end = ptr + num_digits;
+
+		/* Zeros at the end don't matter */
+		for (len_left = num_digits; len_left && ptr[len_left-1] == '0'; len_left--)
+			;
+
 		/* Read in a loop.  If the read causes an overflow, read one less
-		 * until it no longer overflows.  Save the original end position
-		 * though for further processing (exponents) */
+		 * until it no longer overflows. */
 		while (len_left) {
 			intrv = M_str_to_int64_ex(ptr, len_left, 10, &afterdec, &temp);
-			if (end == NULL)
-				end = temp;
-
 			if (intrv == M_STR_INT_INVALID) {
 				return M_DECIMAL_INVALID;
 			} else if (intrv == M_STR_INT_OVERFLOW) {
@@ -695,10 +702,6 @@ enum M_DECIMAL_RETVAL M_decimal_from_str(const char *string, size_t len, M_decim
 			}
 		}
 
-		/* If the number read is negative, invalid format! */
-		if (afterdec < 0)
-			return M_DECIMAL_INVALID;
-
 		/* But make negative if before decimal was */
 		if (is_neg || num < 0)
 			afterdec *= -1;
-- 
2.43.0


From 6c3aae83fbd8deb1b265b33b55c325a0e82a755b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:57 +0000
Subject: [PATCH 094/268] fix: more than 18 digits after the decimal point led
 to garbage when they start with zeros

---
 base/math/m_decimal.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/base/math/m_decimal.c b/base/math/m_decimal.c
index 77a3b84..3189c68 100644
--- a/base/math/m_decimal.c
+++ b/base/math/m_decimal.c
@@ -724,11 +724,13 @@ enum M_DECIMAL_RETVAL M_decimal_from_str(const char *string, size_t len, M_decim
 		while (num_digits) {
 			M_int64 exp;
 
-			/* Not possible to overflow this calc. M_str_to_int64_ex was called previously on the decimal
- 			 * portion. If we're here there was no overflow so we know that we cannot have more than 19 digits. */
-			M_decimal_exp_int64(&exp, 10, (M_uint8)num_digits);
+			/* Zero has room for as many digits as there can be decimal places. */
+			if (num == 0 && num_digits <= 255)
+				break;
 
-			if (M_decimal_mult_int64(&val->num, num, exp) != M_DECIMAL_OVERFLOW) {
+			/* There can be many digits when they start with zeros. */
+			if (num_digits <= 255 && M_decimal_exp_int64(&exp, 10, (M_uint8)num_digits) != M_DECIMAL_OVERFLOW &&
+				M_decimal_mult_int64(&val->num, num, exp) != M_DECIMAL_OVERFLOW) {
 				break;
 			}
 
-- 
2.43.0


From 9758d92c7a8e09ac2ecb3fc9f857f256958cb29b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:57 +0000
Subject: [PATCH 095/268] fix: an exponent after the end of a decimal was read

---
 base/math/m_decimal.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/math/m_decimal.c b/base/math/m_decimal.c
index 3189c68..d53bbc7 100644
--- a/base/math/m_decimal.c
+++ b/base/math/m_decimal.c
@@ -757,7 +757,7 @@ enum M_DECIMAL_RETVAL M_decimal_from_str(const char *string, size_t len, M_decim
 	M_decimal_reduce(val);
 
 	/* Handle the exponent/sci notation, e.g.   1.24e-2 == 0.0124 */
-	if (end != NULL && string + len + 1 > end && M_chr_tolower(*end) == 'e') {
+	if (end != NULL && end < string + len && M_chr_tolower(*end) == 'e') {
 		M_decimal_t           multiplier;
 		enum M_DECIMAL_RETVAL exprv;
 
-- 
2.43.0


From f1ec26a5fe3a71a45f8a1b41974122bcfb649e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:57 +0000
Subject: [PATCH 096/268] fix: exponents of decimals with many digits lost them
 or the whole number

---
 base/math/m_decimal.c | 42 ++++++++++++++++++------------------------
 1 file changed, 18 insertions(+), 24 deletions(-)

diff --git a/base/math/m_decimal.c b/base/math/m_decimal.c
index d53bbc7..84920d5 100644
--- a/base/math/m_decimal.c
+++ b/base/math/m_decimal.c
@@ -758,12 +758,11 @@ enum M_DECIMAL_RETVAL M_decimal_from_str(const char *string, size_t len, M_decim
 
 	/* Handle the exponent/sci notation, e.g.   1.24e-2 == 0.0124 */
 	if (end != NULL && end < string + len && M_chr_tolower(*end) == 'e') {
-		M_decimal_t           multiplier;
-		enum M_DECIMAL_RETVAL exprv;
-
 		ptr      = end+1;
 		num_read = (size_t)(ptr - string);
 		len_left = len - num_read;
+		if (len_left && M_chr_isspace(*ptr))
+			return M_DECIMAL_INVALID;
 		intrv    = M_str_to_int64_ex(ptr, len_left, 10, &num, &end);
 		switch (intrv) {
 			case M_STR_INT_OVERFLOW:
@@ -774,31 +773,26 @@ enum M_DECIMAL_RETVAL M_decimal_from_str(const char *string, size_t len, M_decim
 				break;
 		}
 
-		if (num >= 0) {
-			M_int64 exp;
-			if (num > 255 || M_decimal_exp_int64(&exp, 10, (M_uint8)num) == M_DECIMAL_OVERFLOW)
-				return M_DECIMAL_OVERFLOW;
+		if (val->num != 0 && (num > 255 || num < -255))
+			return M_DECIMAL_OVERFLOW;
 
-			M_decimal_from_int(&multiplier, exp, 0);
-		} else {
-			num *= -1;
-			if (num > 255)
-				return M_DECIMAL_OVERFLOW;
-			M_decimal_from_int(&multiplier, 1, (M_uint8)num);
+		/* Move the decimal point, drop or append digits where that's not possible */
+		for ( ; val->num != 0 && num < 0; num++) {
+			if (val->num_dec == 255) {
+				if (val->num % 10)
+					rv = M_DECIMAL_TRUNCATION;
+				val->num /= 10;
+			} else {
+				val->num_dec++;
+			}
 		}
-
-		exprv = M_decimal_multiply(val, val, &multiplier);
-		switch (exprv) {
-			case M_DECIMAL_OVERFLOW:
+		for ( ; val->num != 0 && num > 0; num--) {
+			if (val->num_dec != 0) {
+				val->num_dec--;
+			} else if (M_decimal_mult_int64(&val->num, val->num, 10) == M_DECIMAL_OVERFLOW) {
 				return M_DECIMAL_OVERFLOW;
-			case M_DECIMAL_TRUNCATION:
-				rv = M_DECIMAL_TRUNCATION;
-				break;
-			default:
-				/* Don't change the rv */
-				break;
+			}
 		}
-
 		M_decimal_reduce(val);
 	}
 
-- 
2.43.0


From b99da1f2b425ab385ec07cc2af251c56715e9a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:57 +0000
Subject: [PATCH 097/268] fix: rounding off more than 19 digits divided by
 garbage or zero

---
 base/math/m_round.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/base/math/m_round.c b/base/math/m_round.c
index 024fb0a..da41940 100644
--- a/base/math/m_round.c
+++ b/base/math/m_round.c
@@ -33,6 +33,10 @@ M_uint64 M_uint64_prec_round(M_uint64 num, int currentDecimals, int wantedDecima
 	if (wantedDecimals >= currentDecimals)
 		return num;
 
+	/* More than there are digits */
+	if (currentDecimals - wantedDecimals > 19)
+		return 0;
+
 	/* coverity[return_constant : FALSE] */
 	roundDivisor = M_uint64_exp(10, currentDecimals-wantedDecimals);
 
-- 
2.43.0


From 8f75262db1fce41d8d15982de9401565e6a59bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:51 +0000
Subject: [PATCH 098/268] fix: decoding base32 returned padding as data,
 ignored the length and took padding anywhere

---
 base/bincodec/m_base32.c | 46 ++++++++++++++++++++++++++++------------
 1 file changed, 33 insertions(+), 13 deletions(-)

diff --git a/base/bincodec/m_base32.c b/base/bincodec/m_base32.c
index 55af062..39dcd98 100644
--- a/base/bincodec/m_base32.c
+++ b/base/bincodec/m_base32.c
@@ -118,40 +118,60 @@ size_t M_base32_encode(char *out, size_t out_len, const M_uint8 *in, size_t in_l
 
 size_t M_base32_decode(M_uint8 *out, size_t out_len, const char *in, size_t in_len)
 {
-	size_t cnt = 0;
+	size_t cnt  = 0;
+	size_t idx  = 0;
+	M_bool done = M_FALSE;
 
-	if (out == NULL || out_len == 0 || in == NULL || in_len == 0 || out_len < M_base32_decode_size(in_len))
+	if (out == NULL || out_len == 0 || in == NULL || in_len == 0)
 		return 0;
 
-	while (*in) {
-		M_uint64 n = 0;
-		size_t   i;
+	while (idx < in_len) {
+		M_uint64 n   = 0;
+		size_t   i   = 0;
+		size_t   pad = 0;
 
 		/* Read in 8 bytes */
-		for (i=0; i<8; i++) {
+		for ( ; idx < in_len && i < 8; idx++) {
 			int v;
 
 			/* Skip any whitespace */
-			while (M_chr_isspace(*in))
-				in++;
+			if (M_chr_isspace(in[idx]))
+				continue;
 
-			/* Out of data */
-			if (!*in)
+			/* No data may follow padding */
+			if (done || (pad != 0 && in[idx] != '='))
 				return 0;
 
-			v = M_base32_rev_charset[(M_uint8)*(in++)];
+			v = M_base32_rev_charset[(M_uint8)in[idx]];
+
 			/* invalid character */
 			if (v < 0)
 				return 0;
 
+			if (in[idx] == '=')
+				pad++;
+
 			n |= ((M_uint64)v) << (35 - (i * 5));
+			i++;
 		}
 
-		/* Write out 5 bytes */
-		for (i=0; i<5; i++) {
+		/* Only whitespace was left */
+		if (i == 0)
+			break;
+
+		/* Out of data, or not a number of padding characters there can be */
+		if (i != 8 || (pad != 0 && pad != 1 && pad != 3 && pad != 4 && pad != 6))
+			return 0;
+
+		/* Write out up to 5 bytes */
+		for (i=0; i<((8 - pad) * 5) / 8; i++) {
+			if (cnt >= out_len)
+				return 0;
 			out[cnt++] = (n >> (32 - (i*8))) & 0xFF;
 		}
+		done = pad != 0;
 	}
+
 	return cnt;
 }
 
-- 
2.43.0


From 154e0d85f87de3f458951641006e5bfb2ec3a78f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:51 +0000
Subject: [PATCH 099/268] fix: decoding base64 of only white space read before
 the data

---
 base/bincodec/m_base64.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/bincodec/m_base64.c b/base/bincodec/m_base64.c
index 4da2940..749a000 100644
--- a/base/bincodec/m_base64.c
+++ b/base/bincodec/m_base64.c
@@ -221,7 +221,7 @@ size_t M_base64_decode(unsigned char *out, size_t outlen, const char *in, size_t
 
 	/* Remove whitespace at the end so we can validate any trailing padding. And so we know when
  	 * we're really done decoding. */
-	while (M_chr_isspace(in[inlen-1]))
+	while (inlen > 0 && M_chr_isspace(in[inlen-1]))
 		inlen--;
 
 	if (inlen == 0)
-- 
2.43.0


From cb316e23fedae6a1da3ced3ae34db0b45d838821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:51 +0000
Subject: [PATCH 100/268] fix: base64 with its padding wrapped was rejected,
 data after padding accepted

---
 base/bincodec/m_base64.c | 36 ++++++++++++++++++++++++------------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/base/bincodec/m_base64.c b/base/bincodec/m_base64.c
index 749a000..d1ec3a6 100644
--- a/base/bincodec/m_base64.c
+++ b/base/bincodec/m_base64.c
@@ -60,7 +60,7 @@ static __inline__ void M_base64_encode_adder(char *out, size_t bidx, size_t *pos
 		out[(*pos)++] = '\n';
 }
 
-static __inline__ M_bool M_base64_get_decchar(M_int32 *val, const char *in, size_t inlen, size_t *idx)
+static __inline__ M_bool M_base64_get_decchar(M_int32 *val, const char *in, size_t inlen, size_t *idx, M_bool *pad)
 {
 	char c;
 
@@ -82,13 +82,14 @@ static __inline__ M_bool M_base64_get_decchar(M_int32 *val, const char *in, size
 	c = in[*idx];
 	(*idx)++;
 	if (c == '=') {
-		/* Ensure we don't have any ='s in the middle of the data. Padding is only allowed at the end. */
-		if (*idx-1 < inlen-2) {
-			return M_FALSE;
-		}
+		*pad = M_TRUE;
 		return M_TRUE;
 	}
 
+	/* Padding is only allowed at the end. */
+	if (*pad)
+		return M_FALSE;
+
 	/* The decode table is adjusted with the first 43 characters removed since they're all invalid. */
 	if (c < 43 || (size_t)c-43 > sizeof(dec_table))
 		return M_FALSE;
@@ -214,7 +215,9 @@ size_t M_base64_decode(unsigned char *out, size_t outlen, const char *in, size_t
 	M_int32 c;
 	M_int32 d;
 	size_t  i;
-	size_t  pos = 0;
+	size_t  pos  = 0;
+	M_bool  pad  = M_FALSE;
+	M_bool  cpad = M_FALSE;
 
 	if (out == NULL || outlen == 0 || in == NULL || inlen == 0)
 		return 0;
@@ -229,13 +232,22 @@ size_t M_base64_decode(unsigned char *out, size_t outlen, const char *in, size_t
 
 	for (i=0; i<inlen; ) {
 		/* Take the four ascii characters and transform them into an int. */
-		if (!M_base64_get_decchar(&a, in, inlen, &i) ||
-			!M_base64_get_decchar(&b, in, inlen, &i) ||
-			!M_base64_get_decchar(&c, in, inlen, &i) ||
-			!M_base64_get_decchar(&d, in, inlen, &i))
+		if (!M_base64_get_decchar(&a, in, inlen, &i, &pad) ||
+			!M_base64_get_decchar(&b, in, inlen, &i, &pad) ||
+			pad)
 		{
 			return 0;
 		}
+		if (!M_base64_get_decchar(&c, in, inlen, &i, &pad))
+			return 0;
+		cpad = pad;
+		if (!M_base64_get_decchar(&d, in, inlen, &i, &pad))
+			return 0;
+
+		/* Nothing can follow padding. */
+		if (pad && i != inlen)
+			return 0;
+
 		tmp = (a << 18) | (b << 12) | (c << 6) | d;
 
 		/* Break the bytes out into three chars. */
@@ -243,12 +255,12 @@ size_t M_base64_decode(unsigned char *out, size_t outlen, const char *in, size_t
 			return 0;
 		}
 		/* We need to check for padding to know if we need to write these bytes or not. */
-		if (i != inlen || (i == inlen && in[inlen-2] != '=')) {
+		if (!cpad) {
 			if (!M_base64_write_decchar(out, outlen, (unsigned char)((tmp >> 8) & 0xFF), &pos)) {
 				return 0;
 			}
 		}
-		if (i != inlen || (i == inlen && in[inlen-1] != '=')) {
+		if (!pad) {
 			if (!M_base64_write_decchar(out, outlen, (unsigned char)(tmp & 0xFF), &pos)) {
 				return 0;
 			}
-- 
2.43.0


From 2c92d9f6bb823adac1ca163f8ba05d3a834737d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:51 +0000
Subject: [PATCH 101/268] fix: wrapped hex with an odd number of line ends was
 rejected, half a byte ignored

---
 base/bincodec/m_hex.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/base/bincodec/m_hex.c b/base/bincodec/m_hex.c
index b55336d..1e9321c 100644
--- a/base/bincodec/m_hex.c
+++ b/base/bincodec/m_hex.c
@@ -108,10 +108,13 @@ size_t M_hex_decode(const char *in, size_t inLen, M_uint8 *out, size_t outLen)
 	size_t pos  = 0;
 	M_bool fail = M_FALSE;
 
-	if (in == NULL || inLen == 0 || inLen%2 != 0 || out == NULL || outLen < inLen/2)
+	if (in == NULL || inLen == 0 || out == NULL)
 		return 0;
 
-	while (get_byte(in, inLen, &i, &c1, &fail) && get_byte(in, inLen, &i, &c2, &fail)) {
+	while (get_byte(in, inLen, &i, &c1, &fail)) {
+		/* Half a byte, or no room for it */
+		if (!get_byte(in, inLen, &i, &c2, &fail) || pos >= outLen)
+			return 0;
 		out[pos++] = (M_uint8)(hex2dec(c1) << 4 | hex2dec(c2));
 	}
 
-- 
2.43.0


From 4faee27a0cd4437e17d52f5d3bb306c33a78a1db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:51 +0000
Subject: [PATCH 102/268] fix: detecting hex looked at all of a string instead
 of the given length

---
 base/bincodec/m_bincodec_conv.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/base/bincodec/m_bincodec_conv.c b/base/bincodec/m_bincodec_conv.c
index ddfd935..042e9cd 100644
--- a/base/bincodec/m_bincodec_conv.c
+++ b/base/bincodec/m_bincodec_conv.c
@@ -32,11 +32,11 @@
 
 size_t M_hex_or_base64_to_bin(M_uint8 *out, size_t outlen, const char *in, size_t inlen)
 {
-	if (in == NULL || *in == '\0')
+	if (in == NULL || inlen == 0 || *in == '\0')
 		return 0;
 
 	/* Detect if Hex */
-	if (inlen % 2 == 0 && M_str_ishex(in))
+	if (inlen % 2 == 0 && M_str_ishex_max(in, inlen))
 		return M_hex_decode(in, inlen, out, outlen);
 
 	/* Must be base64 if we're here */
-- 
2.43.0


From 38fb43b2afef07ccf4f9eeebfef393ff4f28bc1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:51 +0000
Subject: [PATCH 103/268] fix: there was no room for a single byte of base64 or
 hex that is hex

---
 base/bincodec/m_bincodec.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/base/bincodec/m_bincodec.c b/base/bincodec/m_bincodec.c
index 5de3bc4..84ff96b 100644
--- a/base/bincodec/m_bincodec.c
+++ b/base/bincodec/m_bincodec.c
@@ -33,8 +33,10 @@ size_t M_bincodec_decode_size(size_t inLen, M_bincodec_codec_t codec)
 {
 	switch (codec) {
 		case M_BINCODEC_BASE64:
-		case M_BINCODEC_BASE64ORHEX:
 			return M_base64_decode_size(inLen);
+		/* Base64 is larger unless there isn't even one full group of it */
+		case M_BINCODEC_BASE64ORHEX:
+			return M_MAX(M_base64_decode_size(inLen), inLen/2);
 		case M_BINCODEC_BASE32:
 			return M_base32_decode_size(inLen);
 		case M_BINCODEC_HEX:
-- 
2.43.0


From f7ea07b64a4e589564837e739947f17aa7fa02e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:03 +0000
Subject: [PATCH 104/268] fix: decoding without asking for the length failed
 contrary to the documented example

---
 base/bincodec/m_bincodec.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/base/bincodec/m_bincodec.c b/base/bincodec/m_bincodec.c
index 84ff96b..d78d0b4 100644
--- a/base/bincodec/m_bincodec.c
+++ b/base/bincodec/m_bincodec.c
@@ -113,10 +113,8 @@ M_uint8 *M_bincodec_decode_alloc(const char *in, size_t inLen, size_t *outLen, M
 	M_uint8 *p    = NULL;
 	size_t   pLen = 0;
 
-	if (outLen == NULL)
-		return NULL;
-
-	*outLen = 0;
+	if (outLen != NULL)
+		*outLen = 0;
 
 	if (in == NULL || inLen == 0) {
 		return NULL;
@@ -131,7 +129,8 @@ M_uint8 *M_bincodec_decode_alloc(const char *in, size_t inLen, size_t *outLen, M
 
 	if (p != NULL && len > 0) {
 		p[len] = '\0';
-		*outLen = len;
+		if (outLen != NULL)
+			*outLen = len;
 	} else {
 		M_free(p);
 		p = NULL;
-- 
2.43.0


From 84dd43333582f8b6630b953a010ebfcc9d86f421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:14 +0000
Subject: [PATCH 105/268] fix: noncharacters of planes 10 to 15 were valid

---
 base/utf8/m_utf8.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/base/utf8/m_utf8.c b/base/utf8/m_utf8.c
index 63e3451..aba434e 100644
--- a/base/utf8/m_utf8.c
+++ b/base/utf8/m_utf8.c
@@ -134,6 +134,12 @@ M_bool M_utf8_is_valid_cp(M_uint32 cp)
 		cp == 0x7FFFE || cp == 0x7FFFF ||
 		cp == 0x8FFFE || cp == 0x8FFFF ||
 		cp == 0x9FFFE || cp == 0x9FFFF ||
+		cp == 0xAFFFE || cp == 0xAFFFF ||
+		cp == 0xBFFFE || cp == 0xBFFFF ||
+		cp == 0xCFFFE || cp == 0xCFFFF ||
+		cp == 0xDFFFE || cp == 0xDFFFF ||
+		cp == 0xEFFFE || cp == 0xEFFFF ||
+		cp == 0xFFFFE || cp == 0xFFFFF ||
 		cp == 0x10FFFE || cp == 0x10FFFF ||
 		(cp >= 0xFDD0 && cp <= 0xFDEF))
 	{
-- 
2.43.0


From a4347d983d72a91d503c8a1accbb4c48cf2c483f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:14 +0000
Subject: [PATCH 106/268] fix: the character at the end of a utf-8 string was
 the last one, an invalid one before an index crashed

---
 base/utf8/m_utf8.c | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/base/utf8/m_utf8.c b/base/utf8/m_utf8.c
index aba434e..4b3d421 100644
--- a/base/utf8/m_utf8.c
+++ b/base/utf8/m_utf8.c
@@ -338,20 +338,17 @@ M_utf8_error_t M_utf8_cp_at(const char *str, size_t idx, M_uint32 *cp)
 	if (M_str_isempty(str))
 		return M_UTF8_ERROR_INVALID_PARAM;
 
-	while (*next != '\0' && res == M_UTF8_ERROR_SUCCESS) {
+	while (*str != '\0') {
 		res = M_utf8_get_cp(str, cp, &next);
-		str = next;
+		if (res != M_UTF8_ERROR_SUCCESS)
+			return res;
 		if (i == idx)
-			break;
+			return M_UTF8_ERROR_SUCCESS;
+		str = next;
 		i++;
 	}
-	if (res != M_UTF8_ERROR_SUCCESS)
-		return res;
 
-	if (i != idx)
-		return M_UTF8_ERROR_INVALID_PARAM;
-
-	return M_UTF8_ERROR_SUCCESS;
+	return M_UTF8_ERROR_INVALID_PARAM;
 }
 
 M_utf8_error_t M_utf8_chr_at(const char *str, char *buf, size_t buf_size, size_t *len, size_t idx)
-- 
2.43.0


From 05b6cbc23a8c524df404ba9e4cf21d40ce2fbe42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:14 +0000
Subject: [PATCH 107/268] fix: title case of a utf-8 character was its lower
 case

---
 base/utf8/m_utf8_case.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/base/utf8/m_utf8_case.c b/base/utf8/m_utf8_case.c
index a50631f..a05e16f 100644
--- a/base/utf8/m_utf8_case.c
+++ b/base/utf8/m_utf8_case.c
@@ -290,10 +290,10 @@ M_utf8_error_t M_utf8_totitle_cp(M_uint32 cp, M_uint32 *title_cp)
 		return M_UTF8_ERROR_BAD_CODE_POINT;
 
 	/* Not found means it's a title or not one that maps to an upper. */
-	if (!M_sort_binary_search(M_utf8_table_uptolow, M_utf8_table_uptolow_len, sizeof(*M_utf8_table_uptolow), &tmap, M_FALSE, M_utf8_compar_cp_map, NULL, &idx))
+	if (!M_sort_binary_search(M_utf8_table_title, M_utf8_table_title_len, sizeof(*M_utf8_table_title), &tmap, M_FALSE, M_utf8_compar_cp_map, NULL, &idx))
 		return M_UTF8_ERROR_SUCCESS;
 
-	*title_cp = M_utf8_table_uptolow[idx].cp2;
+	*title_cp = M_utf8_table_title[idx].cp2;
 	return M_UTF8_ERROR_SUCCESS;
 }
 
-- 
2.43.0


From d830d705a3cdd5f06f6e62f11f8052c99f7047e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:32 +0000
Subject: [PATCH 108/268] fix: most CJK ideographs and Hangul syllables were
 neither letters nor (Hangul) printable

---
 base/utf8/m_utf8_check.c | 34 ++++++++++++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/base/utf8/m_utf8_check.c b/base/utf8/m_utf8_check.c
index 88b4d06..a494b00 100644
--- a/base/utf8/m_utf8_check.c
+++ b/base/utf8/m_utf8_check.c
@@ -133,11 +133,45 @@ M_bool M_utf8_isupper(const char *str)
 
 /* - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - */
 
+/* Letters (Lo) that are listed by the Unicode data as just the first and last of a range. */
+static M_bool is_range_letter(M_uint32 cp)
+{
+	static const struct {
+		M_uint32 first;
+		M_uint32 last;
+	} ranges[] = {
+		{ 0x3400,  0x4DBF  }, /* CJK Ideograph Extension A */
+		{ 0x4E00,  0x9FFF  }, /* CJK Ideograph */
+		{ 0xAC00,  0xD7A3  }, /* Hangul Syllable */
+		{ 0x17000, 0x187F7 }, /* Tangut Ideograph */
+		{ 0x18D00, 0x18D08 }, /* Tangut Ideograph Supplement */
+		{ 0x20000, 0x2A6DF }, /* CJK Ideograph Extension B */
+		{ 0x2A700, 0x2B739 }, /* CJK Ideograph Extension C */
+		{ 0x2B740, 0x2B81D }, /* CJK Ideograph Extension D */
+		{ 0x2B820, 0x2CEA1 }, /* CJK Ideograph Extension E */
+		{ 0x2CEB0, 0x2EBE0 }, /* CJK Ideograph Extension F */
+		{ 0x30000, 0x3134A }, /* CJK Ideograph Extension G */
+		{ 0x31350, 0x323AF }  /* CJK Ideograph Extension H */
+	};
+	size_t i;
+
+	for (i=0; i<sizeof(ranges)/sizeof(*ranges); i++) {
+		if (cp >= ranges[i].first && cp <= ranges[i].last) {
+			return M_TRUE;
+		}
+	}
+
+	return M_FALSE;
+}
+
 M_bool M_utf8_isalpha_cp(M_uint32 cp)
 {
 	if (!M_utf8_is_valid_cp(cp))
 		return M_FALSE;
 
+	if (is_range_letter(cp))
+		return M_TRUE;
+
 	if (M_utf8_islower_cp(cp))
 		return M_TRUE;
 
-- 
2.43.0


From 87634d7890941fa97c11ee770de90f98d44e8311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:59 +0000
Subject: [PATCH 109/268] fix: the codec name iso8859_16 was spelled iso8859_17

---
 text/textcodec/m_textcodec.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/text/textcodec/m_textcodec.c b/text/textcodec/m_textcodec.c
index fa2c570..6535484 100644
--- a/text/textcodec/m_textcodec.c
+++ b/text/textcodec/m_textcodec.c
@@ -622,7 +622,7 @@ M_textcodec_codec_t M_textcodec_codec_from_str(const char *s)
 			M_str_caseeq(s, "l10")          || 
 			M_str_caseeq(s, "iso-8859-16") || 
 			M_str_caseeq(s, "iso8859-16")  || 
-			M_str_caseeq(s, "iso8859_17")  || 
+			M_str_caseeq(s, "iso8859_16")  || 
 			M_str_caseeq(s, "iso885916")   || 
 			M_str_caseeq(s, "885916"))
 	{
-- 
2.43.0


From 67df51e5625130d9a61ce9348a8ef5f9a30e61bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:01 +0000
Subject: [PATCH 110/268] fix: quoted-printable encoding of bytes above 0x7f
 read outside of the digits

---
 text/textcodec/m_textcodec_quoted_printable.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/text/textcodec/m_textcodec_quoted_printable.c b/text/textcodec/m_textcodec_quoted_printable.c
index c4b0938..58c4953 100644
--- a/text/textcodec/m_textcodec_quoted_printable.c
+++ b/text/textcodec/m_textcodec_quoted_printable.c
@@ -35,7 +35,7 @@ M_textcodec_error_t M_textcodec_encode_quoted_printable(M_textcodec_buffer_t *bu
 
 	len = M_str_len(in);
 	for (i=0; i<len; i++) {
-		char c = in[i];
+		unsigned char c = (unsigned char)in[i];
 
 		/* Tab, \r, \n, and space are allowed to be left alone.
  		 * RFC says safe characters are 33-60 and 62-126 inclusive but
@@ -46,7 +46,7 @@ M_textcodec_error_t M_textcodec_encode_quoted_printable(M_textcodec_buffer_t *bu
 			M_textcodec_buffer_add_byte(buf, (unsigned char)("0123456789ABCDEF"[c & 0x0F]));
 			cnt += 3;
 		} else {
-			M_textcodec_buffer_add_byte(buf, (unsigned char)c);
+			M_textcodec_buffer_add_byte(buf, c);
 			cnt++;
 		}
 
-- 
2.43.0


From b8eca25cc4826e4579e1af4ff3032835e54728c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:59 +0000
Subject: [PATCH 111/268] fix: EBCDIC code pages replaced with their substitute
 control character instead of ?

---
 text/textcodec/m_textcodec_cp_map.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/text/textcodec/m_textcodec_cp_map.c b/text/textcodec/m_textcodec_cp_map.c
index 362afd0..d9d0c80 100644
--- a/text/textcodec/m_textcodec_cp_map.c
+++ b/text/textcodec/m_textcodec_cp_map.c
@@ -78,7 +78,10 @@ M_textcodec_error_t M_textcodec_encode_cp_map(M_textcodec_buffer_t *buf, const c
 					res = M_TEXTCODEC_ERROR_FAIL;
 					break;
 				case M_TEXTCODEC_EHANDLER_REPLACE:
-					M_textcodec_buffer_add_byte(buf, M_CP_REPLACE);
+					/* EBCDIC code pages don't have the ? where ASCII has it. */
+					u64v = M_CP_REPLACE;
+					M_hash_u64u64_get(map, M_CP_REPLACE, &u64v);
+					M_textcodec_buffer_add_byte(buf, (unsigned char)u64v);
 					res = M_TEXTCODEC_ERROR_SUCCESS_EHANDLER;
 					break;
 				case M_TEXTCODEC_EHANDLER_IGNORE:
-- 
2.43.0


From a20935882ea4848233d2c119499e8d00ad77b654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:55 +0000
Subject: [PATCH 112/268] fix: quoted-printable decoding took a sign or space
 as a hex digit

---
 text/textcodec/m_textcodec_quoted_printable.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/text/textcodec/m_textcodec_quoted_printable.c b/text/textcodec/m_textcodec_quoted_printable.c
index 58c4953..aa7ed56 100644
--- a/text/textcodec/m_textcodec_quoted_printable.c
+++ b/text/textcodec/m_textcodec_quoted_printable.c
@@ -116,7 +116,7 @@ M_textcodec_error_t M_textcodec_decode_quoted_printable(M_textcodec_buffer_t *bu
 			/* =\r\n is a soft line break. Kill it because we'll put the line back together
 			 * on the next pass. */
 			M_parser_consume(parser, 2);
-		} else if (M_parser_read_int(parser, M_PARSER_INTEGER_ASCII, 2, 16, &i64v)) {
+		} else if (M_str_ispredicate_max((const char *)M_parser_peek(parser), 2, M_chr_ishex) && M_parser_read_int(parser, M_PARSER_INTEGER_ASCII, 2, 16, &i64v)) {
 			/* Two character hex code converted into a character.
 			 *
 			 * The RFC says the characters must be upper case but
-- 
2.43.0


From bb11c33051ee42fc278f09fe0bb6a1589b814cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:20 +0000
Subject: [PATCH 113/268] fix: encoding malformed utf-8 to a code page with
 replace or ignore crashed

---
 text/textcodec/m_textcodec_cp_map.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/text/textcodec/m_textcodec_cp_map.c b/text/textcodec/m_textcodec_cp_map.c
index d9d0c80..06b085b 100644
--- a/text/textcodec/m_textcodec_cp_map.c
+++ b/text/textcodec/m_textcodec_cp_map.c
@@ -56,16 +56,18 @@ M_textcodec_error_t M_textcodec_encode_cp_map(M_textcodec_buffer_t *buf, const c
 		M_uint64       u64v;
 		M_uint32       ucode;
 		unsigned char  cp;
+		const char    *cur;
 		M_utf8_error_t ures;
 
 		/* read the next utf8 character. */
-		ures = M_utf8_get_cp(next, &ucode, &next);
+		cur  = next;
+		ures = M_utf8_get_cp(cur, &ucode, &next);
 
 		/* If we have an invalid we need to skip it. Since utf8 characters
  		 * can have multiple bytes we want to and replacement per cha cater
 		 * not per byte. */
 		if (ures != M_UTF8_ERROR_SUCCESS) {
-			next = M_utf8_next_chr(next);
+			next = M_utf8_next_chr(cur);
 		}
 
 		if (ures == M_UTF8_ERROR_SUCCESS && M_hash_u64u64_get(map, ucode, &u64v)) {
-- 
2.43.0


From 7a81630da28fb50c086759c8037d9d86b9a1c62b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:28 +0000
Subject: [PATCH 114/268] fix: normalizing a year or more of days from a month
 past January could be a day off

---
 base/time/m_time_gm.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/base/time/m_time_gm.c b/base/time/m_time_gm.c
index 3873d09..5254457 100644
--- a/base/time/m_time_gm.c
+++ b/base/time/m_time_gm.c
@@ -87,13 +87,17 @@ void M_time_normalize_tm(struct M_time_tm *tm)
 	normalize_range(&tm->hour, &tm->min, 0, 59);
 	normalize_range(&tm->day, &tm->hour, 0, 23);
 
+	/* Months must be in range before days can be converted to anything */
+	normalize_range(&tm->year, &tm->month, 0, 11);
+
 	/* Optimization: normalize days to years. Not necesary
-	 * to the calc, but helps */
+	 * to the calc, but helps.  A year counted from a month past February
+	 * holds the following February, not the one of its own year. */
 	while (1) {
 		if (tm->day > 0) {
-			is_leapyear = IS_LEAPYEAR(tm->year);
+			is_leapyear = IS_LEAPYEAR(tm->month > 1?tm->year+1:tm->year);
 		} else {
-			is_leapyear = IS_LEAPYEAR(tm->year-1);
+			is_leapyear = IS_LEAPYEAR(tm->month > 1?tm->year:tm->year-1);
 		}
 		num_year_days = is_leapyear?366:365;
 
-- 
2.43.0


From 3d91320e1e76d48c1f3ba68cb515713d4eca8fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:45 +0000
Subject: [PATCH 115/268] fix: %I printed the hour of midnight as 00 instead of
 12

---
 base/time/m_time_parse.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/time/m_time_parse.c b/base/time/m_time_parse.c
index 823a7b8..9dc60af 100644
--- a/base/time/m_time_parse.c
+++ b/base/time/m_time_parse.c
@@ -884,7 +884,7 @@ char *M_time_to_str(const char *fmt, const M_time_localtm_t *tm)
 					M_buf_add_int_just(buf, mytm.hour, 2);
 					break;
 				case 'I':
-					M_buf_add_int_just(buf, mytm.hour>12?mytm.hour-12:mytm.hour, 2);
+					M_buf_add_int_just(buf, mytm.hour%12==0?12:mytm.hour%12, 2);
 					break;
 				/* minutes in 2 digit format. */
 				case 'M':
-- 
2.43.0


From 0d38c340fd1215242a421889c4a3c532cca26bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:54 +0000
Subject: [PATCH 116/268] fix: offsets of named and military time zones were
 taken as seconds instead of hours

---
 base/time/m_time_parse.c | 34 +++++++++++++++++-----------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/base/time/m_time_parse.c b/base/time/m_time_parse.c
index 9dc60af..864c491 100644
--- a/base/time/m_time_parse.c
+++ b/base/time/m_time_parse.c
@@ -243,10 +243,10 @@ static M_bool M_time_getoffset(const char **s, M_time_t *gmtoff)
 				*s += 2;
 			} else if (**s == 'U') {
 				(*s)++;
-				*gmtoff = 8;
+				*gmtoff = 8*60*60;
 			} else if (**s == 'G') {
 				(*s)++;
-				*gmtoff = -7;
+				*gmtoff = -7*60*60;
 			} else {
 				return M_FALSE;
 			}
@@ -254,13 +254,13 @@ static M_bool M_time_getoffset(const char **s, M_time_t *gmtoff)
 		case 'E':
 			if (M_str_eq_max(*s, "EST", 3)) {
 				*s += 3;
-				*gmtoff = -5;
+				*gmtoff = -5*60*60;
 			} else if (M_str_eq_max(*s, "EDT", 3)) {
 				*s += 3;
-				*gmtoff = -4;
+				*gmtoff = -4*60*60;
 			} else if (**s == 'E') {
 				(*s)++;
-				*gmtoff = -5;
+				*gmtoff = -5*60*60;
 			} else {
 				return M_FALSE;
 			}
@@ -268,13 +268,13 @@ static M_bool M_time_getoffset(const char **s, M_time_t *gmtoff)
 		case 'C':
 			if (M_str_eq_max(*s, "CST", 3)) {
 				*s += 3;
-				*gmtoff = -6;
+				*gmtoff = -6*60*60;
 			} else if (M_str_caseeq_max(*s, "cdt", 3)) {
 				*s += 3;
-				*gmtoff = -5;
+				*gmtoff = -5*60*60;
 			} else if (**s == 'C') {
 				(*s)++;
-				*gmtoff = -3;
+				*gmtoff = -3*60*60;
 			} else {
 				return M_FALSE;
 			}
@@ -282,13 +282,13 @@ static M_bool M_time_getoffset(const char **s, M_time_t *gmtoff)
 		case 'M':
 			if (M_str_eq_max(*s, "MST", 3)) {
 				*s += 3;
-				*gmtoff = -7;
+				*gmtoff = -7*60*60;
 			} else if (M_str_eq_max(*s, "MDT", 3)) {
 				*s += 3;
-				*gmtoff = -6;
+				*gmtoff = -6*60*60;
 			} else if (**s == 'M') {
 				(*s)++;
-				*gmtoff = -12;
+				*gmtoff = -12*60*60;
 			} else {
 				return M_FALSE;
 			}
@@ -296,13 +296,13 @@ static M_bool M_time_getoffset(const char **s, M_time_t *gmtoff)
 		case 'P':
 			if (M_str_eq_max(*s, "PST", 3)) {
 				*s += 3;
-				*gmtoff = -8;
+				*gmtoff = -8*60*60;
 			} else if (M_str_eq_max(*s, "PDT", 3)) {
 				*s += 3;
-				*gmtoff = -7;
+				*gmtoff = -7*60*60;
 			} else if (**s == 'M') {
 				(*s)++;
-				*gmtoff = 3;
+				*gmtoff = 3*60*60;
 			} else {
 				return M_FALSE;
 			}
@@ -313,12 +313,12 @@ static M_bool M_time_getoffset(const char **s, M_time_t *gmtoff)
 		case 'F':
 		case 'H':
 		case 'I':
-			*gmtoff = (**s - 'A' + 1) * -1;
+			*gmtoff = (**s - 'A' + 1) * -1*60*60;
 			(*s)++;
 			break;
 		case 'K':
 		case 'L':
-			*gmtoff = (**s - 'A') * -1;
+			*gmtoff = (**s - 'A') * -1*60*60;
 			(*s)++;
 			break;
 		case 'N':
@@ -331,7 +331,7 @@ static M_bool M_time_getoffset(const char **s, M_time_t *gmtoff)
 		case 'W':
 		case 'X':
 		case 'Y':
-			*gmtoff = (**s - 'N' + 1);
+			*gmtoff = (**s - 'N' + 1)*60*60;
 			(*s)++;
 			break;
 		case 'Z':
-- 
2.43.0


From 55d97b316b68e72e4f19f0fe123d70e4f5643d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:54 +0000
Subject: [PATCH 117/268] fix: the military time zone P was not parsed

---
 base/time/m_time_parse.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/time/m_time_parse.c b/base/time/m_time_parse.c
index 864c491..0894e8c 100644
--- a/base/time/m_time_parse.c
+++ b/base/time/m_time_parse.c
@@ -300,7 +300,7 @@ static M_bool M_time_getoffset(const char **s, M_time_t *gmtoff)
 			} else if (M_str_eq_max(*s, "PDT", 3)) {
 				*s += 3;
 				*gmtoff = -7*60*60;
-			} else if (**s == 'M') {
+			} else if (**s == 'P') {
 				(*s)++;
 				*gmtoff = 3*60*60;
 			} else {
-- 
2.43.0


From 36a83e44c4d9eb5dc3377bd4677f4766554c657f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:54 +0000
Subject: [PATCH 118/268] fix: a time zone offset without any digits was parsed
 as minus one hour

---
 base/time/m_time_parse.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/base/time/m_time_parse.c b/base/time/m_time_parse.c
index 0894e8c..85b732d 100644
--- a/base/time/m_time_parse.c
+++ b/base/time/m_time_parse.c
@@ -349,6 +349,8 @@ static M_bool M_time_getoffset(const char **s, M_time_t *gmtoff)
 		case '2':
 			/* Get hours. */
 			x = (M_time_t)M_time_getnum(s, 2);
+			if (x < 0)
+				return M_FALSE;
 			*gmtoff = x*60*60;
 			/* Check for : and skip past. */
 			if (**s == ':') {
-- 
2.43.0


From 0ce05b8c4868bd69c0d32d5797a1f6e0cc784d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:54 +0000
Subject: [PATCH 119/268] fix: parsing a time did not step past a.m. and p.m.

---
 base/time/m_time_parse.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/base/time/m_time_parse.c b/base/time/m_time_parse.c
index 85b732d..4e0cda1 100644
--- a/base/time/m_time_parse.c
+++ b/base/time/m_time_parse.c
@@ -159,8 +159,10 @@ static M_int64 M_time_get_ampm_hour(const char **s, M_int64 hour)
 
 	if (M_str_caseeq_max(*s, "p.m.", 4)) {
 		is_pm = M_TRUE;
+		*s += 4;
 	} else if (M_str_caseeq_max(*s, "a.m.", 4)) {
 		/* Pass */
+		*s += 4;
 	} else if (M_str_caseeq_max(*s, "pm", 2)) {
 		is_pm = M_TRUE;
 		*s += 2;
-- 
2.43.0


From e4c30a271b8b7dbee560df504b10c88ecbdb831d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:54 +0000
Subject: [PATCH 120/268] fix: a time format ending in % was read past its end

---
 base/time/m_time_parse.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/base/time/m_time_parse.c b/base/time/m_time_parse.c
index 4e0cda1..670bc56 100644
--- a/base/time/m_time_parse.c
+++ b/base/time/m_time_parse.c
@@ -982,6 +982,7 @@ char *M_time_parsefmt(const char *s, const char *fmt, M_time_localtm_t *tm)
 		switch (*fmt) {
 			/* end of fmt */
 			case 0:
+				return NULL;
 			/* chew %% chars */
 			case '%':
 				if (*s++ != '%')
-- 
2.43.0


From df255eb5bd31cb2dcedd3a52357bbea7475249b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:54 +0000
Subject: [PATCH 121/268] fix: a two digit year up to 20 years ahead but in the
 next century was taken to be in the past one

---
 base/time/m_time_parse.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/base/time/m_time_parse.c b/base/time/m_time_parse.c
index 670bc56..343edf1 100644
--- a/base/time/m_time_parse.c
+++ b/base/time/m_time_parse.c
@@ -1023,6 +1023,8 @@ char *M_time_parsefmt(const char *s, const char *fmt, M_time_localtm_t *tm)
 					x += (temp_tm.year/100)*100;
 					if (x > temp_tm.year+20) {
 						x -= 100;
+					} else if (x <= temp_tm.year-80) {
+						x += 100;
 					}
 				}
 				tm->year  = x;
-- 
2.43.0


From a1eaec633de7fc1ca9ee01ab0011722074a9ef40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:06 +0000
Subject: [PATCH 122/268] fix: two date formats ignored their time zone offset

---
 base/time/m_time_parse.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/base/time/m_time_parse.c b/base/time/m_time_parse.c
index 343edf1..e5e3aca 100644
--- a/base/time/m_time_parse.c
+++ b/base/time/m_time_parse.c
@@ -482,7 +482,7 @@ M_time_t M_time_from_str(const char *timestr, const M_time_tz_t *tz, M_bool defa
 		{ "%m-%d-%Y %H%M%S %p",     M_FALSE },
 		{ "%m-%d-%Y %I%M%S %P",     M_FALSE },
 		{ "%m-%d-%Y %I%M%S %p",     M_FALSE },
-		{ "%m-%d-%Y %H%M%S %z",     M_FALSE },
+		{ "%m-%d-%Y %H%M%S %z",     M_TRUE },
 		{ "%m-%d-%Y %H:%M",         M_FALSE },
 		{ "%m-%d-%Y %H:%M %P",      M_FALSE },
 		{ "%m-%d-%Y %H:%M %p",      M_FALSE },
@@ -519,7 +519,7 @@ M_time_t M_time_from_str(const char *timestr, const M_time_tz_t *tz, M_bool defa
 		{ "%m-%d-%Y T %H%M%S",      M_FALSE },
 		{ "%m-%d-%Y T %H%M%S %P",   M_FALSE },
 		{ "%m-%d-%Y T %H%M%S %p",   M_FALSE },
-		{ "%m-%d-%Y T %H%M%S %z",   M_FALSE },
+		{ "%m-%d-%Y T %H%M%S %z",   M_TRUE },
 		{ "%m-%d-%Y T %I%M%S %P",   M_FALSE },
 		{ "%m-%d-%Y T %I%M%S %p",   M_FALSE },
 		{ "%m-%d-%Y T %H:%M",       M_FALSE },
-- 
2.43.0


From d002de6cc9eb4309bd0eca897b56f3052614b04e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:04 +0000
Subject: [PATCH 123/268] fix: zone files without standard/UT indicators or of
 version 3 and up could not be loaded

---
 base/time/m_time_tz_olson.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/base/time/m_time_tz_olson.c b/base/time/m_time_tz_olson.c
index 3d212b0..e4ec3bc 100644
--- a/base/time/m_time_tz_olson.c
+++ b/base/time/m_time_tz_olson.c
@@ -219,7 +219,7 @@ static M_bool M_time_tz_olson_parse_tzfile(M_fs_file_t *fd, M_time_tz_olson_t **
 
 	/* Version. */
 	ver = (char)M_time_tz_olson_parse_tzfile_read_byte(fd);
-	if (ver != '\0' && ver != '2')
+	if (ver != '\0' && ver < '2')
 		return M_FALSE;
 
 	/* Reserved. */
@@ -233,15 +233,15 @@ static M_bool M_time_tz_olson_parse_tzfile(M_fs_file_t *fd, M_time_tz_olson_t **
 	typecnt    = (M_uint32)M_time_tz_olson_parse_tzfile_read_long(fd, M_FALSE);
 	charcnt    = (M_uint32)M_time_tz_olson_parse_tzfile_read_long(fd, M_FALSE);
 
-	/* These are all interrelated and should be the same length. The typecnt cannot be 0 according to the docs. */
-	if (typecnt != ttisstcnt || typecnt != ttisgmtcnt || ttisstcnt != ttisgmtcnt || typecnt == 0)
+	/* The indicators are either there for every type or left out. The typecnt cannot be 0 according to the docs. */
+	if ((ttisstcnt != 0 && typecnt != ttisstcnt) || (ttisgmtcnt != 0 && typecnt != ttisgmtcnt) || typecnt == 0)
 		return M_FALSE;
 
 	/* Check if we have a version 2 file which has 64 bit data. */
-	if (skip_first && ver == '2') {
+	if (skip_first && ver != '\0') {
 		/* The 64 bit data is a second complete version of the file after the 32 bit version. We skip past the
  		 * first set of data and start reading again at the location where the 64 bit data starts. */
-		M_fs_file_seek(fd, ttisstcnt+ttisstcnt+(leapcnt*8)+(timecnt*5)+(typecnt*6)+charcnt, M_FS_FILE_SEEK_CUR);
+		M_fs_file_seek(fd, ttisgmtcnt+ttisstcnt+(leapcnt*8)+(timecnt*5)+(typecnt*6)+charcnt, M_FS_FILE_SEEK_CUR);
 		return M_time_tz_olson_parse_tzfile(fd, tz, M_FALSE, M_TRUE);
 	}
 
-- 
2.43.0


From 941b9199b1a86c734bd41bf4270cb95837f2cb1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:04 +0000
Subject: [PATCH 124/268] fix: a damaged zone file could make its loader read
 out of bounds

---
 base/time/m_time_tz_olson.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/base/time/m_time_tz_olson.c b/base/time/m_time_tz_olson.c
index e4ec3bc..6b72534 100644
--- a/base/time/m_time_tz_olson.c
+++ b/base/time/m_time_tz_olson.c
@@ -249,7 +249,7 @@ static M_bool M_time_tz_olson_parse_tzfile(M_fs_file_t *fd, M_time_tz_olson_t **
 	transition_times = M_malloc(sizeof(*transition_times)*timecnt);
 	info_idxs        = M_malloc(sizeof(*info_idxs)*timecnt);
 	ttinfos          = M_malloc(sizeof(*ttinfos)*typecnt);
-	abbrs            = M_malloc(sizeof(*abbrs)*charcnt);
+	abbrs            = M_malloc_zero(sizeof(*abbrs)*((size_t)charcnt+1));
 
 	/* Read the times and the index in the offset array. */
 	for (i=0; i<timecnt; i++) {
@@ -258,7 +258,7 @@ static M_bool M_time_tz_olson_parse_tzfile(M_fs_file_t *fd, M_time_tz_olson_t **
 	for (i=0; i<timecnt; i++) {
 		info_idxs[i] = M_time_tz_olson_parse_tzfile_read_byte(fd);
 		/* Info index out of range. */
-		if (info_idxs[i] > typecnt) {
+		if (info_idxs[i] >= typecnt) {
 			M_free(transition_times);
 			M_free(info_idxs);
 			M_free(ttinfos);
@@ -273,7 +273,7 @@ static M_bool M_time_tz_olson_parse_tzfile(M_fs_file_t *fd, M_time_tz_olson_t **
 		ttinfos[i].tt_isdst   = M_time_tz_olson_parse_tzfile_read_byte(fd);
 		ttinfos[i].tt_abbrind = M_time_tz_olson_parse_tzfile_read_byte(fd);
 		/* Abbreviation index out of range. */
-		if (ttinfos[i].tt_abbrind > charcnt) {
+		if (ttinfos[i].tt_abbrind >= charcnt) {
 			M_free(transition_times);
 			M_free(info_idxs);
 			M_free(ttinfos);
-- 
2.43.0


From 152d363dcc9ce1c5de52f69c2665544515bf7947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:04 +0000
Subject: [PATCH 125/268] fix: zone files' abbreviations were mixed up, new
 ones are not at the end of a sorted list

---
 base/time/m_time_tz_olson.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/time/m_time_tz_olson.c b/base/time/m_time_tz_olson.c
index 6b72534..153ac2d 100644
--- a/base/time/m_time_tz_olson.c
+++ b/base/time/m_time_tz_olson.c
@@ -314,7 +314,7 @@ static M_bool M_time_tz_olson_parse_tzfile(M_fs_file_t *fd, M_time_tz_olson_t **
 		/* Check if the abbreviation already exists or if we need to add it. */
 		if (!M_list_str_index_of((*tz)->abbrs, abbrs+ttinfos[info_idx].tt_abbrind, M_LIST_STR_MATCH_VAL, &abbr_idx)) {
 			M_list_str_insert((*tz)->abbrs, abbrs+ttinfos[info_idx].tt_abbrind);
-			abbr_idx = M_list_str_len((*tz)->abbrs)-1;
+			M_list_str_index_of((*tz)->abbrs, abbrs+ttinfos[info_idx].tt_abbrind, M_LIST_STR_MATCH_VAL, &abbr_idx);
 		}
 		transition->abbr   = M_list_str_at((*tz)->abbrs, abbr_idx);
 
-- 
2.43.0


From 1125a5f2e45bf3e74a38e48f0b8450ad7915d951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:04 +0000
Subject: [PATCH 126/268] fix: zones without transitions were taken to be UTC,
 before the first transition the offset of another one was used

---
 base/time/m_time_tz_olson.c | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/base/time/m_time_tz_olson.c b/base/time/m_time_tz_olson.c
index 153ac2d..afe1e91 100644
--- a/base/time/m_time_tz_olson.c
+++ b/base/time/m_time_tz_olson.c
@@ -303,11 +303,20 @@ static M_bool M_time_tz_olson_parse_tzfile(M_fs_file_t *fd, M_time_tz_olson_t **
 
 	/* Now that we have all the data create the tz and fill it in. */
 	*tz = M_time_tz_olson_create();
-	for (i=0; i<timecnt; i++) {
-		transition         = M_malloc(sizeof(*transition));
-		info_idx           = info_idxs[i];
+	for (i=0; i<=timecnt; i++) {
+		transition = M_malloc(sizeof(*transition));
+		if (i < timecnt) {
+			info_idx          = info_idxs[i];
+			transition->start = transition_times[i];
+		} else {
+			/* The first non-DST type applies before the first transition, or always when there aren't any. */
+			for (info_idx=0; info_idx<typecnt && ttinfos[info_idx].tt_isdst; info_idx++)
+				;
+			if (info_idx == typecnt)
+				info_idx = 0;
+			transition->start = M_INT64_MIN;
+		}
 
-		transition->start  = transition_times[i];
 		transition->offset = (M_time_t)ttinfos[info_idx].tt_gmtoff;
 		transition->isdst  = ttinfos[info_idx].tt_isdst;
 
-- 
2.43.0


From 4371c735f3054fc1a582873b4181ae861e1fa4d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:04 +0000
Subject: [PATCH 127/268] fix: local times within a day after a transition were
 taken to be ambiguous

---
 base/time/m_time_tz_olson.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/base/time/m_time_tz_olson.c b/base/time/m_time_tz_olson.c
index afe1e91..a3b2f8f 100644
--- a/base/time/m_time_tz_olson.c
+++ b/base/time/m_time_tz_olson.c
@@ -434,7 +434,9 @@ static M_time_t M_time_tz_olson_adjust_fromlocal(const void *data, const M_time_
 
 	/* Figure out which of the two transitions are valid (if we have them). */
 	if (transition_prev != NULL) {
-		if (tstamp-transition_prev->offset >= transition_prev->start) {
+		if (tstamp-transition_prev->offset >= transition_prev->start &&
+				(transition_next == NULL || tstamp-transition_prev->offset < transition_next->start))
+		{
 			prev_valid = M_TRUE;
 		}
 	}
@@ -444,9 +446,9 @@ static M_time_t M_time_tz_olson_adjust_fromlocal(const void *data, const M_time_
 		}
 	}
 
-	/* Neither transition is valid. This shouldn't happen... */
+	/* Neither transition is valid, the local time was skipped. Stay with the earlier one. */
 	if (!prev_valid && !next_valid) {
-		return 0;
+		return (transition_prev != NULL ? transition_prev->offset : transition_next->offset) * -1;
 	}
 	/* Only one transition is valid so that's the right one. */
 	if (prev_valid && !next_valid) {
-- 
2.43.0


From 99d1635e2e3797b6c34008b948a74e2380377620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:04 +0000
Subject: [PATCH 128/268] fix: daylight saving rules counting from the end of
 the month never applied

---
 base/time/m_time_tz_rule.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/base/time/m_time_tz_rule.c b/base/time/m_time_tz_rule.c
index a679ec0..9e33ba6 100644
--- a/base/time/m_time_tz_rule.c
+++ b/base/time/m_time_tz_rule.c
@@ -63,7 +63,7 @@ static M_bool M_time_tz_rule_change_to_time(const M_time_tz_dst_change_t *change
 		start_day = 1;
 	} else {
 		start_day = M_time_days_in_month(atime.year, atime.month);
-		if (atime.day == 0) {
+		if (start_day == 0) {
 			return M_FALSE;
 		}
 	}
@@ -83,7 +83,7 @@ static M_bool M_time_tz_rule_change_to_time(const M_time_tz_dst_change_t *change
 		if (day > start_day) {
 			day -= 7;
 		}
-		day -= 7 * (occur-1);
+		day += 7 * (occur+1);
 	}
 
 	/* Check that the day is really valid for the month. */
-- 
2.43.0


From c03be11c7b076118a0ef19443689d2778facd144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:04 +0000
Subject: [PATCH 129/268] fix: no daylight saving in years without a 5th
 weekday in the month when a rule asks for the last one

---
 base/time/m_time_tz_rule.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/base/time/m_time_tz_rule.c b/base/time/m_time_tz_rule.c
index 9e33ba6..f49c212 100644
--- a/base/time/m_time_tz_rule.c
+++ b/base/time/m_time_tz_rule.c
@@ -78,6 +78,10 @@ static M_bool M_time_tz_rule_change_to_time(const M_time_tz_dst_change_t *change
 		if (day < 1)
 			day += 7;
 		day += 7 * (occur-1);
+		/* The 5th occurrence is the last one, which may be the 4th. */
+		if (occur == 5 && day > M_time_days_in_month(year, change->month)) {
+			day -= 7;
+		}
 	} else {
 		day = start_day - (atime.wday - aday);
 		if (day > start_day) {
-- 
2.43.0


From 721cc234a4e97f0428b4fd5838d9fa227468b658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:04 +0000
Subject: [PATCH 130/268] fix: rule based zones had daylight saving in the
 southern winter and switched back at the wrong time east of UTC

---
 base/time/m_time_tz_rule.c | 86 +++++++++++++++++++-------------------
 1 file changed, 42 insertions(+), 44 deletions(-)

diff --git a/base/time/m_time_tz_rule.c b/base/time/m_time_tz_rule.c
index f49c212..b1fb9a9 100644
--- a/base/time/m_time_tz_rule.c
+++ b/base/time/m_time_tz_rule.c
@@ -100,43 +100,30 @@ static M_bool M_time_tz_rule_change_to_time(const M_time_tz_dst_change_t *change
 	return M_TRUE;
 }
 
-static M_bool M_time_tz_rule_isdst_mid(M_time_t cur_time, M_time_t dststart, M_time_t dstend, M_time_t offset_diff, M_bool isdst)
+/*! Check if a standard time is within the DST period. In the southern hemisphere the period goes past the end of the
+ * year. */
+static M_bool M_time_tz_rule_in_dst(M_time_t std_time, M_time_t dststart, M_time_t dstend)
 {
-	/* A local time between during a fallback period can happen twice.
- 	 *
-	 * Once with DST and once without. For example:
-	 * In EST5EDT the first sunday of the month at 2:00AM the time falls back one hour for the DST change.
-	 * Due to this 1:30 will happen first due to DST then again after the 2:00AM fallback. Going forward
-	 * we don't have this issue.
-	 *
-	 * We're going to use the isdst flag to determine whether an ambiguous time should be treated as DST or not.
-	 */
-	if (!isdst && cur_time <= dstend && cur_time >= dstend-offset_diff)
-		return M_FALSE;
-
-	if (cur_time < dststart || cur_time > dstend)
-		return M_FALSE;
-	return M_TRUE;
+	if (dststart < dstend)
+		return (std_time >= dststart && std_time < dstend)?M_TRUE:M_FALSE;
+	return (std_time >= dststart || std_time < dstend)?M_TRUE:M_FALSE;
 }
 
-static M_bool M_time_tz_rule_isdst_ends(M_time_t cur_time, M_time_t dststart, M_time_t dstend, M_time_t offset_diff, M_bool isdst)
-{
-	if (!isdst && cur_time <= dststart && cur_time >= dststart-offset_diff)
-		return M_FALSE;
-
-	if (cur_time > dststart || cur_time < dstend)
-		return M_FALSE;
-	return M_TRUE;
-}
-
-static M_bool M_time_tz_rule_isdst(const M_time_tz_dst_rule_t *adjust, const M_time_localtm_t *ltime)
+/*! Determine if DST is in effect.
+ * \param adjust The rule.
+ * \param ltime The local time.
+ * \param is_std_time Whether ltime is known to be expressed in standard time. If not it's the time of the clock on the
+ *                    wall with the isdst flag telling which of the two a time that happens twice is.
+ */
+static M_bool M_time_tz_rule_isdst(const M_time_tz_dst_rule_t *adjust, const M_time_localtm_t *ltime, M_bool is_std_time)
 {
 	M_time_t         dststart;
 	M_time_t         dstend;
 	M_time_t         cur_time;
 	M_time_t         offset_diff;
 	M_time_localtm_t myltime;
-	M_bool           isdst;
+	M_bool           std_valid;
+	M_bool           dst_valid;
 
 	if (adjust == NULL || ltime == NULL) {
 		return M_FALSE;
@@ -150,28 +137,39 @@ static M_bool M_time_tz_rule_isdst(const M_time_tz_dst_rule_t *adjust, const M_t
 
 	M_mem_copy(&myltime, ltime, sizeof(myltime));
 	cur_time    = M_time_fromgm(&myltime);
-	offset_diff = M_ABS(adjust->offset) - M_ABS(adjust->offset_dst);
-	isdst       = ltime->isdst==1?M_TRUE:M_FALSE;
+	offset_diff = adjust->offset_dst - adjust->offset;
 
-	if (dststart < dstend) {
-		return M_time_tz_rule_isdst_mid(cur_time, dststart, dstend, offset_diff, isdst);
-	} else if (dststart > dstend) {
-		return M_time_tz_rule_isdst_ends(cur_time, dststart, dstend, offset_diff, isdst);
-	} else {
-		if (cur_time == dststart) {
-			return M_TRUE;
-		}
-		return M_FALSE;
-	}
+	/* The end is given as DST, convert to standard time. */
+	dstend     -= offset_diff;
+	std_valid   = M_time_tz_rule_in_dst(cur_time, dststart, dstend)?M_FALSE:M_TRUE;
+	if (is_std_time)
+		return std_valid?M_FALSE:M_TRUE;
+	dst_valid   = M_time_tz_rule_in_dst(cur_time-offset_diff, dststart, dstend);
+
+	/* A local time during a fallback period can happen twice.
+	 *
+	 * Once with DST and once without. For example:
+	 * In EST5EDT the first sunday of the month at 2:00AM the time falls back one hour for the DST change.
+	 * Due to this 1:30 will happen first due to DST then again after the 2:00AM fallback. Going forward
+	 * we don't have this issue.
+	 *
+	 * We're going to use the isdst flag to determine whether an ambiguous time should be treated as DST or not.
+	 */
+	if (std_valid && dst_valid)
+		return ltime->isdst==1?M_TRUE:M_FALSE;
+
+	/* A time which is neither was skipped when DST started. */
+	return std_valid?M_FALSE:M_TRUE;
 }
 
 /*! Determine if a date and time requires adjustment for DST.
  * \param tz The timezone data.
  * \param ltime The local time to check for adjustment.
+ * \param is_std_time Whether the local time is expressed in standard time, without DST.
  * \param offset How much the time needs to be adjusted by from UTC.
  * \return True if the date needs to be adjusted. Otherwise false.
  */
-static void M_time_tz_rule_get_offset(const M_time_tz_rule_t *tz, const M_time_localtm_t *ltime, M_time_t *offset, M_bool *isdst)
+static void M_time_tz_rule_get_offset(const M_time_tz_rule_t *tz, const M_time_localtm_t *ltime, M_bool is_std_time, M_time_t *offset, M_bool *isdst)
 {
 	const M_time_tz_dst_rule_t *adjust;
 
@@ -194,7 +192,7 @@ static void M_time_tz_rule_get_offset(const M_time_tz_rule_t *tz, const M_time_l
 		return;
 	}
 
-	if (adjust->start.month == 0 || !M_time_tz_rule_isdst(adjust, ltime)) {
+	if (adjust->start.month == 0 || !M_time_tz_rule_isdst(adjust, ltime, is_std_time)) {
 		if (offset != NULL) {
 			*offset = adjust->offset;
 		}
@@ -256,7 +254,7 @@ static M_time_t M_time_tz_rule_adjust_tolocal(const void *data, M_time_t gmt, M_
 	M_mem_set(&ltime, 0, sizeof(ltime));
 	M_time_togm(gmt, &ltime);
 
-	M_time_tz_rule_get_offset(rtz, &ltime, &offset, isdst);
+	M_time_tz_rule_get_offset(rtz, &ltime, M_TRUE, &offset, isdst);
 	if (abbr != NULL && isdst != NULL && *isdst) {
 		*abbr = rtz->abbr_dst;
 	}
@@ -276,7 +274,7 @@ static M_time_t M_time_tz_rule_adjust_fromlocal(const void *data, const M_time_l
 		return 0;
 
 	rtz = (const M_time_tz_rule_t *)data;
-	M_time_tz_rule_get_offset(rtz, ltime, &offset, NULL);
+	M_time_tz_rule_get_offset(rtz, ltime, M_FALSE, &offset, NULL);
 
 	return offset * -1;
 }
-- 
2.43.0


From ef30443ab337f497b890716f350a59c3b4639c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:04 +0000
Subject: [PATCH 131/268] fix: rule based zones without daylight saving had no
 abbreviation

---
 base/time/m_time_tz_rule.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/base/time/m_time_tz_rule.c b/base/time/m_time_tz_rule.c
index b1fb9a9..df45654 100644
--- a/base/time/m_time_tz_rule.c
+++ b/base/time/m_time_tz_rule.c
@@ -235,6 +235,9 @@ static M_time_t M_time_tz_rule_adjust_tolocal(const void *data, M_time_t gmt, M_
 
 	/* No DST rules apply */
 	if (M_time_tz_dst_rules_len(rtz->adjusts) == 0) {
+		if (abbr) {
+			*abbr = rtz->abbr;
+		}
 		return rtz->offset;
 	}
 
-- 
2.43.0


From 3585f9523cbe21ffb827384684d129536c1f753e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:32 +0000
Subject: [PATCH 132/268] fix: missing numbers in a POSIX time zone string were
 uninitialized values

---
 base/time/m_time_tz_posix.c | 34 +++++++++++++++++++---------------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/base/time/m_time_tz_posix.c b/base/time/m_time_tz_posix.c
index 46fd0f3..a5a40a7 100644
--- a/base/time/m_time_tz_posix.c
+++ b/base/time/m_time_tz_posix.c
@@ -95,9 +95,14 @@ static M_bool M_time_tz_posix_parse_date(M_parser_t *parser, int *month, int *oc
 		return M_FALSE;
 	}
 
-	M_parser_read_int(parts[0], M_PARSER_INTEGER_ASCII, 0, 10, &m_val);
-	M_parser_read_int(parts[1], M_PARSER_INTEGER_ASCII, 0, 10, &o_val);
-	M_parser_read_int(parts[2], M_PARSER_INTEGER_ASCII, 0, 10, &w_val);
+	if (!M_parser_read_int(parts[0], M_PARSER_INTEGER_ASCII, 0, 10, &m_val) ||
+		!M_parser_read_int(parts[1], M_PARSER_INTEGER_ASCII, 0, 10, &o_val) ||
+		!M_parser_read_int(parts[2], M_PARSER_INTEGER_ASCII, 0, 10, &w_val))
+	{
+		M_parser_split_free(parts, num_parts);
+		M_parser_destroy(tparser);
+		return M_FALSE;
+	}
 
 	M_parser_split_free(parts, num_parts);
 	M_parser_destroy(tparser);
@@ -133,7 +138,8 @@ static M_bool M_time_tz_posix_parse_time(M_parser_t *parser, int *hour, int *min
 	M_parser_t    **parts;
 	size_t          num_parts;
 	unsigned char   c;
-	M_int64         val;
+	M_int64         val[3] = { 0, 0, 0 };
+	size_t          i;
 
 	if (hour == NULL || min == NULL || sec == NULL)
 		return M_FALSE;
@@ -180,18 +186,16 @@ static M_bool M_time_tz_posix_parse_time(M_parser_t *parser, int *hour, int *min
 	}
 
 	/* Set each part. */
-	if (num_parts >= 1) {
-		M_parser_read_int(parts[0], M_PARSER_INTEGER_ASCII, 0, 10, &val);
-		*hour = (int)val;
-	}
-	if (num_parts >= 2) {
-		M_parser_read_int(parts[1], M_PARSER_INTEGER_ASCII, 0, 10, &val);
-		*min = (int)val;
-	}
-	if (num_parts >= 3) {
-		M_parser_read_int(parts[2], M_PARSER_INTEGER_ASCII, 0, 10, &val);
-		*sec = (int)val;
+	for (i=0; i<num_parts; i++) {
+		if (!M_parser_read_int(parts[i], M_PARSER_INTEGER_ASCII, 0, 10, &val[i])) {
+			M_parser_split_free(parts, num_parts);
+			M_parser_destroy(tparser);
+			return M_FALSE;
+		}
 	}
+	*hour = (int)val[0];
+	*min  = (int)val[1];
+	*sec  = (int)val[2];
 
 	M_parser_split_free(parts, num_parts);
 	M_parser_destroy(tparser);
-- 
2.43.0


From 410127a07e4c82a091ad2cebd84ffe7e24fb1e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:07 +0000
Subject: [PATCH 133/268] fix: daylight saving rules at 24:00 applied on the
 wrong day

---
 base/time/m_time_tz_rule.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/base/time/m_time_tz_rule.c b/base/time/m_time_tz_rule.c
index df45654..d5e05ff 100644
--- a/base/time/m_time_tz_rule.c
+++ b/base/time/m_time_tz_rule.c
@@ -47,9 +47,6 @@ static M_bool M_time_tz_rule_change_to_time(const M_time_tz_dst_change_t *change
  	 * day of the month is and from there we can determine what day of the month we're dealing with. */
 	atime.year  = year;
 	atime.month = change->month;
-	atime.hour  = change->hour;
-	atime.min   = change->min;
-	atime.sec   = change->sec;
 	occur       = change->occur;
 	aday        = change->wday;
 
@@ -94,7 +91,11 @@ static M_bool M_time_tz_rule_change_to_time(const M_time_tz_dst_change_t *change
 	if (!M_time_is_valid_day(year, atime.month, day)) {
 		return M_FALSE;
 	}
-	atime.day = day;
+	/* The time may be 24:00, set it once the day is known. */
+	atime.day  = day;
+	atime.hour = change->hour;
+	atime.min  = change->min;
+	atime.sec  = change->sec;
 
 	*out = M_time_fromgm(&atime);
 	return M_TRUE;
-- 
2.43.0


From 572aab597b34316c53e8a8d13fcec65c400abc54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:59 +0000
Subject: [PATCH 134/268] fix: environment variables with several components in
 a path were taken as a single one

---
 base/fs/m_fs_path_norm.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/base/fs/m_fs_path_norm.c b/base/fs/m_fs_path_norm.c
index 2504c02..bfe614a 100644
--- a/base/fs/m_fs_path_norm.c
+++ b/base/fs/m_fs_path_norm.c
@@ -81,9 +81,10 @@ static char *M_fs_path_norm_sep(const char *path, M_fs_system_t sys_type)
 	return M_buf_finish_str(buf, NULL);
 }
 
-static M_bool M_fs_path_norm_expand_env_vars(M_list_str_t **dirs)
+static M_bool M_fs_path_norm_expand_env_vars(M_list_str_t **dirs, M_fs_system_t sys_type)
 {
 	M_list_str_t *temp_dirs;
+	M_list_str_t *env_dirs;
 	char         *platform_env_var;
 	char         *retpath = NULL;
 	const char   *env_var;
@@ -193,9 +194,14 @@ static M_bool M_fs_path_norm_expand_env_vars(M_list_str_t **dirs)
 #endif
 		M_free(platform_env_var);
 
-		/* Put the expanded env var into the result dir */
+		/* Put the components of the expanded env var into the result dir. It can only make the path absolute when
+		 * it's at the start of it. */
 		if (*retpath != '\0') {
-			M_list_str_insert(temp_dirs, retpath);
+			env_dirs = M_fs_path_componentize_path(retpath, sys_type);
+			if (M_list_str_len(temp_dirs) > 0 && M_str_isempty(M_list_str_at(env_dirs, 0))) {
+				M_list_str_remove_at(env_dirs, 0);
+			}
+			M_list_str_merge(&temp_dirs, env_dirs, M_TRUE);
 		}
 		M_free(retpath);
 	}
@@ -421,7 +427,7 @@ static M_fs_error_t M_fs_path_norm_int(char **out, const char *path, M_uint32 fl
 	parts = M_fs_path_componentize_path(temp, sys_type);
 	M_free(temp);
 
-	if (!M_fs_path_norm_expand_env_vars(&parts)) {
+	if (!M_fs_path_norm_expand_env_vars(&parts, sys_type)) {
 		M_list_str_destroy(parts);
 		return M_FS_ERROR_GENERIC;
 	}
-- 
2.43.0


From 84c8b378d43409291517e6bfcac3258b6ca0d809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:37 +0000
Subject: [PATCH 135/268] fix: JSON members and values without a comma between
 them were accepted

---
 formats/json/m_json_reader.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/formats/json/m_json_reader.c b/formats/json/m_json_reader.c
index c729efa..f0f29f4 100644
--- a/formats/json/m_json_reader.c
+++ b/formats/json/m_json_reader.c
@@ -207,7 +207,9 @@ static M_json_node_t *M_json_read_object(M_parser_t *parser, M_uint32 flags, M_j
 			return NULL;
 		}
 
-		if (!M_parser_peek_byte(parser, &c) && c != ',' && c != '}') {
+		if (!M_parser_peek_byte(parser, &c))
+			break;
+		if (c != ',' && c != '}') {
 			M_json_node_destroy(node);
 			*error = M_JSON_ERROR_OBJECT_UNEXPECTED_CHAR;
 			return NULL;
@@ -284,7 +286,9 @@ static M_json_node_t *M_json_read_array(M_parser_t *parser, M_uint32 flags, M_js
 			return NULL;
 		}
 
-		if (!M_parser_peek_byte(parser, &c) && c != ',' && c != ']') {
+		if (!M_parser_peek_byte(parser, &c))
+			break;
+		if (c != ',' && c != ']') {
 			M_json_node_destroy(node);
 			*error = M_JSON_ERROR_ARRAY_UNEXPECTED_CHAR;
 			return NULL;
-- 
2.43.0


From 7a62c484db18ff590bdd5609d2cdbedcf15ee7cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:37 +0000
Subject: [PATCH 136/268] fix: the value of a JSON member with an empty name
 leaked

---
 formats/json/m_json_reader.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/formats/json/m_json_reader.c b/formats/json/m_json_reader.c
index f0f29f4..7d19793 100644
--- a/formats/json/m_json_reader.c
+++ b/formats/json/m_json_reader.c
@@ -198,7 +198,8 @@ static M_json_node_t *M_json_read_object(M_parser_t *parser, M_uint32 flags, M_j
 		}
 
 		/* Add the value to the hashtable. */
-		M_json_object_insert(node, M_json_get_string(key_node), val_node);
+		if (!M_json_object_insert(node, M_json_get_string(key_node), val_node))
+			M_json_node_destroy(val_node);
 		M_json_node_destroy(key_node);
 
 		/* Check for a member separator and advance if necessary */
-- 
2.43.0


From 7eb56f131bb08df07326a7e69b51fc48366f6d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:37 +0000
Subject: [PATCH 137/268] fix: replacing a bad JSON unicode escape removed
 characters that are not part of it and read past the end of the data

---
 formats/json/m_json_reader.c | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/formats/json/m_json_reader.c b/formats/json/m_json_reader.c
index 7d19793..7c51026 100644
--- a/formats/json/m_json_reader.c
+++ b/formats/json/m_json_reader.c
@@ -400,16 +400,13 @@ static M_json_node_t *M_json_read_string(M_parser_t *parser, M_uint32 flags, M_j
 					{
 						if (flags & M_JSON_READER_REPLACE_BAD_CHARS) {
 							size_t j;
-							/* Something isn't right. Remove the fist character because
- 							 * we know it's going to be bad. Go though up to 3 more and remove them
-							 * if they're hex. We want to try to fully remove the \u escape and this
-							 * will handle if it's a bad code point or not fully 4 hex characters. */
-							M_parser_consume(parser, 1);
-							for (j=1; j<4; j++) {
-								if (M_chr_ishex((char)s[1+j])) {
-									M_parser_consume(parser, 1);
-								}
-							}
+							size_t left = M_parser_len(parser)-2;
+							/* Something isn't right. Go though up to 4 of the characters following and
+							 * remove them if they're hex. We want to try to fully remove the \u escape and
+							 * this will handle if it's a bad code point or not fully 4 hex characters. */
+							for (j=0; j<4 && j<left && M_chr_ishex((char)s[1+j]); j++)
+								;
+							M_parser_consume(parser, j);
 							M_buf_add_byte(buf, '?');
 							break;
 						} else {
-- 
2.43.0


From 37349635e2e26ee155ca430787a25595b9735334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:37 +0000
Subject: [PATCH 138/268] fix: JSON unicode escapes of code points above U+FFFF
 were not surrogate pairs

---
 formats/json/m_json_reader.c | 34 +++++++++++++++++++++++++++++-----
 formats/json/m_json_writer.c |  7 +++++++
 2 files changed, 36 insertions(+), 5 deletions(-)

diff --git a/formats/json/m_json_reader.c b/formats/json/m_json_reader.c
index 7c51026..0678221 100644
--- a/formats/json/m_json_reader.c
+++ b/formats/json/m_json_reader.c
@@ -321,6 +321,30 @@ static M_json_node_t *M_json_read_array(M_parser_t *parser, M_uint32 flags, M_js
 	return node;
 }
 
+/*! Read what follows a "\u".
+ *
+ * Code points that don't fit 4 hex digits are two escapes, "\uXXXX\uXXXX" (a surrogate pair).
+ *
+ * \return Number of bytes read, 0 if this isn't an escape.
+ */
+static size_t M_json_read_unicode_escape(const unsigned char *s, size_t len, M_uint32 *codepoint)
+{
+	M_uint32 low;
+
+	if (len < 4 || !M_str_ishex_max((const char *)s, 4) || M_str_to_uint32_ex((const char *)s, 4, 16, codepoint, NULL) != M_STR_INT_SUCCESS)
+		return 0;
+
+	if (*codepoint >= 0xD800 && *codepoint <= 0xDBFF && len >= 10 && s[4] == '\\' && s[5] == 'u' &&
+		M_str_ishex_max((const char *)s+6, 4) && M_str_to_uint32_ex((const char *)s+6, 4, 16, &low, NULL) == M_STR_INT_SUCCESS &&
+		low >= 0xDC00 && low <= 0xDFFF)
+	{
+		*codepoint = 0x10000 + ((*codepoint - 0xD800) << 10) + (low - 0xDC00);
+		return 10;
+	}
+
+	return 4;
+}
+
 static M_json_node_t *M_json_read_string(M_parser_t *parser, M_uint32 flags, M_json_error_t *error)
 {
 	M_json_node_t       *node;
@@ -333,6 +357,7 @@ static M_json_node_t *M_json_read_string(M_parser_t *parser, M_uint32 flags, M_j
 	unsigned char        ce;
 	unsigned char        cp = 0;
 	size_t               uchr_len;
+	size_t               ulen;
 
 	(void)flags;
 
@@ -393,9 +418,8 @@ static M_json_node_t *M_json_read_string(M_parser_t *parser, M_uint32 flags, M_j
 				case 'u':
 					/* Check if we have enough data, it's a hex number, and it's a valid
 					 * character we can add to the buffer. */
-					if (M_parser_len(parser) < 6                                                            ||
-						!M_str_ishex_max((const char *)s+1, 4)                                              ||
-						M_str_to_uint32_ex((const char *)s+1, 4, 16, &codepoint, NULL) != M_STR_INT_SUCCESS ||
+					ulen = M_json_read_unicode_escape(s+1, M_parser_len(parser)-2, &codepoint);
+					if (ulen == 0 ||
 						M_utf8_from_cp(uchr, sizeof(uchr), &uchr_len, codepoint) != M_UTF8_ERROR_SUCCESS)
 					{
 						if (flags & M_JSON_READER_REPLACE_BAD_CHARS) {
@@ -417,11 +441,11 @@ static M_json_node_t *M_json_read_string(M_parser_t *parser, M_uint32 flags, M_j
 					}
 					if (flags & M_JSON_READER_DONT_DECODE_UNICODE) {
 						M_buf_add_str(buf, "\\u");
-						M_buf_add_bytes(buf, s+1, 4);
+						M_buf_add_bytes(buf, s+1, ulen);
 					} else {
 						M_buf_add_bytes(buf, uchr, uchr_len);
 					}
-					M_parser_consume(parser, 4);
+					M_parser_consume(parser, ulen);
 					break;
 				default:
 					M_buf_cancel(buf);
diff --git a/formats/json/m_json_writer.c b/formats/json/m_json_writer.c
index 4c9a14f..945199c 100644
--- a/formats/json/m_json_writer.c
+++ b/formats/json/m_json_writer.c
@@ -196,6 +196,13 @@ static M_bool M_json_write_node_string(const M_json_node_t *node, M_buf_t *buf,
 					if (flags & M_JSON_WRITER_DONT_ENCODE_UNICODE) {
 						M_buf_add_bytes(buf, node->data.json_string+i, (size_t)(p - (node->data.json_string+i)));
 					} else {
+						/* Code points that don't fit 4 hex digits are a surrogate pair. */
+						if (cp > 0xFFFF) {
+							M_buf_add_str(buf, "\\u");
+							M_snprintf(uchr, sizeof(uchr), "%04X", 0xD800 + ((cp - 0x10000) >> 10));
+							M_buf_add_str(buf, uchr);
+							cp = 0xDC00 + ((cp - 0x10000) & 0x3FF);
+						}
 						M_buf_add_str(buf, "\\u");
 						M_snprintf(uchr, sizeof(uchr), "%04X", cp);
 						M_buf_add_str(buf, uchr);
-- 
2.43.0


From 1a7879e440e3fdaaa74e8a061c244ce1b4466c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:37 +0000
Subject: [PATCH 139/268] fix: a quote followed large JSON integers written
 with NUMBER_NOCOMPAT

---
 formats/json/m_json_writer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/formats/json/m_json_writer.c b/formats/json/m_json_writer.c
index 945199c..d96914d 100644
--- a/formats/json/m_json_writer.c
+++ b/formats/json/m_json_writer.c
@@ -232,7 +232,7 @@ static M_bool M_json_write_node_integer(const M_json_node_t *node, M_buf_t *buf,
 
 	M_buf_add_int(buf, node->data.json_integer);
 
-	if (node->data.json_integer < JAVASCRIPT_MIN_INT || node->data.json_integer > JAVASCRIPT_MAX_INT)
+	if (!(flags & M_JSON_WRITER_NUMBER_NOCOMPAT) && (node->data.json_integer < JAVASCRIPT_MIN_INT || node->data.json_integer > JAVASCRIPT_MAX_INT))
 		M_buf_add_byte(buf, '"');
 
 	return M_TRUE;
-- 
2.43.0


From 368904568485667487eda931072e897f8db8bbe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:37 +0000
Subject: [PATCH 140/268] fix: failing to write a JSON object leaked

---
 formats/json/m_json_writer.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/formats/json/m_json_writer.c b/formats/json/m_json_writer.c
index d96914d..332640d 100644
--- a/formats/json/m_json_writer.c
+++ b/formats/json/m_json_writer.c
@@ -84,8 +84,10 @@ static M_bool M_json_write_node_object(const M_json_node_t *node, M_buf_t *buf,
 		if (flags & (M_JSON_WRITER_PRETTYPRINT_SPACE|M_JSON_WRITER_PRETTYPRINT_TAB))
 			M_buf_add_byte(buf, ' ');
 
-		if (!M_json_write_node((const M_json_node_t *)value, buf, depth, flags))
+		if (!M_json_write_node((const M_json_node_t *)value, buf, depth, flags)) {
+			M_hash_strvp_enumerate_free(hashenum);
 			return M_FALSE;
+		}
 
 		len--;
 		if (len > 0) {
-- 
2.43.0


From 227317397a47bfd6c839b6a02f08f41530d485cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:37 +0000
Subject: [PATCH 141/268] fix: the names of JSON members were written without
 escaping

---
 formats/json/m_json_writer.c | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/formats/json/m_json_writer.c b/formats/json/m_json_writer.c
index 332640d..7f42a07 100644
--- a/formats/json/m_json_writer.c
+++ b/formats/json/m_json_writer.c
@@ -34,6 +34,7 @@ static M_int64 JAVASCRIPT_MIN_INT = -9007199254740991LL;
 static M_int64 JAVASCRIPT_MAX_INT =  9007199254740991LL;
 
 static M_bool M_json_write_node(const M_json_node_t *node, M_buf_t *buf, size_t *depth, M_uint32 flags);
+static M_bool M_json_write_string(const char *str, M_buf_t *buf, M_uint32 flags);
 
 static void M_json_write_depth(M_buf_t *buf, size_t *depth, M_uint32 flags)
 {
@@ -74,9 +75,10 @@ static M_bool M_json_write_node_object(const M_json_node_t *node, M_buf_t *buf,
 	len = M_hash_strvp_enumerate(node->data.json_object, &hashenum);
 	while (M_hash_strvp_enumerate_next(node->data.json_object, hashenum, &key, &value)) {
 		M_json_write_depth(buf, depth, flags);
-		M_buf_add_byte(buf, '"');
-		M_buf_add_str(buf, key); 
-		M_buf_add_byte(buf, '"');
+		if (!M_json_write_string(key, buf, flags)) {
+			M_hash_strvp_enumerate_free(hashenum);
+			return M_FALSE;
+		}
 
 		if (flags & (M_JSON_WRITER_PRETTYPRINT_SPACE|M_JSON_WRITER_PRETTYPRINT_TAB))
 			M_buf_add_byte(buf, ' ');
@@ -135,7 +137,7 @@ static M_bool M_json_write_node_array(const M_json_node_t *node, M_buf_t *buf, s
 	return M_TRUE;
 }
 
-static M_bool M_json_write_node_string(const M_json_node_t *node, M_buf_t *buf, M_uint32 flags)
+static M_bool M_json_write_string(const char *str, M_buf_t *buf, M_uint32 flags)
 {
 	const char *p;
 	char        uchr[8];
@@ -144,13 +146,10 @@ static M_bool M_json_write_node_string(const M_json_node_t *node, M_buf_t *buf,
 	size_t      len;
 	size_t      i;
 
-	if (buf == NULL || node == NULL || node->type != M_JSON_TYPE_STRING)
-		return M_FALSE;
-
 	M_buf_add_byte(buf, '"');
-	len = M_str_len(node->data.json_string);
+	len = M_str_len(str);
 	for (i=0; i<len; i++) {
-		c = node->data.json_string[i];
+		c = str[i];
 		switch (c) {
 			case '\b':
 				M_buf_add_str(buf, "\\b");
@@ -186,7 +185,7 @@ static M_bool M_json_write_node_string(const M_json_node_t *node, M_buf_t *buf,
 					M_snprintf(uchr, sizeof(uchr), "%04X", c);
 					M_buf_add_str(buf, uchr);
 				} else if ((unsigned char)c > 127) {
-					if (M_utf8_get_cp(node->data.json_string+i, &cp, &p) != M_UTF8_ERROR_SUCCESS) {
+					if (M_utf8_get_cp(str+i, &cp, &p) != M_UTF8_ERROR_SUCCESS) {
 						if (flags & M_JSON_WRITER_REPLACE_BAD_CHARS) {
 							M_buf_add_byte(buf, '?');
 						} else {
@@ -196,7 +195,7 @@ static M_bool M_json_write_node_string(const M_json_node_t *node, M_buf_t *buf,
 					}
 
 					if (flags & M_JSON_WRITER_DONT_ENCODE_UNICODE) {
-						M_buf_add_bytes(buf, node->data.json_string+i, (size_t)(p - (node->data.json_string+i)));
+						M_buf_add_bytes(buf, str+i, (size_t)(p - (str+i)));
 					} else {
 						/* Code points that don't fit 4 hex digits are a surrogate pair. */
 						if (cp > 0xFFFF) {
@@ -213,7 +212,7 @@ static M_bool M_json_write_node_string(const M_json_node_t *node, M_buf_t *buf,
 					 * when we come back around to the start of the loop it will
 					 * move one forward. This needs to be the byte before the next
 					 * one that will be processed. */
-					i += (size_t)(p - (node->data.json_string+i)-1);
+					i += (size_t)(p - (str+i)-1);
 				} else {
 					M_buf_add_byte(buf, (unsigned char)c);
 				}
@@ -224,6 +223,14 @@ static M_bool M_json_write_node_string(const M_json_node_t *node, M_buf_t *buf,
 	return M_TRUE;
 }
 
+static M_bool M_json_write_node_string(const M_json_node_t *node, M_buf_t *buf, M_uint32 flags)
+{
+	if (buf == NULL || node == NULL || node->type != M_JSON_TYPE_STRING)
+		return M_FALSE;
+
+	return M_json_write_string(node->data.json_string, buf, flags);
+}
+
 static M_bool M_json_write_node_integer(const M_json_node_t *node, M_buf_t *buf, M_uint32 flags)
 {
 	if (buf == NULL || node == NULL || node->type != M_JSON_TYPE_INTEGER)
-- 
2.43.0


From 80bcb43e55f0b4ca38c99c8785bcb2a26baa7fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:06 +0000
Subject: [PATCH 142/268] fix: recursive JSONPath searches for an array element
 did not look inside objects

---
 formats/json/m_json_jsonpath.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/formats/json/m_json_jsonpath.c b/formats/json/m_json_jsonpath.c
index e049e1f..16e1bb2 100644
--- a/formats/json/m_json_jsonpath.c
+++ b/formats/json/m_json_jsonpath.c
@@ -226,13 +226,13 @@ static void M_json_jsonpath_search(const M_json_node_t *node, M_list_str_t *segm
 
 	if (node->type == M_JSON_TYPE_OBJECT) {
 		/* Invalid search. We can't index an object. */
-		if (*seg == '[')
+		if (*seg == '[' && !search_recursive)
 			return;
 
 		M_hash_strvp_enumerate(node->data.json_object, &hashenum);
 		while (M_hash_strvp_enumerate_next(node->data.json_object, hashenum, &key, &val)) {
 			/* If a wildcard match, or an exact name match, its a match */
-			if (M_str_eq(seg, "*") || M_str_caseeq(seg, key)) {
+			if (*seg != '[' && (M_str_eq(seg, "*") || M_str_caseeq(seg, key))) {
 				M_json_jsonpath_search(val, segments, seg_offset+1, M_FALSE, matches, num_matches);
 			}
 
-- 
2.43.0


From 8820878a56187902cc38d8b46a48cfe6e1958f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:06 +0000
Subject: [PATCH 143/268] fix: JSONPath segments following a recursive [*] were
 searched for at any depth

---
 formats/json/m_json_jsonpath.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/formats/json/m_json_jsonpath.c b/formats/json/m_json_jsonpath.c
index 16e1bb2..a197a04 100644
--- a/formats/json/m_json_jsonpath.c
+++ b/formats/json/m_json_jsonpath.c
@@ -247,7 +247,7 @@ static void M_json_jsonpath_search(const M_json_node_t *node, M_list_str_t *segm
 		array_len = M_json_array_len(node);
 		if (M_str_eq(seg, "[*]")) {
 			for (i=0; i<array_len; i++) {
-				M_json_jsonpath_search(M_json_array_at(node, i), segments, seg_offset+1, search_recursive, matches, num_matches);
+				M_json_jsonpath_search(M_json_array_at(node, i), segments, seg_offset+1, M_FALSE, matches, num_matches);
 			}
 		/* We have an indexed value lets try to find that index. */
 		} else if (*seg == '[') {
-- 
2.43.0


From 77ff103352660c9b852cdffcd2ef4ab40cde7048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:40 +0000
Subject: [PATCH 144/268] fix: XML declarations read had the remainder of the
 document in their data

---
 formats/xml/m_xml_reader.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/formats/xml/m_xml_reader.c b/formats/xml/m_xml_reader.c
index 12fd6ee..969def7 100644
--- a/formats/xml/m_xml_reader.c
+++ b/formats/xml/m_xml_reader.c
@@ -511,6 +511,7 @@ static M_bool M_xml_read_tag_process(M_xml_node_t **node, const char *data, size
 {
 	M_xml_node_t *new_node = NULL;
 	char         *text     = NULL;
+	M_bool        ret;
 
 	switch (info->type) {
 		case M_XML_TAG_PROCESSING_INSTRUCTION:
@@ -530,7 +531,11 @@ static M_bool M_xml_read_tag_process(M_xml_node_t **node, const char *data, size
 			}
 
 			if (info->type == M_XML_TAG_DECLARATION) {
-				if (!M_xml_node_set_tag_data(new_node, data)) {
+				/* Writing adds the space following the name. */
+				text = M_strdup_trim_max(data, data_len);
+				ret  = M_xml_node_set_tag_data(new_node, text);
+				M_free(text);
+				if (!ret) {
 					*error = M_XML_ERROR_GENERIC;
 					M_xml_node_destroy(new_node);
 					return M_FALSE;
-- 
2.43.0


From f462df5e85aa845dc7b9982f9455adfd7f8481cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:40 +0000
Subject: [PATCH 145/268] fix: entities in XML CDATA sections were decoded, and
 not decoding text added the remainder of the document

---
 formats/xml/m_xml_reader.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/formats/xml/m_xml_reader.c b/formats/xml/m_xml_reader.c
index 969def7..ee61225 100644
--- a/formats/xml/m_xml_reader.c
+++ b/formats/xml/m_xml_reader.c
@@ -573,11 +573,13 @@ static M_bool M_xml_read_tag_process(M_xml_node_t **node, const char *data, size
 			break;
 
 		case M_XML_TAG_CDATA:
-			/* Standard text data would be encoded, so we need to treat this as encoded */
-			if (!(flags & M_XML_READER_DONT_DECODE_TEXT)) {
-				text = M_xml_entities_decode(data, data_len);
+			/* CDATA isn't encoded. Standard text data would be, so it has to be if text isn't decoded. */
+			if (flags & M_XML_READER_DONT_DECODE_TEXT) {
+				text = M_xml_entities_encode(data, data_len);
+			} else {
+				text = M_strdup_max(data, data_len);
 			}
-			new_node = M_xml_create_text(text!=NULL?text:data, 0, *node);
+			new_node = M_xml_create_text(text, 0, *node);
 			M_free(text);
 			if (new_node == NULL) {
 				*error = M_XML_ERROR_GENERIC;
-- 
2.43.0


From 542d499536b6731facd2490530fda4372ca6f2f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:40 +0000
Subject: [PATCH 146/268] fix: XML documents with a comment or processing
 instruction after the root were rejected

---
 formats/xml/m_xml_reader.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/formats/xml/m_xml_reader.c b/formats/xml/m_xml_reader.c
index ee61225..7e170df 100644
--- a/formats/xml/m_xml_reader.c
+++ b/formats/xml/m_xml_reader.c
@@ -748,9 +748,13 @@ M_xml_node_t *M_xml_read(const char *data, size_t data_len, M_uint32 flags, size
 		}
 
 		/* If we're back at the doc, and we have a real child, and it's
-		 * after we've eaten all whitespace ... we're done.
+		 * after we've eaten all whitespace ... we're done. Except that
+		 * comments and processing instructions may follow the root.
 		 */
-		if (curr_level == doc && M_xml_doc_has_element(doc)) {
+		if (curr_level == doc && M_xml_doc_has_element(doc) &&
+			(processed_len != NULL ||
+				!((data_len-i >= 4 && M_mem_eq(data+i, "<!--", 4)) || (data_len-i >= 2 && M_mem_eq(data+i, "<?", 2)))))
+		{
 			if (processed_len) {
 				/* Stop processing, we'll return how much was processed. In cases where there are multiple documents
  				 * in the stream the caller will know there is more data and run another parse. */
-- 
2.43.0


From b49e3967ad14e7b58e76c38abf886d05cb543126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:40 +0000
Subject: [PATCH 147/268] fix: the data of XML processing instructions leaked

---
 formats/xml/m_xml.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/formats/xml/m_xml.c b/formats/xml/m_xml.c
index 0a8baf6..3cdd112 100644
--- a/formats/xml/m_xml.c
+++ b/formats/xml/m_xml.c
@@ -163,6 +163,7 @@ static void M_xml_node_destroy_int(M_xml_node_t *node)
 			break;
 		case M_XML_NODE_TYPE_PROCESSING_INSTRUCTION:
 			M_free(node->d.processing_instruction.name);
+			M_free(node->d.processing_instruction.tag_data);
 			M_hash_dict_destroy(node->d.processing_instruction.attributes);
 			break;
 		case M_XML_NODE_TYPE_DECLARATION:
-- 
2.43.0


From c0aedfa12f537d2705adcf279b13c5689957283f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:40 +0000
Subject: [PATCH 148/268] fix: &gt; and &apos; in XML attributes were not
 decoded

---
 formats/xml/m_xml_entities.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/formats/xml/m_xml_entities.c b/formats/xml/m_xml_entities.c
index 3750bd9..4905e52 100644
--- a/formats/xml/m_xml_entities.c
+++ b/formats/xml/m_xml_entities.c
@@ -159,5 +159,5 @@ char *M_xml_attribute_encode(const char *str, size_t len)
 
 char *M_xml_attribute_decode(const char *str, size_t len)
 {
-	return M_xml_entities_decode_int(str, len, M_xml_attribute_entities);
+	return M_xml_entities_decode_int(str, len, M_xml_encode_entities);
 }
-- 
2.43.0


From fd48149b0e93da1a2a1d2e7c9c408b129f633ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:40 +0000
Subject: [PATCH 149/268] fix: text between XML elements counted towards the
 position in XPath predicates

---
 formats/xml/m_xml_xpath.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/formats/xml/m_xml_xpath.c b/formats/xml/m_xml_xpath.c
index b88e6c9..8e9a566 100644
--- a/formats/xml/m_xml_xpath.c
+++ b/formats/xml/m_xml_xpath.c
@@ -453,9 +453,9 @@ static void M_xml_xpath_search_match_node_pos(const char *seg, M_xml_node_t *nod
 		if (node_type != M_XML_NODE_TYPE_ELEMENT && node_type != M_XML_NODE_TYPE_TEXT)
 			continue;
 
-		/* If it's an element and it matches or it's a text node it is considered a possible node. */
-		if ((node_type == M_XML_NODE_TYPE_ELEMENT && M_xml_xpath_search_tag_eq(ptr, last_seg, flags)) ||
-				(node_type == M_XML_NODE_TYPE_TEXT))
+		/* If it's an element and it matches or it's a text node and we're matching those it is considered a possible node. */
+		if ((match_type == M_XML_XPATH_MATCH_TYPE_TAG && node_type == M_XML_NODE_TYPE_ELEMENT && M_xml_xpath_search_tag_eq(ptr, last_seg, flags)) ||
+				(match_type == M_XML_XPATH_MATCH_TYPE_TEXT && node_type == M_XML_NODE_TYPE_TEXT))
 		{
 			/* Increment the index. */
 			nidx++;
-- 
2.43.0


From 20b7e93c3ea150de673acdaab20db6700c19a77c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:21 +0000
Subject: [PATCH 150/268] fix: CSV cells made only of quotes had an additional
 quote

---
 formats/csv/m_csv.c | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/formats/csv/m_csv.c b/formats/csv/m_csv.c
index 844640a..4027e67 100644
--- a/formats/csv/m_csv.c
+++ b/formats/csv/m_csv.c
@@ -88,7 +88,8 @@ static void M_csv_remove_quotes(char *str, char quote)
 
 	len = M_str_len(str);
 
-	for (i=0; i<len; i++) {
+	/* An opening quote isn't part of a quoted quote. */
+	for (i=(str[0] == quote)?1:0; i<len; i++) {
 		if (str[i] == quote) {
 			if (str[i+1] == quote) {
 				str[cnt++] = quote;
@@ -99,12 +100,6 @@ static void M_csv_remove_quotes(char *str, char quote)
 		}
 	}
 	str[cnt] = 0;
-
-	/* If this was an empty string, "", it may leave
-	 * a single quote behind because it looks like a
-	 * quoted quote.  Lets detect that and remove it */
-	if (cnt == 1 && str[cnt-1] == quote)
-		str[cnt-1] = 0;
 }
 
 
-- 
2.43.0


From 22c9199ff937e5c8b66deadf453104c2d010d7dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:21 +0000
Subject: [PATCH 151/268] fix: loading CSV without a header into a table did
 not add the missing columns

---
 formats/table/m_table_csv.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/formats/table/m_table_csv.c b/formats/table/m_table_csv.c
index 5e936a9..fda101a 100644
--- a/formats/table/m_table_csv.c
+++ b/formats/table/m_table_csv.c
@@ -64,7 +64,7 @@ M_bool M_table_load_csv(M_table_t *table, const char *data, size_t len, char del
 	} else {
 		table_numcols = M_table_column_count(table);
 		csv_numcols   = M_csv_raw_num_cols(csv);
-		for (i=csv_numcols; i<table_numcols; i++) {
+		for (i=table_numcols; i<csv_numcols; i++) {
 			M_table_column_insert(table, NULL);
 		}
 	}
-- 
2.43.0


From 7b13980802803a28abb5e15de7a268a18c113180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:21 +0000
Subject: [PATCH 152/268] fix: loading CSV with an unnamed column into a table
 stored its cells in an arbitrary column

---
 formats/table/m_table_csv.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/formats/table/m_table_csv.c b/formats/table/m_table_csv.c
index fda101a..98fdc2d 100644
--- a/formats/table/m_table_csv.c
+++ b/formats/table/m_table_csv.c
@@ -37,7 +37,7 @@ M_bool M_table_load_csv(M_table_t *table, const char *data, size_t len, char del
 	size_t      csv_numrows;
 	size_t      table_numcols;
 	size_t      rowidx;
-	size_t      colidx;
+	size_t     *colidxs = NULL;
 	size_t      i;
 	size_t      j;
 
@@ -55,9 +55,11 @@ M_bool M_table_load_csv(M_table_t *table, const char *data, size_t len, char del
 	/* Ensure we have all the header or enough columns. */
 	if (have_header) {
 		csv_numcols = M_csv_get_numcols(csv);
+		colidxs     = M_malloc_zero(csv_numcols * sizeof(*colidxs));
 		for (i=0; i<csv_numcols; i++) {
 			colname = M_csv_get_header(csv, i);
-			if (!M_table_column_idx(table, colname, NULL)) {
+			if (!M_table_column_idx(table, colname, &colidxs[i])) {
+				colidxs[i] = M_table_column_count(table);
 				M_table_column_insert(table, colname);
 			}
 		}
@@ -79,17 +81,15 @@ M_bool M_table_load_csv(M_table_t *table, const char *data, size_t len, char del
 
 		for (j=0; j<csv_numcols; j++) {
 			if (have_header) {
-				colname = M_csv_get_header(csv, j);
-				M_table_column_idx(table, colname, &colidx);
-				val     = M_csv_get_cellbynum(csv, i, j);
+				val = M_csv_get_cellbynum(csv, i, j);
 			} else {
-				colidx = j;
-				val    = M_csv_raw_cell(csv, i, j);
+				val = M_csv_raw_cell(csv, i, j);
 			}
-			M_table_cell_set_at(table, rowidx, colidx, val);
+			M_table_cell_set_at(table, rowidx, (colidxs != NULL)?colidxs[j]:j, val);
 		}
 	}
 
+	M_free(colidxs);
 	M_csv_destroy(csv);
 	return M_TRUE;
 }
-- 
2.43.0


From ad6c68ceb4d2d062a5cb881f55a7995ef412ea68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:47 +0000
Subject: [PATCH 153/268] fix: the last row of a table was not written as CSV
 when it is a single cell without a value

---
 formats/table/m_table_csv.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/formats/table/m_table_csv.c b/formats/table/m_table_csv.c
index 98fdc2d..4253faa 100644
--- a/formats/table/m_table_csv.c
+++ b/formats/table/m_table_csv.c
@@ -134,8 +134,9 @@ char *M_table_write_csv(const M_table_t *table, char delim, char quote, M_bool w
 		M_buf_add_str(buf, "\r\n");
 	}
 
-	/* strip of the last line ending. */
-	M_buf_truncate(buf, M_buf_len(buf)-2);
+	/* strip of the last line ending. An empty last line (a lone cell without a value) needs it in order to be a line. */
+	if (M_buf_len(buf) > 2 && M_buf_peek(buf)[M_buf_len(buf)-3] != '\n')
+		M_buf_truncate(buf, M_buf_len(buf)-2);
 
 	return M_buf_finish_str(buf, NULL);
 }
-- 
2.43.0


From dae9b5221182399ebe590c6d9939c4437741ab86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:44 +0000
Subject: [PATCH 154/268] fix: renaming a table column left its old name in
 place and could take the name of another column

---
 formats/table/m_table.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/formats/table/m_table.c b/formats/table/m_table.c
index 74912f9..308e5c9 100644
--- a/formats/table/m_table.c
+++ b/formats/table/m_table.c
@@ -345,18 +345,25 @@ const char *M_table_column_name(const M_table_t *table, size_t idx)
 M_bool M_table_column_set_name(M_table_t *table, size_t idx, const char *colname)
 {
 	M_uint64 colid;
+	M_uint64 othercolid;
 
 	if (table == NULL || idx >= M_list_u64_len(table->col_order))
 		return M_FALSE;
 
 	colid = M_list_u64_at(table->col_order, idx);
 
+	/* The name can't be in use by another column. */
+	if (!M_str_isempty(colname) && M_hash_stru64_get(table->col_name_id, colname, &othercolid) && othercolid != colid)
+		return M_FALSE;
+
+	/* Remove the current name. */
+	M_hash_stru64_remove(table->col_name_id, M_hash_u64str_get_direct(table->col_id_name, colid));
+
 	if (M_str_isempty(colname)) {
 		M_hash_u64str_remove(table->col_id_name, colid);
-		M_hash_stru64_remove(table->col_name_id, colname);
 	} else {
-		M_hash_u64str_insert(table->col_id_name, colid, colname);
 		M_hash_stru64_insert(table->col_name_id, colname, colid);
+		M_hash_u64str_insert(table->col_id_name, colid, colname);
 	}
 
 	return M_TRUE;
-- 
2.43.0


From 3d5d13ce08f816d023be794ccaedd4aa30809468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:44 +0000
Subject: [PATCH 155/268] fix: sorting a table by column index did nothing

---
 formats/table/m_table.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/formats/table/m_table.c b/formats/table/m_table.c
index 308e5c9..f574a17 100644
--- a/formats/table/m_table.c
+++ b/formats/table/m_table.c
@@ -407,7 +407,7 @@ void M_table_column_sort_data_at(M_table_t *table, size_t idx, M_sort_compar_t p
 	M_uint64 colid;
 	M_uint64 secondary_colid;
 
-	if (table == NULL || idx <= M_list_u64_len(table->col_order) || secondary_idx <= M_list_u64_len(table->col_order))
+	if (table == NULL || idx >= M_list_u64_len(table->col_order) || (secondary_sort != NULL && secondary_idx >= M_list_u64_len(table->col_order)))
 		return;
 
 	colid           = M_list_u64_at(table->col_order, idx);
-- 
2.43.0


From 56f5de95d04148765a29cc447610f15e0247b148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:44 +0000
Subject: [PATCH 156/268] fix: setting the cells of a row that does not exist
 from a dict was reported as success

---
 formats/table/m_table.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/formats/table/m_table.c b/formats/table/m_table.c
index f574a17..0143845 100644
--- a/formats/table/m_table.c
+++ b/formats/table/m_table.c
@@ -701,6 +701,9 @@ M_bool M_table_cell_set_dict(M_table_t *table, size_t row, const M_hash_dict_t *
 	const char         *key;
 	const char         *val;
 
+	if (table == NULL || row >= M_list_u64_len(table->row_order))
+		return M_FALSE;
+
 	/* Validate the row flags. We don't want to start adding anything if
  	 * we're supposed to fail on missing column. */
 	if (!(flags & (M_TABLE_INSERT_COLIGNORE|M_TABLE_INSERT_COLADD))) {
-- 
2.43.0


From 033ff685dac88f15a5b917c29537799655663652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:26 +0000
Subject: [PATCH 157/268] fix: INI values with the comment character or outer
 whitespace other than a space were written without quotes

---
 formats/ini/m_ini_writer.c | 32 ++++++++++++++++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/formats/ini/m_ini_writer.c b/formats/ini/m_ini_writer.c
index f28cd10..78964af 100644
--- a/formats/ini/m_ini_writer.c
+++ b/formats/ini/m_ini_writer.c
@@ -446,6 +446,33 @@ static char *M_ini_writer_tree_to_string(const M_ini_t *ini, const M_ini_setting
 
 /* - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - */
 
+/* A value has to be quoted when it would not be read back as it is. */
+static M_bool M_ini_writer_value_needs_quote(const char *val, const M_ini_settings_t *info)
+{
+	unsigned char quote = M_ini_settings_get_quote_char(info);
+	size_t        len;
+	size_t        i;
+
+	len = M_str_len(val);
+	if (quote == 0 || len == 0)
+		return M_FALSE;
+
+	/* Whitespace around a value is trimmed. */
+	if (M_chr_isspace(val[0]) || M_chr_isspace(val[len-1]))
+		return M_TRUE;
+
+	for (i=0; i<len; i++) {
+		if ((unsigned char)val[i] == quote ||
+			(unsigned char)val[i] == M_ini_settings_get_element_delim_char(info) ||
+			(unsigned char)val[i] == M_ini_settings_get_comment_char(info))
+		{
+			return M_TRUE;
+		}
+	}
+
+	return M_FALSE;
+}
+
 void M_ini_writer_write_element_kv(const M_ini_element_t *elem, const char *key, const M_ini_settings_t *info, M_buf_t *buf)
 {
 	const char      *val;
@@ -467,8 +494,9 @@ void M_ini_writer_write_element_kv(const M_ini_element_t *elem, const char *key,
 		if (padding_flags & M_INI_PADDING_AFTER_KV_DELIM) {
 			M_buf_add_byte(buf, ' ');
 		}
-		if (!M_str_quote_if_necessary(&temp, val, M_ini_settings_get_quote_char(info), M_ini_settings_get_escape_char(info), M_ini_settings_get_element_delim_char(info))) {
-			temp = NULL;
+		temp = NULL;
+		if (M_ini_writer_value_needs_quote(val, info)) {
+			temp = M_str_quote(val, M_ini_settings_get_quote_char(info), M_ini_settings_get_escape_char(info));
 		}
 		M_buf_add_str(buf, temp?temp:val);
 		M_free(temp);
-- 
2.43.0


From 77f7aaecd6f17015a6ac7c3ad6e815b3e0b0716c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:55 +0000
Subject: [PATCH 158/268] fix: a quoted INI value ending in an escaped escape
 character swallowed the following lines

---
 formats/ini/m_ini_reader.c | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/formats/ini/m_ini_reader.c b/formats/ini/m_ini_reader.c
index fb6a315..00bc7b0 100644
--- a/formats/ini/m_ini_reader.c
+++ b/formats/ini/m_ini_reader.c
@@ -29,6 +29,18 @@
 
 /* - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - */
 
+/* Escaped by an escape character that isn't itself escaped. */
+static M_bool M_ini_is_escaped(const char *s, size_t pos, unsigned char escape_char)
+{
+	M_bool escaped = M_FALSE;
+
+	while (escape_char != 0 && pos > 0 && (unsigned char)s[pos-1] == escape_char) {
+		escaped = !escaped;
+		pos--;
+	}
+	return escaped;
+}
+
 /* Similar to M_str_explode_str_quoted but with specific enhancements for ini */
 static char **M_ini_explode_lines(const char *s, const M_ini_settings_t *info, size_t *num)
 {
@@ -69,7 +81,7 @@ static char **M_ini_explode_lines(const char *s, const M_ini_settings_t *info, s
 				i++;
 				continue;
 			/* If the escape character preceeds the quote then it's escaped */
-			} else if (quote_char != escape_char && i > 0 && dupstr[i-1] == escape_char) {
+			} else if (quote_char != escape_char && M_ini_is_escaped(dupstr, i, escape_char)) {
 				continue;
 			} else if (on_quote) {
 				on_quote = M_FALSE;
@@ -108,7 +120,7 @@ static char **M_ini_explode_lines(const char *s, const M_ini_settings_t *info, s
 				i++;
 				continue;
 			/* If the escape character preceeds the quote then it's escaped */
-			} else if (quote_char != escape_char && i > 0 && dupstr[i-1] == escape_char) {
+			} else if (quote_char != escape_char && M_ini_is_escaped(dupstr, i, escape_char)) {
 				continue;
 			} else if (on_quote) {
 				on_quote = M_FALSE;
-- 
2.43.0


From 66000a5b3bfc72e21d6f9fc61b4e9ddeee3d1ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:55 +0000
Subject: [PATCH 159/268] fix: every second of several consecutive whitespace
 characters was kept in INI keys with whitespace ignored

---
 formats/ini/m_ini.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/formats/ini/m_ini.c b/formats/ini/m_ini.c
index 307efc3..b4eacf0 100644
--- a/formats/ini/m_ini.c
+++ b/formats/ini/m_ini.c
@@ -48,16 +48,21 @@ char *M_ini_delete_whitespace(char *s)
 	}
 
 	len = M_str_len(s);
-	for (i=0; i<len; i++) {
+	for (i=0; i<len; ) {
 		/* Check if we've encountered a whitespace character. */
 		for (j=0; M_ini_whitespace_chars[j] != 0; j++) {
 			if (s[i] == M_ini_whitespace_chars[j]) {
-				M_mem_move(s+i, s+i+1, len-i);
 				break;
 			}
 		}
+		if (M_ini_whitespace_chars[j] == 0) {
+			i++;
+			continue;
+		}
+		/* Look at the character that takes its place next. */
+		M_mem_move(s+i, s+i+1, len-i);
+		len--;
 	}
-	s[i] = '\0';
 	return s;
 }
 
-- 
2.43.0


From affb4b74dd4b478d5621dc37da5e63593b4ceb40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:23 +0000
Subject: [PATCH 160/268] fix: previous duplicate INI keys that differ in case
 were neither commented nor removed

---
 formats/ini/m_ini_reader.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/formats/ini/m_ini_reader.c b/formats/ini/m_ini_reader.c
index 00bc7b0..e4a7217 100644
--- a/formats/ini/m_ini_reader.c
+++ b/formats/ini/m_ini_reader.c
@@ -465,7 +465,7 @@ static M_bool M_ini_reader_parse_str_handle_kv(const char *section_name, const M
 			len = M_ini_elements_len(section);
 			for (i=0; i<len; i++) {
 				search_elem = M_ini_elements_at(section, i);
-				if (M_ini_element_get_type(search_elem) == M_INI_ELEMENT_TYPE_KV && M_str_eq(M_ini_element_kv_get_key(search_elem), int_key)) {
+				if (M_ini_element_get_type(search_elem) == M_INI_ELEMENT_TYPE_KV && M_str_caseeq(M_ini_element_kv_get_key(search_elem), int_key)) {
 					if (dupkvs == M_INI_DUPKVS_COMMENT_PREV) {
 						/* Comment the existing element. */
 						M_ini_element_kv_to_comment(search_elem, info);
-- 
2.43.0


From e7255a9fa5d9f6efb9a224c886a3f19a777d924f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:23 +0000
Subject: [PATCH 161/268] fix: commenting a duplicate INI key with a value of
 several lines turned its other lines into keys, and left half of a two
 character line ending

---
 formats/ini/m_ini_element.c | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/formats/ini/m_ini_element.c b/formats/ini/m_ini_element.c
index 20aeb65..b9770fc 100644
--- a/formats/ini/m_ini_element.c
+++ b/formats/ini/m_ini_element.c
@@ -242,7 +242,12 @@ M_bool M_ini_element_kv_set_comment(M_ini_element_t *elem, const char *comment)
 
 void M_ini_element_kv_to_comment(M_ini_element_t *elem, const M_ini_settings_t *info)
 {
-	M_buf_t *buf;
+	M_buf_t       *buf;
+	const char    *line_ending;
+	char          *out;
+	unsigned char  delim;
+	size_t         len;
+	size_t         i;
 
 	if (elem == NULL || elem->type != M_INI_ELEMENT_TYPE_KV) {
 		return;
@@ -250,8 +255,22 @@ void M_ini_element_kv_to_comment(M_ini_element_t *elem, const M_ini_settings_t *
 
 	buf = M_buf_create();
 	M_ini_writer_write_element_kv(elem, M_ini_element_kv_get_key(elem), info, buf);
-	/* Remove the delim from the end that was added. */
-	M_buf_truncate(buf, M_buf_len(buf)-1);
+	/* Remove the line ending that was added. */
+	line_ending = M_ini_settings_writer_get_line_ending(info);
+	M_buf_truncate(buf, M_buf_len(buf)-(line_ending==NULL?1:M_str_len(line_ending)));
+	out = M_buf_finish_str(buf, NULL);
+
+	/* A comment ends with its line, so every line of a quoted value has to become a comment. */
+	buf   = M_buf_create();
+	delim = M_ini_settings_get_element_delim_char(info);
+	len   = M_str_len(out);
+	for (i=0; i<len; i++) {
+		M_buf_add_byte(buf, (unsigned char)out[i]);
+		if ((unsigned char)out[i] == delim) {
+			M_buf_add_byte(buf, M_ini_settings_get_comment_char(info));
+		}
+	}
+	M_free(out);
 
 	/* We're change the element so we only want to destroy the data it holds and replace it with the new data. We
  	 * don't want to destroy the entire element. */
-- 
2.43.0


From 7f1e39d6d83b7f4f5b02c1e92be18a6d1adf326e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:23 +0000
Subject: [PATCH 162/268] fix: the comments of INI sections without keys were
 lost when writing

---
 formats/ini/m_ini_writer.c | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/formats/ini/m_ini_writer.c b/formats/ini/m_ini_writer.c
index 78964af..c97bff1 100644
--- a/formats/ini/m_ini_writer.c
+++ b/formats/ini/m_ini_writer.c
@@ -93,7 +93,7 @@ static void M_ini_writer_tree_prune_section_kvs(const char *sect_name, M_ini_ele
 	M_list_u64_destroy(remove_idx);
 }
 
-static void M_ini_writer_tree_prune(M_ini_t *ini)
+static void M_ini_writer_tree_prune(M_ini_t *ini, M_list_str_t *keep_sections)
 {
 	size_t               i;
 	size_t               len;
@@ -112,7 +112,7 @@ static void M_ini_writer_tree_prune(M_ini_t *ini)
 	while (M_hash_strvp_enumerate_next(ini->sections, sectenum, &sect_name, &section)) {
 		M_ini_writer_tree_prune_section_kvs(sect_name, section, ini->kvs);
 		/* Check if the section has any kv elements. If not we should remove it. */
-		if (M_ini_writer_tree_prune_section_has_kv(section)) {
+		if (M_ini_writer_tree_prune_section_has_kv(section) && !M_list_str_index_of(keep_sections, sect_name, M_LIST_STR_MATCH_VAL, NULL)) {
 			M_list_str_insert(prune_sections, sect_name);
 		}
 	}
@@ -287,7 +287,21 @@ static void M_ini_writer_tree_add_kv(M_ini_t *ini, M_ini_kvs_t *kvs)
 
 static void M_ini_writer_update_tree(M_ini_t *ini, const M_ini_settings_t *info)
 {
-	M_ini_kvs_t *kvs;
+	M_ini_kvs_t         *kvs;
+	M_hash_strvp_enum_t *sectenum;
+	M_list_str_t        *keep_sections;
+	const char          *sect_name;
+	void                *section;
+
+	/* A section that never had a kv can still hold comments. */
+	keep_sections = M_list_str_create(M_LIST_STR_NONE);
+	M_hash_strvp_enumerate(ini->sections, &sectenum);
+	while (M_hash_strvp_enumerate_next(ini->sections, sectenum, &sect_name, &section)) {
+		if (M_ini_writer_tree_prune_section_has_kv(section)) {
+			M_list_str_insert(keep_sections, sect_name);
+		}
+	}
+	M_hash_strvp_enumerate_free(sectenum);
 
 	/* duplicate the kvs because we're going to modify it to track what needs to be updated. */
 	kvs = M_ini_kvs_duplicate(ini->kvs);
@@ -297,8 +311,9 @@ static void M_ini_writer_update_tree(M_ini_t *ini, const M_ini_settings_t *info)
 	/* 2. Add The remaining kv from the kvs to the tree. */
 	M_ini_writer_tree_add_kv(ini, kvs);
 	/* 3. Remove all kv from the tree that do not appear in the kvs. */
-	M_ini_writer_tree_prune(ini);
+	M_ini_writer_tree_prune(ini, keep_sections);
 
+	M_list_str_destroy(keep_sections);
 	M_ini_kvs_destroy(kvs);
 }
 
-- 
2.43.0


From 0768d4811ad1907ba8627d60cabedce076476984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:34 +0000
Subject: [PATCH 163/268] fix: the section name leaked when an INI file could
 not be parsed

---
 formats/ini/m_ini_reader.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/formats/ini/m_ini_reader.c b/formats/ini/m_ini_reader.c
index e4a7217..80a508e 100644
--- a/formats/ini/m_ini_reader.c
+++ b/formats/ini/m_ini_reader.c
@@ -550,6 +550,7 @@ static M_fs_error_t M_ini_reader_parse_str(M_ini_t **ini, const char *s, const M
 		res            = M_ini_reader_parse_line(&elem, lines[i], info);
 		if (res != M_FS_ERROR_SUCCESS) {
 			*err_line = real_line_cnt;
+			M_free(section_name);
 			M_ini_explode_lines_free(lines, num_lines);
 			M_ini_destroy(*ini);
 			*ini = NULL;
-- 
2.43.0


From f7e36f6c9aa2948d0c7a5183c42efbaa6cbddbc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:27 +0000
Subject: [PATCH 164/268] fix: writing an INI with a new section replaced the
 name of the section by its internal form

---
 formats/ini/m_ini.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/formats/ini/m_ini.c b/formats/ini/m_ini.c
index b4eacf0..7ae7382 100644
--- a/formats/ini/m_ini.c
+++ b/formats/ini/m_ini.c
@@ -618,7 +618,10 @@ M_bool M_ini_section_insert(M_ini_t *ini, const char *name)
 	}
 
 	M_hash_strvp_insert(ini->sections, int_key, M_ini_elements_create());
-	M_hash_dict_insert(ini->key_lookup, int_full_key, name);
+	/* The name for display may already be known because a key was added to the section. */
+	if (!M_hash_dict_get(ini->key_lookup, int_full_key, NULL)) {
+		M_hash_dict_insert(ini->key_lookup, int_full_key, name);
+	}
 
 	M_free(int_full_key);
 	M_free(int_key);
-- 
2.43.0


From 12f3e235d582345097f0c6745a26afbeabd46cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:44 +0000
Subject: [PATCH 165/268] fix: INI keys without values were reported as missing
 and dropped when merging

---
 formats/ini/m_ini.c        | 6 +++++-
 formats/ini/m_ini_merger.c | 3 +++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/formats/ini/m_ini.c b/formats/ini/m_ini.c
index 7ae7382..cd84353 100644
--- a/formats/ini/m_ini.c
+++ b/formats/ini/m_ini.c
@@ -207,8 +207,12 @@ M_bool M_ini_kv_has_key(const M_ini_t *ini, const char *key)
 	char   *int_key;
 	M_bool  ret;
 
+	if (ini == NULL)
+		return M_FALSE;
+
+	/* A key does not need to have a value. */
 	int_key = M_ini_internal_key(M_strdup(key), ini->ignore_whitespace);
-	ret     = M_ini_kv_get(ini, int_key, 0, NULL);
+	ret     = M_ini_kvs_has_key(ini->kvs, int_key);
 	M_free(int_key);
 
 	return ret;
diff --git a/formats/ini/m_ini_merger.c b/formats/ini/m_ini_merger.c
index 027c726..27cdff2 100644
--- a/formats/ini/m_ini_merger.c
+++ b/formats/ini/m_ini_merger.c
@@ -78,6 +78,7 @@ static M_list_str_t *M_ini_merger_handle_keys(M_ini_t *merged_ini, const M_ini_t
 	for (i=0; i<len; i++) {
 		key = M_list_str_at(keys, i);
 		if (!M_ini_kv_has_key(cur_ini, key) && !M_ini_kv_has_key(orig_ini, key)) {
+			M_ini_kv_add_key(merged_ini, key);
 			val_len = M_ini_kv_len(new_ini, key);
 			for (j=0; j<val_len; j++) {
 				M_ini_kv_insert(merged_ini, key, M_ini_kv_get_direct(new_ini, key, j));
@@ -98,6 +99,7 @@ static M_list_str_t *M_ini_merger_handle_keys(M_ini_t *merged_ini, const M_ini_t
 		if ((!in_new && !in_orig) ||
 		    (in_new && !in_orig))
 		{
+			M_ini_kv_add_key(merged_ini, key);
 			val_len = M_ini_kv_len(cur_ini, key);
 			for (j=0; j<val_len; j++) {
 				M_ini_kv_insert(merged_ini, key, M_ini_kv_get_direct(cur_ini, key, j));
@@ -105,6 +107,7 @@ static M_list_str_t *M_ini_merger_handle_keys(M_ini_t *merged_ini, const M_ini_t
 		/* 4. In orig and cur but not in new, flag handling (default remove). */
 		} else if (!in_new && in_orig) {
 			if ((flags == 0 && resolver != NULL && resolver(NULL, key, NULL)) || (flags & M_INI_MERGE_NEW_REMOVED_KEEP)) {
+				M_ini_kv_add_key(merged_ini, key);
 				val_len = M_ini_kv_len(cur_ini, key);
 				for (j=0; j<val_len; j++) {
 					M_ini_kv_insert(merged_ini, key, M_ini_kv_get_direct(cur_ini, key, j));
-- 
2.43.0


From 0a9cdf7aa8a3f9238b31283b24b2fbe26b2f60ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:19 +0000
Subject: [PATCH 166/268] fix: renaming an INI key read past the end of the new
 name

---
 formats/ini/m_ini.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/formats/ini/m_ini.c b/formats/ini/m_ini.c
index cd84353..dddb72d 100644
--- a/formats/ini/m_ini.c
+++ b/formats/ini/m_ini.c
@@ -369,8 +369,8 @@ M_bool M_ini_kv_rename(M_ini_t *ini, const char *key, const char *new_key)
 	if (ini == NULL || M_str_isempty(key) || M_str_isempty(new_key) ||
 		/* Sections need to be renamed as sections and keys as keys. Cannot rename a key to a section
  		 * or a section to a key. */
-	    (key[M_str_len(key)-1] == '/' && new_key[M_str_len(key)-1] != '/') ||
-	    (key[M_str_len(key)-1] != '/' && new_key[M_str_len(key)-1] == '/') ||
+	    (key[M_str_len(key)-1] == '/' && new_key[M_str_len(new_key)-1] != '/') ||
+	    (key[M_str_len(key)-1] != '/' && new_key[M_str_len(new_key)-1] == '/') ||
 		M_str_eq(key, new_key))
 	{
 		return M_FALSE;
-- 
2.43.0


From 4345883d9f9b61d6f43fb3a0898f74d8ad0821b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:19 +0000
Subject: [PATCH 167/268] fix: renaming an INI section did not move its keys

---
 formats/ini/m_ini.c | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/formats/ini/m_ini.c b/formats/ini/m_ini.c
index dddb72d..4f41647 100644
--- a/formats/ini/m_ini.c
+++ b/formats/ini/m_ini.c
@@ -301,6 +301,8 @@ static M_bool M_ini_kv_rename_section(M_ini_t *ini, const char *int_old_section,
 	const char   *full_key;
 	const char   *val;
 	M_list_str_t *all_keys;
+	M_ini_element_t *elem;
+	void         *section;
 	size_t        len;
 	size_t        i;
 
@@ -352,6 +354,20 @@ static M_bool M_ini_kv_rename_section(M_ini_t *ini, const char *int_old_section,
 	}
 
 	M_list_str_destroy(all_keys);
+
+	/* Keep the content of the section in the tree. */
+	if (M_hash_strvp_get(ini->sections, int_old_sec, &section)) {
+		M_hash_strvp_remove(ini->sections, int_old_sec, M_FALSE);
+		M_hash_strvp_insert(ini->sections, int_new_sec, section);
+		len = M_ini_elements_len(ini->elements);
+		for (i=0; i<len; i++) {
+			elem = M_ini_elements_at(ini->elements, i);
+			if (M_ini_element_get_type(elem) == M_INI_ELEMENT_TYPE_SECTION && M_str_caseeq(M_ini_element_section_get_name(elem), int_old_sec)) {
+				M_ini_element_section_set_name(elem, int_new_sec);
+			}
+		}
+	}
+
 	M_free(new_sec);
 	M_free(int_new_sec);
 	M_free(int_old_sec);
@@ -409,16 +425,15 @@ M_bool M_ini_kv_rename(M_ini_t *ini, const char *key, const char *new_key)
 		return M_TRUE;
 	}
 
-	/* Since the int keys don't match we're doing a full rename and not just a pretty name rename. 
- 	 * We need to remove the old int key from the lookup. */
-	M_hash_dict_remove(ini->key_lookup, int_key);
-
-	/* Are we renaming a key or a section? */
+	/* Since the int keys don't match we're doing a full rename and not just a pretty name rename.
+	 * Are we renaming a key or a section? */
 	if (M_ini_kvs_has_key(ini->kvs, int_key)) {
 		ret = M_ini_kvs_rename(ini->kvs, int_key, int_new_key);
 	} else {
 		ret = M_ini_kv_rename_section(ini, int_key, int_new_key, new_key);
 	}
+	/* We need to remove the old int key from the lookup. The keys of a section need it until they're renamed. */
+	M_hash_dict_remove(ini->key_lookup, int_key);
 
 	M_free(int_new_key);
 	M_free(int_key);
-- 
2.43.0


From 6823d7fb3f07d77a86a05644a66bcf5892f845f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:20 +0000
Subject: [PATCH 168/268] fix: adding an INI key changed the name of its
 section, and renaming one into a new section lost the section

---
 formats/ini/m_ini.c | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/formats/ini/m_ini.c b/formats/ini/m_ini.c
index 4f41647..2a88a69 100644
--- a/formats/ini/m_ini.c
+++ b/formats/ini/m_ini.c
@@ -375,11 +375,27 @@ static M_bool M_ini_kv_rename_section(M_ini_t *ini, const char *int_old_section,
 	return M_TRUE;
 }
 
+/* Add the section of a key to the lookup if it isn't there. */
+static void M_ini_kv_lookup_add_section(M_ini_t *ini, const char *section)
+{
+	char *int_sect;
+
+	if (M_str_isempty(section))
+		return;
+
+	int_sect = M_ini_internal_key(M_ini_full_key(section, NULL), ini->ignore_whitespace);
+	if (!M_hash_dict_get(ini->key_lookup, int_sect, NULL)) {
+		M_hash_dict_insert(ini->key_lookup, int_sect, section);
+	}
+	M_free(int_sect);
+}
+
 M_bool M_ini_kv_rename(M_ini_t *ini, const char *key, const char *new_key)
 {
 	char   *int_key;
 	char   *int_new_key;
 	char   *stored_key;
+	char   *stored_sect;
 	M_bool  ret;
 
 	if (ini == NULL || M_str_isempty(key) || M_str_isempty(new_key) ||
@@ -414,8 +430,10 @@ M_bool M_ini_kv_rename(M_ini_t *ini, const char *key, const char *new_key)
 		M_hash_dict_insert(ini->key_lookup, int_new_key, new_key);
 	} else {
 		/* Kv are a little different because we have to pull the key out of the full new_key. */
-		M_ini_split_key(new_key, NULL, &stored_key);
+		M_ini_split_key(new_key, &stored_sect, &stored_key);
 		M_hash_dict_insert(ini->key_lookup, int_new_key, stored_key);
+		M_ini_kv_lookup_add_section(ini, stored_sect);
+		M_free(stored_sect);
 		M_free(stored_key);
 	}
 	/* If only the pretty name is changing then we only need to update the lookup. */
@@ -448,11 +466,9 @@ typedef enum {
 
 static M_bool M_ini_kv_insert_int(M_ini_t *ini, const char *key, const char *val, M_ini_kv_insert_type_t type)
 {
-	char   *int_sect;
 	char   *int_key;
 	char   *split_key;
 	char   *split_sect;
-	char   *full_sect;
 	M_bool  ret       = M_FALSE;
 
 	if (ini == NULL || key == NULL || *key == '\0' || key[M_str_len(key)-1] == '/')
@@ -477,16 +493,10 @@ static M_bool M_ini_kv_insert_int(M_ini_t *ini, const char *key, const char *val
 		if (split_key != NULL && *split_key != '\0') {
 			M_hash_dict_insert(ini->key_lookup, int_key, split_key);
 		}
-		full_sect = M_ini_full_key(split_sect, NULL);
-		if (split_sect != NULL && *split_sect != '\0' && !M_hash_dict_get(ini->key_lookup, full_sect, NULL)) {
-			int_sect = M_ini_internal_key(M_strdup(full_sect), ini->ignore_whitespace);
-			M_hash_dict_insert(ini->key_lookup, int_sect, split_sect);
-			M_free(int_sect);
-		}
+		M_ini_kv_lookup_add_section(ini, split_sect);
 
 		M_free(split_key);
 		M_free(split_sect);
-		M_free(full_sect);
 	}
 	M_free(int_key);
 
-- 
2.43.0


From 7922fb2a5766b221e0ac2134b4e407f3fbdce8dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:29 +0000
Subject: [PATCH 169/268] fix: renaming an INI section used the name of a key
 after it was freed

---
 formats/ini/m_ini.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/formats/ini/m_ini.c b/formats/ini/m_ini.c
index 2a88a69..959defd 100644
--- a/formats/ini/m_ini.c
+++ b/formats/ini/m_ini.c
@@ -341,8 +341,8 @@ static M_bool M_ini_kv_rename_section(M_ini_t *ini, const char *int_old_section,
 			/* Update the lookup. */
 			val = M_hash_dict_get_direct(ini->key_lookup, int_key);
 			int_full_key_new = M_ini_internal_key(M_ini_full_key(new_sec, val), ini->ignore_whitespace);
-			M_hash_dict_remove(ini->key_lookup, int_key);
 			M_hash_dict_insert(ini->key_lookup, int_full_key_new, val);
+			M_hash_dict_remove(ini->key_lookup, int_key);
 
 			M_free(int_full_key_new);
 			M_free(int_full_key);
-- 
2.43.0


From 3f4fa2dd5942b64b6d711600ee758d64a7e38c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:24 +0000
Subject: [PATCH 170/268] fix: the '/' that marks a section became part of its
 name when an INI section was renamed

---
 formats/ini/m_ini.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/formats/ini/m_ini.c b/formats/ini/m_ini.c
index 959defd..a74f7ad 100644
--- a/formats/ini/m_ini.c
+++ b/formats/ini/m_ini.c
@@ -426,8 +426,10 @@ M_bool M_ini_kv_rename(M_ini_t *ini, const char *key, const char *new_key)
 
 	/* Replace/add the pretty name for the key in the lookup. */
 	if (int_key[M_str_len(int_key)-1] == '/') {
-		/* Sections are straight replacements. */
-		M_hash_dict_insert(ini->key_lookup, int_new_key, new_key);
+		/* The name of a section is stored without the '/'. */
+		M_ini_split_key(new_key, &stored_sect, NULL);
+		M_hash_dict_insert(ini->key_lookup, int_new_key, stored_sect);
+		M_free(stored_sect);
 	} else {
 		/* Kv are a little different because we have to pull the key out of the full new_key. */
 		M_ini_split_key(new_key, &stored_sect, &stored_key);
-- 
2.43.0


From b7f88cc293d33a03f695aa5b22bd014284fa5c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:45 +0000
Subject: [PATCH 171/268] fix: all values of a new INI key were written when
 only one should be

---
 formats/ini/m_ini_writer.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/formats/ini/m_ini_writer.c b/formats/ini/m_ini_writer.c
index c97bff1..201185c 100644
--- a/formats/ini/m_ini_writer.c
+++ b/formats/ini/m_ini_writer.c
@@ -225,7 +225,7 @@ static void M_ini_writer_tree_update_kv_vals(M_ini_t *ini, M_ini_kvs_t *kvs, con
 	M_hash_strvp_enumerate_free(sectenum);
 }
 
-static void M_ini_writer_tree_add_kv(M_ini_t *ini, M_ini_kvs_t *kvs)
+static void M_ini_writer_tree_add_kv(M_ini_t *ini, M_ini_kvs_t *kvs, const M_ini_settings_t *info)
 {
 	void             *section;
 	M_ini_kvs_enum_t *kvsenum;
@@ -237,11 +237,19 @@ static void M_ini_writer_tree_add_kv(M_ini_t *ini, M_ini_kvs_t *kvs)
 	char             *key;
 	size_t            len;
 	size_t            i;
+	size_t            idx             = 0;
+	M_ini_multivals_t multi_flag      = M_ini_settings_writer_get_multivals_handling(info);
 	size_t            first_sect_idx  = 0;
 	M_bool            find_first_sect = M_TRUE;
 
 	M_ini_kvs_enumerate(kvs, &kvsenum);
-	while (M_ini_kvs_enumerate_next(kvs, kvsenum, &int_full_key, NULL, &val)) {
+	while (M_ini_kvs_enumerate_next(kvs, kvsenum, &int_full_key, &idx, &val)) {
+		/* Only one of the values is used when multiple values are not supported. */
+		if ((multi_flag == M_INI_MULTIVALS_USE_FIRST && idx != 0) ||
+			(multi_flag == M_INI_MULTIVALS_USE_LAST && idx+1 < M_ini_kvs_val_len(kvs, int_full_key)))
+		{
+			continue;
+		}
 		M_ini_split_key(int_full_key, &section_name, &key);
 		elem = M_ini_element_create(M_INI_ELEMENT_TYPE_KV);
 		M_ini_element_kv_set_key(elem, key);
@@ -309,7 +317,7 @@ static void M_ini_writer_update_tree(M_ini_t *ini, const M_ini_settings_t *info)
  	/* 1. Update the tree with kvs values and remove the kv from the kvs. */
 	M_ini_writer_tree_update_kv_vals(ini, kvs, info);
 	/* 2. Add The remaining kv from the kvs to the tree. */
-	M_ini_writer_tree_add_kv(ini, kvs);
+	M_ini_writer_tree_add_kv(ini, kvs, info);
 	/* 3. Remove all kv from the tree that do not appear in the kvs. */
 	M_ini_writer_tree_prune(ini, keep_sections);
 
-- 
2.43.0


From afa56f85f58331f7a721d3ab9fa3d8b06369384e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:06 +0000
Subject: [PATCH 172/268] fix: an INI section that lost its keys was written
 twice after a key was added again

---
 formats/ini/m_ini_writer.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/formats/ini/m_ini_writer.c b/formats/ini/m_ini_writer.c
index 201185c..bc5149c 100644
--- a/formats/ini/m_ini_writer.c
+++ b/formats/ini/m_ini_writer.c
@@ -276,10 +276,18 @@ static void M_ini_writer_tree_add_kv(M_ini_t *ini, M_ini_kvs_t *kvs, const M_ini
 			section = M_ini_section_get_direct(ini, section_name);
 			if (section == NULL) {
 				M_ini_section_insert(ini, section_name);
-				/* Add the section to the element list. */
-				section_elem = M_ini_element_create(M_INI_ELEMENT_TYPE_SECTION);
-				M_ini_element_section_set_name(section_elem, section_name);
-				M_ini_elements_insert(ini->elements, section_elem);
+				/* Add the section to the element list. It's still there if all of its keys were removed before. */
+				len = M_ini_elements_len(ini->elements);
+				for (i=0; i<len; i++) {
+					if (M_str_caseeq(M_ini_element_section_get_name(M_ini_elements_at(ini->elements, i)), section_name)) {
+						break;
+					}
+				}
+				if (i == len) {
+					section_elem = M_ini_element_create(M_INI_ELEMENT_TYPE_SECTION);
+					M_ini_element_section_set_name(section_elem, section_name);
+					M_ini_elements_insert(ini->elements, section_elem);
+				}
 				/* Setup the section as a list of elements. */
 				section = M_ini_section_get_direct(ini, section_name);
 			}
-- 
2.43.0


From 787688a935d8f4653d1dd5285359f5474be1a44e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:16 +0000
Subject: [PATCH 173/268] fix: an HTTP status code with anything but digits was
 accepted

---
 formats/http/m_http_reader.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/formats/http/m_http_reader.c b/formats/http/m_http_reader.c
index fc77de6..a036c9b 100644
--- a/formats/http/m_http_reader.c
+++ b/formats/http/m_http_reader.c
@@ -367,7 +367,7 @@ static M_http_error_t M_http_read_start_line_response(M_http_reader_t *httpr, M_
 		return res;
 
 	/* Part 2: Status code */
-	if (!M_parser_read_uint(parts[1], M_PARSER_INTEGER_ASCII, 0, 10, &code))
+	if (!M_parser_is_chr_predicate(parts[1], M_parser_len(parts[1]), M_chr_isdigit) || !M_parser_read_uint(parts[1], M_PARSER_INTEGER_ASCII, 0, 10, &code))
 		return M_HTTP_ERROR_STARTLINE_MALFORMED;
 
 	/* Part 3: Reason phrase
-- 
2.43.0


From 927927d641751ac1944a2eec36c3cc10cafd24d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:16 +0000
Subject: [PATCH 174/268] fix: an HTTP content length with junk after the
 number was accepted

---
 formats/http/m_http_reader.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/formats/http/m_http_reader.c b/formats/http/m_http_reader.c
index a036c9b..0e8d357 100644
--- a/formats/http/m_http_reader.c
+++ b/formats/http/m_http_reader.c
@@ -249,10 +249,9 @@ static M_http_error_t M_http_read_header_validate_kv(M_http_reader_t *httpr, con
 			httpr->have_body_len = M_FALSE;
 			httpr->body_len      = 0;
 		} else {
-			if (M_str_to_int64_ex(val, M_str_len(val), 10, &i64v, NULL) != M_STR_INT_SUCCESS) {
-				return M_HTTP_ERROR_CONTENT_LENGTH_MALFORMED;
-			}
-			if (i64v < 0) {
+			/* Only digits are allowed. A different reading of a malformed length by
+			 * another participant would put the message's end somewhere else. */
+			if (!M_str_isnum(val) || M_str_to_int64_ex(val, M_str_len(val), 10, &i64v, NULL) != M_STR_INT_SUCCESS) {
 				return M_HTTP_ERROR_CONTENT_LENGTH_MALFORMED;
 			}
 			if (i64v == 0) {
-- 
2.43.0


From 6d147284b0251f8889af0e307a6a416ede5b8dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:16 +0000
Subject: [PATCH 175/268] fix: the result of the HTTP full header callbacks was
 ignored

---
 formats/http/m_http_reader.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/formats/http/m_http_reader.c b/formats/http/m_http_reader.c
index 0e8d357..128ae50 100644
--- a/formats/http/m_http_reader.c
+++ b/formats/http/m_http_reader.c
@@ -557,7 +557,10 @@ static M_http_error_t M_http_read_header(M_http_reader_t *httpr, M_parser_t *par
 		}
 
 		/* Record we saw this header. */
-		M_http_read_header_full_process(httpr, key, val);
+		res = M_http_read_header_full_process(httpr, key, val);
+		if (res != M_HTTP_ERROR_SUCCESS) {
+			break;
+		}
 
 		/* Empty value means we don't need to process it any further.
  		 * Just inform the header was seen without a value. */
-- 
2.43.0


From 2dd442e4903c36c6c7cf2509fb147e003180e136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:16 +0000
Subject: [PATCH 176/268] fix: the HTTP reader waited forever on an empty chunk
 length

---
 formats/http/m_http_reader.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/formats/http/m_http_reader.c b/formats/http/m_http_reader.c
index 128ae50..2dffa99 100644
--- a/formats/http/m_http_reader.c
+++ b/formats/http/m_http_reader.c
@@ -681,6 +681,10 @@ static M_http_error_t M_http_read_chunk_start(M_http_reader_t *httpr, M_parser_t
 	if (M_parser_len(parser) == 0)
 		return M_HTTP_ERROR_SUCCESS;
 
+	/* The length can't be missing. */
+	if (M_parser_compare_str(parser, "\r\n", 2, M_FALSE))
+		return M_HTTP_ERROR_CHUNK_MALFORMED;
+
 	/* Check if we have a full line and pull it off. */
 	msg = M_parser_read_parser_until(parser, (const unsigned char *)"\r\n", 2, M_FALSE);
 	if (msg == NULL)
-- 
2.43.0


From fbb6ed958385d81c66a18a3ae6d32c0863613509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:16 +0000
Subject: [PATCH 177/268] fix: an HTTP chunk length with a sign, prefix or
 whitespace was accepted

---
 formats/http/m_http_reader.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/formats/http/m_http_reader.c b/formats/http/m_http_reader.c
index 2dffa99..652f9f4 100644
--- a/formats/http/m_http_reader.c
+++ b/formats/http/m_http_reader.c
@@ -710,8 +710,8 @@ static M_http_error_t M_http_read_chunk_start(M_http_reader_t *httpr, M_parser_t
 		goto done;
 	}
 
-	/* Read the length. */
-	if (!M_parser_read_int(msg, M_PARSER_INTEGER_ASCII, len, 16, &i64v)) {
+	/* Read the length. Only hex digits are allowed. */
+	if (!M_parser_is_chr_predicate(msg, len, M_chr_ishex) || !M_parser_read_int(msg, M_PARSER_INTEGER_ASCII, len, 16, &i64v)) {
 		res = M_HTTP_ERROR_CHUNK_LENGTH;
 		goto done;
 	}
-- 
2.43.0


From 085ad1afb22ab06e934401ea0549847d3b3a4b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:16 +0000
Subject: [PATCH 178/268] fix: the completion of an HTTP chunk was reported
 with the number of the next chunk

---
 formats/http/m_http_reader.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/formats/http/m_http_reader.c b/formats/http/m_http_reader.c
index 652f9f4..f961487 100644
--- a/formats/http/m_http_reader.c
+++ b/formats/http/m_http_reader.c
@@ -847,9 +847,9 @@ static M_http_error_t M_http_read_chunked(M_http_reader_t *httpr, M_parser_t *pa
 		} else {
 			/* If this isn't the last chunk start reading the next one. */
 			httpr->rstep = M_HTTP_READER_STEP_CHUNK_START;
-			httpr->part_idx++;
 
 			res = httpr->cbs.chunk_data_done_func(httpr->part_idx, httpr->thunk);
+			httpr->part_idx++;
 			if (res != M_HTTP_ERROR_SUCCESS)
 				goto done;
 
-- 
2.43.0


From dda6930b112a3ad293326aa4e1300a5fdbb28df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:16 +0000
Subject: [PATCH 179/268] fix: HTTP chunk data of length 0 was reported and its
 error could be lost

---
 formats/http/m_http_reader.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/formats/http/m_http_reader.c b/formats/http/m_http_reader.c
index f961487..d76c6fb 100644
--- a/formats/http/m_http_reader.c
+++ b/formats/http/m_http_reader.c
@@ -794,9 +794,13 @@ static M_http_error_t M_http_read_chunk_data(M_http_reader_t *httpr, M_parser_t
 	if (M_parser_len(parser) == 0)
 		return M_HTTP_ERROR_SUCCESS;
 
+	/* All of the data may have been read with only the trailing \r\n being outstanding. */
 	len = M_MIN(M_parser_len(parser), httpr->body_len-httpr->body_len_seen);
-	res = httpr->cbs.chunk_data_func(M_parser_peek(parser), len, httpr->part_idx, httpr->thunk);
-	if (res == M_HTTP_ERROR_SUCCESS) {
+	if (len != 0) {
+		res = httpr->cbs.chunk_data_func(M_parser_peek(parser), len, httpr->part_idx, httpr->thunk);
+		if (res != M_HTTP_ERROR_SUCCESS)
+			return res;
+
 		httpr->body_len_seen += len;
 		M_parser_consume(parser, len);
 	}
-- 
2.43.0


From 73180a78f6923c2b9173790188b8918f5cd7788c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:16 +0000
Subject: [PATCH 180/268] fix: a chunked HTTP message was not read as chunked
 when a multipart content type followed the transfer encoding

---
 formats/http/m_http_reader.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/formats/http/m_http_reader.c b/formats/http/m_http_reader.c
index d76c6fb..9d54816 100644
--- a/formats/http/m_http_reader.c
+++ b/formats/http/m_http_reader.c
@@ -279,8 +279,8 @@ static M_http_error_t M_http_read_header_validate_kv(M_http_reader_t *httpr, con
 			if (httpr->data_type == M_HTTP_DATA_FORMAT_MULTIPART) {
 				return M_HTTP_ERROR_HEADER_DUPLICATE;
 			}
-			/* Ignore the multipart if we know there is no body data. */
-			if (httpr->data_type != M_HTTP_DATA_FORMAT_NONE) {
+			/* Ignore the multipart if we know there is no body data or it's wrapped in chunks. */
+			if (httpr->data_type != M_HTTP_DATA_FORMAT_NONE && httpr->data_type != M_HTTP_DATA_FORMAT_CHUNKED) {
 				httpr->data_type = M_HTTP_DATA_FORMAT_MULTIPART;
 			}
 		}
-- 
2.43.0


From 8c3b100e23e677f6f0eaeeaa8bd7ff8469443716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:26 +0000
Subject: [PATCH 181/268] fix: quotes and parameters following it were taken as
 part of the HTTP multipart boundary, and a missing one was not noticed

---
 formats/http/m_http_reader.c | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/formats/http/m_http_reader.c b/formats/http/m_http_reader.c
index 9d54816..be19a64 100644
--- a/formats/http/m_http_reader.c
+++ b/formats/http/m_http_reader.c
@@ -238,7 +238,10 @@ static M_http_error_t M_http_read_version(M_parser_t *parser, M_http_version_t *
 
 static M_http_error_t M_http_read_header_validate_kv(M_http_reader_t *httpr, const char *key, const char *val)
 {
-	M_int64 i64v;
+	const char *end;
+	char       *boundary;
+	M_bool      quoted;
+	M_int64     i64v;
 
 	if (M_str_caseeq(key, "content-length")) {
 		if (httpr->have_body_len) {
@@ -293,13 +296,29 @@ static M_http_error_t M_http_read_header_validate_kv(M_http_reader_t *httpr, con
 			}
 			/* Move past the '='. */
 			val++;
-			if (M_str_isempty(val) || M_str_len(val) > 70) {
+			/* The value may be quoted and may be followed by another parameter. */
+			quoted = *val == '"';
+			if (quoted)
+				val++;
+			end = M_str_chr(val, quoted?'"':';');
+			if (quoted && end == NULL) {
+				return M_HTTP_ERROR_MULTIPART_NOBOUNDARY;
+			}
+			boundary = M_strdup_max(val, (end != NULL)?(size_t)(end - val):M_str_len(val));
+			if (!quoted)
+				M_str_trim(boundary);
+			if (M_str_isempty(boundary) || M_str_len(boundary) > 70) {
+				M_free(boundary);
 				return M_HTTP_ERROR_MULTIPART_NOBOUNDARY;
 			}
 			/* Mulipart boundaries are prefixed with -- to signify the start
 			 * of the given boundary. */
-			M_asprintf(&httpr->boundary, "--%s", val);
+			M_free(httpr->boundary);
+			M_asprintf(&httpr->boundary, "--%s", boundary);
 			httpr->boundary_len = M_str_len(httpr->boundary);
+			M_free(boundary);
+		} else if (httpr->data_type == M_HTTP_DATA_FORMAT_MULTIPART) {
+			return M_HTTP_ERROR_MULTIPART_NOBOUNDARY;
 		}
 	}
 
-- 
2.43.0


From 09e09fe64c991f0ece1fd961d4d5448c53cefc06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:26 +0000
Subject: [PATCH 182/268] fix: what followed a 1xx, 204 or 304 HTTP response
 was read as its body

---
 formats/http/m_http_reader.c     | 10 +++++++++-
 formats/http/m_http_reader_int.h |  1 +
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/formats/http/m_http_reader.c b/formats/http/m_http_reader.c
index be19a64..fada706 100644
--- a/formats/http/m_http_reader.c
+++ b/formats/http/m_http_reader.c
@@ -396,6 +396,11 @@ static M_http_error_t M_http_read_start_line_response(M_http_reader_t *httpr, M_
 	/* Send along the data. */
 	res = httpr->cbs.start_func(M_HTTP_MESSAGE_TYPE_RESPONSE, version, M_HTTP_METHOD_UNKNOWN, NULL, (M_uint32)code, reason, httpr->thunk);
 	httpr->msg_type = M_HTTP_MESSAGE_TYPE_RESPONSE;
+
+	/* See RFC7230 3.3.3.1. These never have a body regardless of the header fields present. */
+	if ((code >= 100 && code <= 199) || code == 204 || code == 304)
+		httpr->no_body_response = M_TRUE;
+
 	M_free(reason);
 
 	return res;
@@ -1241,7 +1246,10 @@ M_http_error_t M_http_reader_read(M_http_reader_t *httpr, const unsigned char *d
 		if (res != M_HTTP_ERROR_SUCCESS || !full_read)
 			goto done;
 
-		if (httpr->data_type == M_HTTP_DATA_FORMAT_CHUNKED) {
+		if (httpr->no_body_response) {
+			httpr->rstep     = M_HTTP_READER_STEP_DONE;
+			httpr->data_type = M_HTTP_DATA_FORMAT_NONE;
+		} else if (httpr->data_type == M_HTTP_DATA_FORMAT_CHUNKED) {
 			httpr->rstep = M_HTTP_READER_STEP_CHUNK_START;
 		} else if (httpr->data_type == M_HTTP_DATA_FORMAT_MULTIPART) {
 			httpr->rstep = M_HTTP_READER_STEP_MULTIPART_PREAMBLE;
diff --git a/formats/http/m_http_reader_int.h b/formats/http/m_http_reader_int.h
index f6093d8..990352e 100644
--- a/formats/http/m_http_reader_int.h
+++ b/formats/http/m_http_reader_int.h
@@ -55,6 +55,7 @@ struct M_http_reader {
 	M_http_data_format_t            data_type;
 	size_t                          header_len;
 	M_bool                          no_body_method;
+	M_bool                          no_body_response;
 	M_bool                          have_body_len;
 	size_t                          body_len;
 	size_t                          body_len_seen;
-- 
2.43.0


From 8d11704db7020a8ae3d9675d317fbaab384e8a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:06 +0000
Subject: [PATCH 183/268] fix: HTTP multipart preambles and data were only
 accepted when they arrived in pieces that end with a new line

---
 formats/http/m_http_reader.c     | 149 +++++++++++++++----------------
 formats/http/m_http_reader_int.h |   1 +
 2 files changed, 74 insertions(+), 76 deletions(-)

diff --git a/formats/http/m_http_reader.c b/formats/http/m_http_reader.c
index fada706..714458b 100644
--- a/formats/http/m_http_reader.c
+++ b/formats/http/m_http_reader.c
@@ -901,72 +901,88 @@ done:
 	return res;
 }
 
+/* Find the delimiter (\r\n--boundary) that ends the preamble or a part.
+ *
+ * At the very start of the preamble or data there doesn't have to be a \r\n because the one
+ * of the line before is all there is.
+ *
+ * Returns the length of the data in front of the delimiter. When it's not found it's
+ * the data that cannot be part of a delimiter that's only partially available. */
+static size_t M_http_read_multipart_find_delim(M_http_reader_t *httpr, M_parser_t *parser, M_bool *found, size_t *delim_len)
+{
+	char   *delim;
+	size_t  data_len;
+	size_t  len;
+
+	*found = M_FALSE;
+
+	if (!httpr->have_data) {
+		len = M_MIN(M_parser_len(parser), httpr->boundary_len);
+		if (M_parser_compare(parser, (const unsigned char *)httpr->boundary, len)) {
+			*found     = (len == httpr->boundary_len)?M_TRUE:M_FALSE;
+			*delim_len = httpr->boundary_len;
+			return 0;
+		}
+	}
+
+	M_asprintf(&delim, "\r\n%s", httpr->boundary);
+	*delim_len = httpr->boundary_len + 2;
+
+	M_parser_mark(parser);
+	data_len = M_parser_consume_boundary(parser, (const unsigned char *)delim, *delim_len, M_FALSE, found);
+	M_parser_mark_rewind(parser);
+
+	M_free(delim);
+	return data_len;
+}
+
 static M_http_error_t M_http_read_multipart_preamble(M_http_reader_t *httpr, M_parser_t *parser, M_bool *full_read)
 {
 	M_http_error_t  res = M_HTTP_ERROR_SUCCESS;
 	M_bool          found;
 	size_t          data_len;
-	size_t          consume_len;
+	size_t          delim_len;
 
 	*full_read = M_FALSE;
 	if (M_parser_len(parser) == 0)
 		return M_HTTP_ERROR_SUCCESS;
 
 	/* Pull off all data before the first boundary. */
-	M_parser_mark(parser);
-	data_len    = M_parser_consume_boundary(parser, (const unsigned char *)httpr->boundary, httpr->boundary_len, M_FALSE, &found);
-	consume_len = data_len;
-	if (found && M_parser_len(parser) >= httpr->boundary_len + 2) {
-		/* Eat the boundary. */
-		M_parser_consume(parser, M_str_len(httpr->boundary));
-
-		if (M_parser_compare_str(parser, "--", 2, M_FALSE)) {
-			/* Check for an ending boundary to check which shouldn't be here. */
-			M_parser_mark_rewind(parser);
-			return M_HTTP_ERROR_MULTIPART_MISSING_DATA;
-		} else if (M_parser_compare_str(parser, "\r\n", 2, M_FALSE)) {
-			/* End the line end. */
-			M_parser_consume(parser, 2);
-		} else {
-			/* We have a boundary existing in data. */
-			M_parser_mark_rewind(parser);
-			return M_HTTP_ERROR_MULTIPART_INVALID;
-		}
+	data_len = M_http_read_multipart_find_delim(httpr, parser, &found, &delim_len);
+	if (data_len != 0) {
+		res = httpr->cbs.multipart_preamble_func(M_parser_peek(parser), data_len, httpr->thunk);
+		if (res != M_HTTP_ERROR_SUCCESS)
+			return res;
 
-		*full_read  = M_TRUE;
-		consume_len = M_parser_mark_len(parser);
+		M_parser_consume(parser, data_len);
+		httpr->have_data = M_TRUE;
 	}
-	M_parser_mark_rewind(parser);
 
-	/* The data before the boundary should end with a \r\n. The only time it
- 	 * doesn't is if there is no preamble. The \r\n is not part of the data. */
-	if (data_len == 1) {
-		M_parser_mark_rewind(parser);
+	if (!found || M_parser_len(parser) < delim_len + 2)
+		return M_HTTP_ERROR_SUCCESS;
+
+	/* Eat the boundary. */
+	M_parser_consume(parser, delim_len);
+
+	if (M_parser_compare_str(parser, "--", 2, M_FALSE)) {
+		/* Check for an ending boundary to check which shouldn't be here. */
+		return M_HTTP_ERROR_MULTIPART_MISSING_DATA;
+	} else if (!M_parser_compare_str(parser, "\r\n", 2, M_FALSE)) {
+		/* We have a boundary existing in data. */
 		return M_HTTP_ERROR_MULTIPART_INVALID;
-	} else if (data_len >= 2) {
-		M_parser_mark(parser);
-		M_parser_consume(parser, data_len-2);
-		if (!M_parser_compare_str(parser, "\r\n", 2, M_FALSE)) {
-			M_parser_mark_rewind(parser);
-			return M_HTTP_ERROR_MULTIPART_INVALID;
-		}
-		data_len -= 2;
-		M_parser_mark_rewind(parser);
 	}
 
-	if (data_len != 0)
-		res = httpr->cbs.multipart_preamble_func(M_parser_peek(parser), data_len, httpr->thunk);
-
-	if (res == M_HTTP_ERROR_SUCCESS)
-		M_parser_consume(parser, consume_len);
+	/* End the line end. */
+	M_parser_consume(parser, 2);
 
-	return res;
+	*full_read = M_TRUE;
+	return M_HTTP_ERROR_SUCCESS;
 }
 
 static M_http_error_t M_http_read_multipart_data(M_http_reader_t *httpr, M_parser_t *parser, M_bool *full_read)
 {
-	size_t         consume_len;
 	size_t         data_len;
+	size_t         delim_len;
 	M_http_error_t res   = M_HTTP_ERROR_SUCCESS;
 	M_bool         found = M_FALSE;
 
@@ -974,43 +990,23 @@ static M_http_error_t M_http_read_multipart_data(M_http_reader_t *httpr, M_parse
 	if (M_parser_len(parser) == 0)
 		return M_HTTP_ERROR_SUCCESS;
 
-	M_parser_mark(parser);
-	consume_len = M_parser_consume_boundary(parser, (unsigned char *)httpr->boundary, httpr->boundary_len, M_FALSE, &found);
-	data_len    = consume_len;
-	M_parser_mark_rewind(parser);
-
-	/* The data and boundary are separated by a \r\n which is not part of the data. */
-	if (data_len == 1) {
-		M_parser_mark_rewind(parser);
-		return M_HTTP_ERROR_MULTIPART_INVALID;
-	} else if (data_len >= 2) {
-		M_parser_mark(parser);
-		M_parser_consume(parser, data_len-2);
-		if (!M_parser_compare_str(parser, "\r\n", 2, M_FALSE)) {
-			M_parser_mark_rewind(parser);
-			return M_HTTP_ERROR_MULTIPART_INVALID;
-		}
-		data_len -= 2;
-		M_parser_mark_rewind(parser);
-	}
-
+	data_len = M_http_read_multipart_find_delim(httpr, parser, &found, &delim_len);
 	if (data_len != 0) {
 		res = httpr->cbs.multipart_data_func(M_parser_peek(parser), data_len, httpr->part_idx, httpr->thunk);
-		if (res == M_HTTP_ERROR_SUCCESS) {
-			httpr->have_part = M_TRUE;
-		}
-	}
+		if (res != M_HTTP_ERROR_SUCCESS)
+			return res;
 
-	if (res == M_HTTP_ERROR_SUCCESS) {
-		M_parser_consume(parser, consume_len);
+		M_parser_consume(parser, data_len);
+		httpr->have_data = M_TRUE;
+		httpr->have_part = M_TRUE;
+	}
 
-		if (found) {
-			/* Eat the boundary. */
-			M_parser_consume(parser, httpr->boundary_len);
-			*full_read = M_TRUE;
-		}
+	if (found) {
+		/* Eat the boundary. */
+		M_parser_consume(parser, delim_len);
+		*full_read = M_TRUE;
 	}
-	return res;
+	return M_HTTP_ERROR_SUCCESS;
 }
 
 static M_http_error_t M_http_read_multipart_check_end(M_http_reader_t *httpr, M_parser_t *parser, M_bool *full_read)
@@ -1106,7 +1102,8 @@ header:
 		if (res != M_HTTP_ERROR_SUCCESS || !full_read)
 			goto done;
 
-		httpr->rstep = M_HTTP_READER_STEP_MULTIPART_DATA;
+		httpr->rstep     = M_HTTP_READER_STEP_MULTIPART_DATA;
+		httpr->have_data = M_FALSE;
 		res = httpr->cbs.multipart_header_done_func(httpr->part_idx, httpr->thunk);
 		if (res != M_HTTP_ERROR_SUCCESS)
 			goto done;
diff --git a/formats/http/m_http_reader_int.h b/formats/http/m_http_reader_int.h
index 990352e..0dc0809 100644
--- a/formats/http/m_http_reader_int.h
+++ b/formats/http/m_http_reader_int.h
@@ -62,6 +62,7 @@ struct M_http_reader {
 	size_t                          part_idx;
 	M_bool                          have_end;
 	M_bool                          have_part;
+	M_bool                          have_data;
 	M_bool                          have_epilouge;
 	M_http_message_type_t           msg_type;
 };
-- 
2.43.0


From 787b93724c00a760a1e2e6c08e3d110279c906ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:06 +0000
Subject: [PATCH 184/268] fix: reading an HTTP multipart message did not
 continue when it was split behind a boundary

---
 formats/http/m_http_reader.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/formats/http/m_http_reader.c b/formats/http/m_http_reader.c
index 714458b..d58e0cf 100644
--- a/formats/http/m_http_reader.c
+++ b/formats/http/m_http_reader.c
@@ -1297,6 +1297,7 @@ M_http_error_t M_http_reader_read(M_http_reader_t *httpr, const unsigned char *d
 	if (httpr->rstep == M_HTTP_READER_STEP_MULTIPART_PREAMBLE ||
 		httpr->rstep == M_HTTP_READER_STEP_MULTIPART_HEADER   ||
 		httpr->rstep == M_HTTP_READER_STEP_MULTIPART_DATA     ||
+		httpr->rstep == M_HTTP_READER_STEP_MULTIPART_CHECK_END ||
 		httpr->rstep == M_HTTP_READER_STEP_MULTIPART_EPILOUGE)
 	{
 		res = M_http_read_multipart(httpr, parser);
-- 
2.43.0


From 2386e31121d0eeb7729c94db55e1cc6a34d1f452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:06 +0000
Subject: [PATCH 185/268] fix: data of an incomplete element of an HTTP
 multipart message was lost

---
 formats/http/m_http_reader.c | 39 ++++++++++++++++++++++++------------
 1 file changed, 26 insertions(+), 13 deletions(-)

diff --git a/formats/http/m_http_reader.c b/formats/http/m_http_reader.c
index d58e0cf..0ee6cc8 100644
--- a/formats/http/m_http_reader.c
+++ b/formats/http/m_http_reader.c
@@ -1027,14 +1027,14 @@ static M_http_error_t M_http_read_multipart_check_end(M_http_reader_t *httpr, M_
 	return M_HTTP_ERROR_SUCCESS;
 }
 
-static M_http_error_t M_http_read_multipart_epilouge(M_http_reader_t *httpr, M_parser_t *parser, M_bool *full_read)
+static M_http_error_t M_http_read_multipart_epilouge(M_http_reader_t *httpr, M_parser_t *parser, M_bool is_last, M_bool *full_read)
 {
 	M_http_error_t res = M_HTTP_ERROR_SUCCESS;
 
 	*full_read = M_FALSE;
 
 	if (!httpr->have_epilouge) {
-		if (M_parser_len(parser) < 2) {
+		if (M_parser_len(parser) < 2 && !(is_last && M_parser_len(parser) != 0)) {
 			goto done;
 		} else if (!M_parser_compare_str(parser, "\r\n", 2, M_FALSE)) {
 			/* If an epilogue is present it will start with a \r\n to separate it from the -- ending marker. */
@@ -1046,12 +1046,13 @@ static M_http_error_t M_http_read_multipart_epilouge(M_http_reader_t *httpr, M_p
 
 	if (M_parser_len(parser) != 0) {
 		res = httpr->cbs.multipart_epilouge_func(M_parser_peek(parser), M_parser_len(parser), httpr->thunk);
+		if (res != M_HTTP_ERROR_SUCCESS)
+			return res;
 		M_parser_consume(parser, M_parser_len(parser));
 	}
 
 done:
-	if (httpr->have_body_len && httpr->body_len == httpr->body_len_seen)
-		*full_read = M_TRUE;
+	*full_read = is_last;
 	return res;
 }
 
@@ -1060,6 +1061,8 @@ static M_http_error_t M_http_read_multipart(M_http_reader_t *httpr, M_parser_t *
 	M_parser_t     *mpparser;
 	M_http_error_t  res       = M_HTTP_ERROR_SUCCESS;
 	M_bool          full_read = M_FALSE;
+	M_bool          is_last   = M_FALSE;
+	size_t          len;
 
 	if (httpr->have_body_len && httpr->body_len == httpr->body_len_seen) {
 		if (!httpr->have_part) {
@@ -1071,16 +1074,17 @@ static M_http_error_t M_http_read_multipart(M_http_reader_t *httpr, M_parser_t *
 		}
 	}
 
-	/* Read the data we have left for this message. */
-	if (httpr->have_body_len) {
-		mpparser              = M_parser_read_parser(parser, M_MIN(M_parser_len(parser), httpr->body_len-httpr->body_len_seen));
-		httpr->body_len_seen += M_parser_len(mpparser);
-	} else {
-		mpparser              = M_parser_read_parser(parser, M_parser_len(parser));
-	}
-	if (mpparser == NULL)
+	/* Look at the data we have left for this message. */
+	len = M_parser_len(parser);
+	if (len == 0)
 		return M_HTTP_ERROR_SUCCESS;
 
+	if (httpr->have_body_len && len >= httpr->body_len-httpr->body_len_seen) {
+		len     = httpr->body_len-httpr->body_len_seen;
+		is_last = M_TRUE;
+	}
+	mpparser = M_parser_create_const(M_parser_peek(parser), len, M_PARSER_FLAG_NONE);
+
 	if (httpr->rstep == M_HTTP_READER_STEP_MULTIPART_PREAMBLE) {
 		res = M_http_read_multipart_preamble(httpr, mpparser, &full_read);
 
@@ -1144,7 +1148,7 @@ header:
 	}
 
 	if (httpr->rstep == M_HTTP_READER_STEP_MULTIPART_EPILOUGE) {
-		res = M_http_read_multipart_epilouge(httpr, mpparser, &full_read);
+		res = M_http_read_multipart_epilouge(httpr, mpparser, is_last, &full_read);
 
 		if (res != M_HTTP_ERROR_SUCCESS || !full_read)
 			goto done;
@@ -1156,7 +1160,16 @@ header:
 	}
 
 done:
+	/* Only what was processed is used. Anything else will be seen again once there is more data. */
+	len -= M_parser_len(mpparser);
+	M_parser_consume(parser, len);
+	httpr->body_len_seen += len;
 	M_parser_destroy(mpparser);
+
+	/* There won't be more data. */
+	if (res == M_HTTP_ERROR_SUCCESS && is_last && httpr->rstep != M_HTTP_READER_STEP_DONE)
+		res = httpr->have_part?M_HTTP_ERROR_MULTIPART_MISSING_DATA:M_HTTP_ERROR_MULTIPART_MISSING;
+
 	return res;
 }
 
-- 
2.43.0


From 31d06f101156e82ab59f0627378f55391d103574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:49 +0000
Subject: [PATCH 186/268] fix: flags of the simple HTTP reader could not be
 told apart

---
 include/mstdlib/formats/m_http.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/mstdlib/formats/m_http.h b/include/mstdlib/formats/m_http.h
index c7c20f2..290c7c1 100644
--- a/include/mstdlib/formats/m_http.h
+++ b/include/mstdlib/formats/m_http.h
@@ -786,11 +786,11 @@ typedef struct M_http_simple_read M_http_simple_read_t;
 
 
 typedef enum {
-	M_HTTP_SIMPLE_READ_NONE = 0,
-	M_HTTP_SIMPLE_READ_NODECODE_BODY,  /*!< Do not attempt to decode the body data (from detected charset). */
-	M_HTTP_SIMPLE_READ_LEN_REQUIRED,   /*!< Require content-length, cannot be chunked data. */
-	M_HTTP_SIMPLE_READ_FAIL_EXTENSION, /*!< Fail if chunked extensions are specified. Otherwise, Ignore. */
-	M_HTTP_SIMPLE_READ_FAIL_TRAILERS   /*!< Fail if trailers sent. Otherwise, they are ignored. */
+	M_HTTP_SIMPLE_READ_NONE           = 0,
+	M_HTTP_SIMPLE_READ_NODECODE_BODY  = 1 << 0, /*!< Do not attempt to decode the body data (from detected charset). */
+	M_HTTP_SIMPLE_READ_LEN_REQUIRED   = 1 << 1, /*!< Require content-length, cannot be chunked data. */
+	M_HTTP_SIMPLE_READ_FAIL_EXTENSION = 1 << 2, /*!< Fail if chunked extensions are specified. Otherwise, Ignore. */
+	M_HTTP_SIMPLE_READ_FAIL_TRAILERS  = 1 << 3  /*!< Fail if trailers sent. Otherwise, they are ignored. */
 } M_http_simple_read_flags_t;
 
 
-- 
2.43.0


From 0d22466519e6cf4a746e59fd8a1f6b6d01831e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:49 +0000
Subject: [PATCH 187/268] fix: the simple HTTP reader accepted chunked data
 when a content length was required

---
 formats/http/m_http_simple_reader.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/formats/http/m_http_simple_reader.c b/formats/http/m_http_simple_reader.c
index 3ffb7d3..1b69dae 100644
--- a/formats/http/m_http_simple_reader.c
+++ b/formats/http/m_http_simple_reader.c
@@ -146,7 +146,7 @@ static M_http_error_t M_http_simple_read_header_done_cb(M_http_data_format_t for
 
 	/* We have a callback to let us know when all the data is done. */
 	if (format == M_HTTP_DATA_FORMAT_CHUNKED)
-		return M_HTTP_ERROR_SUCCESS;
+		return (simple->rflags & M_HTTP_SIMPLE_READ_LEN_REQUIRED)?M_HTTP_ERROR_LENGTH_REQUIRED:M_HTTP_ERROR_SUCCESS;
 
 	val = M_http_header(simple->http, "content-length");
 	if (M_str_isempty(val) && simple->rflags & M_HTTP_SIMPLE_READ_LEN_REQUIRED) {
-- 
2.43.0


From b61e30ade6ffc809949800ed28a104296e3d0a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:37 +0000
Subject: [PATCH 188/268] fix: M_http_simple_write_request leaks the headers
 when the message is refused

---
 formats/http/m_http_simple_writer.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/formats/http/m_http_simple_writer.c b/formats/http/m_http_simple_writer.c
index 4f475eb..f941f05 100644
--- a/formats/http/m_http_simple_writer.c
+++ b/formats/http/m_http_simple_writer.c
@@ -323,6 +323,7 @@ M_API M_bool M_http_simple_write_request_buf(M_buf_t *buf, M_http_method_t metho
 	return M_TRUE;
 
 err:
+	M_hash_dict_destroy(myheaders);
 	M_buf_truncate(buf, start_len);
 	return M_FALSE;
 }
-- 
2.43.0


From 6df903a43268c66fdd7685511ebf863889701164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:38 +0000
Subject: [PATCH 189/268] fix: M_http_simple_write_request user_agent parameter
 must override the User-Agent header

---
 formats/http/m_http_simple_writer.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/formats/http/m_http_simple_writer.c b/formats/http/m_http_simple_writer.c
index f941f05..e6c8edc 100644
--- a/formats/http/m_http_simple_writer.c
+++ b/formats/http/m_http_simple_writer.c
@@ -100,8 +100,10 @@ static M_hash_dict_t *M_http_simple_write_request_headers(const M_hash_dict_t *h
 	}
 
 	/* Add the user agent. */
-	if (!M_str_isempty(user_agent))
+	if (!M_str_isempty(user_agent)) {
+		M_hash_dict_remove(myheaders, "User-Agent");
 		M_hash_dict_insert(myheaders, "User-Agent", user_agent);
+	}
 
 	return myheaders;
 }
-- 
2.43.0


From 91943da3a79d82b89aff9e4a8e88e9ffef2c4ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:40 +0000
Subject: [PATCH 190/268] fix: M_http_simple_write must not let CR LF in
 parameters or headers end the line

---
 formats/http/m_http_simple_writer.c | 46 ++++++++++++++++++++++++++++-
 1 file changed, 45 insertions(+), 1 deletion(-)

diff --git a/formats/http/m_http_simple_writer.c b/formats/http/m_http_simple_writer.c
index e6c8edc..cdfae7b 100644
--- a/formats/http/m_http_simple_writer.c
+++ b/formats/http/m_http_simple_writer.c
@@ -74,6 +74,41 @@ err:
 	return NULL;
 }
 
+/* Control characters can't be part of a start line or header. A CR or LF would end it and
+ * what follows would become a separate header or the body. */
+static M_bool M_http_writer_has_ctl(const char *s, M_bool is_uri)
+{
+	size_t i;
+
+	if (s == NULL)
+		return M_FALSE;
+
+	for (i=0; s[i]!='\0'; i++) {
+		unsigned char c = (unsigned char)s[i];
+		if (c == '\t' && !is_uri)
+			continue;
+		if (c < 0x20 || c == 0x7F)
+			return M_TRUE;
+	}
+	return M_FALSE;
+}
+
+/* Header names must be tokens (RFC 7230 3.2.6) and values can't have control characters. */
+static M_bool M_http_writer_valid_header(const char *key, const char *val)
+{
+	size_t i;
+
+	if (M_str_isempty(key))
+		return M_FALSE;
+
+	for (i=0; key[i]!='\0'; i++) {
+		if (!M_chr_isalnum(key[i]) && M_str_chr("!#$%&'*+-.^_`|~", key[i]) == NULL)
+			return M_FALSE;
+	}
+
+	return !M_http_writer_has_ctl(val, M_FALSE);
+}
+
 /* Headers that are specific to a request. */
 static M_hash_dict_t *M_http_simple_write_request_headers(const M_hash_dict_t *headers, const char *host, unsigned short port, const char *user_agent)
 {
@@ -225,6 +260,12 @@ static M_bool M_http_simple_write_int(M_buf_t *buf, const char *content_type, co
 		/* Get the combined header value. */
 		temp = M_http_header(http, key);
 
+		if (!M_http_writer_valid_header(key, temp)) {
+			M_free(temp);
+			M_list_str_destroy(header_keys);
+			goto err;
+		}
+
 		M_buf_add_str(buf, key);
 		/* We're adding the optional white space after the colon because it's
 		 * easier to read when looking at a trace. */
@@ -301,7 +342,7 @@ M_API M_bool M_http_simple_write_request_buf(M_buf_t *buf, M_http_method_t metho
 	 * we don't want to build an invalid request. We're going to use URL minimal
 	 * encoding to try to fix any thing that shouldn't be there. Minimal will
 	 * keep things like '/' so we won't end up with something unreadable. */
-	if (M_str_chr(uri, ' ') != NULL || !M_str_isascii(uri)) {
+	if (M_http_writer_has_ctl(uri, M_TRUE) || M_str_chr(uri, ' ') != NULL || !M_str_isascii(uri)) {
 		if (M_textcodec_encode_buf(buf, uri, M_TEXTCODEC_EHANDLER_FAIL, M_TEXTCODEC_PERCENT_URLMIN) != M_TEXTCODEC_ERROR_SUCCESS) {
 			goto err;
 		}
@@ -356,6 +397,9 @@ M_bool M_http_simple_write_response_buf(M_buf_t *buf, M_uint32 code, const char
 {
 	size_t start_len = M_buf_len(buf);
 
+	if (M_http_writer_has_ctl(reason, M_FALSE))
+		return M_FALSE;
+
 	/* status-line = HTTP-version SP status-code SP reason-phrase CRLF */
 	M_buf_add_str(buf, M_http_version_to_str(M_HTTP_VERSION_1_1));
 	M_buf_add_byte(buf, ' ');
-- 
2.43.0


From c9284968a65d19870708e03a78d3f274c6401d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:43 +0000
Subject: [PATCH 191/268] fix: HTTP header modifier values cut at a second =

---
 formats/http/m_http_header.c | 25 ++++++++++---------------
 1 file changed, 10 insertions(+), 15 deletions(-)

diff --git a/formats/http/m_http_header.c b/formats/http/m_http_header.c
index 7c5500a..22097d8 100644
--- a/formats/http/m_http_header.c
+++ b/formats/http/m_http_header.c
@@ -143,29 +143,24 @@ static M_bool M_http_header_split_value_and_modifiers(const char *full_value, ch
 
 	/* Go though the modifiers and add them if there are any. */
 	for (i=1; i<num_parts; i++) {
-		char   **mparts;
-		size_t   num_mparts = 0;
-		char    *key;
-		char    *val;
-
-		mparts = M_str_explode_str('=', parts[i], &num_mparts);
-		if (mparts == NULL || num_mparts == 0) {
-			M_str_explode_free(mparts, num_mparts);
-			continue;
-		}
-
-		key = M_strdup_trim(mparts[0]);
-		if (num_mparts >= 2) {
-			val = M_strdup_trim(mparts[1]);
+		char *key;
+		char *val;
+		char *eq;
+
+		/* Only the first = separates the key from the value. The value can have = itself. */
+		eq = M_str_chr(parts[i], '=');
+		if (eq != NULL) {
+			val = M_strdup_trim(eq + 1);
+			*eq = '\0';
 		} else {
 			val = M_strdup("");
 		}
+		key = M_strdup_trim(parts[i]);
 
 		M_hash_dict_insert(*modifiers, key, val);
 
 		M_free(val);
 		M_free(key);
-		M_str_explode_free(mparts, num_mparts);
 	}
 
 	M_str_explode_free(parts, num_parts);
-- 
2.43.0


From 5a289d4999058d6b1b57fe64e53811b4e998bebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:44 +0000
Subject: [PATCH 192/268] fix: HTTP reader rejects OPTIONS * requests

---
 formats/http/m_http_reader.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/formats/http/m_http_reader.c b/formats/http/m_http_reader.c
index 0ee6cc8..2d15992 100644
--- a/formats/http/m_http_reader.c
+++ b/formats/http/m_http_reader.c
@@ -437,7 +437,8 @@ static M_http_error_t M_http_read_start_line_request(M_http_reader_t *httpr, M_p
 	/* Part 2: URI */
 	uri  = M_parser_read_strdup(parts[1], M_parser_len(parts[1]));
 	http = M_http_create();
-	/* Validate the uri. */
+	/* Validate the uri. What is allowed depends on the method. */
+	M_http_set_method(http, method);
 	if (!M_http_set_uri(http, uri)) {
 		res = M_HTTP_ERROR_URI;
 		goto done;
-- 
2.43.0


From 440f78c16591c95a1a9ba7404015835695d132f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:45 +0000
Subject: [PATCH 193/268] fix: HTTP URI host and port must end at the path or
 query

---
 formats/http/m_http_uri.c | 48 ++++++++++++++++++++++-----------------
 1 file changed, 27 insertions(+), 21 deletions(-)

diff --git a/formats/http/m_http_uri.c b/formats/http/m_http_uri.c
index 26c87b2..2aca885 100644
--- a/formats/http/m_http_uri.c
+++ b/formats/http/m_http_uri.c
@@ -34,7 +34,9 @@
  * a standard URI parsing module. */
 static M_bool M_http_uri_parser_host(M_parser_t *parser, char **host, M_uint16 *port)
 {
-	M_uint64 myport = 0;
+	M_parser_t    *authority;
+	M_uint64       myport = 0;
+	unsigned char  byte;
 
 	if (parser == NULL || host == NULL || port == NULL)
 		return M_FALSE;
@@ -49,40 +51,44 @@ static M_bool M_http_uri_parser_host(M_parser_t *parser, char **host, M_uint16 *
 	/* Move past the prefix. */
 	M_parser_consume_str_until(parser, "://", M_TRUE);
 
-	/* Mark the start of the host. */
+	/* The host and port end where the path or query starts. Neither of
+	 * which has to be there. */
 	M_parser_mark(parser);
+	M_parser_consume_not_charset(parser, (const unsigned char *)"/?", 2);
+	authority = M_parser_read_parser(parser, M_parser_mark_rewind(parser));
+	if (authority == NULL)
+		goto err;
 
-	if (M_parser_consume_str_until(parser, ":", M_FALSE) != 0) {
-		/* Having a ":" means we have a port so everything before is
-		 * the host. */
-		*host = M_parser_read_strdup_mark(parser);
-
-		/* kill the ":". */
-		M_parser_consume(parser, 1);
+	/* Mark the start of the host. */
+	M_parser_mark(authority);
 
-		/* Read the port. */
-		if (!M_parser_read_uint(parser, M_PARSER_INTEGER_ASCII, 0, 10, &myport)) {
+	/* An IPv6 address has colons itself and is in brackets. */
+	if (M_parser_peek_byte(authority, &byte) && byte == '[') {
+		if (M_parser_consume_str_until(authority, "]", M_TRUE) == 0) {
 			goto err;
 		}
-		*port = (M_uint16)myport;
-	} else if (M_parser_consume_str_until(parser, "/", M_FALSE) != 0) {
-		/* No port was specified try to find the start of the path. */
-		*host = M_parser_read_strdup_mark(parser);
-	}
-
-	/* No port and no path, all we have is the host. */
-	if (*host == NULL) {
-		M_parser_mark_clear(parser);
-		*host = M_parser_read_strdup(parser, M_parser_len(parser));
+	} else {
+		M_parser_consume_not_charset(authority, (const unsigned char *)":", 1);
 	}
+	*host = M_parser_read_strdup_mark(authority);
 
 	/* We should have host... */
 	if (M_str_isempty(*host))
 		goto err;
 
+	/* Read the port. */
+	if (M_parser_read_byte(authority, &byte)) {
+		if (byte != ':' || !M_parser_read_uint(authority, M_PARSER_INTEGER_ASCII, 0, 10, &myport) || myport > 65535 || M_parser_len(authority) != 0) {
+			goto err;
+		}
+		*port = (M_uint16)myport;
+	}
+
+	M_parser_destroy(authority);
 	return M_TRUE;
 
 err:
+	M_parser_destroy(authority);
 	M_free(*host);
 	*host = NULL;
 	*port = 0;
-- 
2.43.0


From c9ac5c777c04df6189e8b057b5fbb54cd068ae8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:46 +0000
Subject: [PATCH 194/268] fix: HTTP header elements without a value leak their
 modifiers

---
 formats/http/m_http_header.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/formats/http/m_http_header.c b/formats/http/m_http_header.c
index 22097d8..3a218f5 100644
--- a/formats/http/m_http_header.c
+++ b/formats/http/m_http_header.c
@@ -222,6 +222,13 @@ M_bool M_http_header_update(M_http_header_t *h, const char *header_value)
 			continue;
 		}
 
+		/* Nothing but separators. */
+		if (M_str_isempty(val)) {
+			M_hash_dict_destroy(modifiers);
+			M_free(val);
+			continue;
+		}
+
 		hval = M_hash_strvp_get_direct(h->values, val);
 		if (hval == NULL) {
 			/* Takes ownership of arguments */
-- 
2.43.0


From ed278843fe550375e673480b837d91aa1e16d791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:46 +0000
Subject: [PATCH 195/268] fix: M_http_simple_write must not add Content-Length
 to a message with Transfer-Encoding

---
 formats/http/m_http_simple_writer.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/formats/http/m_http_simple_writer.c b/formats/http/m_http_simple_writer.c
index cdfae7b..6b554cc 100644
--- a/formats/http/m_http_simple_writer.c
+++ b/formats/http/m_http_simple_writer.c
@@ -188,8 +188,10 @@ static M_bool M_http_simple_write_int(M_buf_t *buf, const char *content_type, co
 		if (data != NULL && (size_t)i64v != data_len) {
 			goto err;
 		}
-	} else {
-		/* Data can be binary so we'll check for a text encoding to know if
+	} else if (!M_hash_dict_get(myheaders, "Transfer-Encoding", NULL)) {
+		/* Content-Length must not be sent with Transfer-Encoding (RFC 7230 3.3.2).
+		 *
+		 * Data can be binary so we'll check for a text encoding to know if
 		 * we can treat the data as text. */
 		if (!M_str_isempty(charset) && !M_str_isempty((const char *)data)) {
 			/* If we have data and a content length wasn't already set then we
-- 
2.43.0


From 5354154554bdf2719d87e4ffa7d3f1be15ac8a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:57 +0000
Subject: [PATCH 196/268] fix: HTTP query strings and form data with unencoded
 CR and LF

---
 formats/http/m_http.c | 31 +++++++++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/formats/http/m_http.c b/formats/http/m_http.c
index 96b957a..e82ffe9 100644
--- a/formats/http/m_http.c
+++ b/formats/http/m_http.c
@@ -512,6 +512,33 @@ char *M_http_generate_form_data_string(const M_hash_dict_t *params)
 }
 
 
+/* The form encoding leaves CR and LF as is. These can't be in a query string and
+ * have to be percent encoded in form data too. */
+static M_bool M_http_add_form_encoded(M_buf_t *buf, const char *str)
+{
+	char   *out = NULL;
+	size_t  i;
+
+	if (M_textcodec_encode(&out, str, M_TEXTCODEC_EHANDLER_FAIL, M_TEXTCODEC_PERCENT_FORM) != M_TEXTCODEC_ERROR_SUCCESS) {
+		M_free(out);
+		return M_FALSE;
+	}
+
+	for (i=0; out!=NULL && out[i]!='\0'; i++) {
+		if (out[i] == '\r') {
+			M_buf_add_str(buf, "%0D");
+		} else if (out[i] == '\n') {
+			M_buf_add_str(buf, "%0A");
+		} else {
+			M_buf_add_byte(buf, (unsigned char)out[i]);
+		}
+	}
+
+	M_free(out);
+	return M_TRUE;
+}
+
+
 M_bool M_http_generate_form_data_string_buf(M_buf_t *buf, const M_hash_dict_t *params)
 {
 	size_t               start_len = M_buf_len(buf);
@@ -547,14 +574,14 @@ M_bool M_http_generate_form_data_string_buf(M_buf_t *buf, const M_hash_dict_t *p
 			M_buf_add_byte(buf, '&');
 		first = M_FALSE;
 
-		if (M_textcodec_encode_buf(buf, key, M_TEXTCODEC_EHANDLER_FAIL, M_TEXTCODEC_PERCENT_FORM) != M_TEXTCODEC_ERROR_SUCCESS) {
+		if (!M_http_add_form_encoded(buf, key)) {
 			goto done;
 		}
 
 		M_buf_add_byte(buf, '=');
 
 		if (!M_str_isempty(value)) {
-			if (M_textcodec_encode_buf(buf, value, M_TEXTCODEC_EHANDLER_FAIL, M_TEXTCODEC_PERCENT_FORM) != M_TEXTCODEC_ERROR_SUCCESS) {
+			if (!M_http_add_form_encoded(buf, value)) {
 				goto done;
 			}
 		}
-- 
2.43.0


From 1025722f87b3b12e9940cedfe10c5b3ca904ed79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:24 +0000
Subject: [PATCH 197/268] fix: URLs with a fragment directly after the host are
 rejected

---
 formats/url/url_parser.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/formats/url/url_parser.c b/formats/url/url_parser.c
index 2c69c7b..90304a1 100644
--- a/formats/url/url_parser.c
+++ b/formats/url/url_parser.c
@@ -281,6 +281,10 @@ parse_url_char(enum state s, const char ch)
         return s_req_query_string_start;
       }
 
+      if (ch == '#') {
+        return s_req_fragment_start;
+      }
+
       if (ch == '@') {
         return s_req_server_with_at;
       }
-- 
2.43.0


From ef3d3f90c5e7a3438b377334a60df352f2af4339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:36 +0000
Subject: [PATCH 198/268] fix: URLs of 64 KB and more yield the wrong
 components

---
 formats/url/m_url.c      |  2 +-
 formats/url/url_parser.c | 14 +++++++-------
 formats/url/url_parser.h |  4 ++--
 3 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/formats/url/m_url.c b/formats/url/m_url.c
index d25df11..c087549 100644
--- a/formats/url/m_url.c
+++ b/formats/url/m_url.c
@@ -40,7 +40,7 @@ static void M_url_set_field(const char *url_str, struct http_parser_url *url, ch
 {
 	if ((url->field_set & (1 << idx)) != 0) {
 		const size_t  off = url->field_data[idx].off;
-		const int     len = url->field_data[idx].len;
+		const int     len = (int)url->field_data[idx].len;
 		const char   *s   = &url_str[off];
 		M_asprintf(field, "%.*s", len, s);
 	}
diff --git a/formats/url/url_parser.c b/formats/url/url_parser.c
index 90304a1..2cda159 100644
--- a/formats/url/url_parser.c
+++ b/formats/url/url_parser.c
@@ -468,14 +468,14 @@ http_parse_host(const char * buf, struct http_parser_url *u, int found_at) {
     switch(new_s) {
       case s_http_host:
         if (s != s_http_host) {
-          u->field_data[UF_HOST].off = (uint16_t)(p - buf);
+          u->field_data[UF_HOST].off = (uint32_t)(p - buf);
         }
         u->field_data[UF_HOST].len++;
         break;
 
       case s_http_host_v6:
         if (s != s_http_host_v6) {
-          u->field_data[UF_HOST].off = (uint16_t)(p - buf);
+          u->field_data[UF_HOST].off = (uint32_t)(p - buf);
         }
         u->field_data[UF_HOST].len++;
         break;
@@ -487,7 +487,7 @@ http_parse_host(const char * buf, struct http_parser_url *u, int found_at) {
 
       case s_http_host_port:
         if (s != s_http_host_port) {
-          u->field_data[UF_PORT].off = (uint16_t)(p - buf);
+          u->field_data[UF_PORT].off = (uint32_t)(p - buf);
           u->field_data[UF_PORT].len = 0;
           u->field_set |= (1 << UF_PORT);
         }
@@ -496,7 +496,7 @@ http_parse_host(const char * buf, struct http_parser_url *u, int found_at) {
 
       case s_http_userinfo:
         if (s != s_http_userinfo) {
-          u->field_data[UF_USERINFO].off = (uint16_t)(p - buf);
+          u->field_data[UF_USERINFO].off = (uint32_t)(p - buf);
           u->field_data[UF_USERINFO].len = 0;
           u->field_set |= (1 << UF_USERINFO);
         }
@@ -600,7 +600,7 @@ http_parser_parse_url(const char *buf, size_t buflen, int is_connect,
       continue;
     }
 
-    u->field_data[uf].off = (uint16_t)(p - buf);
+    u->field_data[uf].off = (uint32_t)(p - buf);
     u->field_data[uf].len = 1;
 
     u->field_set |= (1 << uf);
@@ -626,8 +626,8 @@ http_parser_parse_url(const char *buf, size_t buflen, int is_connect,
   }
 
   if (u->field_set & (1 << UF_PORT)) {
-    uint16_t off;
-    uint16_t len;
+    uint32_t off;
+    uint32_t len;
     const char* end;
     signed long v;
 
diff --git a/formats/url/url_parser.h b/formats/url/url_parser.h
index 78b3096..595b9a7 100644
--- a/formats/url/url_parser.h
+++ b/formats/url/url_parser.h
@@ -76,8 +76,8 @@ struct http_parser_url {
   uint16_t port;                /* Converted UF_PORT string */
 
   struct {
-    uint16_t off;               /* Offset into buffer in which field starts */
-    uint16_t len;               /* Length of run in buffer */
+    uint32_t off;               /* Offset into buffer in which field starts */
+    uint32_t len;               /* Length of run in buffer */
   } field_data[UF_MAX];
 };
 
-- 
2.43.0


From f298321f88b2f23c69b09b6d1143596a27904925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:07 +0000
Subject: [PATCH 199/268] fix: M_re_search drops captures that are empty at the
 start of the string

---
 text/re/m_re.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/text/re/m_re.c b/text/re/m_re.c
index 7606b75..5130361 100644
--- a/text/re/m_re.c
+++ b/text/re/m_re.c
@@ -101,7 +101,7 @@ M_bool M_re_search(const M_re_t *re, const char *str, M_re_match_t **match)
 	if (match != NULL) {
 		*match = M_re_match_create();
 		for (i=0; i<num_pmatch; i++) {
-			if ((pmatch[i].rm_so == 0 && pmatch[i].rm_eo == 0) || pmatch[i].rm_so == -1 || pmatch[i].rm_eo == -1) {
+			if (pmatch[i].rm_so == -1 || pmatch[i].rm_eo == -1) {
 				continue;
 			}
 			M_re_match_insert(*match, i, (size_t)pmatch[i].rm_so, (size_t)(pmatch[i].rm_eo - pmatch[i].rm_so));
-- 
2.43.0


From e8376c541cf44c991d0e6cdebf45a144f8651be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:07 +0000
Subject: [PATCH 200/268] fix: regular expressions accept @ and ` as hex digits

---
 text/re/mtre/regcomp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/text/re/mtre/regcomp.c b/text/re/mtre/regcomp.c
index a574a8e..d1a247f 100644
--- a/text/re/mtre/regcomp.c
+++ b/text/re/mtre/regcomp.c
@@ -887,7 +887,7 @@ static int hexval(int c)
 		return c-'0';
 
 	c |= 32;
-	if (c-'a' < 6)
+	if (c >= 'a' && c-'a' < 6)
 		return c-'a'+10;
 
 	return -1;
-- 
2.43.0


From 2cef48432cc16c7fb7b394e8dd494b25230104aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:07 +0000
Subject: [PATCH 201/268] fix: M_re_matches gives up on empty matches and loses
 the context of later matches

---
 text/re/m_re.c         | 40 ++++++++++++++++++++++++++++++++++------
 text/re/mtre/mregex.h  |  2 +-
 text/re/mtre/regexec.c | 22 ++++++++++++++++------
 3 files changed, 51 insertions(+), 13 deletions(-)

diff --git a/text/re/m_re.c b/text/re/m_re.c
index 5130361..fd7d110 100644
--- a/text/re/m_re.c
+++ b/text/re/m_re.c
@@ -74,7 +74,7 @@ void M_re_destroy(M_re_t *re)
 	M_free(re);
 }
 
-M_bool M_re_search(const M_re_t *re, const char *str, M_re_match_t **match)
+static M_bool M_re_search_from(const M_re_t *re, const char *str, size_t start, M_re_match_t **match)
 {
 	regmatch_t    *pmatch     = NULL;
 	reg_errcode_t  ret;
@@ -92,7 +92,7 @@ M_bool M_re_search(const M_re_t *re, const char *str, M_re_match_t **match)
 		pmatch     = M_malloc_zero(num_pmatch * sizeof(*pmatch));
 	}
 
-	ret = mregexec((const regex_t *)re, str, num_pmatch, pmatch);
+	ret = mregexec((const regex_t *)re, str, start, num_pmatch, pmatch);
 	if (ret != REG_OK) {
 		M_free(pmatch);
 		return M_FALSE;
@@ -112,6 +112,11 @@ M_bool M_re_search(const M_re_t *re, const char *str, M_re_match_t **match)
 	return M_TRUE;
 }
 
+M_bool M_re_search(const M_re_t *re, const char *str, M_re_match_t **match)
+{
+	return M_re_search_from(re, str, 0, match);
+}
+
 M_bool M_re_eq_start(const M_re_t *re, const char *str)
 {
 	M_re_match_t *match;
@@ -183,23 +188,46 @@ M_list_t *M_re_matches(const M_re_t *re, const char *str)
 	};
 	size_t offset;
 	size_t len;
+	size_t slen;
+	size_t end = 0;
 
 	if (re == NULL || M_str_isempty(str))
 		return NULL;
 
 	matches = M_list_create(&lcbs, M_LIST_NONE);
 
-	pos = 0;
-	while (M_re_search(re, str+pos, &match)) {
+	pos  = 0;
+	slen = M_str_len(str);
+	while (pos <= slen && M_re_search_from(re, str, pos, &match)) {
 		if (!M_re_match_idx(match, 0, &offset, &len)) {
+			M_re_match_destroy(match);
 			M_list_destroy(matches, M_TRUE);
 			return NULL;
 		}
 
-		M_re_match_adjust_offset(match, pos);
+		pos = offset + len;
+
+		if (len == 0) {
+			/* Move past the next character so the search goes on. */
+			pos++;
+			while (pos < slen && ((unsigned char)str[pos] & 0xC0) == 0x80) {
+				pos++;
+			}
+
+			/* An empty match touching the end of the last match isn't another match. */
+			if (offset == end && M_list_len(matches) > 0) {
+				M_re_match_destroy(match);
+				continue;
+			}
+		}
+
+		end = offset + len;
 		M_list_insert(matches, match);
+	}
 
-		pos += offset + len;
+	if (M_list_len(matches) == 0) {
+		M_list_destroy(matches, M_TRUE);
+		return NULL;
 	}
 
 	return matches;
diff --git a/text/re/mtre/mregex.h b/text/re/mtre/mregex.h
index 668bbf8..82c0229 100644
--- a/text/re/mtre/mregex.h
+++ b/text/re/mtre/mregex.h
@@ -40,7 +40,7 @@ typedef enum {
 } reg_errcode_t;
 
 reg_errcode_t mregcomp(regex_t *preg, const char *regex, regex_flags_t cflags);
-reg_errcode_t mregexec(const regex_t *preg, const char *string, size_t nmatch, regmatch_t *pmatch);
+reg_errcode_t mregexec(const regex_t *preg, const char *string, size_t start, size_t nmatch, regmatch_t *pmatch);
 void mregfree(regex_t *);
 
 #endif
diff --git a/text/re/mtre/regexec.c b/text/re/mtre/regexec.c
index dbf2de0..e9e98dc 100644
--- a/text/re/mtre/regexec.c
+++ b/text/re/mtre/regexec.c
@@ -179,15 +179,15 @@ typedef struct {
 } tre_reach_pos_t;
 
 
-static reg_errcode_t tre_tnfa_run_parallel(const tre_tnfa_t *tnfa, const void *string,
+static reg_errcode_t tre_tnfa_run_parallel(const tre_tnfa_t *tnfa, const char *string, size_t start,
 		regoff_t *match_tags, regoff_t *match_end_ofs)
 {
 	/* State variables required by GET_NEXT_WCHAR. */
 	M_uint32       prev_c        = 0;
 	M_uint32       next_c        = 0;
 	const char    *next_s        = NULL;
-	const char    *str_byte      = string;
-	regoff_t       pos           = -1;
+	const char    *str_byte      = string + start;
+	regoff_t       pos           = (regoff_t)start - 1;
 	regoff_t       pos_add_next  = 1;
 	int            reg_multiline = tnfa->cflags & REG_MULTILINE;
 	reg_errcode_t  ret;
@@ -276,8 +276,18 @@ static reg_errcode_t tre_tnfa_run_parallel(const tre_tnfa_t *tnfa, const void *s
 		reach_pos[i].pos = -1;
 	}
 
+	/* The character before the start decides if assertions are met there. */
+	if (start > 0) {
+		const char *prev = str_byte - 1;
+		while (prev > string && ((unsigned char)*prev & 0xC0) == 0x80) {
+			prev--;
+		}
+		if (M_utf8_get_cp(prev, &next_c, NULL) != M_UTF8_ERROR_SUCCESS) {
+			next_c = 0;
+		}
+	}
+
 	GET_NEXT_WCHAR();
-	pos = 0;
 
 	reach_next_i = reach_next;
 	while (1) {
@@ -538,7 +548,7 @@ static void tre_fill_pmatch(size_t nmatch, regmatch_t pmatch[],
 }
 
 
-reg_errcode_t mregexec(const regex_t *preg, const char *string, size_t nmatch, regmatch_t *pmatch)
+reg_errcode_t mregexec(const regex_t *preg, const char *string, size_t start, size_t nmatch, regmatch_t *pmatch)
 {
 	tre_tnfa_t    *tnfa = preg->tnfa;
 	reg_errcode_t  status;
@@ -549,7 +559,7 @@ reg_errcode_t mregexec(const regex_t *preg, const char *string, size_t nmatch, r
 		tags = M_malloc(sizeof(*tags) * (size_t)tnfa->num_tags);
 
 	/* Parallel matcher. */
-	status = tre_tnfa_run_parallel(tnfa, string, tags, &eo);
+	status = tre_tnfa_run_parallel(tnfa, string, start, tags, &eo);
 
 	/* A match was found, so fill the submatch registers. */
 	if (status == REG_OK)
-- 
2.43.0


From c31e1ef02e78c46e0e458f81395fbe4960fa1211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:07 +0000
Subject: [PATCH 202/268] fix: M_re_sub returns NULL when nothing is left of
 the string

---
 text/re/m_re.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/text/re/m_re.c b/text/re/m_re.c
index fd7d110..197d50a 100644
--- a/text/re/m_re.c
+++ b/text/re/m_re.c
@@ -404,5 +404,11 @@ char *M_re_sub(const M_re_t *re, const char *repl, const char *str)
 	/* Add any trailing data. */
 	M_buf_add_bytes(buf, str+pos, M_str_len(str)-pos);
 
+	/* Nothing may be left. */
+	if (M_buf_len(buf) == 0) {
+		M_buf_cancel(buf);
+		return M_strdup("");
+	}
+
 	return M_buf_finish_str(buf, NULL);
 }
-- 
2.43.0


From 5da17065c081d071f0c5d6b95d8bc86aedab4c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:23 +0000
Subject: [PATCH 203/268] fix: M_re_eq misses strings a minimal pattern matches
 only as a whole

---
 text/re/m_re.c         | 25 +++----------------------
 text/re/mtre/mregex.h  |  2 +-
 text/re/mtre/regexec.c | 18 +++++++++---------
 3 files changed, 13 insertions(+), 32 deletions(-)

diff --git a/text/re/m_re.c b/text/re/m_re.c
index 197d50a..afc7ba9 100644
--- a/text/re/m_re.c
+++ b/text/re/m_re.c
@@ -92,7 +92,7 @@ static M_bool M_re_search_from(const M_re_t *re, const char *str, size_t start,
 		pmatch     = M_malloc_zero(num_pmatch * sizeof(*pmatch));
 	}
 
-	ret = mregexec((const regex_t *)re, str, start, num_pmatch, pmatch);
+	ret = mregexec((const regex_t *)re, str, start, M_FALSE, num_pmatch, pmatch);
 	if (ret != REG_OK) {
 		M_free(pmatch);
 		return M_FALSE;
@@ -146,33 +146,14 @@ M_bool M_re_eq_start(const M_re_t *re, const char *str)
 
 M_bool M_re_eq(const M_re_t *re, const char *str)
 {
-	M_re_match_t *match;
-	size_t        offset = 0;
-	size_t        mlen   = 0;
-	size_t        slen;
-	M_bool        ret;
-
 	if (re == NULL)
 		return M_FALSE;
 
 	if (str == NULL)
 		str = "";
 
-	ret = M_re_search(re, str, &match);
-	if (!ret)
-		return M_FALSE;
-
-	slen = M_str_len(str);
-	M_re_match_idx(match, 0, &offset, &mlen);
-
-	if (offset == 0 && mlen == slen) {
-		ret = M_TRUE;
-	} else {
-		ret = M_FALSE;
-	}
-
-	M_re_match_destroy(match);
-	return ret;
+	/* The longest or shortest match isn't necessarily the one covering the string. */
+	return mregexec((const regex_t *)re, str, 0, M_TRUE, 0, NULL) == REG_OK;
 }
 
 M_list_t *M_re_matches(const M_re_t *re, const char *str)
diff --git a/text/re/mtre/mregex.h b/text/re/mtre/mregex.h
index 82c0229..841dfe5 100644
--- a/text/re/mtre/mregex.h
+++ b/text/re/mtre/mregex.h
@@ -40,7 +40,7 @@ typedef enum {
 } reg_errcode_t;
 
 reg_errcode_t mregcomp(regex_t *preg, const char *regex, regex_flags_t cflags);
-reg_errcode_t mregexec(const regex_t *preg, const char *string, size_t start, size_t nmatch, regmatch_t *pmatch);
+reg_errcode_t mregexec(const regex_t *preg, const char *string, size_t start, M_bool whole, size_t nmatch, regmatch_t *pmatch);
 void mregfree(regex_t *);
 
 #endif
diff --git a/text/re/mtre/regexec.c b/text/re/mtre/regexec.c
index e9e98dc..4c45516 100644
--- a/text/re/mtre/regexec.c
+++ b/text/re/mtre/regexec.c
@@ -179,7 +179,7 @@ typedef struct {
 } tre_reach_pos_t;
 
 
-static reg_errcode_t tre_tnfa_run_parallel(const tre_tnfa_t *tnfa, const char *string, size_t start,
+static reg_errcode_t tre_tnfa_run_parallel(const tre_tnfa_t *tnfa, const char *string, size_t start, M_bool whole,
 		regoff_t *match_tags, regoff_t *match_end_ofs)
 {
 	/* State variables required by GET_NEXT_WCHAR. */
@@ -292,7 +292,7 @@ static reg_errcode_t tre_tnfa_run_parallel(const tre_tnfa_t *tnfa, const char *s
 	reach_next_i = reach_next;
 	while (1) {
 		/* If no match found yet, add the initial states to `reach_next'. */
-		if (match_eo < 0) {
+		if (match_eo < 0 && (!whole || pos == (regoff_t)start)) {
 			trans_i = tnfa->initial;
 			while (trans_i->state != NULL) {
 				if (reach_pos[trans_i->state_id].pos < pos) {
@@ -316,7 +316,7 @@ static reg_errcode_t tre_tnfa_run_parallel(const tre_tnfa_t *tnfa, const char *s
 						}
 					}
 
-					if (reach_next_i->state == tnfa->final_trans) {
+					if (reach_next_i->state == tnfa->final_trans && (!whole || next_c == '\0')) {
 						match_eo  = pos;
 						new_match = 1;
 						for (i = 0; i < num_tags; i++) {
@@ -334,8 +334,8 @@ static reg_errcode_t tre_tnfa_run_parallel(const tre_tnfa_t *tnfa, const char *s
 
 			reach_next_i->state = NULL;
 		} else {
-			if (num_tags == 0 || reach_next_i == reach_next) {
-				/* We have found a match. */
+			if ((num_tags == 0 && match_eo >= 0) || reach_next_i == reach_next) {
+				/* We have found a match, or there can't be one. */
 				break;
 			}
 		}
@@ -427,7 +427,7 @@ static reg_errcode_t tre_tnfa_run_parallel(const tre_tnfa_t *tnfa, const char *s
 						reach_pos[trans_i->state_id].pos  = pos;
 						reach_pos[trans_i->state_id].tags = &reach_next_i->tags;
 
-						if (reach_next_i->state == tnfa->final_trans
+						if (reach_next_i->state == tnfa->final_trans && (!whole || next_c == '\0')
 								&& (match_eo == -1 || (num_tags > 0 && reach_next_i->tags[0] <= match_tags[0])))
 						{
 							match_eo  = pos;
@@ -449,7 +449,7 @@ static reg_errcode_t tre_tnfa_run_parallel(const tre_tnfa_t *tnfa, const char *s
 							/* The new path wins. */
 							tmp_iptr                           = *reach_pos[trans_i->state_id].tags;
 							*reach_pos[trans_i->state_id].tags = tmp_tags;
-							if (trans_i->state == tnfa->final_trans) {
+							if (trans_i->state == tnfa->final_trans && (!whole || next_c == '\0')) {
 								match_eo  = pos;
 								new_match = 1;
 
@@ -548,7 +548,7 @@ static void tre_fill_pmatch(size_t nmatch, regmatch_t pmatch[],
 }
 
 
-reg_errcode_t mregexec(const regex_t *preg, const char *string, size_t start, size_t nmatch, regmatch_t *pmatch)
+reg_errcode_t mregexec(const regex_t *preg, const char *string, size_t start, M_bool whole, size_t nmatch, regmatch_t *pmatch)
 {
 	tre_tnfa_t    *tnfa = preg->tnfa;
 	reg_errcode_t  status;
@@ -559,7 +559,7 @@ reg_errcode_t mregexec(const regex_t *preg, const char *string, size_t start, si
 		tags = M_malloc(sizeof(*tags) * (size_t)tnfa->num_tags);
 
 	/* Parallel matcher. */
-	status = tre_tnfa_run_parallel(tnfa, string, start, tags, &eo);
+	status = tre_tnfa_run_parallel(tnfa, string, start, whole, tags, &eo);
 
 	/* A match was found, so fill the submatch registers. */
 	if (status == REG_OK)
-- 
2.43.0


From 624b19e2e4c13c26be0ff2d1edfbde3b95a52801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:39 +0000
Subject: [PATCH 204/268] fix: M_re_find_all adds NULL for empty matches

---
 text/re/m_re.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/text/re/m_re.c b/text/re/m_re.c
index afc7ba9..df7da7d 100644
--- a/text/re/m_re.c
+++ b/text/re/m_re.c
@@ -245,7 +245,7 @@ M_list_str_t *M_re_find_all(const M_re_t *re, const char *str)
 		}
 
 		M_buf_add_bytes(buf, str+offset, mlen);
-		M_list_str_insert(all, M_buf_peek(buf));
+		M_list_str_insert(all, mlen == 0 ? "" : M_buf_peek(buf));
 	}
 
 	M_buf_cancel(buf);
-- 
2.43.0


From 670401054cd33162ea503b4e7d4e24c381ecc970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:00 +0000
Subject: [PATCH 205/268] fix: multi line regular expressions exclude newline
 from negated sets

---
 text/re/mtre/regcomp.c | 11 -----------
 1 file changed, 11 deletions(-)

diff --git a/text/re/mtre/regcomp.c b/text/re/mtre/regcomp.c
index d1a247f..fcd4431 100644
--- a/text/re/mtre/regcomp.c
+++ b/text/re/mtre/regcomp.c
@@ -776,17 +776,6 @@ static reg_errcode_t parse_bracket(tre_parse_ctx_t *ctx, const char *s)
 		goto parse_bracket_done;
 
 	if (negate) {
-		if (ctx->cflags & REG_MULTILINE) {
-			lit = tre_new_lit(&ls);
-			if (lit == NULL) {
-				err = REG_ESPACE;
-				goto parse_bracket_done;
-			}
-			lit->code_min = '\n';
-			lit->code_max = '\n';
-			lit->position = -1;
-		}
-
 		/* Sort the array if we need to negate it. */
 		M_sort_qsort(ls.a, ls.len, sizeof *ls.a, tre_compare_lit, NULL);
 
-- 
2.43.0


From 60464d0ddd3c9ac8001319103786ed1bef7164cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:32 +0000
Subject: [PATCH 206/268] fix: multilevel wildcards of certificates must match
 the end of the hostname

---
 tls/m_tls_hostvalidate.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tls/m_tls_hostvalidate.c b/tls/m_tls_hostvalidate.c
index 8f897ff..52918d8 100644
--- a/tls/m_tls_hostvalidate.c
+++ b/tls/m_tls_hostvalidate.c
@@ -124,7 +124,7 @@ static M_bool M_tls_verify_host_match_wildcard(const char *hostname, const char
 	 * going to iterate over the first entry as we already know it is '*', so if we get
 	 * to the end, we've matched all we need to match */
 	for (i=name_parts_num-1; i>0; i--) {
-		if (!M_str_caseeq(name_parts[i], hostname_parts[i]))
+		if (!M_str_caseeq(name_parts[i], hostname_parts[hostname_parts_num - (name_parts_num - i)]))
 			goto fail;
 	}
 
-- 
2.43.0


From 604a1dda90ed0154608c83bc4b728bb7fb7054fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:32 +0000
Subject: [PATCH 207/268] fix: certificate names over 255 bytes must not be cut
 and matched

---
 tls/m_tls_hostvalidate.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tls/m_tls_hostvalidate.c b/tls/m_tls_hostvalidate.c
index 52918d8..cb632e7 100644
--- a/tls/m_tls_hostvalidate.c
+++ b/tls/m_tls_hostvalidate.c
@@ -198,9 +198,9 @@ static M_bool M_tls_verify_host_subjaltname(X509 *x509, const char *hostname, M_
 				int            dnsname_len;
 
 				dnsname_len = ASN1_STRING_to_UTF8(&temp, name->d.dNSName);
-				/* Check for malformed name (e.g. embedded NULL or binary data). Use M_str_len_max() so we don't possibly
+				/* Check for malformed name (e.g. embedded NULL, binary data or too long). Use M_str_len_max() so we don't possibly
 				 * read beyond bounds of buffer */
-				if (temp == NULL || dnsname_len <= 0 || M_str_len_max((const char *)temp, (size_t)dnsname_len) != (size_t)dnsname_len) {
+				if (temp == NULL || dnsname_len <= 0 || (size_t)dnsname_len >= sizeof(dnsname) || M_str_len_max((const char *)temp, (size_t)dnsname_len) != (size_t)dnsname_len) {
 					OPENSSL_free(temp);
 					continue;
 				}
-- 
2.43.0


From 81085212c471ed9e729b2b400502821c1b55c67f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:32 +0000
Subject: [PATCH 208/268] fix: leak of malformed common names of certificates

---
 tls/m_tls_hostvalidate.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tls/m_tls_hostvalidate.c b/tls/m_tls_hostvalidate.c
index cb632e7..474f2c9 100644
--- a/tls/m_tls_hostvalidate.c
+++ b/tls/m_tls_hostvalidate.c
@@ -249,8 +249,10 @@ static M_bool M_tls_verify_host_commonname(X509 *x509, const char *hostname, M_t
 			continue;
 
 		len  = ASN1_STRING_to_UTF8(&cn, asn1);
-		if (len <= 0 || cn == NULL || M_str_len((const char *)cn) != (size_t)len)
+		if (len <= 0 || cn == NULL || M_str_len((const char *)cn) != (size_t)len) {
+			OPENSSL_free(cn);
 			continue;
+		}
 
 		rv = M_tls_verify_host_match(hostname, (const char *)cn, flags);
 		OPENSSL_free(cn);
-- 
2.43.0


From 4b77f3603c162cf369dd78d6e6727ef74f1ef9a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:32 +0000
Subject: [PATCH 209/268] fix: wildcard names of certificates must not match IP
 addresses

---
 tls/m_tls_hostvalidate.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tls/m_tls_hostvalidate.c b/tls/m_tls_hostvalidate.c
index 474f2c9..8f1546e 100644
--- a/tls/m_tls_hostvalidate.c
+++ b/tls/m_tls_hostvalidate.c
@@ -97,6 +97,8 @@ static M_bool M_tls_verify_host_match_wildcard(const char *hostname, const char
 	char **name_parts         = NULL;
 	size_t name_parts_num     = 0;
 	M_bool rv                 = M_FALSE;
+	unsigned char ipaddr[16];
+	size_t ipaddr_len         = 0;
 	size_t i;
 
 	if (M_str_isempty(hostname) || M_str_isempty(name))
@@ -106,6 +108,10 @@ static M_bool M_tls_verify_host_match_wildcard(const char *hostname, const char
 	if (!M_str_eq_max(name, "*.", 2))
 		return M_FALSE;
 
+	/* The sections of an IP address aren't labels a wildcard can stand for */
+	if (M_io_net_ipaddr_to_bin(ipaddr, sizeof(ipaddr), hostname, &ipaddr_len))
+		return M_FALSE;
+
 	hostname_parts = M_str_explode_str('.', hostname, &hostname_parts_num);
 	name_parts     = M_str_explode_str('.', name,     &name_parts_num);
 
-- 
2.43.0


From 3dd3748600bcdb3744a98de685b83b965f460bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:27 +0000
Subject: [PATCH 210/268] fix: async writer loses a rejected message when its
 queue is empty

---
 log/m_async_writer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/log/m_async_writer.c b/log/m_async_writer.c
index c4e7ae8..aa6af12 100644
--- a/log/m_async_writer.c
+++ b/log/m_async_writer.c
@@ -191,7 +191,7 @@ static void replace_one(M_async_writer_t *writer, char *msg, M_uint64 num_droppe
 		/* If no newer messages have been dropped in the time since we tried to write the old message,
 		 * and if we have room to add the old message back onto the tail end of the buffer:
 		 */
-		M_llist_str_insert_after(M_llist_str_last(writer->msgs), msg);
+		M_llist_str_insert(writer->msgs, msg);
 		writer->stored_bytes += msg_len;
 	} else {
 		/* If newer messages have been dropped, or if the old message won't fit in the queue,
-- 
2.43.0


From 2d82f154e3fddf5558a1f67bc27f0bf58542ee39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:28 +0000
Subject: [PATCH 211/268] fix: async writer reports dropped messages again when
 the next message is rejected

---
 log/m_async_writer.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/log/m_async_writer.c b/log/m_async_writer.c
index aa6af12..ecef7b1 100644
--- a/log/m_async_writer.c
+++ b/log/m_async_writer.c
@@ -234,6 +234,9 @@ static void *write_thread(void *arg)
 			M_snprintf(tmp, sizeof(tmp), "%llu messages were dropped (%s)%s", num_dropped,
 				(msg == NULL && cmd == 0)? "log shutdown" : "buffer full", writer->line_end);
 			msg_consumed = writer->write_cb(tmp, 0, writer->write_thunk);
+			if (msg_consumed) {
+				num_dropped = 0; /* Reported, don't report these again. */
+			}
 		}
 
 		/* NULL message and 0 command indicates that message queue wants us to stop processing. */
-- 
2.43.0


From d1983f2438b03b3dc85e8e563ba5f5cfa7ae6b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:28 +0000
Subject: [PATCH 212/268] fix: M_async_writer_set_command_block returns when an
 earlier command is done

---
 log/m_async_writer.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/log/m_async_writer.c b/log/m_async_writer.c
index ecef7b1..e3716cd 100644
--- a/log/m_async_writer.c
+++ b/log/m_async_writer.c
@@ -59,6 +59,7 @@ struct M_async_writer {
 	/* Reset only by explicit function call. */
 	writer_state_t      state;
 	M_bool              command_done;  /* used to indicate a command has completed, if the user sent a blocking command */
+	M_bool              command_taken; /* used to indicate the internal thread is processing the user's blocking command */
 	M_bool              thread_done;
 	M_bool              thread_alive;
 
@@ -168,6 +169,7 @@ static char *pop_one(M_async_writer_t *writer, M_uint64 *num_dropped, M_uint64 *
 	/* Transfer any commands received by the message queue to the caller. */
 	*cmd = writer->write_command;
 	writer->write_command = 0;
+	writer->command_taken = M_TRUE;
 
 	M_thread_mutex_unlock(writer->lock);
 	return ret;
@@ -255,8 +257,11 @@ static void *write_thread(void *arg)
 			/* If a command was set, signal that it's done (in case anyone is blocking on it). */
 			if (cmd != 0) {
 				M_thread_mutex_lock(writer->lock);
-				writer->command_done = M_TRUE;
-				M_thread_cond_broadcast(writer->cond_done);
+				/* Don't do this for a command that was already being processed before the blocking one was sent. */
+				if (writer->command_taken) {
+					writer->command_done = M_TRUE;
+					M_thread_cond_broadcast(writer->cond_done);
+				}
 				M_thread_mutex_unlock(writer->lock);
 			}
 		}
@@ -599,7 +604,8 @@ M_bool M_async_writer_set_command_block(M_async_writer_t *writer, M_uint64 write
 	M_thread_cond_broadcast(writer->cond_updated);
 
 	/* Block until command is processed. */
-	writer->command_done = M_FALSE;
+	writer->command_done  = M_FALSE;
+	writer->command_taken = M_FALSE;
 	while (!writer->command_done) {
 		M_thread_cond_wait(writer->cond_done, writer->lock);
 	}
-- 
2.43.0


From 2337a2ca5965faaf749f8729af3221931359ef2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:28 +0000
Subject: [PATCH 213/268] fix: async writer loses commands when a message about
 dropped messages is rejected

---
 log/m_async_writer.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/log/m_async_writer.c b/log/m_async_writer.c
index e3716cd..beed4c1 100644
--- a/log/m_async_writer.c
+++ b/log/m_async_writer.c
@@ -264,6 +264,12 @@ static void *write_thread(void *arg)
 				}
 				M_thread_mutex_unlock(writer->lock);
 			}
+		} else if (cmd != 0) {
+			/* The command wasn't passed on, so it's still pending. */
+			M_thread_mutex_lock(writer->lock);
+			writer->write_command |= cmd;
+			writer->command_taken  = M_FALSE;
+			M_thread_mutex_unlock(writer->lock);
 		}
 
 		/* If either the drop message wasn't accepted, or the main message wasn't accepted, replace the
-- 
2.43.0


From fca2850568d9431ad942323c0cfebf97ae3e6c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:28 +0000
Subject: [PATCH 214/268] fix: M_async_writer_destroy_blocking without flush
 must report the messages left

---
 log/m_async_writer.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/log/m_async_writer.c b/log/m_async_writer.c
index beed4c1..3b640cf 100644
--- a/log/m_async_writer.c
+++ b/log/m_async_writer.c
@@ -30,6 +30,7 @@ typedef enum {
 	M_ASYNC_WRITER_RUNNING,
 	M_ASYNC_WRITER_FLUSHING_TO_STOP,       /* Flushing message queue before stopping the writer. */
 	M_ASYNC_WRITER_FLUSHING_TO_DESTROY,    /* Flushing message queue before destroying the writer. */
+	M_ASYNC_WRITER_STOPPING_TO_DESTROY,    /* Stopping the writer, caller waits to destroy it. */
 	M_ASYNC_WRITER_DESTROYING              /* Destroying the writer. */
 } writer_state_t;
 
@@ -135,7 +136,7 @@ static char *pop_one(M_async_writer_t *writer, M_uint64 *num_dropped, M_uint64 *
 	}
 
 	if (writer->state == M_ASYNC_WRITER_DESTROYING || writer->state == M_ASYNC_WRITER_STOPPED
-		|| (in_flush(writer) && M_llist_str_len(writer->msgs) == 0)) {
+		|| writer->state == M_ASYNC_WRITER_STOPPING_TO_DESTROY || (in_flush(writer) && M_llist_str_len(writer->msgs) == 0)) {
 		if (num_dropped != NULL) {
 			if (writer->state == M_ASYNC_WRITER_STOPPED) {
 				/* If we're not destroying the writer, just leave number of dropped messages in writer. They can be
@@ -293,7 +294,7 @@ static void *write_thread(void *arg)
 	/* At this point, we've finished flushing the message queue. Update flush states to final state. */
 	if (writer->state == M_ASYNC_WRITER_FLUSHING_TO_DESTROY) {
 		writer->state = M_ASYNC_WRITER_DESTROYING;
-	} else if(writer->state == M_ASYNC_WRITER_FLUSHING_TO_STOP) {
+	} else if(writer->state == M_ASYNC_WRITER_FLUSHING_TO_STOP || writer->state == M_ASYNC_WRITER_STOPPING_TO_DESTROY) {
 		writer->state = M_ASYNC_WRITER_STOPPED;
 	}
 	destroying = (writer->state == M_ASYNC_WRITER_DESTROYING)? M_TRUE : M_FALSE;
@@ -369,7 +370,8 @@ void M_async_writer_destroy(M_async_writer_t *writer, M_bool flush)
 	M_thread_mutex_lock(writer->lock);
 
 	/* If we've already initiated a destroy operation, return without doing anything. */
-	if (writer->state == M_ASYNC_WRITER_FLUSHING_TO_DESTROY || writer->state == M_ASYNC_WRITER_DESTROYING) {
+	if (writer->state == M_ASYNC_WRITER_FLUSHING_TO_DESTROY || writer->state == M_ASYNC_WRITER_DESTROYING
+		|| writer->state == M_ASYNC_WRITER_STOPPING_TO_DESTROY) {
 		M_thread_mutex_unlock(writer->lock);
 		return;
 	}
@@ -401,7 +403,7 @@ M_bool M_async_writer_destroy_blocking(M_async_writer_t *writer, M_bool flush, M
 	M_thread_mutex_lock(writer->lock);
 
 	/* If we've already initiated a destroy or destroy_blocking operation, return without doing anything. */
-	if (writer->state == M_ASYNC_WRITER_DESTROYING || in_flush(writer)) {
+	if (writer->state == M_ASYNC_WRITER_DESTROYING || writer->state == M_ASYNC_WRITER_STOPPING_TO_DESTROY || in_flush(writer)) {
 		M_thread_mutex_unlock(writer->lock);
 		return M_TRUE;
 	}
@@ -414,7 +416,7 @@ M_bool M_async_writer_destroy_blocking(M_async_writer_t *writer, M_bool flush, M
 	}
 
 	/* Notify internal thread that it needs to stop at the next opportunity. */
-	writer->state = (flush)? M_ASYNC_WRITER_FLUSHING_TO_STOP : M_ASYNC_WRITER_STOPPED;
+	writer->state = (flush)? M_ASYNC_WRITER_FLUSHING_TO_STOP : M_ASYNC_WRITER_STOPPING_TO_DESTROY;
 	M_thread_cond_broadcast(writer->cond_updated);
 
 	/* BLOCKING: Wait for internal thread to finish any leftover processing and stop. */
-- 
2.43.0


From d71199b5cb0f2a8f8b2fc8eca6fad0a708117306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:28 +0000
Subject: [PATCH 215/268] fix: M_async_writer_start keeps the lock when no
 thread can be created

---
 log/m_async_writer.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/log/m_async_writer.c b/log/m_async_writer.c
index 3b640cf..822d4a9 100644
--- a/log/m_async_writer.c
+++ b/log/m_async_writer.c
@@ -461,9 +461,10 @@ M_bool M_async_writer_start(M_async_writer_t *writer)
 	M_thread_mutex_lock(writer->lock);
 
 	if (writer->state != M_ASYNC_WRITER_STOPPED) {
-		M_thread_mutex_unlock(writer->lock);
 		/* Return M_TRUE if already running, M_FALSE if we're in the middle of a destroy. */
-		return (writer->state == M_ASYNC_WRITER_RUNNING)? M_TRUE : M_FALSE;
+		M_bool running = (writer->state == M_ASYNC_WRITER_RUNNING)? M_TRUE : M_FALSE;
+		M_thread_mutex_unlock(writer->lock);
+		return running;
 	}
 
 	/* Reset to fresh state. I'm intentionally not resetting write_command. */
@@ -473,6 +474,7 @@ M_bool M_async_writer_start(M_async_writer_t *writer)
 
 	/* Start write thread. */
 	if (M_thread_create(NULL, write_thread, writer) == 0) {
+		M_thread_mutex_unlock(writer->lock);
 		return M_FALSE;
 	}
 
-- 
2.43.0


From 973d6c94638793bd2c1fd128f4235fc35536c70f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:50 +0000
Subject: [PATCH 216/268] fix: buffered file reads lose the data left in the
 buffer at the end of the file

---
 base/fs/m_fs_file.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/base/fs/m_fs_file.c b/base/fs/m_fs_file.c
index e9e2b4a..730c9bd 100644
--- a/base/fs/m_fs_file.c
+++ b/base/fs/m_fs_file.c
@@ -112,8 +112,9 @@ M_fs_error_t M_fs_file_read(M_fs_file_t *fd, unsigned char *buf, size_t buf_len,
 
 	*read_len = read_total;
 
-	/* Read from the read buffer into the request buffer any additional data. */
-	if (fd->buf_size > 0 && read_total > 0) {
+	/* Read from the read buffer into the request buffer any additional data. There can be data in the buffer
+	 * even when nothing more could be read, that data comes before the end of the file (or the error). */
+	if (fd->buf_size > 0) {
 		M_buf_direct_write_end(fd->read_buf, read_total);
 
 		/* Fill the request buffer. */
@@ -121,7 +122,7 @@ M_fs_error_t M_fs_file_read(M_fs_file_t *fd, unsigned char *buf, size_t buf_len,
 		M_mem_copy(buf, M_buf_peek(fd->read_buf), read_max);
 		M_buf_drop(fd->read_buf, read_max);
 		/* Offset is now how much read vs how much written to request buffer. */
-		fd->read_offset += (M_int64)(read_total - read_max);
+		fd->read_offset += (M_int64)read_total - (M_int64)read_max;
 		*read_len        = read_max;
 	}
 
-- 
2.43.0


From 036fd7292bca59605eb1929ef57518a0c3cb78c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:50 +0000
Subject: [PATCH 217/268] fix: seeking to the exact start or end of a file does
 nothing

---
 base/fs/m_fs_file_unx.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/base/fs/m_fs_file_unx.c b/base/fs/m_fs_file_unx.c
index b557a61..5196a34 100644
--- a/base/fs/m_fs_file_unx.c
+++ b/base/fs/m_fs_file_unx.c
@@ -201,7 +201,7 @@ M_fs_error_t M_fs_file_seek_sys(M_fs_file_t *fd, M_int64 offset, M_fs_file_seek_
 		whence = SEEK_SET;
 	}
 
-	while (offset != 0) {
+	do {
 		M_int64 amt_to_move = offset;
 		if (sizeof(off_t) == 4) {
 			if (offset > M_INT32_MAX) {
@@ -216,7 +216,9 @@ M_fs_error_t M_fs_file_seek_sys(M_fs_file_t *fd, M_int64 offset, M_fs_file_seek_
 			return M_fs_error_from_syserr(errno);
 		}
 		offset -= amt_to_move;
-	}
+		/* Anything left is relative to where we are now. */
+		whence  = SEEK_CUR;
+	} while (offset != 0);
 
 	return M_FS_ERROR_SUCCESS;
 }
-- 
2.43.0


From 226b2f10fd966520c21099f888429c170c3c68e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:50 +0000
Subject: [PATCH 218/268] fix: buffered file read, write and seek go on at the
 wrong place when the flush or seek before them failed

---
 base/fs/m_fs_file.c | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/base/fs/m_fs_file.c b/base/fs/m_fs_file.c
index 730c9bd..dbddb13 100644
--- a/base/fs/m_fs_file.c
+++ b/base/fs/m_fs_file.c
@@ -83,8 +83,12 @@ M_fs_error_t M_fs_file_read(M_fs_file_t *fd, unsigned char *buf, size_t buf_len,
 		/* flush the write buf because location in the file will have
 		 * moved and writes can't happen at the new location. This also
 		 * invalidates the read buffer since the read location may have changed. */
-		if (M_buf_len(fd->write_buf) > 0)
-			M_fs_file_sync(fd, M_FS_FILE_SYNC_BUFFER);
+		if (M_buf_len(fd->write_buf) > 0) {
+			res = M_fs_file_sync(fd, M_FS_FILE_SYNC_BUFFER);
+			if (res != M_FS_ERROR_SUCCESS) {
+				return res;
+			}
+		}
 
 		/* If we can read from the user buffer do so. */
 		if (M_buf_len(fd->read_buf) >= buf_len) {
@@ -189,7 +193,12 @@ M_fs_error_t M_fs_file_write(M_fs_file_t *fd, const unsigned char *buf, size_t c
 	if (fd->buf_size > 0) {
 		/* If a write comes in a move to the correct file offset in case it's different due to buffered reading.
  		 * Use the system call because "seek" will kill the read and write bufs. */
-		M_fs_file_seek_sys(fd, fd->read_offset * -1, M_FS_FILE_SEEK_CUR);
+		if (fd->read_offset != 0) {
+			res = M_fs_file_seek_sys(fd, fd->read_offset * -1, M_FS_FILE_SEEK_CUR);
+			if (res != M_FS_ERROR_SUCCESS) {
+				return res;
+			}
+		}
 		/* Kill the read buf and set the offset correctly. */
 		M_buf_truncate(fd->read_buf, 0);
 		fd->read_offset = 0;
@@ -259,6 +268,8 @@ M_fs_error_t M_fs_file_write_bytes(const char *path, const unsigned char *buf, s
 
 M_fs_error_t M_fs_file_seek(M_fs_file_t *fd, M_int64 offset, M_fs_file_seek_t from)
 {
+	M_fs_error_t res;
+
 	if (fd == NULL)
 		return M_FS_ERROR_INVALID;
 
@@ -268,8 +279,11 @@ M_fs_error_t M_fs_file_seek(M_fs_file_t *fd, M_int64 offset, M_fs_file_seek_t fr
 	/* flush the write buf because location in the file will have
 	 * moved and writes can't happen at the new location. This will
 	 * kill the write buf. */
-	if (M_buf_len(fd->write_buf) > 0)
-		M_fs_file_sync(fd, M_FS_FILE_SYNC_BUFFER);
+	if (M_buf_len(fd->write_buf) > 0) {
+		res = M_fs_file_sync(fd, M_FS_FILE_SYNC_BUFFER);
+		if (res != M_FS_ERROR_SUCCESS)
+			return res;
+	}
 
 	/* If we're seeking ahead from the current position, and the destination is still inside
 	 * our read buffer, just drop bytes from the read buffer and update the read offset.
-- 
2.43.0


From 47f20638dc310a987d40c3d2c7ef008affe80dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:55 +0000
Subject: [PATCH 219/268] fix: a file copy or write whose last data cannot be
 written out reports success

---
 base/fs/m_fs.c          | 10 ++++++----
 base/fs/m_fs_file.c     | 25 ++++++++++++++++++++-----
 base/fs/m_fs_file_unx.c | 11 ++++++++---
 base/fs/m_fs_file_win.c | 10 +++++++---
 base/fs/m_fs_int.h      | 10 +++++++++-
 5 files changed, 50 insertions(+), 16 deletions(-)

diff --git a/base/fs/m_fs.c b/base/fs/m_fs.c
index 6a3e1ea..9990f71 100644
--- a/base/fs/m_fs.c
+++ b/base/fs/m_fs.c
@@ -274,12 +274,14 @@ static M_fs_error_t M_fs_copy_file(const char *path_old, const char *path_new, M
 		}
 	}
 	M_fs_file_close(fd_old);
-	M_fs_file_close(fd_new);
-	if (res != M_FS_ERROR_SUCCESS) {
-		return res;
+	/* The last of the data is written when closing. */
+	if (res == M_FS_ERROR_SUCCESS) {
+		res = M_fs_file_close_int(fd_new);
+	} else {
+		M_fs_file_close(fd_new);
 	}
 
-	return M_FS_ERROR_SUCCESS;
+	return res;
 }
 
 /* - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - */
diff --git a/base/fs/m_fs_file.c b/base/fs/m_fs_file.c
index dbddb13..cf1184b 100644
--- a/base/fs/m_fs_file.c
+++ b/base/fs/m_fs_file.c
@@ -49,14 +49,25 @@ M_fs_error_t M_fs_file_open(M_fs_file_t **fd, const char *path, size_t buf_size,
 	return M_FS_ERROR_SUCCESS;
 }
 
-void M_fs_file_close(M_fs_file_t *fd)
+M_fs_error_t M_fs_file_close_int(M_fs_file_t *fd)
 {
+	M_fs_error_t res;
+	M_fs_error_t res2;
+
 	if (fd == NULL)
-		return;
-	M_fs_file_sync(fd, M_FS_FILE_SYNC_BUFFER);
+		return M_FS_ERROR_INVALID;
+
+	res  = M_fs_file_sync(fd, M_FS_FILE_SYNC_BUFFER);
 	M_buf_cancel(fd->read_buf);
 	M_buf_cancel(fd->write_buf);
-	M_fs_file_close_sys(fd);
+	res2 = M_fs_file_close_sys(fd);
+
+	return (res != M_FS_ERROR_SUCCESS) ? res : res2;
+}
+
+void M_fs_file_close(M_fs_file_t *fd)
+{
+	M_fs_file_close_int(fd);
 }
 
 M_fs_error_t M_fs_file_read(M_fs_file_t *fd, unsigned char *buf, size_t buf_len, size_t *read_len, M_uint32 flags)
@@ -262,7 +273,11 @@ M_fs_error_t M_fs_file_write_bytes(const char *path, const unsigned char *buf, s
 	if (bytes_written)
 		*bytes_written = wrote;
 
-	M_fs_file_close(fd);
+	if (res == M_FS_ERROR_SUCCESS) {
+		res = M_fs_file_close_int(fd);
+	} else {
+		M_fs_file_close(fd);
+	}
 	return res;
 }
 
diff --git a/base/fs/m_fs_file_unx.c b/base/fs/m_fs_file_unx.c
index 5196a34..75d23c0 100644
--- a/base/fs/m_fs_file_unx.c
+++ b/base/fs/m_fs_file_unx.c
@@ -134,17 +134,22 @@ M_fs_error_t M_fs_file_open_iostream(M_fs_file_t **fd, M_fs_iostream_t stream)
 	return M_FS_ERROR_SUCCESS;
 }
 
-void M_fs_file_close_sys(M_fs_file_t *fd)
+M_fs_error_t M_fs_file_close_sys(M_fs_file_t *fd)
 {
+	M_fs_error_t res = M_FS_ERROR_SUCCESS;
+
 	if (fd == NULL) {
-		return;
+		return M_FS_ERROR_INVALID;
 	}
 
 	if (fd->fd != -1) {
-		close(fd->fd);
+		/* The descriptor is gone even when interrupted. */
+		if (close(fd->fd) == -1 && errno != EINTR)
+			res = M_fs_error_from_syserr(errno);
 		fd->fd = -1;
 	}
 	M_free(fd);
+	return res;
 }
 
 /* - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - */
diff --git a/base/fs/m_fs_file_win.c b/base/fs/m_fs_file_win.c
index 8495922..4842447 100644
--- a/base/fs/m_fs_file_win.c
+++ b/base/fs/m_fs_file_win.c
@@ -207,17 +207,21 @@ M_fs_error_t M_fs_file_open_iostream(M_fs_file_t **fd, M_fs_iostream_t stream)
 	return M_FS_ERROR_SUCCESS;
 }
 
-void M_fs_file_close_sys(M_fs_file_t *fd)
+M_fs_error_t M_fs_file_close_sys(M_fs_file_t *fd)
 {
+	M_fs_error_t res = M_FS_ERROR_SUCCESS;
+
 	if (fd == NULL) {
-		return;
+		return M_FS_ERROR_INVALID;
 	}
 
 	if (fd->fd != INVALID_HANDLE_VALUE) {
-		CloseHandle(fd->fd);
+		if (!CloseHandle(fd->fd))
+			res = M_fs_error_from_syserr(GetLastError());
 		fd->fd = INVALID_HANDLE_VALUE;
 	}
 	M_free(fd);
+	return res;
 }
 
 M_fs_error_t M_fs_file_read_sys(M_fs_file_t *fd, unsigned char *buf, size_t buf_len, size_t *read_len)
diff --git a/base/fs/m_fs_int.h b/base/fs/m_fs_int.h
index bb86c25..17793df 100644
--- a/base/fs/m_fs_int.h
+++ b/base/fs/m_fs_int.h
@@ -248,7 +248,15 @@ void M_fs_info_set_perms(M_fs_info_t *info, M_fs_perms_t *val);
  */
 M_fs_error_t M_fs_file_open_sys(M_fs_file_t **fd, const char *path, M_uint32 mode, const M_fs_perms_t *perms);
 
-void M_fs_file_close_sys(M_fs_file_t *fd);
+M_fs_error_t M_fs_file_close_sys(M_fs_file_t *fd);
+
+
+/*! Flush and close an open file and report if all of the data made it.
+ * The file object is always destroyed.
+ * \param fd The file object.
+ * \return Result.
+ */
+M_fs_error_t M_fs_file_close_int(M_fs_file_t *fd);
 
 
 /*! Read from a file.
-- 
2.43.0


From a23b082b22c9b956cf153cd9bbea491506265c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:55 +0000
Subject: [PATCH 220/268] fix: copying a symlink with its permissions changes
 the permissions of what it points to

---
 base/fs/m_fs.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/base/fs/m_fs.c b/base/fs/m_fs.c
index 9990f71..8a90ccd 100644
--- a/base/fs/m_fs.c
+++ b/base/fs/m_fs.c
@@ -567,7 +567,8 @@ M_fs_error_t M_fs_copy(const char *path_old, const char *path_new, M_uint32 mode
 			} else if (type == M_FS_TYPE_SYMLINK) {
 				res = M_fs_symlink(join_path_new, M_fs_dir_entry_get_resolved_name(entry));
 			} 
-			if (res == M_FS_ERROR_SUCCESS && (mode & M_FS_FILE_MODE_PRESERVE_PERMS)) {
+			/* A symlink doesn't have perms of its own. Setting them would change what it points to. */
+			if (res == M_FS_ERROR_SUCCESS && type == M_FS_TYPE_DIR && (mode & M_FS_FILE_MODE_PRESERVE_PERMS)) {
 				res = M_fs_perms_set_perms(M_fs_info_get_perms(M_fs_dir_entry_get_info(entry)), join_path_new);
 			}
 		} else {
-- 
2.43.0


From e3b2b50f19d073812a582579710f286ba092a4d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:47 +0000
Subject: [PATCH 221/268] fix: copying a tree of which part cannot be read
 reports success without that part

---
 base/fs/m_fs.c          | 11 ++++++++--
 base/fs/m_fs_dir_walk.c | 48 +++++++++++++++++++++++++++++++++++------
 base/fs/m_fs_int.h      | 10 +++++++++
 3 files changed, 60 insertions(+), 9 deletions(-)

diff --git a/base/fs/m_fs.c b/base/fs/m_fs.c
index 8a90ccd..97058e7 100644
--- a/base/fs/m_fs.c
+++ b/base/fs/m_fs.c
@@ -508,8 +508,15 @@ M_fs_error_t M_fs_copy(const char *path_old, const char *path_new, M_uint32 mode
 		} else if (cb && progress_flags & (M_FS_PROGRESS_SIZE_TOTAL|M_FS_PROGRESS_SIZE_CUR)) {
 			filter |= M_FS_DIR_WALK_FILTER_READ_INFO_BASIC;
 		}
-		/* Get all the files under the dir. */
-		M_fs_dir_entries_merge(&entries, M_fs_dir_walk_entries(norm_path_old, NULL, filter));
+		/* Get all the files under the dir. A copy that's missing some of them isn't a copy. */
+		res = M_fs_dir_walk_entries_res(entries, norm_path_old, NULL, filter);
+		if (res != M_FS_ERROR_SUCCESS) {
+			M_fs_dir_entries_destroy(entries);
+			M_fs_progress_destroy(progress);
+			M_free(norm_path_new);
+			M_free(norm_path_old);
+			return res;
+		}
 	}
 
 	/* Put all dirs first. We need to ensure the dir(s) exist before we can copy files. */
diff --git a/base/fs/m_fs_dir_walk.c b/base/fs/m_fs_dir_walk.c
index 4a781d4..904acd2 100644
--- a/base/fs/m_fs_dir_walk.c
+++ b/base/fs/m_fs_dir_walk.c
@@ -28,6 +28,7 @@
 #include "platform/m_platform.h"
 
 #ifndef _WIN32
+#  include <errno.h>
 #  include <dirent.h>
 #endif
 
@@ -40,6 +41,7 @@ typedef enum {
 } M_fs_dir_walk_seen_type_t;
 
 typedef struct {
+	M_fs_error_t    res;  /* First reason why part of the tree couldn't be read. */
 	M_hash_strvp_t *seen; /* Paths (all types) that have been previously processed. */
 	M_hash_strvp_t *traversed; /* Symlink traversal so we don't go down the same path multiple times. */
 } M_fs_dir_walk_seens_t;
@@ -57,6 +59,7 @@ static M_fs_dir_walk_seens_t *M_fs_dir_walk_seens_create(void)
 {
 	M_fs_dir_walk_seens_t *s;
 	s            = M_malloc(sizeof(*s));
+	s->res       = M_FS_ERROR_SUCCESS;
 	s->seen      = M_hash_strvp_create(32, 75, M_HASH_STRVP_NONE, NULL);
 	s->traversed = M_hash_strvp_create(32, 75, M_HASH_STRVP_NONE, NULL);
 	return s;
@@ -72,6 +75,12 @@ static void M_fs_dir_walk_seens_destroy(M_fs_dir_walk_seens_t *s)
 	M_free(s);
 }
 
+static void M_fs_dir_walk_set_error(M_fs_dir_walk_seens_t *s, M_fs_error_t res)
+{
+	if (s->res == M_FS_ERROR_SUCCESS)
+		s->res = res;
+}
+
 /* - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - */
 
 static M_bool M_fs_dir_walk_was_seen(const char *path, const char *prefix, M_fs_dir_walk_seens_t *seen, M_bool traversed)
@@ -222,6 +231,7 @@ static M_bool M_fs_dir_walk_create_entry(const char *base_path, const char *path
 
 	/* Get the file info if necessary. */
 	if (!M_fs_dir_walk_read_path_info(name_path, &type, &info, filter)) {
+		M_fs_dir_walk_set_error(seen, M_FS_ERROR_GENERIC);
 		M_fs_info_destroy(info);
 		M_free(name_prefix);
 		M_free(name_path);
@@ -230,6 +240,7 @@ static M_bool M_fs_dir_walk_create_entry(const char *base_path, const char *path
 
 	/* Can't do anything if we couldn't determine the file type. */
 	if (type == M_FS_TYPE_UNKNOWN) {
+		M_fs_dir_walk_set_error(seen, M_FS_ERROR_GENERIC);
 		M_fs_info_destroy(info);
 		M_free(name_prefix);
 		M_free(name_path);
@@ -383,6 +394,7 @@ static M_bool M_fs_dir_walk_int_sys(const char *base_path, const char *full_path
 	norm_path = M_fs_path_join(full_path, "*", M_FS_SYSTEM_AUTO);
 	find = FindFirstFile(norm_path, &file_data);
 	if (find == INVALID_HANDLE_VALUE) {
+		M_fs_dir_walk_set_error(seen, M_fs_error_from_syserr(GetLastError()));
 		M_free(norm_path);
 		return M_FALSE;
 	}
@@ -391,6 +403,7 @@ static M_bool M_fs_dir_walk_int_sys(const char *base_path, const char *full_path
 	do {
 		norm_path = M_fs_path_join(full_path, file_data.cFileName, M_FS_SYSTEM_AUTO);
 		if (M_fs_info_int(&info, norm_path, (filter&M_FS_DIR_WALK_FILTER_READ_INFO_FULL)?M_FS_PATH_INFO_FLAGS_NONE:M_FS_PATH_INFO_FLAGS_BASIC, &file_data) != M_FS_ERROR_SUCCESS) {
+			M_fs_dir_walk_set_error(seen, M_FS_ERROR_GENERIC);
 			M_free(norm_path);
 			break;
 		}
@@ -414,12 +427,14 @@ static M_bool M_fs_dir_walk_int_sys(const char *base_path, const char *full_path
 
 	/* Read the contents of the dir. */
 	dir = opendir(full_path);
-	if (dir == NULL)
+	if (dir == NULL) {
+		M_fs_dir_walk_set_error(seen, M_fs_error_from_syserr(errno));
 		return M_FALSE;
+	}
 
 	/* We don't use readdir_r because it's deprecated on pretty much every modern platform.
  	 * readdir is reentrant these days and should be used instead. */
-	while ((dir_entry = readdir(dir)) != NULL) {
+	while ((errno = 0, dir_entry = readdir(dir)) != NULL) {
 		/* Try to determine the file type. This is a short cut (which prevents a needless (l)stat calls) if we don't
  		 * need to get the file info and the OS/filesystem supports giving us this information we'll use it. */
 #ifdef HAVE_DIRENT_TYPE
@@ -442,6 +457,8 @@ static M_bool M_fs_dir_walk_int_sys(const char *base_path, const char *full_path
 			break;
 		}
 	}
+	if (dir_entry == NULL && errno != 0)
+		M_fs_dir_walk_set_error(seen, M_fs_error_from_syserr(errno));
 
 	closedir(dir);
 	return ret;
@@ -460,6 +477,7 @@ static M_fs_dir_walk_seen_type_t M_fs_dir_walk_int(const char *base_path, const
 	full_path = M_fs_path_join(path, prefix, M_FS_SYSTEM_AUTO);
 	/* Get the full path (must exist) we are going to walk. */
 	if (M_fs_path_norm(&norm_path, full_path, M_FS_PATH_NORM_RESALL|M_FS_PATH_NORM_ABSOLUTE, M_FS_SYSTEM_AUTO) != M_FS_ERROR_SUCCESS) {
+		M_fs_dir_walk_set_error(seen, M_FS_ERROR_GENERIC);
 		M_free(full_path);
 		return M_FS_DIR_WALK_SEEN_FAIL;
 	}
@@ -499,20 +517,23 @@ static M_fs_dir_walk_seen_type_t M_fs_dir_walk_int(const char *base_path, const
 
 /* - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - */
 
-void M_fs_dir_walk(const char *path, const char *pat, M_uint32 filter, M_fs_dir_walk_cb_t cb, void *thunk)
+/* Walk and report if everything could be read. */
+static M_fs_error_t M_fs_dir_walk_res(const char *path, const char *pat, M_uint32 filter, M_fs_dir_walk_cb_t cb, void *thunk)
 {
-	char           *norm_path = NULL;
+	char                  *norm_path = NULL;
 	M_fs_dir_walk_seens_t *seen;
+	M_fs_error_t           res;
 
 	/* We have to have a path and a callback. Without a path we don't know what to walk. Without the callback
  	 * we don't have anything to do. */
 	if (path == NULL || *path == '\0' || cb == NULL)
-		return;
+		return M_FS_ERROR_INVALID;
 
 	/* Get the absolute path we're walking. We'll need this for jailing and properly following symlinks
  	 * that are relative paths. */
-	if (M_fs_path_norm(&norm_path, path, M_FS_PATH_NORM_RESALL|M_FS_PATH_NORM_ABSOLUTE, M_FS_SYSTEM_AUTO) != M_FS_ERROR_SUCCESS)
-		return;
+	res = M_fs_path_norm(&norm_path, path, M_FS_PATH_NORM_RESALL|M_FS_PATH_NORM_ABSOLUTE, M_FS_SYSTEM_AUTO);
+	if (res != M_FS_ERROR_SUCCESS)
+		return res;
 	path = norm_path;
 
 	/* If a pattern is not set then we want to match everything. */
@@ -521,8 +542,16 @@ void M_fs_dir_walk(const char *path, const char *pat, M_uint32 filter, M_fs_dir_
 
 	seen = M_fs_dir_walk_seens_create();
 	M_fs_dir_walk_int(norm_path, path, NULL, pat, filter, cb, thunk, seen);
+	res = seen->res;
 	M_fs_dir_walk_seens_destroy(seen);
 	M_free(norm_path);
+
+	return res;
+}
+
+void M_fs_dir_walk(const char *path, const char *pat, M_uint32 filter, M_fs_dir_walk_cb_t cb, void *thunk)
+{
+	M_fs_dir_walk_res(path, pat, filter, cb, thunk);
 }
 
 static M_bool M_fs_dir_walk_entries_appender(const char *path, M_fs_dir_entry_t *entry, M_fs_error_t res, void *thunk)
@@ -550,6 +579,11 @@ static M_bool M_fs_dir_walk_entries_appender(const char *path, M_fs_dir_entry_t
 	return M_TRUE;
 }
 
+M_fs_error_t M_fs_dir_walk_entries_res(M_fs_dir_entries_t *entries, const char *path, const char *pat, M_uint32 filter)
+{
+	return M_fs_dir_walk_res(path, pat, filter, M_fs_dir_walk_entries_appender, entries);
+}
+
 M_fs_dir_entries_t *M_fs_dir_walk_entries(const char *path, const char *pat, M_uint32 filter)
 {
 	M_fs_dir_entries_t *entries;
diff --git a/base/fs/m_fs_int.h b/base/fs/m_fs_int.h
index 17793df..dcff856 100644
--- a/base/fs/m_fs_int.h
+++ b/base/fs/m_fs_int.h
@@ -296,6 +296,16 @@ M_fs_error_t M_fs_file_fsync_sys(M_fs_file_t *fd);
 M_fs_dir_entry_t *M_fs_dir_walk_fill_entry(const char *full_path, const char *rel_path, M_fs_type_t type, M_fs_info_t *info, M_fs_dir_walk_filter_t filter);
 
 
+/*! Add everything found when walking a path to a list of entries.
+ * \param[in] entries The list to add to.
+ * \param[in] path    The path to walk.
+ * \param[in] pat     The pattern entries need to match. NULL for everything.
+ * \param[in] filter  M_fs_dir_walk_filter_t flags controlling the behavior of the walk.
+ * \return Success when everything could be read. Otherwise the list is not complete.
+ */
+M_fs_error_t M_fs_dir_walk_entries_res(M_fs_dir_entries_t *entries, const char *path, const char *pat, M_uint32 filter);
+
+
 /* - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
  * dir_entry */
 
-- 
2.43.0


From 3f0a508e099e5f215119cab76386ccbfe326a2da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:47 +0000
Subject: [PATCH 222/268] fix: copy and move overwrite a file they were not
 asked to when checking for it fails

---
 base/fs/m_fs.c | 66 ++++++++++++++------------------------------------
 1 file changed, 18 insertions(+), 48 deletions(-)

diff --git a/base/fs/m_fs.c b/base/fs/m_fs.c
index 97058e7..af87630 100644
--- a/base/fs/m_fs.c
+++ b/base/fs/m_fs.c
@@ -104,58 +104,26 @@ static M_bool M_fs_isfileintodir(const char *p1, const char *p2, char **new_p2)
 /* Used by copy and move to determine if we can write to the given path
  * based on a file already existing there or not.
  *
- * access is used to determine existence because we don't want to overwrite
- * if there already is a file. This is not guaranteed because if there is
+ * We don't want to overwrite if there already is a file. This is not guaranteed because if there is
  * a race condition where a file is created after this check it will be
  * overwritten. Not much we can do about that. It shouldn't pose a security
  * issue since this is more of a request than a requirement.
  */
-static M_bool M_fs_check_overwrite_allowed(const char *p1, const char *p2, M_uint32 mode)
+static M_fs_error_t M_fs_check_overwrite_allowed(const char *path, M_uint32 mode)
 {
-	M_fs_info_t  *info = NULL;
-	char         *pold = NULL;
-	char         *pnew = NULL;
-	M_fs_type_t   type;
-	M_bool        ret  = M_TRUE;
+	M_fs_error_t res;
 
 	if (mode & M_FS_FILE_MODE_OVERWRITE)
-		return M_TRUE;
-
-	/* If we're not overwriting we need to verify existance.
- 	 *
- 	 * For files we need to check if the file name exists in the
-	 * directory it's being copied to.
-	 *
-	 * For directories we need to check if the directory name
-	 * exists in the directory it's being copied to.
-	 */
-
-	if (M_fs_info(&info, p1, M_FS_PATH_INFO_FLAGS_BASIC) != M_FS_ERROR_SUCCESS)
-		return M_FALSE;
-
-	type = M_fs_info_get_type(info);
-	M_fs_info_destroy(info);
-
-	if (type != M_FS_TYPE_DIR) {
-		/* File exists at path. */
-		if (M_fs_perms_can_access(p2, M_FS_PERMS_MODE_NONE) == M_FS_ERROR_SUCCESS) {
-			ret = M_FALSE;
-			goto done;
-		}
-	}
-
-	/* Is dir */
-	pold = M_fs_path_basename(p1, M_FS_SYSTEM_AUTO);
-	pnew = M_fs_path_join(p2, pnew, M_FS_SYSTEM_AUTO);
-	if (M_fs_perms_can_access(pnew, M_FS_PERMS_MODE_NONE) == M_FS_ERROR_SUCCESS) {
-		ret = M_FALSE;
-		goto done;
-	}
+		return M_FS_ERROR_SUCCESS;
 
-done:
-	M_free(pnew);
-	M_free(pold);
-	return ret;
+	/* If we're not overwriting we need to verify that nothing is there. Not being able to tell doesn't mean
+	 * there is nothing. */
+	res = M_fs_info(NULL, path, M_FS_PATH_INFO_FLAGS_BASIC);
+	if (res == M_FS_ERROR_SUCCESS)
+		return M_FS_ERROR_FILE_EXISTS;
+	if (res == M_FS_ERROR_DNE)
+		return M_FS_ERROR_SUCCESS;
+	return res;
 }
 
 /* Moves files and dirs.
@@ -354,12 +322,13 @@ M_fs_error_t M_fs_move(const char *path_old, const char *path_new, M_uint32 mode
 	/* There is a race condition where the path could not exist but be created between the exists check and calling
 	 * rename to move the file but there isn't much we can do in this case. copy will delete and the file so this
 	 * situation won't cause an error. */
-	if (!M_fs_check_overwrite_allowed(norm_path_old, norm_path_new, mode)) {
+	res = M_fs_check_overwrite_allowed(norm_path_new, mode);
+	if (res != M_FS_ERROR_SUCCESS) {
 		M_fs_info_destroy(info);
 		M_fs_progress_destroy(progress);
 		M_free(norm_path_new);
 		M_free(norm_path_old);
-		return M_FS_ERROR_FILE_EXISTS;
+		return res;
 	}
 
 	if (cb) {
@@ -489,12 +458,13 @@ M_fs_error_t M_fs_copy(const char *path_old, const char *path_new, M_uint32 mode
 	/* There is a race condition where the path could not exist but be created between the exists check and calling
 	 * rename to move the file but there isn't much we can do in this case. copy will delete and the file so this
 	 * situation won't cause an error. */
-	if (!M_fs_check_overwrite_allowed(norm_path_old, norm_path_new, mode)) {
+	res = M_fs_check_overwrite_allowed(norm_path_new, mode);
+	if (res != M_FS_ERROR_SUCCESS) {
 		M_fs_info_destroy(info);
 		M_fs_progress_destroy(progress);
 		M_free(norm_path_new);
 		M_free(norm_path_old);
-		return M_FS_ERROR_FILE_EXISTS;
+		return res;
 	}
 
 	entries = M_fs_dir_entries_create();
-- 
2.43.0


From c2566e5b4e966ab116b18650985ace84be48536d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:47 +0000
Subject: [PATCH 223/268] fix: symlinks cannot be copied and moving one leaves
 it behind

---
 base/fs/m_fs.c | 36 +++++++++++++++++++++++-------------
 1 file changed, 23 insertions(+), 13 deletions(-)

diff --git a/base/fs/m_fs.c b/base/fs/m_fs.c
index af87630..73a101b 100644
--- a/base/fs/m_fs.c
+++ b/base/fs/m_fs.c
@@ -126,6 +126,25 @@ static M_fs_error_t M_fs_check_overwrite_allowed(const char *path, M_uint32 mode
 	return res;
 }
 
+/* Normalize the path of what's going to be copied or moved. A symlink is copied or moved itself, not what
+ * it points to. */
+static M_fs_error_t M_fs_norm_source(char **norm_path, const char *path)
+{
+	M_fs_info_t  *info = NULL;
+	M_fs_type_t   type;
+	M_fs_error_t  res;
+
+	*norm_path = NULL;
+
+	res = M_fs_info(&info, path, M_FS_PATH_INFO_FLAGS_BASIC);
+	if (res != M_FS_ERROR_SUCCESS)
+		return res;
+	type = M_fs_info_get_type(info);
+	M_fs_info_destroy(info);
+
+	return M_fs_path_norm(norm_path, path, (type == M_FS_TYPE_SYMLINK)?M_FS_PATH_NORM_HOME:M_FS_PATH_NORM_RESALL, M_FS_SYSTEM_AUTO);
+}
+
 /* Moves files and dirs.
  *
  * This will overwrite dest if it exists.
@@ -274,7 +293,6 @@ M_fs_error_t M_fs_move(const char *path_old, const char *path_new, M_uint32 mode
 {
 	char            *norm_path_old;
 	char            *norm_path_new;
-	char            *resolve_path;
 	M_fs_info_t     *info          = NULL;
 	M_fs_progress_t *progress      = NULL;
 	M_uint64         entry_size;
@@ -302,7 +320,7 @@ M_fs_error_t M_fs_move(const char *path_old, const char *path_new, M_uint32 mode
 
 	/* Normalize the old path and do basic checks that it exists. We'll leave really checking that the old path
 	 * existing to rename because any check we perform may not be true when rename is called. */
-	res = M_fs_path_norm(&norm_path_old, path_old, M_FS_PATH_NORM_RESALL, M_FS_SYSTEM_AUTO);
+	res = M_fs_norm_source(&norm_path_old, path_old);
 	if (res != M_FS_ERROR_SUCCESS) {
 		M_free(norm_path_new);
 		M_free(norm_path_old);
@@ -352,15 +370,7 @@ M_fs_error_t M_fs_move(const char *path_old, const char *path_new, M_uint32 mode
 	}
 
 	/* Move the file. */
-	if (M_fs_info_get_type(info) == M_FS_TYPE_SYMLINK) {
-		res = M_fs_path_readlink(&resolve_path, norm_path_old);
-		if (res == M_FS_ERROR_SUCCESS) {
-			res = M_fs_symlink(norm_path_new, resolve_path);
-		}
-		M_free(resolve_path);
-	} else {
-		res = M_fs_move_file(norm_path_old, norm_path_new);
-	}
+	res = M_fs_move_file(norm_path_old, norm_path_new);
 	/* Failure was because we're crossing mount points. */
 	if (res == M_FS_ERROR_NOT_SAMEDEV) {
 		/* Can't rename so copy and delete. */
@@ -436,7 +446,7 @@ M_fs_error_t M_fs_copy(const char *path_old, const char *path_new, M_uint32 mode
 
 	/* Normalize the old path and do basic checks that it exists. We'll leave really checking that the old path
 	 * existing to rename because any check we perform may not be true when rename is called. */
-	res = M_fs_path_norm(&norm_path_old, path_old, M_FS_PATH_NORM_RESALL, M_FS_SYSTEM_AUTO);
+	res = M_fs_norm_source(&norm_path_old, path_old);
 	if (res != M_FS_ERROR_SUCCESS) {
 		M_free(norm_path_new);
 		M_free(norm_path_old);
@@ -471,7 +481,7 @@ M_fs_error_t M_fs_copy(const char *path_old, const char *path_new, M_uint32 mode
 	/* No need to destroy info  because it's now owned by entries and will be destroyed when entries is destroyed.
 	 * M_FS_DIR_WALK_FILTER_READ_INFO_BASIC doesn't actually get the perms it's just there to ensure the info is
 	 * stored in the entry. */
-	M_fs_dir_entries_insert(entries, M_fs_dir_walk_fill_entry(norm_path_new, NULL, type, info, M_FS_DIR_WALK_FILTER_READ_INFO_BASIC));
+	M_fs_dir_entries_insert(entries, M_fs_dir_walk_fill_entry(norm_path_old, NULL, type, info, M_FS_DIR_WALK_FILTER_READ_INFO_BASIC));
 	if (type == M_FS_TYPE_DIR) {
 		if (mode & M_FS_FILE_MODE_PRESERVE_PERMS) {
 			filter |= M_FS_DIR_WALK_FILTER_READ_INFO_FULL;
-- 
2.43.0


From 3ba3729f7dd835ad2370974d413c3ea53521131f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:47 +0000
Subject: [PATCH 224/268] fix: copying a file onto itself destroys its content

---
 base/fs/m_fs.c          |  8 +++++++-
 base/fs/m_fs_file_unx.c | 19 +++++++++++++++++++
 base/fs/m_fs_file_win.c | 26 ++++++++++++++++++++++++++
 base/fs/m_fs_int.h      |  8 ++++++++
 4 files changed, 60 insertions(+), 1 deletion(-)

diff --git a/base/fs/m_fs.c b/base/fs/m_fs.c
index 73a101b..f8c4b7e 100644
--- a/base/fs/m_fs.c
+++ b/base/fs/m_fs.c
@@ -220,7 +220,13 @@ static M_fs_error_t M_fs_copy_file(const char *path_old, const char *path_new, M
 	}
 
 	/* We're going to create/open/truncate the new file, then as we read the contents from the old file we'll write it
-	 * to new file. */
+	 * to new file. Truncating the new file must not truncate the old file because they're the same. */
+	res = M_fs_file_differs_sys(fd_old, path_new);
+	if (res != M_FS_ERROR_SUCCESS) {
+		M_fs_info_destroy(info);
+		M_fs_file_close(fd_old);
+		return res;
+	}
 	res = M_fs_file_open(&fd_new, path_new, M_FS_BUF_SIZE, M_FS_FILE_MODE_WRITE|M_FS_FILE_MODE_OVERWRITE, perms);
 	M_fs_info_destroy(info);
 	if (res != M_FS_ERROR_SUCCESS) {
diff --git a/base/fs/m_fs_file_unx.c b/base/fs/m_fs_file_unx.c
index 75d23c0..fbf40a4 100644
--- a/base/fs/m_fs_file_unx.c
+++ b/base/fs/m_fs_file_unx.c
@@ -154,6 +154,25 @@ M_fs_error_t M_fs_file_close_sys(M_fs_file_t *fd)
 
 /* - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - */
 
+M_fs_error_t M_fs_file_differs_sys(M_fs_file_t *fd, const char *path)
+{
+	struct stat st_fd;
+	struct stat st_path;
+
+	if (fd == NULL || fd->fd == -1 || path == NULL) {
+		return M_FS_ERROR_INVALID;
+	}
+
+	if (stat(path, &st_path) == -1) {
+		return (errno == ENOENT) ? M_FS_ERROR_SUCCESS : M_fs_error_from_syserr(errno);
+	}
+	if (fstat(fd->fd, &st_fd) == -1) {
+		return M_fs_error_from_syserr(errno);
+	}
+
+	return (st_fd.st_dev == st_path.st_dev && st_fd.st_ino == st_path.st_ino) ? M_FS_ERROR_INVALID : M_FS_ERROR_SUCCESS;
+}
+
 M_fs_error_t M_fs_file_read_sys(M_fs_file_t *fd, unsigned char *buf, size_t buf_len, size_t *read_len)
 {
 	ssize_t ret;
diff --git a/base/fs/m_fs_file_win.c b/base/fs/m_fs_file_win.c
index 4842447..de69659 100644
--- a/base/fs/m_fs_file_win.c
+++ b/base/fs/m_fs_file_win.c
@@ -224,6 +224,32 @@ M_fs_error_t M_fs_file_close_sys(M_fs_file_t *fd)
 	return res;
 }
 
+M_fs_error_t M_fs_file_differs_sys(M_fs_file_t *fd, const char *path)
+{
+	BY_HANDLE_FILE_INFORMATION info_fd;
+	BY_HANDLE_FILE_INFORMATION info_path;
+	HANDLE                     h;
+	M_bool                     have_info;
+
+	if (fd == NULL || fd->fd == INVALID_HANDLE_VALUE || path == NULL) {
+		return M_FS_ERROR_INVALID;
+	}
+
+	h = CreateFile(path, 0, FILE_SHARE_DELETE|FILE_SHARE_READ|FILE_SHARE_WRITE, NULL, OPEN_EXISTING, FILE_ATTRIBUTE_NORMAL, NULL);
+	if (h == INVALID_HANDLE_VALUE) {
+		return (GetLastError() == ERROR_FILE_NOT_FOUND) ? M_FS_ERROR_SUCCESS : M_fs_error_from_syserr(GetLastError());
+	}
+	have_info = (GetFileInformationByHandle(fd->fd, &info_fd) && GetFileInformationByHandle(h, &info_path)) ? M_TRUE : M_FALSE;
+	CloseHandle(h);
+	if (!have_info) {
+		return M_FS_ERROR_GENERIC;
+	}
+
+	return (info_fd.dwVolumeSerialNumber == info_path.dwVolumeSerialNumber &&
+			info_fd.nFileIndexHigh == info_path.nFileIndexHigh &&
+			info_fd.nFileIndexLow == info_path.nFileIndexLow) ? M_FS_ERROR_INVALID : M_FS_ERROR_SUCCESS;
+}
+
 M_fs_error_t M_fs_file_read_sys(M_fs_file_t *fd, unsigned char *buf, size_t buf_len, size_t *read_len)
 {
 	DWORD dread_len;
diff --git a/base/fs/m_fs_int.h b/base/fs/m_fs_int.h
index dcff856..3d5b296 100644
--- a/base/fs/m_fs_int.h
+++ b/base/fs/m_fs_int.h
@@ -251,6 +251,14 @@ M_fs_error_t M_fs_file_open_sys(M_fs_file_t **fd, const char *path, M_uint32 mod
 M_fs_error_t M_fs_file_close_sys(M_fs_file_t *fd);
 
 
+/*! Check that a path isn't another name of an open file.
+ * \param fd   The file object.
+ * \param path The path. Can be something that doesn't exist.
+ * \return Success if it's not. M_FS_ERROR_INVALID if it's the same file. Otherwise error if it cannot be determined.
+ */
+M_fs_error_t M_fs_file_differs_sys(M_fs_file_t *fd, const char *path);
+
+
 /*! Flush and close an open file and report if all of the data made it.
  * The file object is always destroyed.
  * \param fd The file object.
-- 
2.43.0


From 9b406a4907645bcefa859a0ca14bf985feccd5a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:11 +0000
Subject: [PATCH 225/268] fix: moving a directory into itself on another device
 deletes it

---
 base/fs/m_fs.c | 31 +++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/base/fs/m_fs.c b/base/fs/m_fs.c
index f8c4b7e..2d01eb0 100644
--- a/base/fs/m_fs.c
+++ b/base/fs/m_fs.c
@@ -126,6 +126,26 @@ static M_fs_error_t M_fs_check_overwrite_allowed(const char *path, M_uint32 mode
 	return res;
 }
 
+/* Is the path somewhere under the dir? */
+static M_bool M_fs_path_is_below(const char *path, const char *dir)
+{
+	char   *abs_path = NULL;
+	char   *abs_dir  = NULL;
+	size_t  len;
+	M_bool  ret      = M_TRUE;
+
+	if (M_fs_path_norm(&abs_path, path, M_FS_PATH_NORM_ABSOLUTE, M_FS_SYSTEM_AUTO) == M_FS_ERROR_SUCCESS &&
+			M_fs_path_norm(&abs_dir, dir, M_FS_PATH_NORM_ABSOLUTE, M_FS_SYSTEM_AUTO) == M_FS_ERROR_SUCCESS)
+	{
+		len = M_str_len(abs_dir);
+		ret = (M_str_eq_max(abs_path, abs_dir, len) && (abs_path[len] == '/' || abs_path[len] == '\\')) ? M_TRUE : M_FALSE;
+	}
+
+	M_free(abs_path);
+	M_free(abs_dir);
+	return ret;
+}
+
 /* Normalize the path of what's going to be copied or moved. A symlink is copied or moved itself, not what
  * it points to. */
 static M_fs_error_t M_fs_norm_source(char **norm_path, const char *path)
@@ -378,17 +398,16 @@ M_fs_error_t M_fs_move(const char *path_old, const char *path_new, M_uint32 mode
 	/* Move the file. */
 	res = M_fs_move_file(norm_path_old, norm_path_new);
 	/* Failure was because we're crossing mount points. */
-	if (res == M_FS_ERROR_NOT_SAMEDEV) {
+	if (res == M_FS_ERROR_NOT_SAMEDEV && M_fs_path_is_below(norm_path_new, norm_path_old)) {
+		/* Copy and delete would delete the copy too. */
+		res = M_FS_ERROR_INVALID;
+	} else if (res == M_FS_ERROR_NOT_SAMEDEV) {
 		/* Can't rename so copy and delete. */
 		if (M_fs_copy(norm_path_old, norm_path_new, mode, cb, progress_flags) == M_FS_ERROR_SUCCESS) {
 			/* Success - Delete the original files since this is a move. */
 			res = M_fs_delete(norm_path_old, M_TRUE, NULL, M_FS_PROGRESS_NOEXTRA);
 		} else {
-			/* Failure - Delete the new files that were copied but only if we are not overwriting. We don't
-			 * want to remove any existing files (especially if the dest is a dir). */
-			if (!(mode & M_FS_FILE_MODE_OVERWRITE)) {
-				M_fs_delete(norm_path_new, M_TRUE, NULL, M_FS_PROGRESS_NOEXTRA);
-			}
+			/* Failure - The copy already removed what it copied. Don't remove anything more, it isn't ours. */
 			res = M_FS_ERROR_GENERIC;
 		}
 	} else {
-- 
2.43.0


From 323fc18d05fe27b03244a5c34608ce23fb68c1e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:56 +0000
Subject: [PATCH 226/268] fix: setting permissions of a file or directory never
 takes any away

---
 base/fs/m_fs_perms_unx.c | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/base/fs/m_fs_perms_unx.c b/base/fs/m_fs_perms_unx.c
index 0f9155c..3502958 100644
--- a/base/fs/m_fs_perms_unx.c
+++ b/base/fs/m_fs_perms_unx.c
@@ -134,24 +134,22 @@ static __inline__ mode_t M_fs_perms_to_mode_part(const M_bool *isdir,
 
 static mode_t M_fs_perms_update_mode_from_perms(mode_t mode, const M_fs_perms_t *perms, M_bool isdir)
 {
-	mode_t mymode = 0;
-
-	mymode |= M_fs_perms_update_mode_from_perm_part(mode, &isdir,
+	mode = M_fs_perms_update_mode_from_perm_part(mode, &isdir,
 		&(perms->user_set), &(perms->dir_user_set),
 		&(perms->user_mode), &(perms->dir_user_mode),
 		&(perms->user_type), &(perms->dir_user_type),
 		S_IRUSR, S_IWUSR, S_IXUSR);
-	mymode |= M_fs_perms_update_mode_from_perm_part(mode, &isdir,
+	mode = M_fs_perms_update_mode_from_perm_part(mode, &isdir,
 		&(perms->group_set), &(perms->dir_group_set),
 		&(perms->group_mode), &(perms->dir_group_mode),
 		&(perms->group_type), &(perms->dir_group_type),
 		S_IRGRP, S_IWGRP, S_IXGRP);
-	mymode |= M_fs_perms_update_mode_from_perm_part(mode, &isdir,
+	mode = M_fs_perms_update_mode_from_perm_part(mode, &isdir,
 		&(perms->other_set), &(perms->dir_other_set),
 		&(perms->other_mode), &(perms->dir_other_mode),
 		&(perms->other_type), &(perms->dir_other_type),
 		S_IROTH, S_IWOTH, S_IXOTH);
-	return mymode;
+	return mode;
 }
 
 /* - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
-- 
2.43.0


From a43a338f7719609c53148a9466dbd0fd0349c7b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:41 +0000
Subject: [PATCH 227/268] fix: a failed copy through a symlink removes the
 symlink

---
 base/fs/m_fs.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/fs/m_fs.c b/base/fs/m_fs.c
index 2d01eb0..6efdf74 100644
--- a/base/fs/m_fs.c
+++ b/base/fs/m_fs.c
@@ -617,7 +617,7 @@ M_fs_error_t M_fs_copy(const char *path_old, const char *path_new, M_uint32 mode
 	/* Delete the file(s) if it could not be copied properly, but only if we are not overwriting.
 	 * If we're overwriting then there could be other files in that location (especially if it's a dir). */
 	if (res != M_FS_ERROR_SUCCESS && !(mode & M_FS_FILE_MODE_OVERWRITE)) {
-		M_fs_delete(path_new, M_TRUE, NULL, M_FS_PROGRESS_NOEXTRA);
+		M_fs_delete(norm_path_new, M_TRUE, NULL, M_FS_PROGRESS_NOEXTRA);
 	}
 
 	M_fs_dir_entries_destroy(entries);
-- 
2.43.0


From 961c11452863c0a3c0c93c65cf705f57db2695ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:41 +0000
Subject: [PATCH 228/268] fix: moving a symlink to where it points to destroys
 the file there

---
 base/fs/m_fs.c | 45 +++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 43 insertions(+), 2 deletions(-)

diff --git a/base/fs/m_fs.c b/base/fs/m_fs.c
index 6efdf74..6b96a76 100644
--- a/base/fs/m_fs.c
+++ b/base/fs/m_fs.c
@@ -29,6 +29,8 @@
 
 #ifndef _WIN32
 #  include <errno.h>
+#  include <sys/types.h>
+#  include <sys/stat.h>
 #  include <unistd.h>
 #endif
 
@@ -146,6 +148,27 @@ static M_bool M_fs_path_is_below(const char *path, const char *dir)
 	return ret;
 }
 
+/* Does the symlink lead to the path? */
+static M_bool M_fs_points_to(const char *link_path, const char *path)
+{
+#ifdef _WIN32
+	(void)link_path;
+	(void)path;
+	return M_FALSE;
+#else
+	struct stat st_link;
+	struct stat st_path;
+
+	/* If we can't find out then it might. */
+	if (stat(link_path, &st_link) == -1)
+		return (errno != ENOENT && errno != ELOOP) ? M_TRUE : M_FALSE;
+	if (lstat(path, &st_path) == -1)
+		return (errno != ENOENT) ? M_TRUE : M_FALSE;
+
+	return (st_link.st_dev == st_path.st_dev && st_link.st_ino == st_path.st_ino) ? M_TRUE : M_FALSE;
+#endif
+}
+
 /* Normalize the path of what's going to be copied or moved. A symlink is copied or moved itself, not what
  * it points to. */
 static M_fs_error_t M_fs_norm_source(char **norm_path, const char *path)
@@ -363,6 +386,20 @@ M_fs_error_t M_fs_move(const char *path_old, const char *path_new, M_uint32 mode
 		return res;
 	}
 
+	/* A symlink that's moved replaces another symlink and doesn't go to where that one leads, it could be
+	 * itself. */
+	if (M_fs_info_get_type(info) == M_FS_TYPE_SYMLINK) {
+		M_free(norm_path_new);
+		res = M_fs_path_norm(&norm_path_new, path_new, M_FS_PATH_NORM_HOME, M_FS_SYSTEM_AUTO);
+		if (res != M_FS_ERROR_SUCCESS) {
+			M_fs_info_destroy(info);
+			M_fs_progress_destroy(progress);
+			M_free(norm_path_new);
+			M_free(norm_path_old);
+			return res;
+		}
+	}
+
 	/* There is a race condition where the path could not exist but be created between the exists check and calling
 	 * rename to move the file but there isn't much we can do in this case. copy will delete and the file so this
 	 * situation won't cause an error. */
@@ -395,8 +432,12 @@ M_fs_error_t M_fs_move(const char *path_old, const char *path_new, M_uint32 mode
 		}
 	}
 
-	/* Move the file. */
-	res = M_fs_move_file(norm_path_old, norm_path_new);
+	/* Move the file. Putting a symlink where what it points to is would destroy that. */
+	if (M_fs_info_get_type(info) == M_FS_TYPE_SYMLINK && M_fs_points_to(norm_path_old, norm_path_new)) {
+		res = M_FS_ERROR_INVALID;
+	} else {
+		res = M_fs_move_file(norm_path_old, norm_path_new);
+	}
 	/* Failure was because we're crossing mount points. */
 	if (res == M_FS_ERROR_NOT_SAMEDEV && M_fs_path_is_below(norm_path_new, norm_path_old)) {
 		/* Copy and delete would delete the copy too. */
-- 
2.43.0


From 1d938a5efe958a8e7ee08ca4deb4603742fbec34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:09 +0000
Subject: [PATCH 229/268] fix: M_fs_symlink creates the link at the path of the
 target

---
 base/fs/m_fs.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/base/fs/m_fs.c b/base/fs/m_fs.c
index 6b96a76..81bcf67 100644
--- a/base/fs/m_fs.c
+++ b/base/fs/m_fs.c
@@ -330,7 +330,7 @@ M_fs_error_t M_fs_symlink(const char *target, const char *link_name)
 #ifdef _WIN32
 	return M_FS_ERROR_GENERIC;
 #else
-	if (symlink(link_name, target) == -1) {
+	if (symlink(target, link_name) == -1) {
 		return M_fs_error_from_syserr(errno);
 	}
 #endif
@@ -618,7 +618,7 @@ M_fs_error_t M_fs_copy(const char *path_old, const char *path_new, M_uint32 mode
 			if (type == M_FS_TYPE_DIR) {
 				res = M_fs_dir_mkdir(join_path_new, M_FALSE, NULL);
 			} else if (type == M_FS_TYPE_SYMLINK) {
-				res = M_fs_symlink(join_path_new, M_fs_dir_entry_get_resolved_name(entry));
+				res = M_fs_symlink(M_fs_dir_entry_get_resolved_name(entry), join_path_new);
 			} 
 			/* A symlink doesn't have perms of its own. Setting them would change what it points to. */
 			if (res == M_FS_ERROR_SUCCESS && type == M_FS_TYPE_DIR && (mode & M_FS_FILE_MODE_PRESERVE_PERMS)) {
-- 
2.43.0


From c9dd9136dabd09ddd51129579113b9217879295c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:41 +0000
Subject: [PATCH 230/268] fix: M_fs_perms_merge loses user and group and never
 destroys the source

---
 base/fs/m_fs_perms.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/base/fs/m_fs_perms.c b/base/fs/m_fs_perms.c
index 17d820a..1f66015 100644
--- a/base/fs/m_fs_perms.c
+++ b/base/fs/m_fs_perms.c
@@ -136,6 +136,8 @@ void M_fs_perms_merge(M_fs_perms_t **dest, M_fs_perms_t *src)
 #else
 		(*dest)->uid = src->uid;
 #endif
+		M_free((*dest)->user);
+		(*dest)->user = M_strdup(src->user);
 	}
 	if (src->group != NULL) {
 #ifdef _WIN32
@@ -143,6 +145,8 @@ void M_fs_perms_merge(M_fs_perms_t **dest, M_fs_perms_t *src)
 #else
 		(*dest)->gid = src->gid;
 #endif
+		M_free((*dest)->group);
+		(*dest)->group = M_strdup(src->group);
 	}
 
 	/* perms. */
@@ -159,6 +163,8 @@ void M_fs_perms_merge(M_fs_perms_t **dest, M_fs_perms_t *src)
 		&(src->dir_group_set), &(src->dir_group_mode), &(src->dir_group_type));
 	M_fs_perms_merge_part(&((*dest)->dir_other_set), &((*dest)->dir_other_mode), &((*dest)->dir_other_type),
 		&(src->dir_other_set), &(src->dir_other_mode), &(src->dir_other_type));
+
+	M_fs_perms_destroy(src);
 }
 
 void M_fs_perms_destroy(M_fs_perms_t *perms)
-- 
2.43.0


From 716f8854a7e50169a0065e61cb7cde703f464e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:41 +0000
Subject: [PATCH 231/268] fix: M_fs_perms_dup loses the type of the group's
 permissions

---
 base/fs/m_fs_perms.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/fs/m_fs_perms.c b/base/fs/m_fs_perms.c
index 1f66015..8b30027 100644
--- a/base/fs/m_fs_perms.c
+++ b/base/fs/m_fs_perms.c
@@ -101,7 +101,7 @@ M_fs_perms_t *M_fs_perms_dup(const M_fs_perms_t *perms)
 	dup_perms->user_type  = perms->user_type;
 	dup_perms->group_set  = perms->group_set;
 	dup_perms->group_mode = perms->group_mode;
-	dup_perms->group_mode = perms->group_mode;
+	dup_perms->group_type = perms->group_type;
 	dup_perms->other_set  = perms->other_set;
 	dup_perms->other_mode = perms->other_mode;
 	dup_perms->other_type = perms->other_type;
-- 
2.43.0


From a811f5f1a47b7b84d9c671a3e0ae2075348d676e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:46 +0000
Subject: [PATCH 232/268] fix: directory override permissions are not used when
 creating a directory

---
 base/fs/m_fs_dir.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/fs/m_fs_dir.c b/base/fs/m_fs_dir.c
index 0a76f6e..0f9e376 100644
--- a/base/fs/m_fs_dir.c
+++ b/base/fs/m_fs_dir.c
@@ -96,7 +96,7 @@ static M_fs_error_t M_fs_dir_mkdir_sys(const char *path, const M_fs_perms_t *per
 	mode_t mode = S_IRWXU|S_IRWXG|S_IROTH|S_IXOTH;
 
 	if (perms != NULL) {
-		mode = M_fs_perms_to_mode(perms, M_FALSE);
+		mode = M_fs_perms_to_mode(perms, M_TRUE);
 	}
 
 	if (mkdir(path, mode) != 0) {
-- 
2.43.0


From aaeb5ea26b12b8cfdddfb79cbdf563a07c4fffce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:25 +0000
Subject: [PATCH 233/268] fix: fetching the rows of a statement in a
 transaction releases the transaction's connection

---
 sql/m_sql_trans.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sql/m_sql_trans.c b/sql/m_sql_trans.c
index d45c64e..60fd714 100644
--- a/sql/m_sql_trans.c
+++ b/sql/m_sql_trans.c
@@ -209,6 +209,9 @@ M_sql_error_t M_sql_trans_execute(M_sql_trans_t *trans, M_sql_stmt_t *stmt)
 
 	M_time_elapsed_start(&trans->last_tv);
 
+	/* Must be known for as long as rows can be fetched, the connection stays with the transaction */
+	stmt->trans = trans;
+
 	err = M_sql_conn_execute(trans->conn, stmt);
 
 	/* Capture error message to transaction handle so we can augment errors in
-- 
2.43.0


From f067d6ebafc369ac86006819a5dcf6e3d2426257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:40 +0000
Subject: [PATCH 234/268] fix: error of the transaction around a statement is
 not the error of the statement, group inserts report success

---
 sql/m_sql_stmt.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sql/m_sql_stmt.c b/sql/m_sql_stmt.c
index d3de723..bfa6975 100644
--- a/sql/m_sql_stmt.c
+++ b/sql/m_sql_stmt.c
@@ -520,6 +520,11 @@ M_sql_error_t M_sql_stmt_execute(M_sql_connpool_t *pool, M_sql_stmt_t *stmt)
 	} while (rollback);
 
 done:
+	/* The statement itself might have succeeded, but not the transaction around it.  Other callers of a
+	 * group insert only get to see the error of the statement. */
+	if (M_sql_error_is_error(err))
+		stmt->last_error = err;
+
 	if (conn) {
 		/* Release connection if we're not going to fetch */
 		if (!M_sql_stmt_has_remaining_rows(stmt)) {
-- 
2.43.0


From 329edb33f7f62ff11066fdde9d1a0138366903d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:50 +0000
Subject: [PATCH 235/268] fix: M_sql_trans_commit uses the connection after it
 was released

---
 sql/m_sql_trans.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/sql/m_sql_trans.c b/sql/m_sql_trans.c
index 60fd714..86ae1de 100644
--- a/sql/m_sql_trans.c
+++ b/sql/m_sql_trans.c
@@ -166,10 +166,9 @@ M_sql_error_t M_sql_trans_commit(M_sql_trans_t *trans, char *error, size_t error
 
 	/* Prevent attempting a commit if we must roll back, issue a rollback instead */
 	if (M_sql_conn_get_state(trans->conn) != M_SQL_CONN_STATE_OK) {
-		M_sql_conn_t *conn = trans->conn;
 		M_snprintf(error, error_size, "forced rollback");
-		M_sql_trans_rollback(trans);
-		if (M_sql_conn_get_state(conn) == M_SQL_CONN_STATE_FAILED) {
+		/* The connection is not ours anymore once rolled back, go by the result */
+		if (M_sql_error_is_disconnect(M_sql_trans_rollback(trans))) {
 			err = M_SQL_ERROR_CONN_FAILED;
 		} else {
 			err = M_SQL_ERROR_QUERY_DEADLOCK;
-- 
2.43.0


From 2528a82c7b269b889da1c7570433d63234dc82a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:30 +0000
Subject: [PATCH 236/268] fix: M_sql_stmt_result_int16 truncates values below
 the smallest 16 bit integer

---
 sql/m_sql_stmt_result.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sql/m_sql_stmt_result.c b/sql/m_sql_stmt_result.c
index 7407616..4ecc398 100644
--- a/sql/m_sql_stmt_result.c
+++ b/sql/m_sql_stmt_result.c
@@ -237,7 +237,7 @@ M_sql_error_t M_sql_stmt_result_int16(M_sql_stmt_t *stmt, size_t row, size_t col
 	if (err != M_SQL_ERROR_SUCCESS)
 		return err;
 
-	if (i32 > M_INT16_MAX)
+	if (i32 > M_INT16_MAX || i32 < M_INT16_MIN)
 		return M_SQL_ERROR_INVALID_TYPE;
 
 	*val = (M_int16)i32;
-- 
2.43.0


From 84c3f3a5828d24482ef58a886189da649b5976f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:30 +0000
Subject: [PATCH 237/268] fix: a query that fails to prepare is executed all
 the same

---
 sql/m_sql_stmt.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sql/m_sql_stmt.c b/sql/m_sql_stmt.c
index bfa6975..ef4ce37 100644
--- a/sql/m_sql_stmt.c
+++ b/sql/m_sql_stmt.c
@@ -135,6 +135,12 @@ static M_sql_error_t M_sql_stmt_prepare_int(M_sql_stmt_t *stmt, const char *quer
 	stmt->query_user = M_strdup_trim(query);
 	stmt->last_error = M_sql_stmt_prepare_query(stmt, stmt->query_user, skip_sanity_checks);
 
+	/* A query that failed to prepare must never be executed */
+	if (stmt->last_error != M_SQL_ERROR_SUCCESS) {
+		M_free(stmt->query_user);
+		stmt->query_user = NULL;
+	}
+
 	return stmt->last_error;
 }
 
-- 
2.43.0


From e5cb7c53a1a36075c6ed6500662bda33abee55c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:42 +0000
Subject: [PATCH 238/268] fix: M_sql_driver_conn_get_password returns the
 username

---
 sql/m_sql_connpool.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sql/m_sql_connpool.c b/sql/m_sql_connpool.c
index 6b6b524..1e1e3ea 100644
--- a/sql/m_sql_connpool.c
+++ b/sql/m_sql_connpool.c
@@ -1256,7 +1256,7 @@ const char *M_sql_driver_conn_get_password(M_sql_conn_t *conn)
 {
 	if (conn == NULL)
 		return NULL;
-	return M_sql_driver_pool_get_username(conn->pool);
+	return M_sql_driver_pool_get_password(conn->pool);
 }
 
 
-- 
2.43.0


From fa3a5df6d215c8517136a39c50bfa49b612f007e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:25 +0000
Subject: [PATCH 239/268] fix: group insert of a query with surrounding
 whitespace leaves a dangling statement in the pool

---
 sql/m_sql_connpool.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/sql/m_sql_connpool.c b/sql/m_sql_connpool.c
index 1e1e3ea..4b4baab 100644
--- a/sql/m_sql_connpool.c
+++ b/sql/m_sql_connpool.c
@@ -1488,14 +1488,18 @@ M_uint64 M_sql_rollback_delay_ms(M_sql_connpool_t *pool)
 M_sql_stmt_t *M_sql_stmt_groupinsert_prepare(M_sql_connpool_t *pool, const char *query)
 {
 	M_sql_stmt_t *stmt;
+	char         *key;
 
 	if (pool == NULL || M_str_isempty(query))
 		return NULL;
 
+	/* Preparing the statement trims the query, the entry is removed by what was prepared */
+	key = M_strdup_trim(query);
+
 	/* Hold the pool lock for as short a duration as possible.  Do NOT attempt
 	 * to hold both the pool lock and stmt->group_lock at the same time! */
 	M_thread_mutex_lock(pool->lock);
-	stmt = M_hash_strvp_get_direct(pool->group_insert, query);
+	stmt = M_hash_strvp_get_direct(pool->group_insert, key);
 	if (stmt == NULL) {
 		stmt              = M_sql_stmt_create();
 		M_sql_stmt_prepare(stmt, query);
@@ -1507,12 +1511,15 @@ M_sql_stmt_t *M_sql_stmt_groupinsert_prepare(M_sql_connpool_t *pool, const char
 		stmt->group_state    = M_SQL_GROUPINSERT_NEW;
 		stmt->group_cond     = M_thread_cond_create(M_THREAD_CONDATTR_NONE);
 
-		M_hash_strvp_insert(pool->group_insert, query, stmt);
+		/* A query that isn't valid can't be joined by others */
+		if (stmt->query_user != NULL)
+			M_hash_strvp_insert(pool->group_insert, key, stmt);
 	} else {
 		stmt->group_cnt++; /* Yes, group_cnt is only protected by the pool! So any time we check this we must lock
 		                    * the pool lock, but if we need the group lock, that must be locked FIRST */
 	}
 	M_thread_mutex_unlock(pool->lock);
+	M_free(key);
 
 	/* It is now safe to grab the group lock.  It will be released upon a call
 	 * to M_sql_stmt_execute() */
-- 
2.43.0


From 0ccbdecae3fce110ca19e1ac88e10cf7a0273879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:25 +0000
Subject: [PATCH 240/268] fix: users of the connection pool wait although
 connections are available

---
 sql/m_sql_connpool.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/sql/m_sql_connpool.c b/sql/m_sql_connpool.c
index 4b4baab..b0c32cc 100644
--- a/sql/m_sql_connpool.c
+++ b/sql/m_sql_connpool.c
@@ -956,6 +956,13 @@ M_sql_conn_t *M_sql_connpool_acquire_conn(M_sql_connpool_t *pool, M_bool readonl
 			M_sql_connpool_set_used(pool_data, conn, for_trans, M_FALSE);
 		}
 
+		/* Others queue up behind a waiter even if there are more connections available than there were
+		 * waiters when those were released.  Nobody else would tell them. */
+		if (pool_data->num_waiters &&
+		    (M_llist_len(pool_data->conns) || (M_queue_len(pool_data->used_conns) + pool_data->new_conns) < pool_data->max_conns)) {
+			M_thread_cond_signal(pool_data->cond);
+		}
+
 		M_thread_mutex_unlock(pool->lock);
 
 		/* If conn is NULL here, that means we've been told to spawn a new connection,
-- 
2.43.0


From d867283d39f7ba0d71ae6258e2cdd32f10da7de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:05 +0000
Subject: [PATCH 241/268] fix: PROXY v1: a 5 digit port was refused when its
 terminator arrived later

---
 io/m_io_proxy_protocol.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/io/m_io_proxy_protocol.c b/io/m_io_proxy_protocol.c
index 2240f46..28ce32a 100644
--- a/io/m_io_proxy_protocol.c
+++ b/io/m_io_proxy_protocol.c
@@ -303,7 +303,8 @@ static M_state_machine_status_t state_v1_source_port(void *data, M_uint64 *next)
 		/* If the start and end len in the parser are different, then
  		 * the until string was found but the buffer was too small. */
 		len = M_parser_len(handle->parser);
-		if (len >= 5 || len != plen) {
+		/* A port is at most 5 digits, more than that without the ' ' is malformed. */
+		if (len > 5 || len != plen) {
 			M_snprintf(handle->error, sizeof(handle->error), "Proxy protocol v1: Missing or invalid source port");
 			return M_STATE_MACHINE_STATUS_ERROR_STATE;
 		} else {
@@ -340,7 +341,8 @@ static M_state_machine_status_t state_v1_dest_port(void *data, M_uint64 *next)
 		/* If the start and end len in the parser are different, then
  		 * the until string was found but the buffer was too small. */
 		len = M_parser_len(handle->parser);
-		if (len >= 5 || len != plen) {
+		/* A port is at most 5 digits, and the first half of the "\r\n" might be here already. */
+		if (len > 6 || len != plen) {
 			M_snprintf(handle->error, sizeof(handle->error), "Proxy protocol v1: Missing or invalid destination port");
 			return M_STATE_MACHINE_STATUS_ERROR_STATE;
 		} else {
-- 
2.43.0


From c20306641d20e7dffc9f22ad600606ffa017f5d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:05 +0000
Subject: [PATCH 242/268] fix: PROXY v1: text after the digits of a port was
 ignored

---
 io/m_io_proxy_protocol.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/io/m_io_proxy_protocol.c b/io/m_io_proxy_protocol.c
index 28ce32a..7114805 100644
--- a/io/m_io_proxy_protocol.c
+++ b/io/m_io_proxy_protocol.c
@@ -312,7 +312,7 @@ static M_state_machine_status_t state_v1_source_port(void *data, M_uint64 *next)
 		}
 	}
 
-	port                = M_str_to_uint32(buf);
+	port                = M_str_isnum(buf)?M_str_to_uint32(buf):0;
 	handle->source_port = (M_uint16)port;
 	if (handle->source_port == 0 || port > M_UINT16_MAX) {
 		M_snprintf(handle->error, sizeof(handle->error), "Proxy protocol v1: Invalid source port");
@@ -350,7 +350,7 @@ static M_state_machine_status_t state_v1_dest_port(void *data, M_uint64 *next)
 		}
 	}
 
-	port              = M_str_to_uint32(buf);
+	port              = M_str_isnum(buf)?M_str_to_uint32(buf):0;
 	handle->dest_port = (M_uint16)port;
 	if (handle->dest_port == 0 || port > M_UINT16_MAX) {
 		M_snprintf(handle->error, sizeof(handle->error), "Proxy protocol v1: Invalid destination port");
-- 
2.43.0


From 0b96d898d888369b713f2d6011a52f2068d10660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:17 +0000
Subject: [PATCH 243/268] fix: PROXY: data is lost when the peer disconnects
 right after sending it

---
 io/m_io_proxy_protocol.c | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/io/m_io_proxy_protocol.c b/io/m_io_proxy_protocol.c
index 7114805..e60e795 100644
--- a/io/m_io_proxy_protocol.c
+++ b/io/m_io_proxy_protocol.c
@@ -651,11 +651,11 @@ static M_io_error_t M_io_proxy_protocol_read_cb(M_io_layer_t *layer, unsigned ch
 	err = M_io_layer_read(M_io_layer_get_io(layer), M_io_layer_get_index(layer)-1, buf, read_len, meta);
 	if (err == M_IO_ERROR_SUCCESS) {
 		*read_len += len;
-	} else if (!M_io_error_is_critical(err)) {
+	} else {
+		/* The buffered data was read successfully.  If the layer under failed, the
+		 * failure is reported after the data: an event for it is already queued. */
 		*read_len = len;
 		err       = M_IO_ERROR_SUCCESS;
-	} else {
-		handle->state = M_IO_STATE_ERROR;
 	}
 
 	return err;
@@ -666,7 +666,7 @@ static M_bool M_io_proxy_protocol_process_inbound(M_io_layer_t *layer, M_io_hand
 	unsigned char            buf[4096];
 	size_t                   buf_len;
 	M_io_error_t             err;
-	M_state_machine_status_t smerr;
+	M_state_machine_status_t smerr = M_STATE_MACHINE_STATUS_WAIT;
 
 	/* Suppress connected event. We'll convert the final read to
  	 * a connect once we've established this is proxy protocol and
@@ -679,7 +679,8 @@ static M_bool M_io_proxy_protocol_process_inbound(M_io_layer_t *layer, M_io_hand
 		return M_FALSE;
 
 	/* Start reading data into our parser so we can look for and remove the
- 	 * proxy information. */
+ 	 * proxy information. Stop once it's been found: what follows, such as a
+	 * disconnect, is for the application to read. */
 	do {
 		buf_len = sizeof(buf);
 		err     = M_io_layer_read(M_io_layer_get_io(layer), M_io_layer_get_index(layer) - 1, buf, &buf_len, NULL);
@@ -690,19 +691,16 @@ static M_bool M_io_proxy_protocol_process_inbound(M_io_layer_t *layer, M_io_hand
 		}
 		if (err == M_IO_ERROR_SUCCESS) {
 			M_parser_append(handle->parser, buf, buf_len);
+			smerr = M_state_machine_run(handle->sm, handle);
 		}
-	} while (err == M_IO_ERROR_SUCCESS);
+	} while (err == M_IO_ERROR_SUCCESS && smerr == M_STATE_MACHINE_STATUS_WAIT);
 
-	/* Try to process the data. Even if we have a non-critical error,
- 	 * we might have read data successfully before it happened. */
-	smerr = M_state_machine_run(handle->sm, handle);
 	if (smerr == M_STATE_MACHINE_STATUS_DONE) {
 		handle->state    = M_IO_STATE_CONNECTED;
 		handle->complete = M_TRUE;
 		M_io_layer_softevent_add(layer, M_TRUE, M_EVENT_TYPE_CONNECTED, M_IO_ERROR_SUCCESS);
-		if (M_parser_len(handle->parser) > 0) {
-			M_io_layer_softevent_add(layer, M_TRUE, M_EVENT_TYPE_READ, M_IO_ERROR_SUCCESS);
-		}
+		/* There may be data we've buffered or data we haven't read yet. */
+		M_io_layer_softevent_add(layer, M_TRUE, M_EVENT_TYPE_READ, M_IO_ERROR_SUCCESS);
 		if (handle->timer) {
 			M_event_timer_remove(handle->timer);
 			handle->timer = NULL;
-- 
2.43.0


From 007c1708a8217a6a6a5c814cca5d8ef0a693a115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:17 +0000
Subject: [PATCH 244/268] fix: PROXY v1: UNKNOWN with addresses was refused

---
 io/m_io_proxy_protocol.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/io/m_io_proxy_protocol.c b/io/m_io_proxy_protocol.c
index e60e795..97745ea 100644
--- a/io/m_io_proxy_protocol.c
+++ b/io/m_io_proxy_protocol.c
@@ -182,10 +182,19 @@ static M_state_machine_status_t state_v1_protocol(void *data, M_uint64 *next)
 	if (M_parser_len(handle->parser) < 9)
 		return M_STATE_MACHINE_STATUS_WAIT;
 
-	/* Check for the special case 'UNKNOWN' protocol. */
-	if (M_parser_compare_str(handle->parser, "UNKNOWN\r\n", 9 , M_FALSE)) {
+	/* Check for the special case 'UNKNOWN' protocol. Anything between it and the end of
+	 * the line must be ignored. */
+	if (M_parser_compare_str(handle->parser, "UNKNOWN\r\n", 9 , M_FALSE) || M_parser_compare_str(handle->parser, "UNKNOWN ", 8, M_FALSE)) {
+		/* A line is at most 107 bytes with the terminator, of which "PROXY " was read. */
+		len = M_parser_consume_str_until(handle->parser, "\r\n", M_TRUE);
+		if (len > 101 || (len == 0 && M_parser_len(handle->parser) > 100)) {
+			M_snprintf(handle->error, sizeof(handle->error), "Proxy protocol v1: Line too long");
+			return M_STATE_MACHINE_STATUS_ERROR_STATE;
+		}
+		if (len == 0)
+			return M_STATE_MACHINE_STATUS_WAIT;
+
 		handle->local = M_TRUE;
-		M_parser_consume(handle->parser, 9);
 		return M_STATE_MACHINE_STATUS_DONE;
 	}
 	handle->local = M_FALSE;
-- 
2.43.0


From 8b8bad5022487507832d37c988dacad1c6e25d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:17 +0000
Subject: [PATCH 245/268] fix: PROXY v1: addresses of another family than the
 announced one were accepted

---
 io/m_io_proxy_protocol.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/io/m_io_proxy_protocol.c b/io/m_io_proxy_protocol.c
index 97745ea..0df3024 100644
--- a/io/m_io_proxy_protocol.c
+++ b/io/m_io_proxy_protocol.c
@@ -246,7 +246,7 @@ static M_state_machine_status_t state_v1_source_ipaddr(void *data, M_uint64 *nex
 		}
 	}
 
-	if (!M_io_net_ipaddr_to_bin(ipaddr_bin, sizeof(ipaddr_bin), buf, &len)) {
+	if (!M_io_net_ipaddr_to_bin(ipaddr_bin, sizeof(ipaddr_bin), buf, &len) || len != (handle->net_type == M_IO_NET_IPV6?16:4)) {
 		M_snprintf(handle->error, sizeof(handle->error), "Proxy protocol v1: Invalid source address");
 		return M_STATE_MACHINE_STATUS_ERROR_STATE;
 	}
@@ -284,7 +284,7 @@ static M_state_machine_status_t state_v1_dest_ipaddr(void *data, M_uint64 *next)
 		}
 	}
 
-	if (!M_io_net_ipaddr_to_bin(ipaddr_bin, sizeof(ipaddr_bin), buf, &len)) {
+	if (!M_io_net_ipaddr_to_bin(ipaddr_bin, sizeof(ipaddr_bin), buf, &len) || len != (handle->net_type == M_IO_NET_IPV6?16:4)) {
 		M_snprintf(handle->error, sizeof(handle->error), "Proxy protocol v1: Invalid destination address");
 		return M_STATE_MACHINE_STATUS_ERROR_STATE;
 	}
-- 
2.43.0


From a5a508b4dbd26fad6fc417ff7ce69f6c67d4b6b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:17 +0000
Subject: [PATCH 246/268] fix: PROXY v2: the data of a LOCAL or UNSPEC header
 could end up in the application stream

---
 io/m_io_proxy_protocol.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/io/m_io_proxy_protocol.c b/io/m_io_proxy_protocol.c
index 0df3024..5175eae 100644
--- a/io/m_io_proxy_protocol.c
+++ b/io/m_io_proxy_protocol.c
@@ -410,8 +410,13 @@ static M_state_machine_status_t state_v2_header(void *data, M_uint64 *next)
 		return M_STATE_MACHINE_STATUS_ERROR_STATE;
 	}
 
-	/* Pull off the protocol and family. */
+	/* Pull off the protocol and family. The family of a local connection, and any
+	 * addresses, must be ignored. */
 	M_parser_read_byte(handle->parser, &byte);
+	if (handle->local || byte == 0x00) {
+		handle->local = M_TRUE;
+		byte          = 0x00;
+	}
 	switch (byte) {
 		case 0x00:
 			handle->net_type = M_IO_NET_ANY;
@@ -448,10 +453,9 @@ static M_state_machine_status_t state_v2_header(void *data, M_uint64 *next)
 			return M_STATE_MACHINE_STATUS_ERROR_STATE;
 		}
 	} else {
-		/* If it's a local operation, we're going to eat the rest of
- 		 * the data and stop processing. */
-		M_parser_consume(handle->parser, handle->v2_dlen);
-		return M_STATE_MACHINE_STATUS_DONE;
+		/* If it's a local operation, there are no addresses to read and
+		 * we're going to eat the rest of the data once it has arrived. */
+		*next = STATE_V2_TLV;
 	}
 
 	return M_STATE_MACHINE_STATUS_NEXT;
-- 
2.43.0


From def9fcc0ffed3a4dbb81fc98cb0f7b078f10359f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:43 +0000
Subject: [PATCH 247/268] fix: PROXY: setting the endpoints left the event loop
 locked

---
 io/m_io_proxy_protocol.c | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/io/m_io_proxy_protocol.c b/io/m_io_proxy_protocol.c
index 5175eae..21f7f0d 100644
--- a/io/m_io_proxy_protocol.c
+++ b/io/m_io_proxy_protocol.c
@@ -1201,18 +1201,19 @@ M_bool M_io_proxy_protocol_set_source_endpoints(M_io_t *io, const char *source_i
 	unsigned char    ipaddr_bin[32];
 	M_io_net_type_t  net_type;
 	size_t           len;
+	M_bool           ret    = M_FALSE;
 
 	if (layer == NULL || handle == NULL)
 		return M_FALSE;
 
 	if (handle->is_inbound)
-		return M_FALSE;
+		goto done;
 
 	/* For local we need both IPs to be NULL. Otherwise, we need both set. */
 	if ((M_str_isempty(source_ipaddr) && !M_str_isempty(dest_ipaddr)) ||
 			(!M_str_isempty(source_ipaddr) && M_str_isempty(dest_ipaddr)))
 	{
-		return M_FALSE;
+		goto done;
 	}
 
 	/* Empty IP, this is a local. */
@@ -1225,18 +1226,19 @@ M_bool M_io_proxy_protocol_set_source_endpoints(M_io_t *io, const char *source_i
 		handle->dest_port     = 0;
 		handle->local         = M_TRUE;
 		handle->net_type      = M_IO_NET_ANY;
-		return M_TRUE;
+		ret                   = M_TRUE;
+		goto done;
 	}
 
 	/* Not local at this point.
  	 * Verify we have valid ports. */
 	if (source_port == 0 || dest_port == 0)
-		return M_FALSE;
+		goto done;
 
 	/* Verify the ip format for our source and dest are valid. */
 	len = M_str_len(source_ipaddr);
 	if (!M_io_net_ipaddr_to_bin(ipaddr_bin, sizeof(ipaddr_bin), source_ipaddr, &len))
-		return M_FALSE;
+		goto done;
 
 	/* Determine the net type from the IP. */
 	if (len == 4) {
@@ -1247,14 +1249,14 @@ M_bool M_io_proxy_protocol_set_source_endpoints(M_io_t *io, const char *source_i
 
 	len = M_str_len(dest_ipaddr);
 	if (!M_io_net_ipaddr_to_bin(ipaddr_bin, sizeof(ipaddr_bin), dest_ipaddr, &len))
-		return M_FALSE;
+		goto done;
 
 	/* Verify the source and dest IPs are the same net type. */
 	if (net_type == M_IO_NET_IPV4 && len != 4)
-		return M_FALSE;
+		goto done;
 
 	if (net_type == M_IO_NET_IPV6 && len != 16)
-		return M_FALSE;
+		goto done;
 
 	M_free(handle->source_ipaddr);
 	M_free(handle->dest_ipaddr);
@@ -1264,6 +1266,9 @@ M_bool M_io_proxy_protocol_set_source_endpoints(M_io_t *io, const char *source_i
 	handle->dest_port     = dest_port;
 	handle->local         = M_FALSE;
 	handle->net_type      = net_type;
+	ret                   = M_TRUE;
 
-	return M_TRUE;
+done:
+	M_io_layer_release(layer);
+	return ret;
 }
-- 
2.43.0


From a6d72f56d73646ca1060dd30594471e7bd846f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:27 +0000
Subject: [PATCH 248/268] fix: PROXY: a header without addresses was sent after
 reconnecting

---
 io/m_io_proxy_protocol.c | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/io/m_io_proxy_protocol.c b/io/m_io_proxy_protocol.c
index 21f7f0d..9ce0636 100644
--- a/io/m_io_proxy_protocol.c
+++ b/io/m_io_proxy_protocol.c
@@ -950,17 +950,23 @@ static M_bool M_io_proxy_protocol_reset_cb(M_io_layer_t *layer)
 	M_parser_consume(handle->parser, M_parser_len(handle->parser));
 	M_buf_truncate(handle->buf, 0);
 	M_state_machine_reset(handle->sm, M_STATE_MACHINE_CLEANUP_REASON_RESET);
-	M_free(handle->source_ipaddr);
-	M_free(handle->dest_ipaddr);
 	handle->complete      = M_FALSE;
 	handle->state         = M_IO_STATE_INIT;
 	handle->error[0]      = '\0';
-	handle->source_ipaddr = NULL;
-	handle->dest_ipaddr   = NULL;
-	handle->source_port   = 0;
-	handle->dest_port     = 0;
-	handle->net_type      = M_IO_NET_ANY;
 	handle->v2_dlen       = 0;
+
+	/* What an inbound connection received goes away with it. The endpoints of an outbound
+	 * connection are its configuration, they're sent again when reconnecting. */
+	if (handle->is_inbound) {
+		M_free(handle->source_ipaddr);
+		M_free(handle->dest_ipaddr);
+		handle->local         = M_TRUE;
+		handle->source_ipaddr = NULL;
+		handle->dest_ipaddr   = NULL;
+		handle->source_port   = 0;
+		handle->dest_port     = 0;
+		handle->net_type      = M_IO_NET_ANY;
+	}
 	if (handle->timer) {
 		M_event_timer_remove(handle->timer);
 		handle->timer = NULL;
-- 
2.43.0


From b63f70e6a5a905263ae520ddc885defb474fcf8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:00 +0000
Subject: [PATCH 249/268] fix: buffer layer: data that arrives while the read
 buffer is full is not read once there is room

---
 io/m_io_buffer.c | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/io/m_io_buffer.c b/io/m_io_buffer.c
index 2ea8902..29072a1 100644
--- a/io/m_io_buffer.c
+++ b/io/m_io_buffer.c
@@ -64,9 +64,6 @@ static M_bool M_io_buffer_process_read_cb(M_io_layer_t *layer)
 	if (handle->hit_max_read) {
 		handle->hit_max_read = M_FALSE;
 		alloc_size = M_size_t_round_up_to_power_of_two(M_buf_alloc_size(handle->readbuf) + 1);
-		if (alloc_size > handle->max_read_buffer) {
-			alloc_size = handle->max_read_buffer;
-		}
 	} else {
 		alloc_size = M_buf_alloc_size(handle->readbuf);
 	}
@@ -75,14 +72,20 @@ static M_bool M_io_buffer_process_read_cb(M_io_layer_t *layer)
 	if (alloc_size < 16 * 1024)
 		alloc_size = 16 * 1024;
 
-	req_size = alloc_size - M_buf_len(handle->readbuf);
+	/* The allocation may be larger than the maximum as it holds more than the data */
+	if (alloc_size > handle->max_read_buffer)
+		alloc_size = handle->max_read_buffer;
 
-	/* Buffer is full, can't read.  Don't pass on event, application already knows there is data. */
-	if (req_size == 0) {
+	/* Buffer is full, can't read.  Don't pass on event, application already knows there is data.
+	 * Remember there's more so it is read as soon as there is room. */
+	if (M_buf_len(handle->readbuf) >= alloc_size) {
+		handle->hit_max_read = M_TRUE;
 		return M_TRUE; /* consume */
 	}
+	req_size = alloc_size - M_buf_len(handle->readbuf);
 	len      = req_size;
 	buf      = M_buf_direct_write_start(handle->readbuf, &len);
+	len      = req_size; /* There may be more room than asked for, do not use it */
 
 	err      = M_io_layer_read(M_io_layer_get_io(layer), M_io_layer_get_index(layer)-1, buf, &len, NULL);
 	if (err != M_IO_ERROR_SUCCESS) {
-- 
2.43.0


From c940388f9d8502b7bec020251121f6ddfc8af09f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:00 +0000
Subject: [PATCH 250/268] fix: bwshaping: trickle mode did not limit at the
 moment a sample ends

---
 io/m_io_bwshaping.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/io/m_io_bwshaping.c b/io/m_io_bwshaping.c
index fbd3b80..f0d4e7b 100644
--- a/io/m_io_bwshaping.c
+++ b/io/m_io_bwshaping.c
@@ -190,7 +190,7 @@ static void M_io_bwshaping_bwtrack_add(M_io_bwshaping_bwtrack_t *bwtrack, M_uint
 	M_io_bwshaping_slot_t *slot;
 
 	slot = M_io_bwshaping_slots_last(bwtrack);
-	if (slot == NULL || M_time_elapsed(&slot->tv) > frequency_ms) {
+	if (slot == NULL || M_time_elapsed(&slot->tv) >= frequency_ms) {
 		slot = M_io_bwshaping_slots_add(bwtrack);
 		M_time_elapsed_start(&slot->tv);
 		slot->bytes = 0;
-- 
2.43.0


From 9fbafe94fdb31014f00aad66a1f4264d41932f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:56 +0000
Subject: [PATCH 251/268] fix: bwshaping: an idle connection with a latency
 keeps the event loop spinning

---
 io/m_io_bwshaping.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/io/m_io_bwshaping.c b/io/m_io_bwshaping.c
index f0d4e7b..02a4ab1 100644
--- a/io/m_io_bwshaping.c
+++ b/io/m_io_bwshaping.c
@@ -562,7 +562,7 @@ static M_io_error_t M_io_bwshaping_write_cb(M_io_layer_t *layer, const unsigned
 
 		/* We can't be throttling if the OS told us we did a partial write or couldn't write at all */
 		if (err == M_IO_ERROR_WOULDBLOCK || (err == M_IO_ERROR_SUCCESS && *write_len < request_len)) {
-			handle->out_waiting = (handle->settings.out_latency_ms)?M_TRUE:M_FALSE;
+			handle->out_waiting = (M_io_bwshaping_latency_next_ms(handle, M_IO_BWSHAPING_DIRECTION_OUT) != 0)?M_TRUE:M_FALSE;
 		}
 	} else {
 		handle->out_waiting = M_TRUE;
@@ -621,7 +621,7 @@ static M_io_error_t M_io_bwshaping_read_cb(M_io_layer_t *layer, unsigned char *b
 		/* We can't be throttling if the OS told us we did a partial read or couldn't read at all */
 		if (err == M_IO_ERROR_WOULDBLOCK || (err == M_IO_ERROR_SUCCESS && *read_len < request_len)) {
 			handle->in_fullread = M_FALSE;
-			handle->in_waiting  = (handle->settings.in_latency_ms)?M_TRUE:M_FALSE;
+			handle->in_waiting  = (M_io_bwshaping_latency_next_ms(handle, M_IO_BWSHAPING_DIRECTION_IN) != 0)?M_TRUE:M_FALSE;
 		}
 	} else {
 		handle->in_waiting = M_TRUE;
-- 
2.43.0


From b0efbffa3c05fe6bcc414b5578a8c2f77646a9ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:40 +0000
Subject: [PATCH 252/268] fix: buffer layer: data not yet read is lost when the
 connection ends

---
 io/m_io_buffer.c | 49 ++++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 47 insertions(+), 2 deletions(-)

diff --git a/io/m_io_buffer.c b/io/m_io_buffer.c
index 29072a1..dee3431 100644
--- a/io/m_io_buffer.c
+++ b/io/m_io_buffer.c
@@ -34,6 +34,8 @@ struct M_io_handle {
 	size_t        max_write_buffer; /*!< Maximum size of write buffer allowed */
 	M_buf_t      *writebuf;         /*!< buffer holding buffered write data */
 	M_bool        hit_max_write;    /*!< we stopped allowing writes because we hit the max size, track due to being edge triggered */
+	M_bool         end_pending;     /*!< The connection ended, but there is data the application hasn't read yet */
+	M_event_type_t end_type;        /*!< Event to deliver once the application has read everything */
 };
 
 static M_bool M_io_buffer_init_cb(M_io_layer_t *layer)
@@ -44,6 +46,8 @@ static M_bool M_io_buffer_init_cb(M_io_layer_t *layer)
 }
 
 
+static void M_io_buffer_release_end(M_io_layer_t *layer);
+
 static M_bool M_io_buffer_process_read_cb(M_io_layer_t *layer)
 {
 	M_io_handle_t *handle = M_io_layer_get_handle(layer);
@@ -93,6 +97,8 @@ static M_bool M_io_buffer_process_read_cb(M_io_layer_t *layer)
 		rv  = M_TRUE; /* consume */
 	}
 	M_buf_direct_write_end(handle->readbuf, len);
+	if (M_buf_len(handle->readbuf) == 0)
+		M_io_buffer_release_end(layer);
 
 	if (len >= req_size) {
 		handle->hit_max_read = M_TRUE;
@@ -140,6 +146,43 @@ static M_bool M_io_buffer_process_write_cb(M_io_layer_t *layer)
 }
 
 
+/* Data that was buffered has to be readable before the end of the connection is seen. */
+static M_bool M_io_buffer_process_end_cb(M_io_layer_t *layer, M_event_type_t type)
+{
+	M_io_handle_t *handle = M_io_layer_get_handle(layer);
+
+	if (handle->max_read_buffer == 0 || (M_buf_len(handle->readbuf) == 0 && !handle->hit_max_read))
+		return M_FALSE; /* propagate */
+
+	/* Application isn't interested in what's left */
+	if (M_io_is_user_initiated_disconnect(M_io_layer_get_io(layer)))
+		return M_FALSE; /* propagate */
+
+	handle->end_pending = M_TRUE;
+	handle->end_type    = type;
+
+	if (M_buf_len(handle->readbuf) != 0) {
+		M_io_layer_softevent_add(layer, M_TRUE, M_EVENT_TYPE_READ, M_IO_ERROR_SUCCESS);
+	} else {
+		M_io_layer_softevent_add(layer, M_FALSE, M_EVENT_TYPE_READ, M_IO_ERROR_SUCCESS);
+	}
+	return M_TRUE; /* consume */
+}
+
+
+/* Nothing is left to be read, deliver the end of the connection if it was held back. */
+static void M_io_buffer_release_end(M_io_layer_t *layer)
+{
+	M_io_handle_t *handle = M_io_layer_get_handle(layer);
+
+	if (!handle->end_pending)
+		return;
+
+	handle->end_pending = M_FALSE;
+	M_io_layer_softevent_add(layer, M_TRUE, handle->end_type, (handle->end_type == M_EVENT_TYPE_DISCONNECTED)?M_IO_ERROR_DISCONNECT:M_IO_ERROR_ERROR);
+}
+
+
 static M_bool M_io_buffer_process_cb(M_io_layer_t *layer, M_event_type_t *type)
 {
 	switch (*type) {
@@ -152,9 +195,8 @@ static M_bool M_io_buffer_process_cb(M_io_layer_t *layer, M_event_type_t *type)
 		case M_EVENT_TYPE_OTHER:
 			break;
 		case M_EVENT_TYPE_DISCONNECTED:
-			break;
 		case M_EVENT_TYPE_ERROR:
-			break;
+			return M_io_buffer_process_end_cb(layer, *type);
 		case M_EVENT_TYPE_CONNECTED:
 			break;
 		case M_EVENT_TYPE_ACCEPT:
@@ -201,6 +243,8 @@ static M_io_error_t M_io_buffer_read_cb(M_io_layer_t *layer, unsigned char *buf,
 	if (handle->hit_max_read) {
 		/* We cleared room in the buffer, queue another read event */
 		M_io_layer_softevent_add(layer, M_FALSE, M_EVENT_TYPE_READ, M_IO_ERROR_SUCCESS);
+	} else if (M_buf_len(handle->readbuf) == 0) {
+		M_io_buffer_release_end(layer);
 	}
 
 	return M_IO_ERROR_SUCCESS;
@@ -245,6 +289,7 @@ static M_bool M_io_buffer_reset_cb(M_io_layer_t *layer)
 	M_io_handle_t *handle = M_io_layer_get_handle(layer);
 	M_buf_truncate(handle->readbuf, 0);
 	handle->hit_max_read = M_FALSE;
+	handle->end_pending  = M_FALSE;
 	M_buf_truncate(handle->writebuf, 0);
 	return M_TRUE;
 }
-- 
2.43.0


From 2b107c8dc8094bbc5c16a8e9c6b6a281b899f06f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:05 +0000
Subject: [PATCH 253/268] fix: buffer layer: data accepted for writing is lost
 by a graceful disconnect

---
 io/m_io_buffer.c | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/io/m_io_buffer.c b/io/m_io_buffer.c
index dee3431..99c579e 100644
--- a/io/m_io_buffer.c
+++ b/io/m_io_buffer.c
@@ -284,6 +284,23 @@ static M_io_error_t M_io_buffer_write_cb(M_io_layer_t *layer, const unsigned cha
 }
 
 
+static M_bool M_io_buffer_disconnect_cb(M_io_layer_t *layer)
+{
+	M_io_handle_t *handle = M_io_layer_get_handle(layer);
+	size_t         len;
+
+	/* The application was told this data was written, don't leave it behind. */
+	while ((len = M_buf_len(handle->writebuf)) != 0) {
+		if (M_io_layer_write(M_io_layer_get_io(layer), M_io_layer_get_index(layer)-1, (const unsigned char *)M_buf_peek(handle->writebuf), &len, NULL) != M_IO_ERROR_SUCCESS || len == 0)
+			break;
+		M_buf_drop(handle->writebuf, len);
+	}
+
+	/* Pass to next layer */
+	return M_TRUE;
+}
+
+
 static M_bool M_io_buffer_reset_cb(M_io_layer_t *layer)
 {
 	M_io_handle_t *handle = M_io_layer_get_handle(layer);
@@ -348,6 +365,7 @@ M_io_error_t M_io_add_buffer(M_io_t *io, size_t *layer_id, size_t max_read_buffe
 	M_io_callbacks_reg_processevent(callbacks, M_io_buffer_process_cb);
 	M_io_callbacks_reg_accept(callbacks, M_io_buffer_accept_cb);
 	M_io_callbacks_reg_unregister(callbacks, M_io_buffer_unregister_cb);
+	M_io_callbacks_reg_disconnect(callbacks, M_io_buffer_disconnect_cb);
 	M_io_callbacks_reg_reset(callbacks, M_io_buffer_reset_cb);
 	M_io_callbacks_reg_destroy(callbacks, M_io_buffer_destroy_cb);
 	layer = M_io_layer_add(io, "BUFFER", handle, callbacks);
-- 
2.43.0


From a1a51ded397a36870e09c6b8d10a582a36348dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:28 +0000
Subject: [PATCH 254/268] fix: bwshaping: the event loop spins while one
 direction waits and the application does not use the other

---
 io/m_io_bwshaping.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/io/m_io_bwshaping.c b/io/m_io_bwshaping.c
index 02a4ab1..a0a9434 100644
--- a/io/m_io_bwshaping.c
+++ b/io/m_io_bwshaping.c
@@ -461,12 +461,14 @@ static void M_io_bwshaping_timer_cb(M_event_t *event, M_event_type_t type, M_io_
 	to_ms = M_io_bwshaping_timeout_direction(handle, M_IO_BWSHAPING_DIRECTION_IN);
 	if (to_ms == 0) {
 		M_io_layer_softevent_add(layer, M_TRUE, M_EVENT_TYPE_READ, M_IO_ERROR_SUCCESS);
+		handle->in_waiting = M_FALSE; /* Unset that we are waiting */
 		num_wait--;
 	}
 
 	to_ms = M_io_bwshaping_timeout_direction(handle, M_IO_BWSHAPING_DIRECTION_OUT);
 	if (to_ms == 0 && !handle->is_disconnecting) {
 		M_io_layer_softevent_add(layer, M_TRUE, M_EVENT_TYPE_WRITE, M_IO_ERROR_SUCCESS);
+		handle->out_waiting = M_FALSE; /* Unset that we are waiting */
 		num_wait--;
 	}
 
-- 
2.43.0


From 62b22fb9e6b0f97c3e12f1c9decdd4ac72f45fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:39 +0000
Subject: [PATCH 255/268] fix: bwshaping: using a connection again after
 M_io_reconnect() dereferenced NULL

The reset callback destroyed the bandwidth tracking and left it NULL.
---
 io/m_io_bwshaping.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/io/m_io_bwshaping.c b/io/m_io_bwshaping.c
index a0a9434..5a1e6d5 100644
--- a/io/m_io_bwshaping.c
+++ b/io/m_io_bwshaping.c
@@ -712,15 +712,16 @@ static M_bool M_io_bwshaping_reset_cb(M_io_layer_t *layer)
 
 	M_mem_set(&handle->starttv, 0, sizeof(handle->starttv));
 	M_io_bwshaping_bwtrack_destroy(handle->in_bw);
-	handle->in_bw       = NULL;
+	handle->in_bw       = M_io_bwshaping_bwtrack_create(handle, M_IO_BWSHAPING_DIRECTION_IN);
 	M_mem_set(&handle->in_lasttv, 0, sizeof(handle->in_lasttv));
 	handle->in_waiting  = M_FALSE;
 	handle->in_fullread = M_FALSE;
 	M_io_bwshaping_bwtrack_destroy(handle->out_bw);
-	handle->out_bw      = NULL;
+	handle->out_bw      = M_io_bwshaping_bwtrack_create(handle, M_IO_BWSHAPING_DIRECTION_OUT);
 	M_mem_set(&handle->out_lasttv, 0, sizeof(handle->out_lasttv));
 	handle->out_bytes   = 0;
 	handle->out_waiting = M_FALSE;
+	handle->is_disconnecting = M_FALSE;
 
 	return M_TRUE;
 }
-- 
2.43.0


From 1c59be7641b77efc08c250b0ea765bb446173761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:39 +0000
Subject: [PATCH 256/268] fix: bwshaping: the bandwidth tracking of a
 connection was leaked

---
 io/m_io_bwshaping.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/io/m_io_bwshaping.c b/io/m_io_bwshaping.c
index 5a1e6d5..0ca9292 100644
--- a/io/m_io_bwshaping.c
+++ b/io/m_io_bwshaping.c
@@ -733,6 +733,8 @@ static void M_io_bwshaping_destroy_cb(M_io_layer_t *layer)
 	if (handle == NULL)
 		return;
 
+	M_io_bwshaping_bwtrack_destroy(handle->in_bw);
+	M_io_bwshaping_bwtrack_destroy(handle->out_bw);
 	M_free(handle);
 }
 
-- 
2.43.0


From 2ae8076b9b64b39f959b481134fc4800a9b34eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:34 +0000
Subject: [PATCH 257/268] fix: bwshaping: an accepted connection tracked too
 few samples for its settings

The settings were copied without resizing, so M_io_bwshaping_slots_add() returned
NULL (dereferenced by its caller) once the default number of samples was exceeded.
---
 io/m_io_bwshaping.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/io/m_io_bwshaping.c b/io/m_io_bwshaping.c
index 0ca9292..50a1bab 100644
--- a/io/m_io_bwshaping.c
+++ b/io/m_io_bwshaping.c
@@ -518,6 +518,12 @@ static M_io_error_t M_io_bwshaping_accept_cb(M_io_t *io, M_io_layer_t *orig_laye
 	/* Copy settings */
 	M_mem_copy(&handle->settings, &orig_handle->settings, sizeof(handle->settings));
 
+	/* The number of samples tracked depends on the settings */
+	M_io_bwshaping_bwtrack_destroy(handle->in_bw);
+	handle->in_bw  = M_io_bwshaping_bwtrack_create(handle, M_IO_BWSHAPING_DIRECTION_IN);
+	M_io_bwshaping_bwtrack_destroy(handle->out_bw);
+	handle->out_bw = M_io_bwshaping_bwtrack_create(handle, M_IO_BWSHAPING_DIRECTION_OUT);
+
 	M_io_layer_release(layer);
 	return M_IO_ERROR_SUCCESS;
 }
-- 
2.43.0


From 14e8888226d3cd63334a228d93f8fb832f80557a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:07 +0000
Subject: [PATCH 258/268] fix: email: reading an address list read beyond its
 end

An address without a name after one with a name was looked for in a second part
it does not have; an empty address was accessed before its start.
---
 formats/email/m_email_common.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/formats/email/m_email_common.c b/formats/email/m_email_common.c
index 30ba23f..6c0edd1 100644
--- a/formats/email/m_email_common.c
+++ b/formats/email/m_email_common.c
@@ -49,7 +49,8 @@ static M_email_error_t M_email_process_address_list(const char *group_name, char
 	for (i=0; i<num_addresses; i++) {
 		/* Try to split on the start of the email segment if we have the "name <email>" form.
 		 * If we don't have that form (it's just an email) parts[0] will be the input. */
-		parts = M_str_explode_str_quoted('<', addresses[i], '"', '\\', 2, &num_parts);
+		parts    = M_str_explode_str_quoted('<', addresses[i], '"', '\\', 2, &num_parts);
+		part_idx = 0;
 		if (parts == NULL || num_parts == 0)
 			continue;
 
@@ -68,7 +69,7 @@ static M_email_error_t M_email_process_address_list(const char *group_name, char
 			/* If we're not the only thing in the list we
 			 * split on <. We need to remove the closing >. */
 			len  = M_str_len(temp);
-			if (temp[len-1] == '>') {
+			if (len > 0 && temp[len-1] == '>') {
 				temp[len-1] = '\0';
 			}
 			address = M_strdup_trim(temp);
-- 
2.43.0


From 72b778d6d1304159dcf40f4c4f6ffbd55d7bc1ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:07 +0000
Subject: [PATCH 259/268] fix: email: the name of an empty group was used after
 it was freed

---
 formats/email/m_email_common.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/formats/email/m_email_common.c b/formats/email/m_email_common.c
index 6c0edd1..3b767c7 100644
--- a/formats/email/m_email_common.c
+++ b/formats/email/m_email_common.c
@@ -187,6 +187,7 @@ M_email_error_t M_email_process_address(const char *val, M_email_error_t (*addre
 			if (group_name != NULL) {
 				res = address_func(group_name, NULL, NULL, thunk);
 				M_free(group_name);
+				group_name = NULL;
 				if (res != M_EMAIL_ERROR_SUCCESS) {
 					goto done;
 				}
-- 
2.43.0


From 7cb587e7b36273aa5333b59d6e3945c842f434e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:07 +0000
Subject: [PATCH 260/268] fix: email: the boundary leaked when there is more
 than one Content-Type header

---
 formats/email/m_email_reader.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/formats/email/m_email_reader.c b/formats/email/m_email_reader.c
index f2f45f0..620452b 100644
--- a/formats/email/m_email_reader.c
+++ b/formats/email/m_email_reader.c
@@ -242,6 +242,7 @@ static M_email_error_t M_email_header_process_content_type(M_email_reader_t *ema
 		return M_EMAIL_ERROR_SUCCESS;
 
 	emailr->data_format = M_EMAIL_DATA_FORMAT_MULTIPART;
+	M_free(emailr->boundary);
 	emailr->boundary = M_email_header_process_content_type_boundary(val, &emailr->boundary_len);
 
 	if (emailr->boundary == NULL)
-- 
2.43.0


From b8cb16e6f554155406d7b067589582cc09c22c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:27 +0000
Subject: [PATCH 261/268] fix: email: multipart data depended on how the email
 was split

Line ends at the end of a piece were dropped (or the preamble refused), a
boundary of the inner parts was used although the outer one came first, the end
of the inner parts failed when the outer boundary was not there yet, the line
end of the final boundary and anything after it was misread when it came later,
and the callback for the end of all parts was called after each of them.
---
 formats/email/m_email_reader.c | 140 +++++++++++++++++++++------------
 1 file changed, 91 insertions(+), 49 deletions(-)

diff --git a/formats/email/m_email_reader.c b/formats/email/m_email_reader.c
index 620452b..cbe23e4 100644
--- a/formats/email/m_email_reader.c
+++ b/formats/email/m_email_reader.c
@@ -45,6 +45,9 @@ struct M_email_reader {
 	char                            *sub_boundary;
 	size_t                           sub_boundary_len;
 	M_bool                           is_sub_boundary_match;
+	M_bool                           is_sub_boundary_end;  /*!< Skipping from the end of the sub parts to the next boundary. */
+	M_bool                           have_preamble;        /*!< Some of the preamble was already passed on. */
+	M_bool                           epilouge_start;       /*!< The end of line of the final boundary is still to come. */
 	M_email_data_format_t            data_format;
 	size_t                           part_idx;
 	M_email_part_type_t              part_type;
@@ -451,6 +454,29 @@ static M_state_machine_status_t state_body(void *data, M_uint64 *next)
 	return M_STATE_MACHINE_STATUS_WAIT;
 }
 
+/* How much data precedes the pattern, or if it isn't there (yet), how much data can't be part of it. */
+static size_t find_boundary(M_parser_t *parser, const char *boundary, size_t boundary_len, M_bool *found)
+{
+	size_t len;
+
+	M_parser_mark(parser);
+	len = M_parser_consume_boundary(parser, (const unsigned char *)boundary, boundary_len, M_FALSE, found);
+	M_parser_mark_rewind(parser);
+	return len;
+}
+
+/* Length of the line end (or the start of one) at the end of the first len bytes. */
+static size_t trailing_newline_len(M_parser_t *parser, size_t len)
+{
+	const unsigned char *d = M_parser_peek(parser);
+
+	if (len >= 2 && d[len-2] == '\r' && d[len-1] == '\n')
+		return 2;
+	if (len >= 1 && d[len-1] == '\r')
+		return 1;
+	return 0;
+}
+
 static M_state_machine_status_t state_multipart_preamble(void *data, M_uint64 *next)
 {
 	M_email_reader_t *emailr    = data;
@@ -466,11 +492,12 @@ static M_state_machine_status_t state_multipart_preamble(void *data, M_uint64 *n
 		return M_STATE_MACHINE_STATUS_WAIT;
 
 	/* Pull off all data before the first boundary. */
-	M_parser_mark(emailr->parser);
-	data_len    = M_parser_consume_boundary(emailr->parser, (const unsigned char *)emailr->boundary, emailr->boundary_len, M_FALSE, &found);
+	data_len    = find_boundary(emailr->parser, emailr->boundary, emailr->boundary_len, &found);
 	consume_len = data_len;
-	if (found && M_parser_len(emailr->parser) >= emailr->boundary_len + 2) {
+	if (found && M_parser_len(emailr->parser) - data_len >= emailr->boundary_len + 2) {
 		/* Eat the boundary. */
+		M_parser_mark(emailr->parser);
+		M_parser_consume(emailr->parser, data_len);
 		M_parser_consume(emailr->parser, emailr->boundary_len);
 
 		if (M_parser_compare_str(emailr->parser, "--", 2, M_FALSE)) {
@@ -490,27 +517,24 @@ static M_state_machine_status_t state_multipart_preamble(void *data, M_uint64 *n
 
 		full_read   = M_TRUE;
 		consume_len = M_parser_mark_len(emailr->parser);
-	}
-	M_parser_mark_rewind(emailr->parser);
-
-	/* The data before the boundary should end with a \r\n. The only time it
- 	 * doesn't is if there is no preamble. The \r\n is not part of the data. */
-	if (data_len == 1) {
 		M_parser_mark_rewind(emailr->parser);
-		emailr->res = M_EMAIL_ERROR_MULTIPART_INVALID;
-		return M_STATE_MACHINE_STATUS_ERROR_STATE;
-	} else if (data_len >= 2) {
-		M_parser_mark(emailr->parser);
-		M_parser_consume(emailr->parser, data_len-2);
-		if (!M_parser_compare_str(emailr->parser, "\r\n", 2, M_FALSE)) {
+
+		/* The data before the boundary should end with a \r\n. The only time it
+		 * doesn't is if there is no preamble. The \r\n is not part of the data. */
+		if ((data_len != 0 || emailr->have_preamble) && trailing_newline_len(emailr->parser, data_len) != 2) {
 			emailr->res = M_EMAIL_ERROR_MULTIPART_INVALID;
 			return M_STATE_MACHINE_STATUS_ERROR_STATE;
 		}
-		data_len -= 2;
-		M_parser_mark_rewind(emailr->parser);
+		if (data_len != 0)
+			data_len -= 2;
+	} else {
+		/* A line end might belong to the boundary that's still to come. */
+		data_len    -= trailing_newline_len(emailr->parser, data_len);
+		consume_len  = data_len;
 	}
 
 	if (data_len != 0) {
+		emailr->have_preamble = M_TRUE;
 		res = emailr->cbs.multipart_preamble_func((const char *)M_parser_peek(emailr->parser), data_len, emailr->thunk);
 		if (res != M_EMAIL_ERROR_SUCCESS) {
 			emailr->res = res;
@@ -542,8 +566,10 @@ static M_state_machine_status_t state_multipart_data(void *data, M_uint64 *next)
 	size_t            consume_len;
 	size_t            boundary_len;
 	size_t            data_len;
+	size_t            sub_len;
 	M_email_error_t   res          = M_EMAIL_ERROR_SUCCESS;
 	M_bool            found        = M_FALSE;
+	M_bool            sub_found    = M_FALSE;
 
 	(void)next;
 
@@ -551,36 +577,33 @@ static M_state_machine_status_t state_multipart_data(void *data, M_uint64 *next)
 		return M_STATE_MACHINE_STATUS_WAIT;
 
 	/* Find all the data before the boundary. */
-	M_parser_mark(emailr->parser);
 	emailr->is_sub_boundary_match = M_FALSE;
+	boundary_len = emailr->boundary_len;
+	consume_len  = find_boundary(emailr->parser, emailr->boundary, boundary_len, &found);
 	if (emailr->sub_boundary != NULL) {
-		boundary_len = emailr->sub_boundary_len;
-		consume_len = M_parser_consume_boundary(emailr->parser, (unsigned char *)emailr->sub_boundary, boundary_len, M_FALSE, &found);
-		if (!found) {
-			M_parser_mark_rewind(emailr->parser);
-			M_parser_mark(emailr->parser);
-			boundary_len = emailr->boundary_len;
-			consume_len = M_parser_consume_boundary(emailr->parser, (unsigned char *)emailr->boundary, boundary_len, M_FALSE, &found);
-		} else {
+		/* What comes first counts, or the longer one if one starts like the other (which takes
+		 * more data to decide while the longer one isn't there completely). */
+		sub_len = find_boundary(emailr->parser, emailr->sub_boundary, emailr->sub_boundary_len, &sub_found);
+		if (sub_len == consume_len && (!found || !sub_found)) {
+			found = M_FALSE;
+		} else if (sub_len < consume_len || (sub_len == consume_len && emailr->sub_boundary_len > boundary_len)) {
+			consume_len                   = sub_len;
+			boundary_len                  = emailr->sub_boundary_len;
+			found                         = sub_found;
 			emailr->is_sub_boundary_match = M_TRUE;
 		}
-	} else {
-		boundary_len = emailr->boundary_len;
-		consume_len = M_parser_consume_boundary(emailr->parser, (unsigned char *)emailr->boundary, boundary_len, M_FALSE, &found);
 	}
-	data_len    = consume_len;
-	M_parser_mark_rewind(emailr->parser);
 
 	/* The data and boundary are separated by a \r\n which is not part of the data.
 	 *
 	 * While we should treat a missing \r\n as an error, we're going to be lenient and allow it. */
-	if (consume_len >= 2) {
-		M_parser_mark(emailr->parser);
-		M_parser_consume(emailr->parser, consume_len-2);
-		if (M_parser_compare_str(emailr->parser, "\r\n", 2, M_FALSE)) {
-			data_len -= 2;
-		}
-		M_parser_mark_rewind(emailr->parser);
+	data_len = consume_len;
+	if (!found) {
+		/* A line end might belong to the boundary that's still to come. */
+		data_len    -= trailing_newline_len(emailr->parser, data_len);
+		consume_len  = data_len;
+	} else if (trailing_newline_len(emailr->parser, data_len) == 2) {
+		data_len -= 2;
 	}
 
 	if (data_len != 0) {
@@ -617,17 +640,22 @@ static M_state_machine_status_t state_multipart_check_end(void *data, M_uint64 *
 		return M_STATE_MACHINE_STATUS_WAIT;
 
 	if (emailr->is_sub_boundary_match && M_parser_compare_str(emailr->parser, "--", 2, M_FALSE)) {
-		M_bool found;
 		emailr->is_sub_boundary_match = M_FALSE;
+		emailr->is_sub_boundary_end   = M_TRUE;
+	}
+
+	if (emailr->is_sub_boundary_end) {
+		M_bool found = M_FALSE;
 		M_parser_consume_boundary(emailr->parser, (unsigned char *)emailr->boundary, emailr->boundary_len, M_TRUE, &found);
-		if (!found) {
-			emailr->res = M_EMAIL_ERROR_MULTIPART_INVALID;
-			return M_STATE_MACHINE_STATUS_ERROR_STATE;
-		}
+		if (!found)
+			return M_STATE_MACHINE_STATUS_WAIT;
+		emailr->is_sub_boundary_end = M_FALSE;
+		if (M_parser_len(emailr->parser) < 2)
+			return M_STATE_MACHINE_STATUS_WAIT;
 	}
 
 	if (M_parser_compare_str(emailr->parser, "--", 2, M_FALSE)) {
-		M_parser_consume(emailr->parser, 2);
+		emailr->epilouge_start = M_TRUE;
 		*next = STATE_MULTIPART_EPILOUGE;
 	} else if (!M_parser_compare_str(emailr->parser, "\r\n", 2, M_FALSE)) {
 		emailr->res = M_EMAIL_ERROR_MULTIPART_INVALID;
@@ -637,10 +665,12 @@ static M_state_machine_status_t state_multipart_check_end(void *data, M_uint64 *
 	}
 	M_parser_consume(emailr->parser, 2);
 
-	res = emailr->cbs.multipart_data_finished_func(emailr->thunk);
-	if (res != M_EMAIL_ERROR_SUCCESS) {
-		emailr->res = res;
-		return M_STATE_MACHINE_STATUS_ERROR_STATE;
+	if (emailr->epilouge_start) {
+		res = emailr->cbs.multipart_data_finished_func(emailr->thunk);
+		if (res != M_EMAIL_ERROR_SUCCESS) {
+			emailr->res = res;
+			return M_STATE_MACHINE_STATUS_ERROR_STATE;
+		}
 	}
 
 	return M_STATE_MACHINE_STATUS_NEXT;
@@ -652,9 +682,21 @@ static M_state_machine_status_t state_multipart_epilouge(void *data, M_uint64 *n
 
 	(void)next;
 
+	/* The line end of the final boundary isn't part of the epilogue. */
+	if (emailr->epilouge_start && M_parser_len(emailr->parser) != 0) {
+		if (M_parser_compare_str(emailr->parser, "\r", 1, M_FALSE) && M_parser_len(emailr->parser) == 1) {
+			emailr->res = M_EMAIL_ERROR_SUCCESS;
+			return M_STATE_MACHINE_STATUS_WAIT;
+		}
+		if (M_parser_compare_str(emailr->parser, "\r\n", 2, M_FALSE))
+			M_parser_consume(emailr->parser, 2);
+		emailr->epilouge_start = M_FALSE;
+	}
+
+	/* We have a complete email. There may be (more of) an epilogue later. */
 	if (M_parser_len(emailr->parser) == 0) {
 		emailr->res = M_EMAIL_ERROR_SUCCESS;
-		return M_STATE_MACHINE_STATUS_NEXT;
+		return M_STATE_MACHINE_STATUS_WAIT;
 	}
 
 	emailr->res = emailr->cbs.multipart_epilouge_func((const char *)M_parser_peek(emailr->parser), M_parser_len(emailr->parser), emailr->thunk);
-- 
2.43.0


From ab40a285979a63c5bca187c7cf20195423da1ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:45 +0000
Subject: [PATCH 262/268] fix: email: names with separators in them were
 written without quotes

A name with a semicolon, colon, quote or backslash, and the name of a group with
any of the separators, could not be read back.
---
 formats/email/m_email_common.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/formats/email/m_email_common.c b/formats/email/m_email_common.c
index 3b767c7..70aaccb 100644
--- a/formats/email/m_email_common.c
+++ b/formats/email/m_email_common.c
@@ -242,7 +242,7 @@ static char *M_email_address_format(const char *name, const char *address)
 		return M_buf_finish_str(buf, NULL);
 	}
 
-	M_buf_add_str_quoted(buf, '\"', '\\', "<>,@.", M_FALSE, name);
+	M_buf_add_str_quoted(buf, '\"', '\\', "<>,@.;:\"\\()[]", M_FALSE, name);
 	M_buf_add_byte(buf, ' ');
 	M_buf_add_byte(buf, '<');
 	M_buf_add_str(buf, address);
@@ -259,7 +259,7 @@ static char *M_email_address_format_group(const char *group, const char *address
 		return M_strdup(address_list);
 
 	buf = M_buf_create();
-	M_buf_add_str(buf, group);
+	M_buf_add_str_quoted(buf, '\"', '\\', "<>,@.;:\"\\()[]", M_FALSE, group);
 	M_buf_add_str(buf, ": ");
 	M_buf_add_str(buf, address_list);
 
-- 
2.43.0


From fcb018a877782924df1f4c2eac07d95880529dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:45 +0000
Subject: [PATCH 263/268] fix: email: an email with an attachment was written
 with a boundary nothing announced

Unless the first part is a multipart container, the boundary of the inner parts
ended up in the data of the part before it, or parts were merged when read.
---
 formats/email/m_email_simple_writer.c | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/formats/email/m_email_simple_writer.c b/formats/email/m_email_simple_writer.c
index 17acff7..20a1e75 100644
--- a/formats/email/m_email_simple_writer.c
+++ b/formats/email/m_email_simple_writer.c
@@ -32,6 +32,19 @@ static const size_t LINE_LEN = 78;
 
 /* - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - */
 
+/* The first part may only be a container for the parts (other than attachments) following it,
+ * which are then separated by a boundary of their own. */
+static M_bool M_email_has_container(const M_email_t *email)
+{
+	const char *val;
+
+	if (M_email_parts_len(email) == 0 || M_email_part_is_attachmenet(email, 0))
+		return M_FALSE;
+
+	val = M_hash_dict_get_direct(M_email_part_headers(email, 0), "Content-Type");
+	return M_str_casestr(val, "multipart") != NULL?M_TRUE:M_FALSE;
+}
+
 static M_bool M_email_has_attachment(const M_email_t *email)
 {
 	size_t i;
@@ -308,7 +321,8 @@ static M_bool M_email_simple_write_add_parts(const M_email_t *email, M_buf_t *bu
 		const char          *key;
 		const char          *val;
 
-		if (M_email_part_is_attachmenet(email, i) != is_processing_attachments)
+		/* Without a container the attachments don't need to be separate. */
+		if (!(is_processing_attachments && sub_boundary == boundary) && M_email_part_is_attachmenet(email, i) != is_processing_attachments)
 			continue;
 
 		/* Add the boundary. */
@@ -462,7 +476,11 @@ M_bool M_email_simple_write_buf(const M_email_t *email, M_buf_t *buf)
 	if (!M_email_simple_write_add_preamble(email, buf))
 		goto err;
 
-	if (M_email_has_attachment(email)) {
+	if (M_email_has_attachment(email) && !M_email_has_container(email)) {
+		/* No other boundary is announced */
+		if (!M_email_simple_write_add_parts(email, buf, boundary, boundary, M_TRUE))
+			goto err;
+	} else if (M_email_has_attachment(email)) {
 		sub_boundary = M_email_write_gen_boundary();
 		if (!M_email_simple_write_add_parts(email, buf, boundary, sub_boundary, M_FALSE))
 			goto err;
-- 
2.43.0


From aa3a2c5bc42d08c8b89284e8fdf235b522894f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:16 +0000
Subject: [PATCH 264/268] fix: email: an empty group with white space after the
 colon was refused

---
 formats/email/m_email_common.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/formats/email/m_email_common.c b/formats/email/m_email_common.c
index 70aaccb..9cbac56 100644
--- a/formats/email/m_email_common.c
+++ b/formats/email/m_email_common.c
@@ -181,6 +181,7 @@ M_email_error_t M_email_process_address(const char *val, M_email_error_t (*addre
 		}
 
 		/* Split address within the group or address list. */
+		M_str_trim(group[address_idx]);
 		addresses = M_str_explode_str_quoted(',', group[address_idx], '"', '\\', 0, &num_addresses);
 		if (addresses == NULL || num_addresses == 0) {
 			/* Groups don't have to have addresses. */
-- 
2.43.0


From 03ee08cab6c9ad38822294426a8b01fa43737580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:30 +0000
Subject: [PATCH 265/268] fix: email: an epilogue that was not there was read
 back from a written email

Without attachments the final boundary was followed by an additional empty line.
---
 formats/email/m_email_simple_writer.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/formats/email/m_email_simple_writer.c b/formats/email/m_email_simple_writer.c
index 20a1e75..21f0d10 100644
--- a/formats/email/m_email_simple_writer.c
+++ b/formats/email/m_email_simple_writer.c
@@ -413,7 +413,8 @@ static M_bool M_email_simple_write_add_parts(const M_email_t *email, M_buf_t *bu
 
 	/* Ending boundary. */
 	M_buf_add_str(buf, "--");
-	if (is_processing_attachments) {
+	if (is_processing_attachments || sub_boundary == boundary) {
+		/* Last thing written other than the epilogue, which starts with the line end of the boundary. */
 		M_buf_add_str(buf, boundary);
 		M_buf_add_str(buf, "--");
 	} else {
@@ -431,9 +432,6 @@ static M_bool M_email_simple_write_add_epilouge(const M_email_t *email, M_buf_t
 	const char *const_temp;
 
 	const_temp = M_email_epilouge(email);
-	if (M_str_isempty(const_temp))
-		return M_TRUE;
-
 	M_buf_add_str(buf, "\r\n");
 	M_buf_add_str(buf, const_temp);
 
-- 
2.43.0


From 600d64d6d064357f38b3bba1c870c7acdd089c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:38 +0000
Subject: [PATCH 266/268] fix: email: an attachment's name with a semicolon was
 cut, one without quotes kept "name="

---
 formats/email/m_email_common.c | 39 ++++++++++++++++++++++++----------
 1 file changed, 28 insertions(+), 11 deletions(-)

diff --git a/formats/email/m_email_common.c b/formats/email/m_email_common.c
index 9cbac56..55f9aeb 100644
--- a/formats/email/m_email_common.c
+++ b/formats/email/m_email_common.c
@@ -269,18 +269,42 @@ static char *M_email_address_format_group(const char *group, const char *address
 
 /* - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - */
 
+/* Split the parameters of a header. The separator may be part of a quoted value. */
+static M_parser_t **split_params(const char *val, size_t *num_parts)
+{
+	M_parser_t **parts;
+	char       **strs;
+	size_t       num = 0;
+	size_t       i;
+
+	*num_parts = 0;
+	strs = M_str_explode_str_quoted(';', val, '"', '\\', 0, &num);
+	if (strs == NULL || num == 0) {
+		M_str_explode_free(strs, num);
+		return NULL;
+	}
+
+	parts = M_malloc_zero(sizeof(*parts) * num);
+	for (i=0; i<num; i++) {
+		parts[i] = M_parser_create(M_PARSER_FLAG_NONE);
+		M_parser_append(parts[i], (const unsigned char *)strs[i], M_str_len(strs[i]));
+	}
+	M_str_explode_free(strs, num);
+
+	*num_parts = num;
+	return parts;
+}
+
 /* Content-Disposition */
 M_bool M_email_attachment_parse_info_attachment(const char *val, char **filename)
 {
-	M_parser_t  *parser        = NULL;
 	M_parser_t **parts         = NULL;
 	char        *myfilename    = NULL;
 	size_t       num_parts     = 0;
 	size_t       i;
 	M_bool       is_attachment = M_FALSE;
 
-	parser = M_parser_create_const((const unsigned char *)val, M_str_len(val), M_PARSER_FLAG_NONE);
-	parts  = M_parser_split(parser, ';', 0, M_PARSER_SPLIT_FLAG_NONE, &num_parts);
+	parts = split_params(val, &num_parts);
 
 	for (i=0; i<num_parts; i++) {
 		M_parser_consume_whitespace(parts[i], M_PARSER_WHITESPACE_NONE);
@@ -297,7 +321,6 @@ M_bool M_email_attachment_parse_info_attachment(const char *val, char **filename
 		}
 	}
 
-	M_parser_destroy(parser);
 	M_parser_split_free(parts, num_parts);
 
 	if (is_attachment) {
@@ -316,7 +339,6 @@ M_bool M_email_attachment_parse_info_attachment(const char *val, char **filename
 /* Content-Type */
 char *M_email_attachment_parse_info_content_type(const char *val, char **filename)
 {
-	M_parser_t    *parser     = NULL;
 	M_parser_t   **parts      = NULL;
 	M_list_str_t  *abriged    = NULL;
 	char          *myfilename = NULL;
@@ -324,8 +346,7 @@ char *M_email_attachment_parse_info_content_type(const char *val, char **filenam
 	size_t         i;
 	char          *out;
 
-	parser  = M_parser_create_const((const unsigned char *)val, M_str_len(val), M_PARSER_FLAG_NONE);
-	parts   = M_parser_split(parser, ';', 0, M_PARSER_SPLIT_FLAG_NONE, &num_parts);
+	parts   = split_params(val, &num_parts);
 	abriged = M_list_str_create(M_LIST_STR_NONE);
 
 	for (i=0; i<num_parts; i++) {
@@ -334,10 +355,7 @@ char *M_email_attachment_parse_info_content_type(const char *val, char **filenam
 
 			/* Content-Type: application/octet-stream; name="file.log"
  			 * Content-Type: text/xml; charset=UTF-8; x-mac-type="0"; x-mac-creator="0"; */
-			M_parser_mark(parts[i]);
 			if (M_str_isempty(myfilename) && M_parser_consume_str_until(parts[i], "name=", M_TRUE) != 0) {
-				M_parser_mark_rewind(parts[i]);
-
 				M_parser_consume_until(parts[i], (const unsigned char *)"\"", 1, M_TRUE);
 				M_parser_truncate_until(parts[i], (const unsigned char *)"\"", 1, M_TRUE);
 
@@ -350,7 +368,6 @@ char *M_email_attachment_parse_info_content_type(const char *val, char **filenam
 			}
 	}
 
-	M_parser_destroy(parser);
 	M_parser_split_free(parts, num_parts);
 
 	out = M_list_str_join_str(abriged, "; ");
-- 
2.43.0


From 420d84972f5a46efbdaff8bf40886b98acf618f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:27 +0000
Subject: [PATCH 267/268] fix: email: a colon alone was taken as a group
 without a name or addresses

---
 formats/email/m_email_common.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/formats/email/m_email_common.c b/formats/email/m_email_common.c
index 55f9aeb..8f3bb78 100644
--- a/formats/email/m_email_common.c
+++ b/formats/email/m_email_common.c
@@ -185,8 +185,9 @@ M_email_error_t M_email_process_address(const char *val, M_email_error_t (*addre
 		addresses = M_str_explode_str_quoted(',', group[address_idx], '"', '\\', 0, &num_addresses);
 		if (addresses == NULL || num_addresses == 0) {
 			/* Groups don't have to have addresses. */
-			if (group_name != NULL) {
+			if (!M_str_isempty(group_name))
 				res = address_func(group_name, NULL, NULL, thunk);
+			if (group_name != NULL) {
 				M_free(group_name);
 				group_name = NULL;
 				if (res != M_EMAIL_ERROR_SUCCESS) {
-- 
2.43.0


From 709cf67c7fa1b1773cf6d6e53860a655a3bf3b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:42 +0000
Subject: [PATCH 268/268] fix: email: an address in two pairs of brackets was
 accepted with one of them

---
 formats/email/m_email_common.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/formats/email/m_email_common.c b/formats/email/m_email_common.c
index 8f3bb78..4936a7e 100644
--- a/formats/email/m_email_common.c
+++ b/formats/email/m_email_common.c
@@ -79,7 +79,8 @@ static M_email_error_t M_email_process_address_list(const char *group_name, char
 			address = M_strdup_trim(parts[part_idx]);
 		}
 
-		if (!M_verify_email_address(address)) {
+		/* Verifying allows for a name and brackets but we're past that here. */
+		if (M_str_chr(address, '<') != NULL || !M_verify_email_address(address)) {
 			res = M_EMAIL_ERROR_ADDRESS;
 			goto done;
 		}
-- 
2.43.0

