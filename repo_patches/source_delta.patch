From 632ed42eb7ed614aba9fefce0b774a94447a2c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:47 +0000
Subject: [PATCH 01/25] fix: record the last error when a mutex or generator
 call is refused

---
 neco.c | 31 +++++++++++++------------------
 1 file changed, 13 insertions(+), 18 deletions(-)

diff --git a/neco.c b/neco.c
index 47dc2fe..79f3575 100644
--- a/neco.c
+++ b/neco.c
@@ -7161,10 +7161,9 @@ int neco_mutex_trylock(neco_mutex *mutex) {
     struct coroutine *co = coself();
     struct neco_mutex *mu = (void*)mutex;
     int ret = check_mutex(co, mu);
-    if (ret != NECO_OK) {
-        return ret;
+    if (ret == NECO_OK) {
+        ret = mutex_trylock(co, mu, true, 0);
     }
-    ret = mutex_trylock(co, mu, true, 0);
     async_error_guard(ret);
     return ret;
 }
@@ -7173,10 +7172,9 @@ int neco_mutex_tryrdlock(neco_mutex *mutex) {
     struct coroutine *co = coself();
     struct neco_mutex *mu = (void*)mutex;
     int ret = check_mutex(co, mu);
-    if (ret != NECO_OK) {
-        return ret;
+    if (ret == NECO_OK) {
+        ret = mutex_tryrdlock(co, mu, true, 0);
     }
-    ret = mutex_tryrdlock(co, mu, true, 0);
     async_error_guard(ret);
     return ret;
 }
@@ -7210,10 +7208,9 @@ int neco_mutex_lock_dl(neco_mutex *mutex, int64_t deadline) {
     struct coroutine *co = coself();
     struct neco_mutex *mu = (void*)mutex;
     int ret = check_mutex(co, mu);
-    if (ret != NECO_OK) {
-        return ret;
+    if (ret == NECO_OK) {
+        ret = mutex_lock_dl(co, mu, deadline);
     }
-    ret = mutex_lock_dl(co, mu, deadline);
     async_error_guard(ret);
     return ret;
 }
@@ -7226,10 +7223,9 @@ int neco_mutex_rdlock_dl(neco_mutex *mutex, int64_t deadline) {
     struct coroutine *co = coself();
     struct neco_mutex *mu = (void*)mutex;
     int ret = check_mutex(co, mu);
-    if (ret != NECO_OK) {
-        return ret;
+    if (ret == NECO_OK) {
+        ret = mutex_tryrdlock(co, mu, false, deadline);
     }
-    ret = mutex_tryrdlock(co, mu, false, deadline);
     if (ret == NECO_BUSY) {
         // Another coroutine is holding this lock.
         ret = finish_lock(co, mu, true, deadline);
@@ -8581,13 +8577,12 @@ int neco_gen_release(neco_gen *gen) {
 /// Same as neco_gen_yield() but with a deadline parameter.
 int neco_gen_yield_dl(void *data, int64_t deadline) {
     struct coroutine *co = coself();
-    if (!co) {
-        return NECO_PERM;
-    }
-    if (!co->gen) {
-        return NECO_NOTGENERATOR;
+    int ret = !co ? NECO_PERM : !co->gen ? NECO_NOTGENERATOR : NECO_OK;
+    if (ret == NECO_OK) {
+        return neco_chan_send_dl((void*)co->gen, data, deadline);
     }
-    return neco_chan_send_dl((void*)co->gen, data, deadline);
+    error_guard(ret);
+    return ret;
 }
 
 /// Send a value to the generator for the next iteration.
-- 
2.43.0


From 1814981616235eb0bfed71a7dd36388f94049246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:07 +0000
Subject: [PATCH 02/25] fix: reading a buffered byte no longer swallows a
 pending cancel or keeps a stale last error

---
 neco.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/neco.c b/neco.c
index 79f3575..7db964e 100644
--- a/neco.c
+++ b/neco.c
@@ -8127,9 +8127,10 @@ ssize_t neco_stream_buffered_read_size(neco_stream *stream) {
 int neco_stream_read_byte_dl(neco_stream *stream, int64_t deadline) {
     unsigned char byte;
     if (rt && stream && stream->rtid == rt->id && stream->buffered && 
-        stream->rd.len > 0 && checkdl(coself(), deadline) == NECO_OK)
+        stream->rd.len > 0)
     {
         // fast-track read byte
+        lasterr = NECO_OK;
         byte = (unsigned char)stream->rd.data[stream->rd.pos];
         stream->rd.pos++;
         stream->rd.len--;
-- 
2.43.0


From 0626c0d30387c540a300511f48449eb2ce89a8b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:07 +0000
Subject: [PATCH 03/25] fix: give the end-of-file error its name and
 description

---
 neco.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/neco.c b/neco.c
index 7db964e..7346863 100644
--- a/neco.c
+++ b/neco.c
@@ -5603,6 +5603,8 @@ const char *neco_shortstrerror(int code) {
         return "NECO_NOTGENERATOR";
     case NECO_NOTSUSPENDED:
         return "NECO_NOTSUSPENDED";
+    case NECO_EOF:
+        return "NECO_EOF";
     default:
         return "UNKNOWN";
     }
@@ -5652,6 +5654,8 @@ const char *neco_strerror(ssize_t errcode) {
         return "Coroutine is not a generator";
     case NECO_NOTSUSPENDED:
         return "Coroutine is not suspended";
+    case NECO_EOF:
+        return "End of file";
     default: {
         static __thread char udmsg[32];
         snprintf(udmsg, sizeof(udmsg)-1, "Undefined error: %zd", errcode);
-- 
2.43.0


From 5c5a11806000bebe56f22b85a07927373c3734b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:43 +0000
Subject: [PATCH 04/25] fix: an exiting coroutine exits once, and a pooled
 coroutine starts fresh

---
 neco.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/neco.c b/neco.c
index 7346863..bfc12c3 100644
--- a/neco.c
+++ b/neco.c
@@ -3855,6 +3855,11 @@ static int start(void(*coroutine)(int, void**), int argc, va_list *args,
     co->coroutine = coroutine;
     co->canceltype = env_canceltype;
     co->cancelstate = env_cancelstate;
+    // The coroutine may come from the pool. Forget what the last one left.
+    co->lastid = 0;
+    co->canceled = false;
+    co->deadlined = false;
+    co->cleanup = NULL;
 
     if (gen) {
         co->gen = chan_fastmake(gen_data_size, 0, true);
@@ -7716,6 +7721,11 @@ static void coexit(bool async) {
     // The current coroutine _must_ exit.
     struct coroutine *co = coself();
 
+    // It can no longer be canceled. Otherwise the yields below (or those of a
+    // cleanup handler) would start another exit from inside of this one.
+    co->cancelstate = NECO_CANCEL_DISABLE;
+    co->canceled = false;
+
     if (async) {
         // Run the cleanup stack
         while (co->cleanup) {
-- 
2.43.0


From f944191b0950b179b89c7867cbbf9d43ba9b7727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:47 +0000
Subject: [PATCH 05/25] fix: a finished coroutine no longer counts as watching
 signals

---
 neco.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/neco.c b/neco.c
index bfc12c3..85d7f25 100644
--- a/neco.c
+++ b/neco.c
@@ -7733,6 +7733,11 @@ static void coexit(bool async) {
         }
     }
 
+    // Stop watching for signals
+    for (int signo = 1; co->sigwatch && signo < 32; signo++) {
+        signal_unwatch(signo);
+    }
+
     // Delete from map 
     comap_delete(&rt->all, co);
 
-- 
2.43.0


From c61e6fe82d1a9bbe7d638b8dcbdb0cb45e9ded04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:57 +0000
Subject: [PATCH 06/25] fix: a pending signal that nobody waits for no longer
 blocks the others

---
 neco.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neco.c b/neco.c
index 85d7f25..0606084 100644
--- a/neco.c
+++ b/neco.c
@@ -4062,7 +4062,8 @@ static void rt_sched_signal_step(void) {
                 if (co->sigmask & (UINT32_C(1) << signo)) {
                     // A coroutine is waiting on this signal.
                     // Assign the signal to its sigmask and resume
-                    // the coroutine.
+                    // the coroutine, which now waits for no other.
+                    remove_from_list(co);
                     co->sigmask = (uint32_t)signo;
                     rt->sigqueue[signo]--;
                     if (rt->sigqueue[signo] == 0) {
@@ -4074,7 +4075,6 @@ static void rt_sched_signal_step(void) {
                 co = next;
             }
         }
-        break;
     }
 }
 
-- 
2.43.0


From 08b1d016ba84d6a269e61c9d06e751209b1d34a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:40 +0000
Subject: [PATCH 07/25] fix: an operation that was completed for a waiter is
 reported as completed

A waiter that was handed a message, a mutex, or a signal, and whose deadline
passed (or that was canceled) before it ran again, returned an error: the
message was lost or the mutex stayed locked forever.
---
 neco.c | 33 ++++++++++++++++++++++++++-------
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/neco.c b/neco.c
index 0606084..0da0e3f 100644
--- a/neco.c
+++ b/neco.c
@@ -3336,6 +3336,7 @@ struct coroutine {
     int64_t starterid;            // identifer of the starter coroutine
     bool paused;                  // coroutine is paused
     bool deadlined;               // coroutine operation was deadlined
+    bool granted;                 // coroutine operation was completed
 
     struct cleanup *cleanup;      // cancelation cleanup stack
 
@@ -3666,10 +3667,17 @@ static void coyield(void) {
 // for multiple coroutines to be scheduled as a batch. While sco_resume() will 
 // immediately yield the current coroutine to the provided coroutine.
 static void sched_resume(struct coroutine *co) {
+    co->granted = true;
     colist_push_back(&rt->resumers, co);
     rt->nresumers++;
 }
 
+// Resume a paused coroutine immediately, now that its operation is complete.
+static void grant_resume(struct coroutine *co) {
+    co->granted = true;
+    sco_resume(co->id);
+}
+
 static void yield_for_sched_resume(void) {
     // Two yields may be required. The first will resume the paused coroutines
     // that are in the resumers queue. The second yield ensures that the
@@ -3859,6 +3867,7 @@ static int start(void(*coroutine)(int, void**), int argc, va_list *args,
     co->lastid = 0;
     co->canceled = false;
     co->deadlined = false;
+    co->granted = false;
     co->cleanup = NULL;
 
     if (gen) {
@@ -4069,7 +4078,7 @@ static void rt_sched_signal_step(void) {
                     if (rt->sigqueue[signo] == 0) {
                         rt->sigmask &= ~(UINT32_C(1) << signo);
                     }
-                    sco_resume(co->id);
+                    grant_resume(co);
                     next = (struct coroutine*)&rt->sigwaiters.tail;
                 }
                 co = next;
@@ -4494,6 +4503,7 @@ static struct coroutine *cofind(int64_t id) {
 // pause the currently running coroutine with the provided deadline.
 static void copause(int64_t deadline) {
     struct coroutine *co = coself();
+    co->granted = false;
     // Cannot pause an already canceled or deadlined coroutine.
     if (!co->canceled && !co->deadlined) {
         co->deadline = deadline;
@@ -4606,6 +4616,14 @@ static int64_t starterid(void) {
 // co->canceled and co->deadlined flags to false, and returns the appropriate
 // error code. This is typically used from *_dl operations.
 static int checkdl(struct coroutine *co, int64_t deadline) {
+    if (co->granted) {
+        // The operation was completed by whoever woke up this coroutine. It
+        // succeeds, even when it was deadlined or canceled after that. The
+        // cancel is left for the next operation.
+        co->granted = false;
+        co->deadlined = false;
+        return NECO_OK;
+    }
     if (!co->canceled && !co->deadlined && deadline == INT64_MAX) {
         // Most cases.
         return NECO_OK;
@@ -4670,6 +4688,7 @@ static int cancel_dl(int64_t id, int64_t deadline) {
         colist_push_back(&cotarg->cancellist, co);
         cotarg->ncancellist++;
         copause(deadline);
+        co->granted = false;
         remove_from_list(co);
         cotarg->ncancellist--;
     }
@@ -6000,7 +6019,7 @@ static int chan_send0(struct neco_chan *chan, void *data, bool broadcast,
         }
         if (!broadcast) {
             // Resume receiver immediately.
-            sco_resume(recv->id);
+            grant_resume(recv);
             return NECO_OK;
         } else {
             // Schedule the reciever.
@@ -6104,7 +6123,7 @@ static int chan_tryrecv0(struct neco_chan *chan, void *data, bool try,
             chan->rclosed = true;
         }
         if (send) {
-            sco_resume(send->id);
+            grant_resume(send);
         }
         return NECO_OK;
     }
@@ -6123,7 +6142,7 @@ static int chan_tryrecv0(struct neco_chan *chan, void *data, bool try,
             // Now close the receiving side too.
             chan->rclosed = true;
         }
-        sco_resume(send->id);
+        grant_resume(send);
         return NECO_OK;
     }
     if (try) {
@@ -7420,7 +7439,7 @@ static int waitgroup_done(neco_waitgroup *waitgroup) {
         struct coroutine *co = colist_pop_front(&wg->queue);
         if (colist_is_empty(&wg->queue)) {
             // Only one waiter. Do a quick switch.
-            sco_resume(co->id);
+            grant_resume(co);
         } else {
             // Many waiters. Batch them together.
             do {
@@ -7560,7 +7579,7 @@ static int cond_signal(neco_cond *cond) {
     }
     struct coroutine *co = colist_pop_front(&cvar->queue);
     if (co) {
-        sco_resume(co->id);
+        grant_resume(co);
     }
     return NECO_OK;
 }
@@ -8694,7 +8713,7 @@ static int resume(int64_t id) {
     if (!co->suspended) {
         return NECO_NOTSUSPENDED;
     }
-    sco_resume(co->id);
+    grant_resume(co);
     return NECO_OK;
 }
 
-- 
2.43.0


From 0274b4bf94ba2668b49aad41d6e988e76c91fa8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:25 +0000
Subject: [PATCH 08/25] fix: waiting on a condition misses no signal and always
 returns with the mutex

The mutex was released, with a yield, before the caller was in the queue of the
condition, so a signal from the next owner of the mutex was missed. And a cancel
that arrived during the relock was dropped, or ended the coroutine without it.
---
 neco.c | 36 +++++++++++++++++++++++++++---------
 1 file changed, 27 insertions(+), 9 deletions(-)

diff --git a/neco.c b/neco.c
index 0da0e3f..92f37f6 100644
--- a/neco.c
+++ b/neco.c
@@ -7266,22 +7266,24 @@ int neco_mutex_rdlock(neco_mutex *mutex) {
     return neco_mutex_rdlock_dl(mutex, INT64_MAX);
 }
 
-static void mutex_fastunlock(struct neco_mutex *mu) {
+// Release the lock, handing it over to the next waiters in the queue, if any.
+// Returns true if there are waiters that have been scheduled to resume.
+static bool mutex_handoff(struct neco_mutex *mu) {
     if (!mu->locked) {
-        return;
+        return false;
     }
     if (mu->rlocked > 0) {
         // This lock is currently being used by a reader.
         mu->rlocked--;
         if (mu->rlocked > 0) {
             // There are still more readers using this lock.
-            return;
+            return false;
         }
     }
     if (colist_is_empty(&mu->queue)) {
         // There are no more coroutines in the queue.
         mu->locked = false;
-        return;
+        return false;
     }
     // Choose next coroutine to take the lock.
     while (1) {
@@ -7299,7 +7301,13 @@ static void mutex_fastunlock(struct neco_mutex *mu) {
         }
         break;
     }
-    yield_for_sched_resume();
+    return true;
+}
+
+static void mutex_fastunlock(struct neco_mutex *mu) {
+    if (mutex_handoff(mu)) {
+        yield_for_sched_resume();
+    }
 }
 
 static int mutex_unlock(neco_mutex *mutex) {
@@ -7320,6 +7328,7 @@ int neco_mutex_unlock(neco_mutex *mutex) {
     return ret;
 }
 
+#ifdef NECO_TESTING
 inline
 static int mutex_fastlock(struct coroutine *co, struct neco_mutex *mu,
     int64_t deadline)
@@ -7333,7 +7342,6 @@ static int mutex_fastlock(struct coroutine *co, struct neco_mutex *mu,
     return ret;
 }
 
-#ifdef NECO_TESTING
 // An optimistic lock routine for testing only
 int neco_mutex_fastlock(neco_mutex *mutex, int64_t deadline) {
     struct coroutine *co = coself();
@@ -7627,7 +7635,9 @@ static int cond_wait_dl(neco_cond *cond, neco_mutex *mutex, int64_t deadline) {
         co->canceled = false;
         return NECO_CANCELED;
     }
-    mutex_fastunlock(mu);
+    // Do not yield between releasing the mutex and waiting on the condition,
+    // otherwise a signal sent by the next owner of the mutex would be missed.
+    mutex_handoff(mu);
     // The coroutine was added to the deadliner queue. We can safely
     // yield and wait to be woken at some point in the future.
     colist_push_back(&cvar->queue, co);
@@ -7636,8 +7646,16 @@ static int cond_wait_dl(neco_cond *cond, neco_mutex *mutex, int64_t deadline) {
     rt->ncondwaiters--;
     remove_from_list(co);
     ret = checkdl(co, INT64_MAX);
-    // Must relock.
-    while (mutex_fastlock(co, mu, INT64_MAX) != NECO_OK) { }
+    // Must relock. A cancel that arrives meanwhile is left for later.
+    bool canceled = false;
+    while (1) {
+        int lret = mutex_lock_dl(co, mu, INT64_MAX);
+        if (lret == NECO_OK) {
+            break;
+        }
+        canceled = canceled || lret == NECO_CANCELED;
+    }
+    co->canceled = co->canceled || canceled;
     return ret;
 }
 
-- 
2.43.0


From 18c7f5f96f35469e06b95436bc45c6f2ce74aa76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:04 +0000
Subject: [PATCH 09/25] fix: a cancel no longer wakes a coroutine whose
 background work is still running

---
 neco.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/neco.c b/neco.c
index 92f37f6..d2fa5ae 100644
--- a/neco.c
+++ b/neco.c
@@ -3342,6 +3342,7 @@ struct coroutine {
 
     bool rlocked;
     bool suspended;
+    bool working;                 // a background worker has the coroutine
 
     int64_t pool_ts;              // timestamp when added to a pool
 
@@ -4678,8 +4679,12 @@ static int cancel_dl(int64_t id, int64_t deadline) {
         if (cotarg->cancelstate == NECO_CANCEL_ENABLE) {
             // Coroutine was found and its cancel state is enabled.
             // Set the cancel flag and wake it up.
+            // Except when it's in the hands of a background worker, which
+            // cannot be interrupted and still uses the coroutine's stack.
             cotarg->canceled = true;
-            sco_resume(id);
+            if (!cotarg->working) {
+                sco_resume(id);
+            }
             coyield();
             return NECO_OK;
         }
@@ -5094,7 +5099,9 @@ static ssize_t read1(int fd, void *data, size_t nbytes) {
         int64_t pin = co->id % NECO_MAXIOWORKERS;
         if (worker_submit(rt->worker, pin, ioread, &info)) {
             rt->niowaiters++;
+            co->working = true;
             sco_pause();
+            co->working = false;
             rt->niowaiters--;
             n = info.res;
             if (n < 0) {
@@ -5256,7 +5263,9 @@ static ssize_t write3(int fd, const void *data, size_t nbytes) {
         int64_t pin = co->id % NECO_MAXIOWORKERS;
         if (worker_submit(rt->worker, pin, iowrite, &info)) {
             rt->niowaiters++;
+            co->working = true;
             sco_pause();
+            co->working = false;
             rt->niowaiters--;
             n = info.res;
             if (n < 0) {
@@ -8783,7 +8792,9 @@ static int workfn(int64_t pin, void(*work)(void *udata), void *udata) {
     while (!worker_submit(rt->worker, pin, iowork, &info)) {
         sco_yield();
     }
+    co->working = true;
     sco_pause();
+    co->working = false;
     rt->niowaiters--;
 #endif
     return NECO_OK;
-- 
2.43.0


From 2467b632fc0e3c07b66a9bf1f3c8e69281e065f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:57 +0000
Subject: [PATCH 10/25] fix: enabling cancelation wakes the coroutines that are
 waiting to cancel

---
 neco.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/neco.c b/neco.c
index d2fa5ae..7139a86 100644
--- a/neco.c
+++ b/neco.c
@@ -4695,7 +4695,10 @@ static int cancel_dl(int64_t id, int64_t deadline) {
         copause(deadline);
         co->granted = false;
         remove_from_list(co);
-        cotarg->ncancellist--;
+        cotarg = cofind(id);
+        if (cotarg) {
+            cotarg->ncancellist--;
+        }
     }
 }
 
@@ -7717,6 +7720,14 @@ static int setcancelstate(int state, int *oldstate) {
         *oldstate = co->cancelstate;
     }
     co->cancelstate = state;
+    if (state == NECO_CANCEL_ENABLE) {
+        // Let the coroutines that are waiting to cancel this one try again.
+        struct coroutine *cowaiter = colist_pop_front(&co->cancellist);
+        while (cowaiter) {
+            sched_resume(cowaiter);
+            cowaiter = colist_pop_front(&co->cancellist);
+        }
+    }
     return NECO_OK;
 }
 
-- 
2.43.0


From d5125c7087f4351ed29369ea947829775d1ac3a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:23 +0000
Subject: [PATCH 11/25] fix: a hangup wakes the coroutines that are waiting on
 the file

---
 neco.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/neco.c b/neco.c
index 7139a86..589a70f 100644
--- a/neco.c
+++ b/neco.c
@@ -4114,8 +4114,9 @@ static void rt_sched_event_step(int64_t timeout) {
     for (int i = 0; i < nevents; i++) {
 #if defined(NECO_POLL_EPOLL)
         int fd = evs[i].data.fd;
-        bool read = evs[i].events & EPOLLIN;
-        bool write = evs[i].events & EPOLLOUT;
+        // A hangup or an error makes the file ready for both.
+        bool read = evs[i].events & (EPOLLIN | EPOLLHUP | EPOLLERR);
+        bool write = evs[i].events & (EPOLLOUT | EPOLLHUP | EPOLLERR);
 #elif defined(NECO_POLL_KQUEUE)
         int fd = (int)evs[i].ident;
         bool read = evs[i].filter == EVFILT_READ;
-- 
2.43.0


From ca95000206a8278f5ed44fe504f8b6f7ebd0fff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:04 +0000
Subject: [PATCH 12/25] fix: an event on a file keeps the other kind of waiters
 armed

---
 neco.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/neco.c b/neco.c
index 589a70f..d5b337e 100644
--- a/neco.c
+++ b/neco.c
@@ -4117,6 +4117,14 @@ static void rt_sched_event_step(int64_t timeout) {
         // A hangup or an error makes the file ready for both.
         bool read = evs[i].events & (EPOLLIN | EPOLLHUP | EPOLLERR);
         bool write = evs[i].events & (EPOLLOUT | EPOLLHUP | EPOLLERR);
+        if (read != write && evexists(fd, read ? EVWRITE : EVREAD)) {
+            // The oneshot disarmed the file entirely, but there's still a
+            // coroutine waiting on the event that did not happen.
+            struct epoll_event ev = { 0 };
+            ev.data.fd = fd;
+            ev.events = (read ? EPOLLOUT : EPOLLIN) | EPOLLONESHOT;
+            epoll_ctl(rt->qfd, EPOLL_CTL_MOD, fd, &ev);
+        }
 #elif defined(NECO_POLL_KQUEUE)
         int fd = (int)evs[i].ident;
         bool read = evs[i].filter == EVFILT_READ;
-- 
2.43.0


From 1623cfdc5526cf1355c66d36d12d3a8b1b10d775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:05 +0000
Subject: [PATCH 13/25] fix: a broken pipe in a background write no longer
 crashes the program

---
 neco.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/neco.c b/neco.c
index d5b337e..acbe5f5 100644
--- a/neco.c
+++ b/neco.c
@@ -3972,6 +3972,14 @@ void neco_reset_sigcrashed(void) {
 static void sighandler(int signo, siginfo_t *info, void *ptr) {
     (void)info; (void)ptr;
     must(signo > 0 && signo < 32);
+    if (!rt) {
+        // Not a runtime thread, such as a background worker that has written
+        // to a broken pipe.
+        if (signo != SIGPIPE) {
+            sigexitnow(signo);
+        }
+        return;
+    }
     if (rt->sigcrashed) {
         sigexitnow(rt->sigcrashed);
         return;
-- 
2.43.0


From 4a88ab0d7c398f370e90c1e33566211e642dfc86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:05 +0000
Subject: [PATCH 14/25] fix: work is not accepted when its thread could not be
 created

---
 deps/worker.c | 4 +++-
 neco.c        | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/deps/worker.c b/deps/worker.c
index 1697a89..1013139 100644
--- a/deps/worker.c
+++ b/deps/worker.c
@@ -197,7 +197,9 @@ bool worker_submit(struct worker *worker, int64_t pin, void(*work)(void *udata),
         thread->len++;
         if (!thread->th) {
             int ret = pthread_create(&thread->th, 0, worker_entry, thread);
-            if (ret == -1) {
+            if (ret != 0) {
+                thread->th = 0;
+                thread->len--;
                 pthread_mutex_unlock(&thread->mu);
                 return false;
             }
diff --git a/neco.c b/neco.c
index acbe5f5..b560ae7 100644
--- a/neco.c
+++ b/neco.c
@@ -2820,7 +2820,9 @@ bool worker_submit(struct worker *worker, int64_t pin, void(*work)(void *udata),
         thread->len++;
         if (!thread->th) {
             int ret = pthread_create(&thread->th, 0, worker_entry, thread);
-            if (ret == -1) {
+            if (ret != 0) {
+                thread->th = 0;
+                thread->len--;
                 pthread_mutex_unlock(&thread->mu);
                 return false;
             }
-- 
2.43.0


From aa85e2e653fa3ddc95b4e73c417fa4a97ade4eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:39 +0000
Subject: [PATCH 15/25] fix: a timed out or canceled write reports the data it
 has written

---
 neco.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/neco.c b/neco.c
index b560ae7..de54340 100644
--- a/neco.c
+++ b/neco.c
@@ -5319,6 +5319,12 @@ static ssize_t write_dl(int fd, const void *data, size_t nbytes,
         int ret = checkdl(co, deadline);
         if (ret != NECO_OK) {
             errno = ret == NECO_CANCELED ? ECANCELED : ETIMEDOUT;
+            if (written > 0) {
+                // The caller must know about the data that has been written.
+                // A cancel is left for its next operation.
+                co->canceled = ret == NECO_CANCELED;
+                return written;
+            }
             return -1;
         }
         // size_t maxnbytes = CLAMP(nbytes, 0, 8096);
-- 
2.43.0


From a4501fb40b02dfbab70821e1e7150137d40cc58f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:00:01 +0000
Subject: [PATCH 16/25] fix: refuse to serve a unix address that does not fit,
 instead of truncating it

---
 neco.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/neco.c b/neco.c
index de54340..4a7874d 100644
--- a/neco.c
+++ b/neco.c
@@ -7063,11 +7063,14 @@ static int listen_unix_dl(const char *addr, int64_t deadline) {
 #ifdef _WIN32
     return NECO_PERM;
 #else
+    struct sockaddr_un unaddr;
+    if (strlen(addr) > sizeof(unaddr.sun_path) - 1) {
+        return NECO_INVAL;
+    }
     int fd = socket0(AF_UNIX, SOCK_STREAM, 0);
     if (fd == -1) {
         return NECO_ERROR;
     }
-    struct sockaddr_un unaddr;
     memset(&unaddr, 0, sizeof(struct sockaddr_un));
     unaddr.sun_family = AF_UNIX;
     strncpy(unaddr.sun_path, addr, sizeof(unaddr.sun_path) - 1);
-- 
2.43.0


From 5543f8a88c36a24aa62dc6cd2eec5575721adf15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:00:56 +0000
Subject: [PATCH 17/25] fix: address the slots of a channel that is larger than
 2 GB

---
 neco.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neco.c b/neco.c
index 4a7874d..8ba8149 100644
--- a/neco.c
+++ b/neco.c
@@ -5813,7 +5813,7 @@ struct coselectcase {
 
 // returns the message slot
 static char *cbufslot(struct neco_chan *chan, int index) {
-    return chan->data + (chan->msgsize * index);
+    return chan->data + ((size_t)chan->msgsize * (size_t)index);
 }
 
 // push a message to the back by copying from data
-- 
2.43.0


From f5b3bdedee5e38a1b32ddc48d31af97a32bcb363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:07:53 +0000
Subject: [PATCH 18/25] fix: the end of the runtime restores the alternate
 signal stack

---
 neco.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/neco.c b/neco.c
index 8ba8149..43904f1 100644
--- a/neco.c
+++ b/neco.c
@@ -3616,6 +3616,7 @@ struct runtime {
     int sigqueue[32];              // queue of signals waiting for delivery
 #ifndef _WIN32
     struct sigaction sigold[32];   // previous signal handlers, for restoring
+    stack_t sigoldstack;           // previous signal stack, for restoring
 #endif
     char *sigstack;                // stack for signals
     int sigcrashed;
@@ -4025,7 +4026,7 @@ static int rt_handle_signals(void) {
         .ss_size = NECO_SIGSTKSZ,
         .ss_flags = 0,
     };
-    must(sigaltstack(&ss, NULL) == 0);
+    must(sigaltstack(&ss, &rt->sigoldstack) == 0);
 #endif
     for (size_t i = 0; i < sizeof(ALLOWED_SIGNALS)/sizeof(int); i++) {
         int signo = ALLOWED_SIGNALS[i];
@@ -4050,6 +4051,9 @@ static void rt_restore_signal_handlers(void) {
         // Allocation failed during the initialization.
         return;
     }
+#if NECO_SIGSTKSZ > 0
+    must(sigaltstack(&rt->sigoldstack, NULL) == 0);
+#endif
     free0(rt->sigstack);
     for (size_t i = 0; i < sizeof(ALLOWED_SIGNALS)/sizeof(int); i++) {
         int signo = ALLOWED_SIGNALS[i];
-- 
2.43.0


From bfdb7755aac18c8be493353000cfedd5abf39b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:32 +0000
Subject: [PATCH 19/25] fix: getaddrinfo takes the result and errno after its
 last switch

The coroutine yielded after it had taken the address list out of the
cleanup's reach and set errno: an asynchronous cancelation lost the list
and other coroutines overwrote errno.
---
 neco.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neco.c b/neco.c
index 43904f1..8df8a4b 100644
--- a/neco.c
+++ b/neco.c
@@ -6742,11 +6742,11 @@ static int getaddrinfo_dl(const char *node, const char *service,
     ret = EAI_SYSTEM;
     if (n != -1) {
         must(ready == 1 && n == sizeof(int));
+        coyield();
         *res = args->res;
         args->res = NULL;
         ret = args->ret;
         errno = args->errnum;
-        coyield();
     }
     neco_cleanup_pop(1);
     return ret;
-- 
2.43.0


From 7644bfaa9505d620f73db3666783b13dd02463c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:32 +0000
Subject: [PATCH 20/25] fix: neco_pipe waits for its child also when it fails

The child kept pointers to the stack of the failed call, and its
descriptor was leaked.
---
 neco.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/neco.c b/neco.c
index 8df8a4b..f5ebdd1 100644
--- a/neco.c
+++ b/neco.c
@@ -7923,8 +7923,11 @@ static int _pipe_(int pipefd[2]) {
         unlink(path);
     }
     int perrno = errno;
-    if (ret == 0) {
+    if (childid != 0) {
+        // The child uses the variables of this function.
         neco_join(childid);
+    }
+    if (ret == 0) {
         pipefd[0] = fd0;
         pipefd[1] = fd1;
         fd0 = -1;
-- 
2.43.0


From baf7773d4041fdcc06aa32281300f3d07b0d8867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:03 +0000
Subject: [PATCH 21/25] fix: closing a stream closes it also when the flush is
 canceled

With asynchronous cancelation the coroutine ended inside of the flush,
and the descriptor and the stream were never released.
---
 neco.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/neco.c b/neco.c
index f5ebdd1..d355c18 100644
--- a/neco.c
+++ b/neco.c
@@ -8387,6 +8387,12 @@ ssize_t neco_stream_buffered_write_size(neco_stream *stream) {
     return ret;
 }
 
+static void cleanup_stream(void *ptr) {
+    neco_stream *stream = ptr;
+    close(stream->fd);
+    stream_release(stream);
+}
+
 static int stream_close_dl(neco_stream *stream, int64_t deadline) {
     if (!stream) {
         return NECO_INVAL;
@@ -8394,11 +8400,12 @@ static int stream_close_dl(neco_stream *stream, int64_t deadline) {
         return NECO_PERM;
     }
     int ret = NECO_OK;
+    // Close also when an asynchronous cancelation ends the flush.
+    neco_cleanup_push(cleanup_stream, stream);
     if (stream->buffered && (deadline < INT64_MAX || stream->wr.len > 0)) {
         ret = stream_flush_dl(stream, deadline);
     }
-    close(stream->fd);
-    stream_release(stream);
+    neco_cleanup_pop(1);
     return ret;
 }
 
-- 
2.43.0


From 13e7db1d657281681e01f265853ce47e51760a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:28 +0000
Subject: [PATCH 22/25] fix: a wait group that reaches zero by adding a
 negative delta releases its waiters

---
 neco.c | 36 ++++++++++++++++++++++--------------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/neco.c b/neco.c
index d355c18..aa4dda0 100644
--- a/neco.c
+++ b/neco.c
@@ -7456,6 +7456,24 @@ int neco_waitgroup_init(neco_waitgroup *waitgroup) {
     return ret;
 }
 
+// Releases the waiters when there is nothing left to wait for.
+static void waitgroup_release(struct neco_waitgroup *wg) {
+    if (wg->count == 0 && !colist_is_empty(&wg->queue)) {
+        struct coroutine *co = colist_pop_front(&wg->queue);
+        if (colist_is_empty(&wg->queue)) {
+            // Only one waiter. Do a quick switch.
+            grant_resume(co);
+        } else {
+            // Many waiters. Batch them together.
+            do {
+                sched_resume(co);
+                co = colist_pop_front(&wg->queue);  
+            } while (co);
+            yield_for_sched_resume();
+        }
+    }
+}
+
 static int waitgroup_add(neco_waitgroup *waitgroup, int delta) {
     struct neco_waitgroup *wg = (void*)waitgroup;
     int ret = check_waitgroup(wg);
@@ -7467,6 +7485,9 @@ static int waitgroup_add(neco_waitgroup *waitgroup, int delta) {
         return NECO_NEGWAITGRP;
     }
     wg->count = waiters;
+    if (delta < 0) {
+        waitgroup_release(wg);
+    }
     return NECO_OK;
 }
 
@@ -7487,20 +7508,7 @@ static int waitgroup_done(neco_waitgroup *waitgroup) {
         return NECO_NEGWAITGRP;
     }
     wg->count--;
-    if (wg->count == 0 && !colist_is_empty(&wg->queue)) {
-        struct coroutine *co = colist_pop_front(&wg->queue);
-        if (colist_is_empty(&wg->queue)) {
-            // Only one waiter. Do a quick switch.
-            grant_resume(co);
-        } else {
-            // Many waiters. Batch them together.
-            do {
-                sched_resume(co);
-                co = colist_pop_front(&wg->queue);  
-            } while (co);
-            yield_for_sched_resume();
-        }
-    }
+    waitgroup_release(wg);
     return NECO_OK;
 }
 
-- 
2.43.0


From bf8e98d63786d730b23fee86f199ac7695283a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:04:27 +0000
Subject: [PATCH 23/25] fix: a coroutine whose cleanup handler enables
 cancelation exits only once

---
 neco.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/neco.c b/neco.c
index aa4dda0..349a8a1 100644
--- a/neco.c
+++ b/neco.c
@@ -7828,6 +7828,9 @@ static void coexit(bool async) {
         while (co->cleanup) {
             cleanup_pop(1);
         }
+        // A handler may have enabled the cancelation again.
+        co->cancelstate = NECO_CANCEL_DISABLE;
+        co->canceled = false;
     }
 
     // Stop watching for signals
-- 
2.43.0


From f41f4515a7034f886e4c30b10e01cbd5bdb09395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:08:35 +0000
Subject: [PATCH 24/25] fix: neco_pipe closes the descriptor of its child also
 when the child is canceled

The child stored its descriptor for the parent only after it had written the
handshake. A cancelation that ended it in between left the descriptor open.
---
 neco.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neco.c b/neco.c
index 349a8a1..bae9e9c 100644
--- a/neco.c
+++ b/neco.c
@@ -7883,8 +7883,8 @@ static void co_pipe(int argc, void *argv[]) {
     int64_t secret = *(int64_t*)argv[1];
     int *fd_out = argv[2];
     int fd = neco_dial("unix", path);
-    neco_write(fd, &secret, 8);
     *fd_out = fd;
+    neco_write(fd, &secret, 8);
 }
 
 static int _pipe_(int pipefd[2]) {
-- 
2.43.0


From 88b1c6aa166a3170348483747f00d0d2ab8ba33f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:05 +0000
Subject: [PATCH 25/25] fix: a closed channel whose last sender gives up is
 closed for receivers

---
 neco.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/neco.c b/neco.c
index bae9e9c..9783eb6 100644
--- a/neco.c
+++ b/neco.c
@@ -6092,7 +6092,15 @@ static int chan_send0(struct neco_chan *chan, void *data, bool broadcast,
     remove_from_list(co);
 
     co->cmsg = NULL;
-    return checkdl(co, INT64_MAX);
+    int ret = checkdl(co, INT64_MAX);
+    if (ret != NECO_OK && chan->sclosed && colist_is_empty(&chan->queue) &&
+        chan->buflen == 0)
+    {
+        // The last sender of a closed channel gave up, and there are no more
+        // messages to receive.
+        chan->rclosed = true;
+    }
+    return ret;
 }
 
 /// Same as neco_chan_send() but with a deadline parameter.
-- 
2.43.0

