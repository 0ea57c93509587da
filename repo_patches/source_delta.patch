From 89b65e8fb7ef8ed9c6d5e2b39af6618d6373a642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:02 +0000
Subject: [PATCH 01/84] fix: do not free a DummySemaphore's name twice

DummySemaphore inherits Semaphore.__dealloc__, which Cython runs as well, so its own __dealloc__
freed the name buffer a second time. Every process that imported a_sync aborted at exit.
---
 a_sync/primitives/locks/semaphore.pyx | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/a_sync/primitives/locks/semaphore.pyx b/a_sync/primitives/locks/semaphore.pyx
index ea6f43d..36bf150 100644
--- a/a_sync/primitives/locks/semaphore.pyx
+++ b/a_sync/primitives/locks/semaphore.pyx
@@ -354,11 +354,6 @@ cdef class DummySemaphore(Semaphore):
         # Copy the bytes data into the char*
         strcpy(self._name, encoded_name)
 
-    def __dealloc__(self):
-        # Free the memory allocated for _name
-        if self._name is not NULL:
-            free(self._name)
-
     def __repr__(self) -> str:
         return "<{} name={}>".format(self.__class__.__name__, self.decode_name())
 
-- 
2.43.0


From e26109b754532de2c5e37174b40a82211fb5007a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:49 +0000
Subject: [PATCH 02/84] fix: take a semaphore permit when acquire() runs, not
 when it is called

Semaphore.acquire() decremented the counter while creating its coroutine. A task cancelled before it first ran
lost the permit for good, and a coroutine created while the semaphore was locked waited forever if the release
came before it first ran.
---
 a_sync/primitives/locks/semaphore.pyx | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/a_sync/primitives/locks/semaphore.pyx b/a_sync/primitives/locks/semaphore.pyx
index 36bf150..14ade1f 100644
--- a/a_sync/primitives/locks/semaphore.pyx
+++ b/a_sync/primitives/locks/semaphore.pyx
@@ -181,7 +181,12 @@ cdef class Semaphore(_DebugDaemonMixin):
         Returns:
             True when the semaphore is successfully acquired.
         """
-        return self.c_acquire()
+        # NOTE: nothing can happen until the coroutine runs. If we took the permit here, it would be
+        # lost for good if the coroutine is never started, e.g. when its task is cancelled too early.
+        return self.__acquire_lazy()
+
+    async def __acquire_lazy(self) -> Literal[True]:
+        return await self.c_acquire()
     
     cdef object c_acquire(self):
         """
-- 
2.43.0


From ee6b0de324c45ccc338aba3d3f95072eb3b44ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:12 +0000
Subject: [PATCH 03/84] fix: make all of ThreadsafeSemaphore use the current
 thread's semaphore

len() and repr() raised TypeError, the semaphore property returned None, and acquire(), release() and locked()
worked on a counter of their own, shared by all threads and ignored by 'async with'.
---
 a_sync/primitives/locks/semaphore.pyx | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/a_sync/primitives/locks/semaphore.pyx b/a_sync/primitives/locks/semaphore.pyx
index 14ade1f..b754b04 100644
--- a/a_sync/primitives/locks/semaphore.pyx
+++ b/a_sync/primitives/locks/semaphore.pyx
@@ -422,8 +422,7 @@ cdef class ThreadsafeSemaphore(Semaphore):
             self.dummy = None
 
     def __len__(self) -> int:
-        cdef dict[object, Semaphore] semaphores = self.semaphores
-        return sum(len(sem) for sem in semaphores.values())
+        return sum(len(sem) for sem in self.semaphores.values())
 
     @property
     def semaphore(self) -> Semaphore:
@@ -439,7 +438,29 @@ cdef class ThreadsafeSemaphore(Semaphore):
                 async with semaphore.semaphore:
                     return 1
         """
-    
+        return self.c_get_semaphore()
+
+    cpdef bint locked(self):
+        """
+        Checks if the current thread's semaphore is locked.
+        """
+        return self.c_get_semaphore().c_locked()
+
+    cpdef object acquire(self):
+        """
+        Acquire the current thread's semaphore.
+
+        Returns:
+            True when the semaphore is successfully acquired.
+        """
+        return self.c_get_semaphore().acquire()
+
+    cpdef void release(self):
+        """
+        Release the current thread's semaphore.
+        """
+        self.c_get_semaphore().c_release()
+
     cdef Semaphore c_get_semaphore(self):
         return self.dummy if self.use_dummy else self.semaphores[current_thread()]
 
-- 
2.43.0


From 77cc9fed76f05f9e9eb08c965ee1256abf9cbe8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:24 +0000
Subject: [PATCH 04/84] fix: let PrioritySemaphore tell priority 0 from the top
 priority

sem[0] used the context manager of priority -1, ahead of every other waiter.
---
 a_sync/primitives/locks/prio_semaphore.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/a_sync/primitives/locks/prio_semaphore.pyx b/a_sync/primitives/locks/prio_semaphore.pyx
index 6a70681..00f35c1 100644
--- a/a_sync/primitives/locks/prio_semaphore.pyx
+++ b/a_sync/primitives/locks/prio_semaphore.pyx
@@ -500,7 +500,7 @@ cdef class PrioritySemaphore(_AbstractPrioritySemaphore):  # type: ignore [type-
             >>> semaphore = _AbstractPrioritySemaphore(5)
             >>> context_manager = semaphore[priority]
         """
-        return self.c_getitem(priority or -1)
+        return self.c_getitem(-1 if priority is None else priority)
     
     cdef object c_getitem(self, object priority):
         if self._Semaphore__value is None:
-- 
2.43.0


From 5063816a88fdd37692ecb46c2122ec9177c7ff20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:44 +0000
Subject: [PATCH 05/84] fix: do not lose a PrioritySemaphore waiter's place in
 line

A context manager is dropped by its semaphore when its last waiter is woken. A waiter which then had to wait
again (somebody else took the permit first), or a caller who still held that context manager, queued up where
nobody looked, and was only woken after every other waiter no matter its priority.
---
 a_sync/primitives/locks/prio_semaphore.pyx | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/a_sync/primitives/locks/prio_semaphore.pyx b/a_sync/primitives/locks/prio_semaphore.pyx
index 00f35c1..2807957 100644
--- a/a_sync/primitives/locks/prio_semaphore.pyx
+++ b/a_sync/primitives/locks/prio_semaphore.pyx
@@ -369,11 +369,13 @@ cdef class _AbstractPrioritySemaphoreContextManager(Semaphore):
     
     async def __acquire(self) -> Literal[True]:
         cdef object loop, fut
+        cdef _AbstractPrioritySemaphoreContextManager manager
         while self._parent._Semaphore__value <= 0:
-            if self._Semaphore__waiters is None:
-                self._Semaphore__waiters = deque()
+            # NOTE: the parent drops a context manager when its last waiter is woken. From then on nobody would look
+            # for a waiter here, so we wait in line with whichever manager the parent has for our priority now.
+            manager = self._parent.c_getitem(self._priority)
             fut = self._c_get_loop().create_future()
-            self._Semaphore__waiters.append(fut)
+            manager._Semaphore__waiters.append(fut)
             self._parent._potential_lost_waiters.append(fut)
             try:
                 await fut
-- 
2.43.0


From 28a90f8941c774716b0fc4f038242cb9ffb92a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:16 +0000
Subject: [PATCH 06/84] fix: allow creating an Event where there is no current
 event loop

On python 3.10+ an event is not bound to a loop until it is used, as in asyncio, but the constructor still asked for
the current loop, which raises RuntimeError in a worker thread and after asyncio.run().
---
 a_sync/primitives/locks/event.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/a_sync/primitives/locks/event.pyx b/a_sync/primitives/locks/event.pyx
index 4179b69..dc298f3 100644
--- a/a_sync/primitives/locks/event.pyx
+++ b/a_sync/primitives/locks/event.pyx
@@ -52,7 +52,7 @@ cdef class CythonEvent(_DebugDaemonMixin):
             super().__init__(loop=loop)
 
         # backwards compatability
-        if hasattr(self, "_loop"):
+        if sys.version_info < (3, 10) and hasattr(self, "_loop"):
             self._loop = self._loop or asyncio.get_event_loop()
         if debug_daemon_interval > 65535:
             raise ValueError(f"'debug_daemon_interval' is stored as a uint16 and must be less than 65535")
-- 
2.43.0


From 452b030b71019d5795ec8941d47dfce8620038c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:53 +0000
Subject: [PATCH 07/84] fix: do not lose or recount items in Queue.get_multi
 and get_multi_nowait

get_multi(can_return_less=True) always returned an empty list, get_multi dropped the items it held whenever it had
to wait or was cancelled, and raised ValueError when exactly one item was missing. get_multi_nowait counted the
items it put back as new unfinished tasks, so join() never returned.
---
 a_sync/primitives/queue.py | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/a_sync/primitives/queue.py b/a_sync/primitives/queue.py
index 33398b9..84df679 100644
--- a/a_sync/primitives/queue.py
+++ b/a_sync/primitives/queue.py
@@ -199,11 +199,17 @@ class Queue(_Queue[T]):
         """
         _validate_args(i, can_return_less)
         items = []
-        while len(items) < i and not can_return_less:
-            try:
-                items.extend(self.get_multi_nowait(i - len(items), can_return_less=True))
-            except asyncio.QueueEmpty:
-                items = [await self.get()]
+        try:
+            while len(items) < i:
+                try:
+                    items.append(self.get_nowait())
+                except asyncio.QueueEmpty:
+                    if items and can_return_less:
+                        break
+                    items.append(await self.get())
+        except BaseException:
+            self._put_back(items)
+            raise
         return items
 
     def get_multi_nowait(self, i: int, can_return_less: bool = False) -> List[T]:
@@ -230,11 +236,19 @@ class Queue(_Queue[T]):
                 if items and can_return_less:
                     return items
                 # put these back in the queue since we didn't return them
-                for value in items:
-                    self.put_nowait(value)
+                self._put_back(items)
                 raise asyncio.QueueEmpty from None
         return items
 
+    def _put_back(self, items: List[T]) -> None:
+        """Returns items which were taken but not handed out to the front of the queue.
+
+        The items already count as unfinished tasks.
+        """
+        self._queue.extendleft(reversed(items))
+        for _ in items:
+            self._wakeup_next(self._getters)
+
 
 class ProcessingQueue(_Queue[Tuple[P, "asyncio.Future[V]"]], Generic[P, V]):
     """
-- 
2.43.0


From 2c68515a213ce8031c70c99b481d6b8f78b65021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:25 +0000
Subject: [PATCH 08/84] fix: make put() of ProcessingQueue and
 SmartProcessingQueue work

asyncio.Queue.put() hands the item to self.put_nowait(), which these classes override to take the function's
arguments: the item was wrapped a second time, the function was called with the (args, kwargs, future) tuple as its
only argument, and the future which put() returned was never done.
---
 a_sync/primitives/queue.py | 18 ++++--------------
 1 file changed, 4 insertions(+), 14 deletions(-)

diff --git a/a_sync/primitives/queue.py b/a_sync/primitives/queue.py
index 84df679..0c153a4 100644
--- a/a_sync/primitives/queue.py
+++ b/a_sync/primitives/queue.py
@@ -409,12 +409,8 @@ class ProcessingQueue(_Queue[Tuple[P, "asyncio.Future[V]"]], Generic[P, V]):
             >>> fut = await queue.put(item='task')
             >>> print(await fut)
         """
-        self._ensure_workers()
-        if self._no_futs:
-            return await super().put((args, kwargs))
-        fut = self._create_future()
-        await super().put((args, kwargs, fut))
-        return fut
+        # NOTE: the queue is unbounded, so there is never a reason to wait
+        return self.put_nowait(*args, **kwargs)
 
     def put_nowait(self, *args: P.args, **kwargs: P.kwargs) -> "asyncio.Future[V]":
         """
@@ -828,14 +824,8 @@ class SmartProcessingQueue(_VariablePriorityQueueMixin[T], ProcessingQueue[Conca
             >>> fut = await queue.put(item='task')
             >>> print(await fut)
         """
-        self._ensure_workers()
-        key = self._get_key(*args, **kwargs)
-        if fut := self._futs.get(key, None):
-            return fut
-        fut = self._create_future(key)
-        self._futs[key] = fut
-        await Queue.put(self, (_SmartFutureRef(fut), args, kwargs))
-        return fut
+        # NOTE: the queue is unbounded, so there is never a reason to wait
+        return self.put_nowait(*args, **kwargs)
 
     def put_nowait(self, *args: P.args, **kwargs: P.kwargs) -> _smart.SmartFuture[V]:
         """
-- 
2.43.0


From 16b0e3d4cf1443abc903dc7792e2e162e7ec7992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:36 +0000
Subject: [PATCH 09/84] fix: keep a ProcessingQueue alive when a caller drops
 its future

The queue held a weak proxy of the future. Once the caller had dropped it, set_result() raised ReferenceError, which
ended the worker: every job behind it was never run and every later call raised.
---
 a_sync/primitives/queue.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/a_sync/primitives/queue.py b/a_sync/primitives/queue.py
index 0c153a4..fd2e613 100644
--- a/a_sync/primitives/queue.py
+++ b/a_sync/primitives/queue.py
@@ -431,7 +431,7 @@ class ProcessingQueue(_Queue[Tuple[P, "asyncio.Future[V]"]], Generic[P, V]):
         if self._no_futs:
             return super().put_nowait((args, kwargs))
         fut = self._create_future()
-        super().put_nowait((args, kwargs, weakref.proxy(fut)))
+        super().put_nowait((args, kwargs, fut))
         return fut
 
     def _create_future(self) -> "asyncio.Future[V]":
-- 
2.43.0


From b87bed853cbf8bb2d2ae98f8c44236e58e7a8e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:28 +0000
Subject: [PATCH 10/84] fix: hand every exception of a ProcessingQueue job to
 its caller

A job which raised InvalidStateError was taken for a future which was already done: its caller waited forever, or the
worker ended with UnboundLocalError. A worker also ended when a caller had cancelled the future of a job and the
queue's function has no __name__, e.g. a functools.partial.
---
 a_sync/primitives/queue.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/a_sync/primitives/queue.py b/a_sync/primitives/queue.py
index fd2e613..5882b5f 100644
--- a/a_sync/primitives/queue.py
+++ b/a_sync/primitives/queue.py
@@ -500,24 +500,26 @@ class ProcessingQueue(_Queue[Tuple[P, "asyncio.Future[V]"]], Generic[P, V]):
                             self.task_done()
                             continue
                         result = await self.func(*args, **kwargs)
-                        fut.set_result(result)
-                    except asyncio.exceptions.InvalidStateError:
-                        logger.error(
-                            "cannot set result for %s %s: %s",
-                            self.func.__name__,
-                            fut,
-                            result,
-                        )
                     except Exception as e:
                         try:
                             fut.set_exception(e)
                         except asyncio.exceptions.InvalidStateError:
                             logger.error(
                                 "cannot set exception for %s %s: %s",
-                                self.func.__name__,
+                                self.func,
                                 fut,
                                 e,
                             )
+                    else:
+                        try:
+                            fut.set_result(result)
+                        except asyncio.exceptions.InvalidStateError:
+                            logger.error(
+                                "cannot set result for %s %s: %s",
+                                self.func,
+                                fut,
+                                result,
+                            )
                     self.task_done()
                 except Exception as e:
                     logger.error("%s for %s is broken!!!", type(self).__name__, self.func)
-- 
2.43.0


From 14e778be45e427247d4472218fbc7efb5a2aec9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:08 +0000
Subject: [PATCH 11/84] fix: do not let a cancelled job end a ProcessingQueue
 worker

A CancelledError raised by the job itself killed the worker, left its
caller waiting for ever and the queue one worker short.
---
 a_sync/primitives/queue.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/a_sync/primitives/queue.py b/a_sync/primitives/queue.py
index 5882b5f..57fc415 100644
--- a/a_sync/primitives/queue.py
+++ b/a_sync/primitives/queue.py
@@ -485,6 +485,9 @@ class ProcessingQueue(_Queue[Tuple[P, "asyncio.Future[V]"]], Generic[P, V]):
                 try:
                     args, kwargs = await self.get()
                     await self.func(*args, **kwargs)
+                except asyncio.CancelledError:
+                    if _is_being_cancelled():
+                        raise
                 except Exception as e:
                     logger.error("%s in worker for %s!", type(e).__name__, self)
                     logger.exception(e)
@@ -500,6 +503,11 @@ class ProcessingQueue(_Queue[Tuple[P, "asyncio.Future[V]"]], Generic[P, V]):
                             self.task_done()
                             continue
                         result = await self.func(*args, **kwargs)
+                    except asyncio.CancelledError:
+                        # either the job was cancelled or this worker was, its caller must not wait forever
+                        fut.cancel()
+                        if _is_being_cancelled():
+                            raise
                     except Exception as e:
                         try:
                             fut.set_exception(e)
@@ -527,6 +535,14 @@ class ProcessingQueue(_Queue[Tuple[P, "asyncio.Future[V]"]], Generic[P, V]):
                     raise
 
 
+def _is_being_cancelled() -> bool:
+    """Tells if a :class:`asyncio.CancelledError` is due to a request to cancel the current task.
+
+    Otherwise, the task awaited something which was cancelled. This can't be told apart before python 3.11.
+    """
+    return sys.version_info < (3, 11) or asyncio.current_task().cancelling() > 0
+
+
 def _validate_args(i: int, can_return_less: bool) -> None:
     """
     Validates the arguments for methods that retrieve multiple items from the queue.
-- 
2.43.0


From b067c579195f0c048e5360abaf352b2b23b8ab83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:02 +0000
Subject: [PATCH 12/84] fix: make put() and put_nowait() of
 PriorityProcessingQueue work

---
 a_sync/primitives/queue.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/a_sync/primitives/queue.py b/a_sync/primitives/queue.py
index 57fc415..9dc602e 100644
--- a/a_sync/primitives/queue.py
+++ b/a_sync/primitives/queue.py
@@ -19,6 +19,7 @@ import heapq
 import logging
 import sys
 import weakref
+from itertools import count
 
 import a_sync.asyncio
 from a_sync import _smart
@@ -655,6 +656,10 @@ class PriorityProcessingQueue(_PriorityQueueMixin[T], ProcessingQueue[T, V]):
         :class:`~ProcessingQueue`
     """
 
+    def _init(self, maxsize):
+        super()._init(maxsize)
+        self._counter = count()
+
     async def put(self, priority: Any, *args: P.args, **kwargs: P.kwargs) -> "asyncio.Future[V]":
         """
         Asynchronously adds a task with priority to the queue.
@@ -671,10 +676,8 @@ class PriorityProcessingQueue(_PriorityQueueMixin[T], ProcessingQueue[T, V]):
             >>> fut = await queue.put(priority=1, item='task')
             >>> print(await fut)
         """
-        self._ensure_workers()
-        fut = asyncio.get_event_loop().create_future()
-        await super().put(self, (priority, args, kwargs, fut))
-        return fut
+        # NOTE: the queue is unbounded, so there is never a reason to wait
+        return self.put_nowait(priority, *args, **kwargs)
 
     def put_nowait(self, priority: Any, *args: P.args, **kwargs: P.kwargs) -> "asyncio.Future[V]":
         """
@@ -693,8 +696,9 @@ class PriorityProcessingQueue(_PriorityQueueMixin[T], ProcessingQueue[T, V]):
             >>> print(await fut)
         """
         self._ensure_workers()
-        fut = self._create_future()
-        super().put_nowait(self, (priority, args, kwargs, fut))
+        fut = None if self._no_futs else self._create_future()
+        # the counter keeps equal priorities in order and keeps us from comparing the args
+        Queue.put_nowait(self, (priority, next(self._counter), args, kwargs, fut))
         return fut
 
     def _get(self, heappop=heapq.heappop):
@@ -708,8 +712,8 @@ class PriorityProcessingQueue(_PriorityQueueMixin[T], ProcessingQueue[T, V]):
             >>> task = queue._get()
             >>> print(task)
         """
-        priority, args, kwargs, fut = heappop(self._queue)
-        return args, kwargs, fut
+        priority, _, args, kwargs, fut = heappop(self._queue)
+        return (args, kwargs) if self._no_futs else (args, kwargs, fut)
 
 
 class _VariablePriorityQueueMixin(_PriorityQueueMixin[T]):
-- 
2.43.0


From 7467f8eeb3a1abd8cb6824094a4958d2ff1f6842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:36 +0000
Subject: [PATCH 13/84] fix: do not let a cancelled persisted task break every
 later create_task

---
 a_sync/asyncio/create_task.pyx | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/a_sync/asyncio/create_task.pyx b/a_sync/asyncio/create_task.pyx
index 129c0a5..4f69d83 100644
--- a/a_sync/asyncio/create_task.pyx
+++ b/a_sync/asyncio/create_task.pyx
@@ -134,7 +134,10 @@ cdef void __prune_persisted_tasks():
     cdef object task
     cdef dict context
     for task in tuple(__persisted_tasks):
-        if task.done() and (e := task.exception()):
+        if not task.done():
+            continue
+        __persisted_tasks.discard(task)
+        if not task.cancelled() and (e := task.exception()):
             # force exceptions related to this lib to bubble up
             if not isinstance(e, exceptions.PersistedTaskException):
                 c_logger.exception(e)
@@ -149,7 +152,6 @@ cdef void __prune_persisted_tasks():
             if task._source_traceback:
                 context["source_traceback"] = task._source_traceback
             task._loop.call_exception_handler(context)
-            __persisted_tasks.discard(task)
 
 
 async def __persisted_task_exc_wrap(task: "asyncio.Task[T]") -> T:
-- 
2.43.0


From 95177c0c0b7c7403d8505696801351411f70dcb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:03 +0000
Subject: [PATCH 14/84] fix: do not truncate the timeout of as_completed for a
 mapping

---
 a_sync/asyncio/as_completed.pxd | 2 +-
 a_sync/asyncio/as_completed.pyx | 6 +++---
 a_sync/asyncio/gather.pyx       | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/a_sync/asyncio/as_completed.pxd b/a_sync/asyncio/as_completed.pxd
index 7486941..7bb75af 100644
--- a/a_sync/asyncio/as_completed.pxd
+++ b/a_sync/asyncio/as_completed.pxd
@@ -1,6 +1,6 @@
 cdef object as_completed_mapping(
     object mapping,
-    unsigned int timeout,
+    object timeout,
     bint return_exceptions,
     bint aiter,
     bint tqdm,
diff --git a/a_sync/asyncio/as_completed.pyx b/a_sync/asyncio/as_completed.pyx
index d183b39..3438e44 100644
--- a/a_sync/asyncio/as_completed.pyx
+++ b/a_sync/asyncio/as_completed.pyx
@@ -117,7 +117,7 @@ def as_completed(
     if isinstance(fs, Mapping):
         return as_completed_mapping(
             mapping=fs,
-            timeout=timeout or 0,
+            timeout=timeout,
             return_exceptions=return_exceptions,
             aiter=aiter,
             tqdm=tqdm,
@@ -140,7 +140,7 @@ def as_completed(
 
 cdef object as_completed_mapping(
     object mapping,
-    unsigned int timeout,
+    object timeout,
     bint return_exceptions,
     bint aiter,
     bint tqdm,
@@ -177,7 +177,7 @@ cdef object as_completed_mapping(
             __mapping_wrap(k, v, return_exceptions=return_exceptions)
             for k, v in mapping.items()
         ],
-        timeout=timeout or None,
+        timeout=timeout,
         aiter=aiter,
         tqdm=tqdm,
         **tqdm_kwargs
diff --git a/a_sync/asyncio/gather.pyx b/a_sync/asyncio/gather.pyx
index 9e523fb..95d50ab 100644
--- a/a_sync/asyncio/gather.pyx
+++ b/a_sync/asyncio/gather.pyx
@@ -188,7 +188,7 @@ async def gather_mapping(
         k: v
         async for k, v in as_completed_mapping(
             mapping=mapping,
-            timeout=0,
+            timeout=None,
             return_exceptions=return_exceptions,
             aiter=True,
             tqdm=tqdm,
-- 
2.43.0


From 527416f8e598c1c0e2bd7a7d14b8b71d2256ad88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:09 +0000
Subject: [PATCH 15/84] fix: do not raise KeyError from gather for an excluded
 value of a mapping

---
 a_sync/asyncio/gather.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/a_sync/asyncio/gather.pyx b/a_sync/asyncio/gather.pyx
index 95d50ab..467c85b 100644
--- a/a_sync/asyncio/gather.pyx
+++ b/a_sync/asyncio/gather.pyx
@@ -197,7 +197,7 @@ async def gather_mapping(
         if exclude_if is None or not exclude_if(v)
     }
     # return data in same order as input mapping
-    return {k: results[k] for k in mapping}
+    return {k: results[k] for k in mapping if k in results}
 
 cdef inline bint _is_mapping(object awaitables):
     return len(awaitables) == 1 and isinstance(awaitables[0], Mapping)
-- 
2.43.0


From 72645108a39a74dfa36d984de359744f638f837a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:53 +0000
Subject: [PATCH 16/84] fix: make ASyncSorter work with an async key

It yielded nothing for an async iterable, and compared objects whose keys
are equal.
---
 a_sync/iter.pyx | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/a_sync/iter.pyx b/a_sync/iter.pyx
index 94d9a09..722c485 100644
--- a/a_sync/iter.pyx
+++ b/a_sync/iter.pyx
@@ -751,11 +751,10 @@ class ASyncSorter(_ASyncView[T]):
                     sort_tasks.append(
                         ccreate_task_simple(self._function(obj))
                     )
-                for sort_value, obj in sorted(
-                    zip(await asyncio.gather(*sort_tasks), items),
-                    reverse=reverse,
-                ):
-                    yield obj
+            keys = await asyncio.gather(*sort_tasks)
+            # sort by key only, objects with equal keys keep their order and are never compared
+            for i in sorted(range(len(items)), key=keys.__getitem__, reverse=reverse):
+                yield items[i]
         else:
             if self.__aiterator__:
                 items = [obj async for obj in self.__aiterator__]
-- 
2.43.0


From cf33faa5c1ed3ec6e05ea8ab10b809d4de576ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:08 +0000
Subject: [PATCH 17/84] fix: call a TaskMapping's function once for a key its
 iterables repeat

---
 a_sync/task.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/a_sync/task.py b/a_sync/task.py
index da42f3d..3fd00a2 100644
--- a/a_sync/task.py
+++ b/a_sync/task.py
@@ -570,12 +570,12 @@ class TaskMapping(DefaultDict[K, "asyncio.Task[V]"], AsyncIterable[Tuple[K, V]])
         ]
         for iterable in containers:
             async for key in _yield_keys(iterable):
-                yield key, self.__start_task(key)
+                yield key, self[key]  # NOTE: the key might come up more than once
 
         if remaining := [iterable for iterable in iterables if iterable not in containers]:
             try:
                 async for key in as_yielded(*[_yield_keys(iterable) for iterable in remaining]):  # type: ignore [attr-defined]
-                    yield key, self.__start_task(key)
+                    yield key, self[key]  # NOTE: the key might come up more than once
             except _EmptySequenceError:
                 if len(iterables) == 1:
                     raise
-- 
2.43.0


From 780fea6cde860ae25e210f691b4e58186c67bc42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:54 +0000
Subject: [PATCH 18/84] fix: yield each result once from
 TaskMapping.map(pop=False)

---
 a_sync/task.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/a_sync/task.py b/a_sync/task.py
index 3fd00a2..a47bdbb 100644
--- a/a_sync/task.py
+++ b/a_sync/task.py
@@ -317,12 +317,17 @@ class TaskMapping(DefaultDict[K, "asyncio.Task[V]"], AsyncIterable[Tuple[K, V]])
                 "You cannot pass `iterables` to map if the TaskMapping was initialized with an (a)iterable."
             )
 
+        yielded = set()
         try:
             if iterables:
                 self._raise_if_not_empty()
                 try:
                     async for _ in self._tasks_for_iterables(*iterables):
                         async for key, value in self.yield_completed(pop=pop):
+                            if not pop:
+                                if key in yielded:
+                                    continue
+                                yielded.add(key)
                             yield _yield(key, value, yields)
                 except _EmptySequenceError:
                     if len(iterables) > 1:
@@ -346,8 +351,8 @@ class TaskMapping(DefaultDict[K, "asyncio.Task[V]"], AsyncIterable[Tuple[K, V]])
                     async for key, value in as_completed(self, aiter=True):
                         self.pop(key)
                         yield _yield(key, value, yields)
-                else:
-                    async for key, value in as_completed(self, aiter=True):
+                elif unyielded := {key: self[key] for key in self if key not in yielded}:
+                    async for key, value in as_completed(unyielded, aiter=True):
                         yield _yield(key, value, yields)
         finally:
             await self._if_pop_clear(pop)
-- 
2.43.0


From 2cb2d51489e5f12bc7b19e43768588ea383f5be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:04 +0000
Subject: [PATCH 19/84] fix: stop as_yielded's producers on early exit and do
 not lose queued items

When the consumer stopped early the iterators were still consumed in the
background. When an iterator failed, items which were waiting for a slow
consumer were lost.
---
 a_sync/utils/iterators.py | 41 +++++++++++++++++++--------------------
 1 file changed, 20 insertions(+), 21 deletions(-)

diff --git a/a_sync/utils/iterators.py b/a_sync/utils/iterators.py
index 44e4da5..d3a009d 100644
--- a/a_sync/utils/iterators.py
+++ b/a_sync/utils/iterators.py
@@ -243,27 +243,26 @@ async def as_yielded(*iterators: AsyncIterator[T]) -> AsyncIterator[T]:  # type:
 
     task.add_done_callback(_as_yielded_done_callback)
 
-    while not task.done():
-        try:
-            items = await queue.get_all()
-        except asyncio.CancelledError:
-            # cleanup lingering objects and reraise
-            del task
-            del queue
-            raise
-        for item in items:
-            queue.task_done()
-            if isinstance(item, _Done):
-                assert queue.empty()
-                del task
-                del queue
-                if item._exc:
-                    raise item._exc.with_traceback(item._tb) from item._exc.__cause__
-                return
-            yield item
-
-    # ensure it isn't done due to an internal exception
-    await task
+    try:
+        while not task.done() or not queue.empty():
+            for item in await queue.get_all():
+                queue.task_done()
+                if isinstance(item, _Done):
+                    assert queue.empty()
+                    if item._exc:
+                        raise item._exc.with_traceback(item._tb) from item._exc.__cause__
+                    return
+                yield item
+
+        # ensure it isn't done due to an internal exception
+        await task
+    except (asyncio.CancelledError, GeneratorExit):
+        # nobody will consume the rest
+        task.cancel()
+        raise
+    finally:
+        # cleanup lingering objects
+        del task
 
 
 class _Done:
-- 
2.43.0


From 6d610e9a7a1c08efd34bdbda3f202245d4d88dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:16 +0000
Subject: [PATCH 20/84] fix: apply the modifiers of an ASync class's methods
 and properties once

They were applied two or three times, so a class-level semaphore of 1
deadlocked on the first call.
---
 a_sync/a_sync/_descriptor.py |  6 +-----
 a_sync/a_sync/property.pyx   | 12 +++++-------
 2 files changed, 6 insertions(+), 12 deletions(-)

diff --git a/a_sync/a_sync/_descriptor.py b/a_sync/a_sync/_descriptor.py
index 8c83812..f6cbf3d 100644
--- a/a_sync/a_sync/_descriptor.py
+++ b/a_sync/a_sync/_descriptor.py
@@ -85,12 +85,8 @@ class ASyncDescriptor(_ModifiedMixin, Generic[I, P, T]):
         if isinstance(_fget, ASyncFunction):
             self.modifiers.update(_fget.modifiers)
             self.__wrapped__ = _fget
-        elif asyncio.iscoroutinefunction(_fget):
-            _validate_wrapped_fn(_fget)
-            self.__wrapped__: AsyncUnboundMethod[I, P, T] = self.modifiers.apply_async_modifiers(
-                _fget
-            )
         else:
+            # NOTE: don't apply the modifiers here, bound methods and properties apply them
             _validate_wrapped_fn(_fget)
             self.__wrapped__ = _fget
 
diff --git a/a_sync/a_sync/property.pyx b/a_sync/a_sync/property.pyx
index 4df298f..2fc0f8d 100644
--- a/a_sync/a_sync/property.pyx
+++ b/a_sync/a_sync/property.pyx
@@ -7,7 +7,7 @@ from typing_extensions import Unpack
 from a_sync import _smart
 from a_sync._typing import *
 from a_sync.a_sync import config
-from a_sync.a_sync._helpers cimport _asyncify, _await
+from a_sync.a_sync._helpers cimport _await
 from a_sync.a_sync._descriptor import ASyncDescriptor
 from a_sync.a_sync.function import (
     ASyncFunction,
@@ -77,18 +77,16 @@ class _ASyncPropertyDescriptorBase(ASyncDescriptor[I, Tuple[()], T]):
             field_name: Optional name for the field. If not provided, the function's name will be used.
             **modifiers: Additional modifier arguments.
         """
-        cdef dict hidden_modifiers
         super().__init__(_fget, field_name, **modifiers)
         self.hidden_method_name = f"__{self.field_name}__"
-        hidden_modifiers = dict(self.modifiers)
-        hidden_modifiers["default"] = "async"
+        # NOTE: `self._fget` applies the modifiers, the hidden method must not apply them again
         self.hidden_method_descriptor = HiddenMethodDescriptor(
-            self.get, self.hidden_method_name, **hidden_modifiers
+            self.get, self.hidden_method_name, **{**config.null_modifiers, "default": "async"}
         )
         if asyncio.iscoroutinefunction(_fget):
-            self._fget = self.__wrapped__
+            self._fget = self.modifiers.apply_async_modifiers(self.__wrapped__)
         else:
-            self._fget = _asyncify(self.__wrapped__, self.modifiers.executor)
+            self._fget = self._asyncify(self.__wrapped__)
 
     @overload
     def __get__(self, instance: None, owner: Type[I]) -> Self: ...
-- 
2.43.0


From 0a0f6312a8010eae0bc34129491312e730b7bfdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:28 +0000
Subject: [PATCH 21/84] fix: make methods and properties usable where there is
 no current event loop

Accessing them raised RuntimeError in worker threads and after asyncio.run.
---
 a_sync/a_sync/method.pyx   | 5 +----
 a_sync/a_sync/property.pyx | 5 +----
 2 files changed, 2 insertions(+), 8 deletions(-)

diff --git a/a_sync/a_sync/method.pyx b/a_sync/a_sync/method.pyx
index 1e3afe6..605e217 100644
--- a/a_sync/a_sync/method.pyx
+++ b/a_sync/a_sync/method.pyx
@@ -17,7 +17,7 @@ from logging import DEBUG, getLogger
 from a_sync._typing import *
 from a_sync.a_sync._kwargs cimport get_flag_name, is_sync
 from a_sync.a_sync._descriptor import ASyncDescriptor
-from a_sync.a_sync._helpers cimport _await
+from a_sync.a_sync._helpers cimport _await, get_event_loop
 from a_sync.a_sync.function import (
     ASyncFunction,
     ASyncFunctionAsyncDefault,
@@ -39,9 +39,6 @@ logger = getLogger(__name__)
 cdef object c_logger = logger
 
 
-cdef object get_event_loop = asyncio.get_event_loop
-
-
 class ASyncMethodDescriptor(ASyncDescriptor[I, P, T]):
     """
     A descriptor for managing methods that can be called both synchronously and asynchronously.
diff --git a/a_sync/a_sync/property.pyx b/a_sync/a_sync/property.pyx
index 2fc0f8d..a4af9c8 100644
--- a/a_sync/a_sync/property.pyx
+++ b/a_sync/a_sync/property.pyx
@@ -7,7 +7,7 @@ from typing_extensions import Unpack
 from a_sync import _smart
 from a_sync._typing import *
 from a_sync.a_sync import config
-from a_sync.a_sync._helpers cimport _await
+from a_sync.a_sync._helpers cimport _await, get_event_loop
 from a_sync.a_sync._descriptor import ASyncDescriptor
 from a_sync.a_sync.function import (
     ASyncFunction,
@@ -30,9 +30,6 @@ logger = getLogger(__name__)
 cdef object c_logger = logger
 
 
-cdef object get_event_loop = asyncio.get_event_loop
-
-
 class _ASyncPropertyDescriptorBase(ASyncDescriptor[I, Tuple[()], T]):
     """Base class for creating asynchronous properties.
 
-- 
2.43.0


From 00f0b94d7db2c601bdb6293580b43838c2d701d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:16 +0000
Subject: [PATCH 22/84] fix: do not break the event loop's timers when a bound
 method is used again

Changing the deadline of a scheduled handle corrupts the loop's heap, which
made unrelated timers fire late.
---
 a_sync/a_sync/method.pyx | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/a_sync/a_sync/method.pyx b/a_sync/a_sync/method.pyx
index 605e217..c9b80a9 100644
--- a/a_sync/a_sync/method.pyx
+++ b/a_sync/a_sync/method.pyx
@@ -230,13 +230,27 @@ cdef void _update_cache_timer(field_name: str, instance: I, bound: "ASyncBoundMe
     # Handler for popping unused bound methods from bound method cache
     cdef object handle, loop
     if handle := bound._cache_handle:
-        # update the timer handle
-        handle._when = handle._loop.time() + _METHOD_CACHE_TTL
+        # NOTE: we can't touch the handle itself, it is in the loop's heap. `_pop_if_unused` will check this instead.
+        bound._cache_expires = handle._loop.time() + _METHOD_CACHE_TTL
     else:
         # create and assign the timer handle
         loop = get_event_loop()
-        # NOTE: use `instance.__dict__.pop` instead of `delattr` so we don't create a strong ref to `instance`
-        bound._cache_handle = loop.call_at(loop.time() + _METHOD_CACHE_TTL, instance.__dict__.pop, field_name)
+        bound._cache_expires = loop.time() + _METHOD_CACHE_TTL
+        # NOTE: use `instance.__dict__` instead of `instance` so we don't create a strong ref to `instance`
+        bound._cache_handle = loop.call_at(
+            bound._cache_expires, _pop_if_unused, instance.__dict__, field_name, bound
+        )
+
+
+def _pop_if_unused(dict instance_dict, str field_name, object bound) -> None:
+    """Pop `bound` from the bound method cache, or wait longer if it was used since the timer was set."""
+    cdef object loop = bound._cache_handle._loop
+    if bound._cache_expires > loop.time():
+        bound._cache_handle = loop.call_at(
+            bound._cache_expires, _pop_if_unused, instance_dict, field_name, bound
+        )
+    else:
+        instance_dict.pop(field_name, None)
 
 
 @final
@@ -486,6 +500,9 @@ class ASyncBoundMethod(ASyncFunction[P, T], Generic[I, P, T]):
     _cache_handle: asyncio.TimerHandle = None
     """An asyncio handle used to pop the bound method from `instance.__dict__` 5 minutes after its last use."""
 
+    _cache_expires: float = 0.0
+    """The time, on the clock of the handle's event loop, at which the bound method is popped if it isn't used again."""
+
     __weakself__: "weakref.ref[I]"
     """A weak reference to the instance the function is bound to."""
 
-- 
2.43.0


From 97cbfbccd1c606b529a367030755c6f556a85ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:12 +0000
Subject: [PATCH 23/84] fix: do not cache the failure of a cached property for
 ever

---
 a_sync/a_sync/property.pyx | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/a_sync/a_sync/property.pyx b/a_sync/a_sync/property.pyx
index a4af9c8..d19249c 100644
--- a/a_sync/a_sync/property.pyx
+++ b/a_sync/a_sync/property.pyx
@@ -461,9 +461,13 @@ class ASyncCachedPropertyDescriptor(
             except Exception as e:
                 e.args = *e.args, {"property": self, "instance": instance}
                 raise
-            self.__set__(instance, value)
-            self.pop_lock(instance)
-            return value
+            else:
+                self.__set__(instance, value)
+                return value
+            finally:
+                # forget the task whether it succeeded or not, a failure must not be cached
+                if inner_task.done() and self.get_instance_state(instance).lock.get(self.field_name) is inner_task:
+                    self.pop_lock(instance)
 
         return load_value
 
-- 
2.43.0


From 066c14bb7b2ad9ddb6236c5a77145872dc68d8e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:44 +0000
Subject: [PATCH 24/84] fix: do not mistake a function or class for a collected
 one with the same id

The id-keyed caches kept answers for collected objects. A function with a
forbidden argument or a generator function could be decorated, and a class
could get the default mode of another one.
---
 a_sync/a_sync/base.pyx     | 17 ++++++++++-------
 a_sync/a_sync/function.pyx | 16 ++++++++--------
 a_sync/a_sync/method.pyx   | 15 +++++++--------
 3 files changed, 25 insertions(+), 23 deletions(-)

diff --git a/a_sync/a_sync/base.pyx b/a_sync/a_sync/base.pyx
index 143dbf7..2934e6b 100644
--- a/a_sync/a_sync/base.pyx
+++ b/a_sync/a_sync/base.pyx
@@ -1,8 +1,8 @@
 import functools
 import inspect
+import weakref
 from contextlib import suppress
 from logging import DEBUG, getLogger
-from libc.stdint cimport uintptr_t
 
 from a_sync import exceptions
 from a_sync._typing import *
@@ -212,13 +212,16 @@ cdef inline bint _get_a_sync_flag_value_from_class_def(object cls, str flag):
     raise exceptions.FlagNotDefined(cls, flag)
 
 
-cdef dict[uintptr_t, object] _init_signature_cache = {}
+# NOTE: the id of a collected function can be the id of another one, so we keep weak references instead
+cdef object _init_signature_cache = weakref.WeakKeyDictionary()
 
 
 cdef _get_init_signature(object cls):
-    cdef uintptr_t cls_init_id = id(cls.__init__)
-    signature = _init_signature_cache.get(cls_init_id)
-    if signature is None:
-        signature = inspect.signature(cls.__init__)
-        _init_signature_cache[cls_init_id] = signature
+    cdef object init = cls.__init__
+    try:
+        signature = _init_signature_cache.get(init)
+        if signature is None:
+            signature = _init_signature_cache[init] = inspect.signature(init)
+    except TypeError:  # can't be weakly referenced
+        signature = inspect.signature(init)
     return signature
diff --git a/a_sync/a_sync/function.pyx b/a_sync/a_sync/function.pyx
index 3360db9..5e23f29 100644
--- a/a_sync/a_sync/function.pyx
+++ b/a_sync/a_sync/function.pyx
@@ -2,6 +2,7 @@ import functools
 import inspect
 import logging
 import sys
+import weakref
 
 from async_lru import _LRUCacheWrapper
 from async_property.base import AsyncPropertyDescriptor  # type: ignore [import]
@@ -120,13 +121,13 @@ cpdef void _validate_wrapped_fn(fn: Callable):
 
 cdef object _function_type = type(logging.getLogger)
 
-cdef set[Py_ssize_t] _argspec_validated = set()
+# NOTE: the id of a collected function can be the id of another one, so we keep weak references instead
+cdef object _argspec_validated = weakref.WeakSet()
 
 cdef void _validate_argspec_cached(fn: Callable):
-    cdef Py_ssize_t fid = id(fn)
-    if fid not in _argspec_validated:
+    if fn not in _argspec_validated:
         _validate_argspec(fn)
-        _argspec_validated.add(fid)
+        _argspec_validated.add(fn)
 
 cdef void _validate_argspec(fn: Callable):
     fn_args = inspect.getfullargspec(fn)[0]
@@ -971,13 +972,12 @@ class ASyncDecorator(_ModifiedMixin):
             return ASyncFunctionSyncDefault(func, **self.modifiers)
 
 
-cdef set[Py_ssize_t] _is_genfunc_cache = set()
+cdef object _is_genfunc_cache = weakref.WeakSet()
 
 cdef void _check_not_genfunc_cached(func: Callable):
-    cdef Py_ssize_t fid = id(func)
-    if fid not in _is_genfunc_cache:
+    if func not in _is_genfunc_cache:
         _check_not_genfunc(func)
-        _is_genfunc_cache.add(fid)
+        _is_genfunc_cache.add(func)
 
 cdef void _check_not_genfunc(func: Callable):
     """Raises an error if the function is a generator or async generator.
diff --git a/a_sync/a_sync/method.pyx b/a_sync/a_sync/method.pyx
index c9b80a9..a7da807 100644
--- a/a_sync/a_sync/method.pyx
+++ b/a_sync/a_sync/method.pyx
@@ -11,7 +11,6 @@ asynchronously based on various conditions and configurations.
 import functools
 import weakref
 from inspect import isawaitable
-from libc.stdint cimport uintptr_t
 from logging import DEBUG, getLogger
 
 from a_sync._typing import *
@@ -423,7 +422,8 @@ class ASyncMethodDescriptorAsyncDefault(ASyncMethodDescriptor[I, P, T]):
         return bound
 
 
-cdef dict[uintptr_t, bint] _is_a_sync_instance_cache = {}
+# NOTE: the id of a collected class can be the id of another one, so we keep weak references instead
+cdef object _is_a_sync_instance_cache = weakref.WeakKeyDictionary()
 
 cdef bint _is_a_sync_instance(object instance):
     """Checks if an instance is an ASync instance.
@@ -435,12 +435,11 @@ cdef bint _is_a_sync_instance(object instance):
         A boolean indicating if the instance is an ASync instance.
     """
     cdef object instance_type = type(instance)
-    cdef uintptr_t instance_type_uid = id(instance_type)
-    if instance_type_uid in _is_a_sync_instance_cache:
-        return _is_a_sync_instance_cache[instance_type_uid]
-    from a_sync.a_sync.abstract import ASyncABC
-    cdef bint is_a_sync = issubclass(instance_type, ASyncABC)
-    _is_a_sync_instance_cache[instance_type_uid] = is_a_sync
+    cdef object is_a_sync = _is_a_sync_instance_cache.get(instance_type)
+    if is_a_sync is None:
+        from a_sync.a_sync.abstract import ASyncABC
+        is_a_sync = issubclass(instance_type, ASyncABC)
+        _is_a_sync_instance_cache[instance_type] = is_a_sync
     return is_a_sync
 
 
-- 
2.43.0


From 8fd474937cd7f41cf39a5987d4af45d5fc9ff511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:52 +0000
Subject: [PATCH 25/84] fix: do not count a cancelled shield as a waiter

---
 a_sync/_smart.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/a_sync/_smart.py b/a_sync/_smart.py
index 80aa21a..5877af9 100644
--- a/a_sync/_smart.py
+++ b/a_sync/_smart.py
@@ -433,6 +433,8 @@ def shield(
     def _outer_done_callback(outer):
         if not inner.done():
             inner.remove_done_callback(_inner_done_callback)
+            if waiters is not None:
+                waiters.discard(outer)
 
     inner.add_done_callback(_inner_done_callback)
     outer.add_done_callback(_outer_done_callback)
-- 
2.43.0


From 2e3f80a6a42e02ad451fbcd09c05ac5797408452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:13 +0000
Subject: [PATCH 26/84] fix: let the smart task factory accept the context of a
 task

---
 a_sync/_smart.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/a_sync/_smart.py b/a_sync/_smart.py
index 5877af9..f41dd06 100644
--- a/a_sync/_smart.py
+++ b/a_sync/_smart.py
@@ -279,6 +279,7 @@ class SmartTask(_SmartFutureMixin[T], asyncio.Task):
         *,
         loop: Optional[asyncio.AbstractEventLoop] = None,
         name: Optional[str] = None,
+        **kwargs: Any,
     ) -> None:
         """
         Initialize the SmartTask with a coroutine and optional event loop.
@@ -287,6 +288,7 @@ class SmartTask(_SmartFutureMixin[T], asyncio.Task):
             coro: The coroutine to run in the task.
             loop: Optional; the event loop.
             name: Optional; the name of the task.
+            **kwargs: Any other argument of :class:`asyncio.Task`.
 
         Example:
             ```python
@@ -296,12 +298,14 @@ class SmartTask(_SmartFutureMixin[T], asyncio.Task):
         See Also:
             - :func:`asyncio.create_task`
         """
-        asyncio.Task.__init__(self, coro, loop=loop, name=name)
+        asyncio.Task.__init__(self, coro, loop=loop, name=name, **kwargs)
         self._waiters: Set["asyncio.Task[T]"] = set()
         self.add_done_callback(SmartTask._self_done_cleanup_callback)
 
 
-def smart_task_factory(loop: asyncio.AbstractEventLoop, coro: Awaitable[T]) -> SmartTask[T]:
+def smart_task_factory(
+    loop: asyncio.AbstractEventLoop, coro: Awaitable[T], **kwargs: Any
+) -> SmartTask[T]:
     """
     Task factory function that an event loop calls to create new tasks.
 
@@ -310,6 +314,7 @@ def smart_task_factory(loop: asyncio.AbstractEventLoop, coro: Awaitable[T]) -> S
     Args:
         loop: The event loop.
         coro: The coroutine to run in the task.
+        **kwargs: Anything else the event loop passes to task factories, ie. the context to run the task in.
 
     Returns:
         A SmartTask instance running the provided coroutine.
@@ -326,7 +331,7 @@ def smart_task_factory(loop: asyncio.AbstractEventLoop, coro: Awaitable[T]) -> S
         - :func:`set_smart_task_factory`
         - :class:`SmartTask`
     """
-    return SmartTask(coro, loop=loop)
+    return SmartTask(coro, loop=loop, **kwargs)
 
 
 def set_smart_task_factory(loop: asyncio.AbstractEventLoop = None) -> None:
-- 
2.43.0


From ea48ee4623a3d1d3ca678ec6250ccef42ee028f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:53 +0000
Subject: [PATCH 27/84] fix: do not strand work or keep a dropped
 PruningThreadPoolExecutor alive

A thread which timed out could quit although an item was put for it. The
last thread kept a reference to its executor, so neither ever went away.
---
 a_sync/executor.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/a_sync/executor.py b/a_sync/executor.py
index 90d687e..d7f8271 100644
--- a/a_sync/executor.py
+++ b/a_sync/executor.py
@@ -318,16 +318,21 @@ def _worker(executor_reference, work_queue, initializer, initargs, timeout):  #
                 # Its been 'timeout' seconds and there are no new work items.  # NOTE: NEW
                 # Let's suicide the thread.  # NOTE: NEW
                 executor = executor_reference()  # NOTE: NEW
+                if executor is None:  # NOTE: NEW
+                    continue  # NOTE: NEW
 
                 with executor._adjusting_lock:  # NOTE: NEW
                     # NOTE: We keep a minimum of one thread active to prevent locks
-                    if len(executor) > 1:  # NOTE: NEW
+                    # NOTE: An item might have been put for this thread while we waited for the lock
+                    if len(executor) > 1 and work_queue.empty():  # NOTE: NEW
                         t = threading.current_thread()  # NOTE: NEW
                         executor._threads.remove(t)  # NOTE: NEW
                         thread._threads_queues.pop(t)  # NOTE: NEW
                         # Let the executor know we have one less idle thread available
                         executor._idle_semaphore.acquire(blocking=False)  # NOTE: NEW
                         return  # NOTE: NEW
+                # Don't keep the executor alive while we wait
+                del executor  # NOTE: NEW
                 continue
 
             if work_item is not None:
-- 
2.43.0


From 140f77156dbb5e536028e6c149b265e68bcbeca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:11 +0000
Subject: [PATCH 28/84] fix: iterate synchronously in threads and after
 asyncio.run

---
 a_sync/iter.pyx | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/a_sync/iter.pyx b/a_sync/iter.pyx
index 722c485..8e9f5b0 100644
--- a/a_sync/iter.pyx
+++ b/a_sync/iter.pyx
@@ -11,7 +11,7 @@ from typing import _GenericAlias, get_args
 from async_property import async_cached_property
 
 from a_sync._typing import *
-from a_sync.a_sync._helpers cimport _await
+from a_sync.a_sync._helpers cimport _await, get_event_loop
 from a_sync.asyncio.create_task cimport ccreate_task_simple
 from a_sync.exceptions import SyncModeInAsyncContextError
 
@@ -29,9 +29,6 @@ else:
 cdef tuple[str] _FORMAT_PATTERNS = ("{cls}", "{obj}")
 
 
-cdef object get_event_loop = asyncio.get_event_loop
-
-
 class _AwaitableAsyncIterableMixin(AsyncIterable[T]):
     """
     A mixin class defining logic for making an AsyncIterable awaitable.
-- 
2.43.0


From ac3ceada5b39056c61c1f482eeda6a53b13a702f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:00 +0000
Subject: [PATCH 29/84] fix: await an ASyncFuture from several places, in
 threads and after asyncio.run

---
 a_sync/future.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/a_sync/future.py b/a_sync/future.py
index 91af653..3bd4fbe 100644
--- a/a_sync/future.py
+++ b/a_sync/future.py
@@ -126,12 +126,14 @@ def _materialize(meta: "ASyncFuture[T]") -> T:
     See Also:
         :class:`ASyncFuture`
     """
-    try:
-        return asyncio.get_event_loop().run_until_complete(meta)
-    except RuntimeError as e:
+    if meta.done():
+        return concurrent.futures.Future.result(meta)
+    loop = a_sync.asyncio.get_event_loop()
+    if loop.is_running():
         raise RuntimeError(
-            f"{meta} result is not set and the event loop is running, you will need to await it first"
-        ) from e
+            f"{meta!r} result is not set and the event loop is running, you will need to await it first"
+        )
+    return loop.run_until_complete(meta)
 
 
 MetaNumeric = Union[Numeric, "ASyncFuture[int]", "ASyncFuture[float]", "ASyncFuture[Decimal]"]
@@ -353,8 +355,11 @@ class ASyncFuture(concurrent.futures.Future, Awaitable[T]):
 
     async def __await(self) -> T:
         if not self.done():
-            self.set_result(await self.__task__)
-        return self._result
+            result = await self.__task__
+            # another waiter might have set the result while we were waiting
+            if not self.done():
+                self.set_result(result)
+        return super().result()
 
     @property
     def __task__(self) -> "asyncio.Task[T]":
@@ -1282,7 +1287,7 @@ class ASyncFuture(concurrent.futures.Future, Awaitable[T]):
         dependants = set()
         for dep in self.__dependants:
             dependants.add(dep)
-            dependants.union(dep.__dependants__)
+            dependants.update(dep.__dependants__)
         return dependants
 
     @property
@@ -1300,7 +1305,7 @@ class ASyncFuture(concurrent.futures.Future, Awaitable[T]):
         dependencies = set()
         for dep in self.__dependencies:
             dependencies.add(dep)
-            dependencies.union(dep.__dependencies__)
+            dependencies.update(dep.__dependencies__)
         return dependencies
 
     def __sizeof__(self) -> int:
-- 
2.43.0


From c70546baba9d67490418e8da8fabe3e0d3e45f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:44 +0000
Subject: [PATCH 30/84] fix: let an overriding method, property or generator
 call its super version

---
 a_sync/a_sync/method.pxd   |  1 +
 a_sync/a_sync/method.pyx   | 36 +++++++++++++++++++++++++++---------
 a_sync/a_sync/property.pyx | 31 +++++++++++++++++++++++--------
 a_sync/iter.pyx            |  5 +++++
 4 files changed, 56 insertions(+), 17 deletions(-)

diff --git a/a_sync/a_sync/method.pxd b/a_sync/a_sync/method.pxd
index be064bd..53e73fd 100644
--- a/a_sync/a_sync/method.pxd
+++ b/a_sync/a_sync/method.pxd
@@ -1,2 +1,3 @@
 cdef bint _is_a_sync_instance(object instance)
+cdef str _get_bound_key(object descriptor, object instance)
 cdef void _update_cache_timer(str field_name, object instance, object bound)
\ No newline at end of file
diff --git a/a_sync/a_sync/method.pyx b/a_sync/a_sync/method.pyx
index a7da807..94b3c40 100644
--- a/a_sync/a_sync/method.pyx
+++ b/a_sync/a_sync/method.pyx
@@ -121,8 +121,9 @@ class ASyncMethodDescriptor(ASyncDescriptor[I, P, T]):
         """
         if instance is None:
             return self
+        cdef str bound_key = _get_bound_key(self, instance)
         try:
-            bound = instance.__dict__[self.field_name]
+            bound = instance.__dict__[bound_key]
         except KeyError:
             from a_sync.a_sync.abstract import ASyncABC
 
@@ -161,9 +162,9 @@ class ASyncMethodDescriptor(ASyncDescriptor[I, P, T]):
                 bound = ASyncBoundMethod(
                     instance, self.__wrapped__, self.__is_async_def__, **self.modifiers
                 )
-            instance.__dict__[self.field_name] = bound
+            instance.__dict__[bound_key] = bound
             c_logger.debug("new bound method: %s", bound)
-        _update_cache_timer(self.field_name, instance, bound)
+        _update_cache_timer(bound_key, instance, bound)
         return bound
 
     def __set__(self, instance, value):
@@ -218,6 +219,21 @@ class ASyncMethodDescriptor(ASyncDescriptor[I, P, T]):
         return asyncio.iscoroutinefunction(self.__wrapped__)
 
 
+cdef str _get_bound_key(object descriptor, object instance):
+    """
+    Get the key under which `descriptor` keeps its bound method or value for `instance`.
+
+    Args:
+        descriptor: The descriptor which was accessed.
+        instance: The instance it was accessed on.
+    """
+    cdef str field_name = descriptor.field_name
+    if getattr(type(instance), field_name, descriptor) is descriptor:
+        return field_name
+    # a subclass overrides `descriptor` and it was reached thru `super()`, it must not be mixed up with its override
+    return f"{field_name}@{id(descriptor)}"
+
+
 cdef void _update_cache_timer(field_name: str, instance: I, bound: "ASyncBoundMethod"):
     """
     Update the TTL for the cache handle for the instance.
@@ -325,15 +341,16 @@ class ASyncMethodDescriptorSyncDefault(ASyncMethodDescriptor[I, P, T]):
         """
         if instance is None:
             return self
+        cdef str bound_key = _get_bound_key(self, instance)
         try:
-            bound = instance.__dict__[self.field_name]
+            bound = instance.__dict__[bound_key]
         except KeyError:
             bound = ASyncBoundMethodSyncDefault(
                 instance, self.__wrapped__, self.__is_async_def__, **self.modifiers
             )
-            instance.__dict__[self.field_name] = bound
+            instance.__dict__[bound_key] = bound
             c_logger.debug("new bound method: %s", bound)
-        _update_cache_timer(self.field_name, instance, bound)
+        _update_cache_timer(bound_key, instance, bound)
         return bound
 
 
@@ -409,16 +426,17 @@ class ASyncMethodDescriptorAsyncDefault(ASyncMethodDescriptor[I, P, T]):
             return self
         
         cdef object bound
+        cdef str bound_key = _get_bound_key(self, instance)
 
         try:
-            bound = instance.__dict__[self.field_name]
+            bound = instance.__dict__[bound_key]
         except KeyError:
             bound = ASyncBoundMethodAsyncDefault(
                 instance, self.__wrapped__, self.__is_async_def__, **self.modifiers
             )
-            instance.__dict__[self.field_name] = bound
+            instance.__dict__[bound_key] = bound
             c_logger.debug("new bound method: %s", bound)
-        _update_cache_timer(self.field_name, instance, bound)
+        _update_cache_timer(bound_key, instance, bound)
         return bound
 
 
diff --git a/a_sync/a_sync/property.pyx b/a_sync/a_sync/property.pyx
index d19249c..d5a9a73 100644
--- a/a_sync/a_sync/property.pyx
+++ b/a_sync/a_sync/property.pyx
@@ -18,7 +18,7 @@ from a_sync.a_sync.method import (
     ASyncBoundMethodAsyncDefault,
     ASyncMethodDescriptorAsyncDefault,
 )
-from a_sync.a_sync.method cimport _is_a_sync_instance, _update_cache_timer
+from a_sync.a_sync.method cimport _get_bound_key, _is_a_sync_instance, _update_cache_timer
 from a_sync.asyncio.create_task cimport ccreate_task_simple
 
 if TYPE_CHECKING:
@@ -427,12 +427,13 @@ class ASyncCachedPropertyDescriptor(
         Returns:
             An asyncio Task representing the lock.
         """
+        cdef str key = _get_bound_key(self, instance)
         instance_state = self.get_instance_state(instance)
-        task = instance_state.lock[self.field_name]
+        task = instance_state.lock[key]
         if isinstance(task, asyncio.Lock):
             # default behavior uses lock but we want to use a Task so all waiters wake up together
             task = ccreate_task_simple(self._fget(instance))
-            instance_state.lock[self.field_name] = task
+            instance_state.lock[key] = task
         return task
 
     def pop_lock(self, instance: I) -> None:
@@ -441,7 +442,20 @@ class ASyncCachedPropertyDescriptor(
         Args:
             instance: The instance from which the property is accessed.
         """
-        self.get_instance_state(instance).lock.pop(self.field_name, None)
+        self.get_instance_state(instance).lock.pop(_get_bound_key(self, instance), None)
+
+    # NOTE: these are keyed like the lock so `super()` can reach an overridden property
+    def has_cache_value(self, instance: I) -> bool:
+        return _get_bound_key(self, instance) in self.get_cache(instance)
+
+    def get_cache_value(self, instance: I) -> T:
+        return self.get_cache(instance)[_get_bound_key(self, instance)]
+
+    def set_cache_value(self, instance: I, value: T) -> None:
+        self.get_cache(instance)[_get_bound_key(self, instance)] = value
+
+    def del_cache_value(self, instance: I) -> None:
+        del self.get_cache(instance)[_get_bound_key(self, instance)]
 
     def get_loader(self, instance: I) -> Callable[[], T]:
         """Retrieves the loader function for the property.
@@ -466,7 +480,7 @@ class ASyncCachedPropertyDescriptor(
                 return value
             finally:
                 # forget the task whether it succeeded or not, a failure must not be cached
-                if inner_task.done() and self.get_instance_state(instance).lock.get(self.field_name) is inner_task:
+                if inner_task.done() and self.get_instance_state(instance).lock.get(_get_bound_key(self, instance)) is inner_task:
                     self.pop_lock(instance)
 
         return load_value
@@ -739,8 +753,9 @@ class HiddenMethodDescriptor(ASyncMethodDescriptorAsyncDefault[I, Tuple[()], T])
             return self
     
         cdef object bound
+        cdef str bound_key = _get_bound_key(self, instance)
         try:
-            bound = instance.__dict__[self.field_name]
+            bound = instance.__dict__[bound_key]
         except KeyError:
             bound = HiddenMethod(
                 instance,
@@ -749,9 +764,9 @@ class HiddenMethodDescriptor(ASyncMethodDescriptorAsyncDefault[I, Tuple[()], T])
                 self.field_name,
                 **self.modifiers,
             )
-            instance.__dict__[self.field_name] = bound
+            instance.__dict__[bound_key] = bound
             c_logger.debug("new hidden method: %s", bound)
-        _update_cache_timer(self.field_name, instance, bound)
+        _update_cache_timer(bound_key, instance, bound)
         return bound
 
 
diff --git a/a_sync/iter.pyx b/a_sync/iter.pyx
index 8e9f5b0..894772a 100644
--- a/a_sync/iter.pyx
+++ b/a_sync/iter.pyx
@@ -516,6 +516,11 @@ class ASyncGeneratorFunction(Generic[P, T]):
             return self
 
         cdef object gen_func
+        if getattr(type(instance), self.field_name, self) is not self:
+            # a subclass overrides `self` and it was reached thru `super()`, it must not replace its override
+            gen_func = ASyncGeneratorFunction(self.__wrapped__, instance)
+            gen_func._cache_handle.cancel()
+            return gen_func
         try:
             gen_func = instance.__dict__[self.field_name]
         except KeyError:
-- 
2.43.0


From 9ea1d134700bfcbcec1bd13408ee0ecd5fb16ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:59 +0000
Subject: [PATCH 31/84] fix: PrioritySemaphore.locked with free permits

---
 a_sync/primitives/locks/prio_semaphore.pyx | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/a_sync/primitives/locks/prio_semaphore.pyx b/a_sync/primitives/locks/prio_semaphore.pyx
index 2807957..857229f 100644
--- a/a_sync/primitives/locks/prio_semaphore.pyx
+++ b/a_sync/primitives/locks/prio_semaphore.pyx
@@ -168,10 +168,12 @@ cdef class _AbstractPrioritySemaphore(Semaphore):
         cdef dict[object, _AbstractPrioritySemaphoreContextManager] cms = self._context_managers
         if not cms:
             return False
-        return any(
-            cm._Semaphore__waiters and any(not w.cancelled() for w in cm._Semaphore__waiters)
-            for cm in cms.values()
-        )
+        # NOTE: don't use a genexpr for the outer loop, `cm` would lose its type and its C attributes would be out of reach
+        for cm in cms.values():
+            for w in cm._Semaphore__waiters:
+                if not w.cancelled():
+                    return True
+        return False
 
     cdef dict[object, Py_ssize_t] _count_waiters(self):
         """Counts the number of waiters for each priority.
-- 
2.43.0


From ef94bcee7472c02231f865bed4fb2758520f6116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:18 +0000
Subject: [PATCH 32/84] fix: leave no waiter in an Event for a wait that never
 started

---
 a_sync/primitives/locks/event.pxd |  1 +
 a_sync/primitives/locks/event.pyx | 14 ++++++++++----
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/a_sync/primitives/locks/event.pxd b/a_sync/primitives/locks/event.pxd
index 5b80715..84d3b6d 100644
--- a/a_sync/primitives/locks/event.pxd
+++ b/a_sync/primitives/locks/event.pxd
@@ -13,6 +13,7 @@ cdef class CythonEvent(_DebugDaemonMixin):
 
     cdef bint _value
     cdef list _waiters
+    cdef unsigned long long _times_set
     cdef char* __name
     cdef uint16_t _debug_daemon_interval
     cpdef bint is_set(self)
diff --git a/a_sync/primitives/locks/event.pyx b/a_sync/primitives/locks/event.pyx
index dc298f3..9853bab 100644
--- a/a_sync/primitives/locks/event.pyx
+++ b/a_sync/primitives/locks/event.pyx
@@ -112,6 +112,7 @@ cdef class CythonEvent(_DebugDaemonMixin):
 
         if not self._value:
             self._value = True
+            self._times_set += 1
 
             for fut in self._waiters:
                 if not fut.done():
@@ -147,15 +148,20 @@ cdef class CythonEvent(_DebugDaemonMixin):
 
         self._c_ensure_debug_daemon((),{})
 
-        cdef object fut = self._c_get_loop().create_future()
-        self._waiters.append(fut)
-        return self.__wait(fut)
+        return self.__wait(self._times_set)
 
     @property
     def _name(self) -> str:
         return self.__name.decode("utf-8")
     
-    async def __wait(self, fut: asyncio.Future) -> Literal[True]:
+    async def __wait(self, times_set: int) -> Literal[True]:
+        # The waiter is created here, not in `c_wait`: the coroutine of a task that
+        # is cancelled before it starts never runs, so could not remove its waiter.
+        if self._value or self._times_set != times_set:
+            # set, and perhaps cleared again, since wait() was called
+            return True
+        fut = self._c_get_loop().create_future()
+        self._waiters.append(fut)
         try:
             await fut
             return True
-- 
2.43.0


From 9550dea8d620225ed3f257083b5178dc7a5bfc66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:53 +0000
Subject: [PATCH 33/84] fix: let a pruned PruningThreadPoolExecutor grow back

---
 a_sync/executor.py | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/a_sync/executor.py b/a_sync/executor.py
index d7f8271..37b120a 100644
--- a/a_sync/executor.py
+++ b/a_sync/executor.py
@@ -310,11 +310,24 @@ def _worker(executor_reference, work_queue, initializer, initargs, timeout):  #
                 executor._initializer_failed()
             return
 
+    idle = False  # NOTE: NEW
     try:
         while True:
             try:  # NOTE: NEW
-                work_item = work_queue.get(block=True, timeout=timeout)  # NOTE: NEW
+                if idle:  # NOTE: NEW
+                    work_item = work_queue.get(block=True, timeout=timeout)  # NOTE: NEW
+                else:  # NOTE: NEW
+                    work_item = work_queue.get_nowait()  # NOTE: NEW
             except queue.Empty:  # NOTE: NEW
+                if not idle:  # NOTE: NEW
+                    # attempt to increment idle count, now that there is nothing left to do
+                    idle = True  # NOTE: NEW
+                    executor = executor_reference()
+                    if executor is not None:
+                        executor._idle_semaphore.release()
+                    del executor
+                    continue  # NOTE: NEW
+
                 # Its been 'timeout' seconds and there are no new work items.  # NOTE: NEW
                 # Let's suicide the thread.  # NOTE: NEW
                 executor = executor_reference()  # NOTE: NEW
@@ -339,12 +352,7 @@ def _worker(executor_reference, work_queue, initializer, initargs, timeout):  #
                 work_item.run()
                 # Delete references to object. See issue16284
                 del work_item
-
-                # attempt to increment idle count
-                executor = executor_reference()
-                if executor is not None:
-                    executor._idle_semaphore.release()
-                del executor
+                idle = False  # NOTE: NEW
                 continue
 
             executor = executor_reference()
-- 
2.43.0


From 73b6402ec01e4f0eba5ce6677803813c57c90b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:00 +0000
Subject: [PATCH 34/84] fix: keep the type of a RuntimeError subclass raised by
 a task's awaitable

---
 a_sync/asyncio/create_task.pyx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/a_sync/asyncio/create_task.pyx b/a_sync/asyncio/create_task.pyx
index 4f69d83..40d39b4 100644
--- a/a_sync/asyncio/create_task.pyx
+++ b/a_sync/asyncio/create_task.pyx
@@ -115,6 +115,9 @@ async def __await(awaitable: Awaitable[T]) -> T:
     try:
         return await awaitable
     except RuntimeError as e:
+        if type(e) is not RuntimeError:
+            # NotImplementedError, RecursionError or the user's own: keep the type
+            raise
         args = [e, awaitable]
         if isinstance(awaitable, asyncio.tasks._GatheringFuture):
             args.append(awaitable._children)
-- 
2.43.0


From 0ce37266bd94e2f84f7b70718e0b89c0f8a2d136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:43 +0000
Subject: [PATCH 35/84] fix: do not let a persisted task's BaseException break
 a later create_task

---
 a_sync/asyncio/create_task.pyx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/a_sync/asyncio/create_task.pyx b/a_sync/asyncio/create_task.pyx
index 40d39b4..832bfc7 100644
--- a/a_sync/asyncio/create_task.pyx
+++ b/a_sync/asyncio/create_task.pyx
@@ -172,7 +172,9 @@ async def __persisted_task_exc_wrap(task: "asyncio.Task[T]") -> T:
     """
     try:
         return await task
-    except Exception as e:
+    except asyncio.CancelledError:
+        raise
+    except BaseException as e:
         raise exceptions.PersistedTaskException(e, task) from e
 
 
-- 
2.43.0


From b80e04091afa44a1ebe472d8bfa073e737de146e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:42 +0000
Subject: [PATCH 36/84] fix: let gather(mapping) treat cancellations as
 asyncio.gather does

---
 a_sync/asyncio/gather.pyx | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/a_sync/asyncio/gather.pyx b/a_sync/asyncio/gather.pyx
index 467c85b..2efa58e 100644
--- a/a_sync/asyncio/gather.pyx
+++ b/a_sync/asyncio/gather.pyx
@@ -184,6 +184,18 @@ async def gather_mapping(
     See Also:
         :func:`asyncio.gather`
     """
+    if not tqdm:
+        # treats failures and cancellations exactly as `asyncio.gather` does
+        items = list(mapping.items())
+        values = await asyncio.gather(
+            *(v for _, v in items), return_exceptions=return_exceptions
+        )
+        return {
+            k: v
+            for (k, _), v in zip(items, values)
+            if exclude_if is None or not exclude_if(v)
+        }
+
     results = {
         k: v
         async for k, v in as_completed_mapping(
-- 
2.43.0


From 3210e664790edf2afc5c651ef32e4eb3a946983d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:34 +0000
Subject: [PATCH 37/84] fix: let generator methods that share a name be used on
 one instance

---
 a_sync/iter.pyx | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/a_sync/iter.pyx b/a_sync/iter.pyx
index 894772a..4563e77 100644
--- a/a_sync/iter.pyx
+++ b/a_sync/iter.pyx
@@ -516,18 +516,19 @@ class ASyncGeneratorFunction(Generic[P, T]):
             return self
 
         cdef object gen_func
-        if getattr(type(instance), self.field_name, self) is not self:
-            # a subclass overrides `self` and it was reached thru `super()`, it must not replace its override
-            gen_func = ASyncGeneratorFunction(self.__wrapped__, instance)
-            gen_func._cache_handle.cancel()
-            return gen_func
-        try:
-            gen_func = instance.__dict__[self.field_name]
-        except KeyError:
-            gen_func = ASyncGeneratorFunction(self.__wrapped__, instance)
-            instance.__dict__[self.field_name] = gen_func
+        # NOTE: the instance's cache is keyed by the function's own name, which a subclass' override reached thru `super()`
+        #       or any other function with that name (a private one, or one made by the same factory) may occupy already
+        if getattr(type(instance), self.field_name, self) is self:
+            gen_func = instance.__dict__.get(self.field_name)
+            if gen_func is None:
+                gen_func = ASyncGeneratorFunction(self.__wrapped__, instance)
+                instance.__dict__[self.field_name] = gen_func
+            if getattr(gen_func, "__wrapped__", None) is self.__wrapped__:
+                gen_func._cache_handle.cancel()
+                gen_func._cache_handle = self.__get_cache_handle(instance)
+                return gen_func
+        gen_func = ASyncGeneratorFunction(self.__wrapped__, instance)
         gen_func._cache_handle.cancel()
-        gen_func._cache_handle = self.__get_cache_handle(instance)
         return gen_func
 
     @property
-- 
2.43.0


From c5fe02f7a04db85ddd4dc24e81b6c77fde7b7841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:35 +0000
Subject: [PATCH 38/84] fix: let filter and sort views read iterators that are
 falsy

---
 a_sync/iter.pyx | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/a_sync/iter.pyx b/a_sync/iter.pyx
index 4563e77..007a3fb 100644
--- a/a_sync/iter.pyx
+++ b/a_sync/iter.pyx
@@ -616,11 +616,11 @@ class ASyncFilter(_ASyncView[T]):
 
     async def __anext__(self) -> T:
         cdef object obj
-        if self.__aiterator__:
+        if self.__aiterator__ is not None:
             async for obj in self.__aiterator__:
                 if await self._check(obj):
                     return obj
-        elif self.__iterator__:
+        elif self.__iterator__ is not None:
             try:
                 for obj in self.__iterator__:
                     if await self._check(obj):
@@ -742,13 +742,13 @@ class ASyncSorter(_ASyncView[T]):
         if asyncio.iscoroutinefunction(self._function):
             items = []
             sort_tasks = []
-            if self.__aiterator__:
+            if self.__aiterator__ is not None:
                 async for obj in self.__aiterator__:
                     items.append(obj)
                     sort_tasks.append(
                         ccreate_task_simple(self._function(obj))
                     )
-            elif self.__iterator__:
+            elif self.__iterator__ is not None:
                 for obj in self.__iterator__:
                     items.append(obj)
                     sort_tasks.append(
@@ -759,7 +759,7 @@ class ASyncSorter(_ASyncView[T]):
             for i in sorted(range(len(items)), key=keys.__getitem__, reverse=reverse):
                 yield items[i]
         else:
-            if self.__aiterator__:
+            if self.__aiterator__ is not None:
                 items = [obj async for obj in self.__aiterator__]
             else:
                 items = list(self.__iterator__)
-- 
2.43.0


From cc9d2326a9c283d1447bd347343b35a35f7d55e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:56 +0000
Subject: [PATCH 39/84] fix: let several readers of a TaskMapping each see a
 result when it is there

---
 a_sync/task.py | 35 +++++++++++++++++++++++------------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/a_sync/task.py b/a_sync/task.py
index a47bdbb..4b30b5f 100644
--- a/a_sync/task.py
+++ b/a_sync/task.py
@@ -235,19 +235,20 @@ class TaskMapping(DefaultDict[K, "asyncio.Task[V]"], AsyncIterable[Tuple[K, V]])
                 self._raise_if_empty()
             else:
                 while not self._init_loader.done():
-                    await self._wait_for_next_key()
-                    while unyielded := [key for key in self if key not in yielded]:
-                        if ready := {key: task for key in unyielded if (task := self[key]).done()}:
-                            if pop:
-                                for key, task in ready.items():
-                                    yield key, await self.pop(key)
-                                    yielded.add(key)
-                            else:
-                                for key, task in ready.items():
-                                    yield key, await task
-                                    yielded.add(key)
+                    await self._wait_for_next_result()
+                    while ready := {
+                        key: task
+                        for key, task in dict.items(self)
+                        if key not in yielded and task.done()
+                    }:
+                        if pop:
+                            for key, task in ready.items():
+                                yield key, await self.pop(key)
+                                yielded.add(key)
                         else:
-                            await self._next.wait()
+                            for key, task in ready.items():
+                                yield key, await task
+                                yielded.add(key)
                 # loader is already done by this point, but we need to check for exceptions
                 await self._init_loader
             # if there are any tasks that still need to complete, we need to await them and yield them
@@ -616,6 +617,16 @@ class TaskMapping(DefaultDict[K, "asyncio.Task[V]"], AsyncIterable[Tuple[K, V]])
             # check for exceptions
             await task
 
+    async def _wait_for_next_result(self) -> None:
+        # NOTE: no key needs to come for a result to come, so we must not wait for the next key here
+        next_result = create_task(self._next.wait(), log_destroy_pending=False)
+        try:
+            await asyncio.wait(
+                [next_result, self._init_loader], return_when=asyncio.FIRST_COMPLETED
+            )
+        finally:
+            next_result.cancel()
+
     def __start_task(self, item: K) -> "asyncio.Future[V]":
         if self.concurrency:
             # NOTE: we use a queue instead of a Semaphore to reduce memory use for use cases involving many many tasks
-- 
2.43.0


From 5e9f4b452f262b5555653ad0055630cf2e5eda9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:45 +0000
Subject: [PATCH 40/84] fix: let a TaskMapping report its function's own
 TypeErrors and retry misplaced arguments

---
 a_sync/task.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/a_sync/task.py b/a_sync/task.py
index 4b30b5f..91a35e5 100644
--- a/a_sync/task.py
+++ b/a_sync/task.py
@@ -156,7 +156,7 @@ class TaskMapping(DefaultDict[K, "asyncio.Task[V]"], AsyncIterable[Tuple[K, V]])
 
             @functools.wraps(wrapped_func)
             async def _wrapped_set_next(
-                *args: P.args, __a_sync_recursion: int = 0, **kwargs: P.kwargs
+                *args: P.args, _a_sync_recursion: int = 0, **kwargs: P.kwargs
             ) -> V:
                 try:
                     return await wrapped_func(*args, **kwargs)
@@ -164,8 +164,13 @@ class TaskMapping(DefaultDict[K, "asyncio.Task[V]"], AsyncIterable[Tuple[K, V]])
                     e.args = *e.args, f"wrapped:{self.__wrapped__}"
                     raise
                 except TypeError as e:
-                    if __a_sync_recursion > 2 or not (
-                        str(e).startswith(wrapped_func.__name__)
+                    if _a_sync_recursion > 2 or not (
+                        str(e).startswith(
+                            tuple(
+                                f"{getattr(wrapped_func, attr, None)}()"
+                                for attr in ("__name__", "__qualname__")
+                            )
+                        )
                         and "got multiple values for argument" in str(e)
                     ):
                         raise
@@ -182,7 +187,7 @@ class TaskMapping(DefaultDict[K, "asyncio.Task[V]"], AsyncIterable[Tuple[K, V]])
                         return await _wrapped_set_next(
                             *new_args,
                             **new_kwargs,
-                            __a_sync_recursion=__a_sync_recursion + 1,
+                            _a_sync_recursion=_a_sync_recursion + 1,
                         )
                     except TypeError as e2:
                         raise (
-- 
2.43.0


From 64212e2cc6e9f9704988f9b857309bae31b02d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:47 +0000
Subject: [PATCH 41/84] fix: do not take keys that are still to come for an
 empty iterable in TaskMapping

---
 a_sync/task.py | 40 +++++++++++++++++++++-------------------
 1 file changed, 21 insertions(+), 19 deletions(-)

diff --git a/a_sync/task.py b/a_sync/task.py
index 91a35e5..4348810 100644
--- a/a_sync/task.py
+++ b/a_sync/task.py
@@ -555,18 +555,14 @@ class TaskMapping(DefaultDict[K, "asyncio.Task[V]"], AsyncIterable[Tuple[K, V]])
             for iterable in iterables
             if not isinstance(iterable, AsyncIterable) and isinstance(iterable, Iterable)
         ]
+        yield_keys = _yield_keys if len(iterables) == 1 else _yield_keys_if_any
         for iterable in containers:
-            async for key in _yield_keys(iterable):
+            async for key in yield_keys(iterable):
                 yield key, self[key]
 
         if remaining := [iterable for iterable in iterables if iterable not in containers]:
-            try:
-                async for key in as_yielded(*[_yield_keys(iterable) for iterable in remaining]):  # type: ignore [attr-defined]
-                    yield key, self[key]  # ensure task is running
-            except _EmptySequenceError:
-                if len(iterables) == 1:
-                    raise
-                raise RuntimeError("DEV: figure out how to handle this situation") from None
+            async for key in as_yielded(*[yield_keys(iterable) for iterable in remaining]):  # type: ignore [attr-defined]
+                yield key, self[key]  # ensure task is running
 
     @ASyncGeneratorFunction
     async def _start_tasks_for_iterables(
@@ -579,18 +575,14 @@ class TaskMapping(DefaultDict[K, "asyncio.Task[V]"], AsyncIterable[Tuple[K, V]])
             for iterable in iterables
             if not isinstance(iterable, AsyncIterable) and isinstance(iterable, Iterable)
         ]
+        yield_keys = _yield_keys if len(iterables) == 1 else _yield_keys_if_any
         for iterable in containers:
-            async for key in _yield_keys(iterable):
+            async for key in yield_keys(iterable):
                 yield key, self[key]  # NOTE: the key might come up more than once
 
         if remaining := [iterable for iterable in iterables if iterable not in containers]:
-            try:
-                async for key in as_yielded(*[_yield_keys(iterable) for iterable in remaining]):  # type: ignore [attr-defined]
-                    yield key, self[key]  # NOTE: the key might come up more than once
-            except _EmptySequenceError:
-                if len(iterables) == 1:
-                    raise
-                raise RuntimeError("DEV: figure out how to handle this situation") from None
+            async for key in as_yielded(*[yield_keys(iterable) for iterable in remaining]):  # type: ignore [attr-defined]
+                yield key, self[key]  # NOTE: the key might come up more than once
 
     def _if_pop_check_destroyed(self, pop: bool) -> None:
         if pop:
@@ -693,11 +685,12 @@ async def _yield_keys(iterable: AnyIterableOrAwaitableIterable[K]) -> AsyncItera
     Yields:
         Keys extracted from the iterable.
     """
-    if not iterable:
-        raise _EmptySequenceError(iterable)
-    elif isinstance(iterable, AsyncIterable):
+    if isinstance(iterable, AsyncIterable):
+        # NOTE: we can't tell whether it is empty until it ends, even if it has a length (like the views of a `TaskMapping`)
         async for key in iterable:
             yield key
+    elif not iterable:
+        raise _EmptySequenceError(iterable)
     elif isinstance(iterable, Iterable):
         for key in iterable:
             yield key
@@ -708,6 +701,15 @@ async def _yield_keys(iterable: AnyIterableOrAwaitableIterable[K]) -> AsyncItera
         raise TypeError(iterable)
 
 
+async def _yield_keys_if_any(iterable: AnyIterableOrAwaitableIterable[K]) -> AsyncIterator[K]:
+    """Like :func:`_yield_keys`, for one of several iterables: the others may have keys when `iterable` is empty."""
+    try:
+        async for key in _yield_keys(iterable):
+            yield key
+    except _EmptySequenceError:
+        return
+
+
 __unwrapped = weakref.WeakKeyDictionary()
 
 
-- 
2.43.0


From 52cda2f807a003ab7c64d04338a4c06c6e53b43a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:55 +0000
Subject: [PATCH 42/84] fix: stop the jobs of a closed TaskMapping that has a
 concurrency limit

---
 a_sync/primitives/queue.py | 7 +++++++
 a_sync/task.py             | 6 +++++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/a_sync/primitives/queue.py b/a_sync/primitives/queue.py
index 9dc602e..033e4a8 100644
--- a/a_sync/primitives/queue.py
+++ b/a_sync/primitives/queue.py
@@ -395,6 +395,13 @@ class ProcessingQueue(_Queue[Tuple[P, "asyncio.Future[V]"]], Generic[P, V]):
         """
         self._closed = True
 
+    def _cancel(self) -> None:
+        """Drops all queued jobs and cancels the running ones along with the workers."""
+        self._closed = True
+        self._queue.clear()
+        if "_workers" in self.__dict__:
+            self._workers.cancel()
+
     async def put(self, *args: P.args, **kwargs: P.kwargs) -> "asyncio.Future[V]":
         """
         Asynchronously submits a task to the queue.
diff --git a/a_sync/task.py b/a_sync/task.py
index 4348810..7632cd1 100644
--- a/a_sync/task.py
+++ b/a_sync/task.py
@@ -595,8 +595,12 @@ class TaskMapping(DefaultDict[K, "asyncio.Task[V]"], AsyncIterable[Tuple[K, V]])
             self._destroyed = True
             # _queue is a cached_property, we don't want to create it if it doesn't exist
             if self.concurrency and "_queue" in self.__dict__:
-                self._queue.close()
+                queue = self._queue
+                queue.close()
                 del self._queue
+                # jobs whose futures were popped must still complete, but if there are none nothing should keep running
+                if sum(not fut.done() for fut in dict.values(self)) == queue._unfinished_tasks:
+                    queue._cancel()
             self.clear(cancel=True)
             # we need to let the loop run once so the tasks can fully cancel
             await asyncio.sleep(0)
-- 
2.43.0


From 170efe077cbb77fd179a3de4e44a10026a317508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:36 +0000
Subject: [PATCH 43/84] fix: give TaskMapping's min, max and sum the results
 the builtins give

---
 a_sync/task.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/a_sync/task.py b/a_sync/task.py
index 7632cd1..58aaf56 100644
--- a/a_sync/task.py
+++ b/a_sync/task.py
@@ -389,28 +389,28 @@ class TaskMapping(DefaultDict[K, "asyncio.Task[V]"], AsyncIterable[Tuple[K, V]])
 
     @ASyncMethodDescriptorSyncDefault
     async def max(self, pop: bool = True) -> V:
-        max = None
+        max = _NO_RESULT
         try:
             async for key, result in self.__aiter__(pop=pop):
-                if max is None or result > max:
+                if max is _NO_RESULT or result > max:
                     max = result
         except _EmptySequenceError:
             raise exceptions.EmptySequenceError("max() arg is an empty sequence") from None
-        if max is None:
+        if max is _NO_RESULT:
             raise exceptions.EmptySequenceError("max() arg is an empty sequence") from None
         return max
 
     @ASyncMethodDescriptorSyncDefault
     async def min(self, pop: bool = True) -> V:
         """Return the minimum result from the tasks in the mapping."""
-        min = None
+        min = _NO_RESULT
         try:
             async for key, result in self.__aiter__(pop=pop):
-                if min is None or result < min:
+                if min is _NO_RESULT or result < min:
                     min = result
         except _EmptySequenceError:
             raise exceptions.EmptySequenceError("min() arg is an empty sequence") from None
-        if min is None:
+        if min is _NO_RESULT:
             raise exceptions.EmptySequenceError("min() arg is an empty sequence") from None
         return min
 
@@ -420,7 +420,8 @@ class TaskMapping(DefaultDict[K, "asyncio.Task[V]"], AsyncIterable[Tuple[K, V]])
         retval = 0
         try:
             async for key, result in self.__aiter__(pop=pop):
-                retval += result
+                # NOTE: not `+=`, which would change a mutable result in place
+                retval = retval + result
         except _EmptySequenceError:
             return 0
         return retval
@@ -645,6 +646,10 @@ class TaskMapping(DefaultDict[K, "asyncio.Task[V]"], AsyncIterable[Tuple[K, V]])
         del self.__init_loader_coro
 
 
+_NO_RESULT = object()
+"A placeholder for the result when there were none, since None can be a result."
+
+
 class _NoRunningLoop(Exception): ...
 
 
-- 
2.43.0


From 2cd7f337cce96f89d6982e31a8e474875b6d22be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:18:33 +0000
Subject: [PATCH 44/84] fix: keep the idle count of a PruningThreadPoolExecutor
 right when work arrives as a thread turns idle

---
 a_sync/executor.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/a_sync/executor.py b/a_sync/executor.py
index 37b120a..5f3a6e4 100644
--- a/a_sync/executor.py
+++ b/a_sync/executor.py
@@ -321,10 +321,15 @@ def _worker(executor_reference, work_queue, initializer, initargs, timeout):  #
             except queue.Empty:  # NOTE: NEW
                 if not idle:  # NOTE: NEW
                     # attempt to increment idle count, now that there is nothing left to do
-                    idle = True  # NOTE: NEW
                     executor = executor_reference()
-                    if executor is not None:
-                        executor._idle_semaphore.release()
+                    if executor is None:  # NOTE: NEW
+                        idle = True  # NOTE: NEW
+                    else:
+                        with executor._adjusting_lock:  # NOTE: NEW
+                            # NOTE: An item put in the meantime counted on this thread being busy
+                            if work_queue.empty():  # NOTE: NEW
+                                idle = True  # NOTE: NEW
+                                executor._idle_semaphore.release()
                     del executor
                     continue  # NOTE: NEW
 
-- 
2.43.0


From e3949c431b0d48bb8b6ae347c85011505638b4d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:03 +0000
Subject: [PATCH 45/84] fix: run synchronous calls after the thread's loop was
 closed and keep RuntimeErrors of the body

A current event loop that was closed made every synchronous call fail with
'Event loop is closed'; and a function that raised a RuntimeError with the
message 'This event loop is already running' had it replaced.
---
 a_sync/a_sync/_helpers.pyx | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/a_sync/a_sync/_helpers.pyx b/a_sync/a_sync/_helpers.pyx
index b02ccd5..abc52ab 100644
--- a/a_sync/a_sync/_helpers.pyx
+++ b/a_sync/a_sync/_helpers.pyx
@@ -13,12 +13,14 @@ from a_sync._typing import *
 cpdef object get_event_loop():
     cdef object loop
     try:
-        return asyncio.get_event_loop()
+        loop = asyncio.get_event_loop()
+        if not loop.is_closed():
+            return loop
     except RuntimeError as e:  # Necessary for use with multi-threaded applications.
         if not str(e).startswith("There is no current event loop in thread"):
             raise
-        loop = asyncio.new_event_loop()
-        asyncio.set_event_loop(loop)
+    loop = asyncio.new_event_loop()
+    asyncio.set_event_loop(loop)
     return loop
 
 
@@ -43,12 +45,10 @@ cdef object _await(object awaitable):
     See Also:
         - :func:`asyncio.run`: For running the main entry point of an asyncio program.
     """
-    try:
-        return get_event_loop().run_until_complete(awaitable)
-    except RuntimeError as e:
-        if str(e) == "This event loop is already running":
-            raise exceptions.SyncModeInAsyncContextError from None
-        raise
+    cdef object loop = get_event_loop()
+    if loop.is_running():
+        raise exceptions.SyncModeInAsyncContextError
+    return loop.run_until_complete(awaitable)
 
 
 cdef object _asyncify(object func, object executor):  # type: ignore [misc]
-- 
2.43.0


From e5407382183d548c2a711c1aa43b9c1ff4fb56eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:25 +0000
Subject: [PATCH 46/84] fix: let a singleton's constructor build the singleton
 of the other mode

The lock of the class is held while the constructor runs, so a constructor that
asked for the instance of the other mode waited for itself.
---
 a_sync/a_sync/_meta.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/a_sync/a_sync/_meta.py b/a_sync/a_sync/_meta.py
index 113b263..71c90d1 100644
--- a/a_sync/a_sync/_meta.py
+++ b/a_sync/a_sync/_meta.py
@@ -177,7 +177,7 @@ class ASyncSingletonMeta(ASyncMeta):
     def __init__(cls, name: str, bases: Tuple[type, ...], namespace: Dict[str, Any]) -> None:
         cls.__instances: Dict[bool, object] = {}
         """Dictionary to store singleton instances."""
-        cls.__lock = threading.Lock()
+        cls.__lock = threading.RLock()
         """Lock to ensure thread-safe instance creation."""
         super().__init__(name, bases, namespace)
 
-- 
2.43.0


From abfb3042f040ba32b7bd5347042842df20408572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:57 +0000
Subject: [PATCH 47/84] fix: let go of a smart future once it is done

Every task that awaited a smart future or smart task kept a callback, and with it
the future and its result, until that task itself ended, so a long-lived consumer
accumulated everything it had ever awaited.
---
 a_sync/_smart.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/a_sync/_smart.py b/a_sync/_smart.py
index f41dd06..6240c5d 100644
--- a/a_sync/_smart.py
+++ b/a_sync/_smart.py
@@ -138,8 +138,11 @@ class _SmartFutureMixin(Generic[T]):
         """
         Callback to clean up waiters and remove the future from the queue when done.
 
-        This method clears all waiters and removes the future from the associated queue.
+        This method clears all waiters, whose callbacks would otherwise keep the future alive
+        for as long as they run, and removes the future from the associated queue.
         """
+        for waiter in self._waiters:
+            waiter.remove_done_callback(self._waiter_done_cleanup_callback)
         self._waiters.clear()
         if queue := self._queue:
             queue._futs.pop(self._key)
-- 
2.43.0


From 515c98b4d2700335fb01cb838f38f78cc30a6755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:15 +0000
Subject: [PATCH 48/84] fix: let TaskMapping forget its functions

The cache of unwrapped functions held each function through its own value, so
every function ever mapped lived for ever, and functions that cannot be weakly
referenced or hashed could not be mapped at all.
---
 a_sync/task.py | 18 ++++--------------
 1 file changed, 4 insertions(+), 14 deletions(-)

diff --git a/a_sync/task.py b/a_sync/task.py
index 58aaf56..016fc3b 100644
--- a/a_sync/task.py
+++ b/a_sync/task.py
@@ -719,30 +719,20 @@ async def _yield_keys_if_any(iterable: AnyIterableOrAwaitableIterable[K]) -> Asy
         return
 
 
-__unwrapped = weakref.WeakKeyDictionary()
-
-
 def _unwrap(
     wrapped_func: Union[
         AnyFn[P, T], "ASyncMethodDescriptor[P, T]", _ASyncPropertyDescriptorBase[I, T]
     ]
 ) -> Callable[P, Awaitable[T]]:
-    if unwrapped := __unwrapped.get(wrapped_func):
-        return unwrapped
     if isinstance(wrapped_func, (ASyncBoundMethod, ASyncMethodDescriptor)):
-        unwrapped = wrapped_func
+        return wrapped_func
     elif isinstance(wrapped_func, _ASyncPropertyDescriptorBase):
-        unwrapped = wrapped_func.get
+        return wrapped_func.get
     elif isinstance(wrapped_func, ASyncFunction):
         # this speeds things up a bit by bypassing some logic
         # TODO implement it like this elsewhere if profilers suggest
-        unwrapped = (
-            wrapped_func._modified_fn if wrapped_func._async_def else wrapped_func._asyncified
-        )
-    else:
-        unwrapped = wrapped_func
-    __unwrapped[wrapped_func] = unwrapped
-    return unwrapped
+        return wrapped_func._modified_fn if wrapped_func._async_def else wrapped_func._asyncified
+    return wrapped_func
 
 
 _get_key: Callable[[Tuple[K, V]], K] = lambda k_and_v: k_and_v[0]
-- 
2.43.0


From 3e9562affe149cb00c9cca78f9f310ce5f7e0f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:38 +0000
Subject: [PATCH 49/84] fix: give a deferred method's own wrapper on class
 access, and a repr to nested deferred results

Accessing a method wrapped with future on its class bound it to None. The repr of
a deferred result built from another one asked for the other's value.
---
 a_sync/future.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/a_sync/future.py b/a_sync/future.py
index 3bd4fbe..892f09f 100644
--- a/a_sync/future.py
+++ b/a_sync/future.py
@@ -226,7 +226,7 @@ class ASyncFuture(concurrent.futures.Future, Awaitable[T]):
         return hash(self.__awaitable__)
 
     def __repr__(self) -> str:
-        string = f"<{self.__class__.__name__} {self._state} for {self.__awaitable__}"
+        string = f"<{self.__class__.__name__} {self._state} for {self.__awaitable__!r}"
         if self.cancelled():
             pass
         elif self.done():
@@ -1373,7 +1373,7 @@ class _ASyncFutureWrappedFn(Callable[P, ASyncFuture[T]]):
     def __get__(
         self, instance: I, owner: Type[I]
     ) -> Union[Self, "_ASyncFutureInstanceMethod[I, P, T]"]:
-        return self if owner is None else _ASyncFutureInstanceMethod(self, instance)
+        return self if instance is None else _ASyncFutureInstanceMethod(self, instance)
 
 
 @final
-- 
2.43.0


From 65901508faf008f5bc00a4a23dceca2a0750adc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:38 +0000
Subject: [PATCH 50/84] fix: no crash or leak when a lock or event is used
 before, or initialised more than, once

Reading the name or repr of a CounterLock, or waiting on an event, whose __init__
had not run (or had failed) crashed the interpreter; and calling __init__ again
leaked the name.
---
 a_sync/primitives/locks/counter.pyx   | 5 +++--
 a_sync/primitives/locks/event.pyx     | 7 +++++--
 a_sync/primitives/locks/semaphore.pyx | 2 ++
 3 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/a_sync/primitives/locks/counter.pyx b/a_sync/primitives/locks/counter.pyx
index 9032c46..6ba2b61 100644
--- a/a_sync/primitives/locks/counter.pyx
+++ b/a_sync/primitives/locks/counter.pyx
@@ -55,6 +55,7 @@ cdef class CounterLock(_DebugDaemonMixin):
         cdef Py_ssize_t length = len(encoded_name)
 
         # Allocate memory for the char* and add 1 for the null character
+        free(self.__name)  # set if this is not the first call
         self.__name = <char*>malloc(length + 1)
         """An optional name for the counter, used in debug logs."""
 
@@ -83,7 +84,7 @@ cdef class CounterLock(_DebugDaemonMixin):
             '<CounterLock name=example_counter value=0 waiters={}>'
         """
         cdef dict[long long, Py_ssize_t] waiters = {v: len(self._events[v]._waiters) for v in sorted(self._events)}
-        return "<CounterLock name={} value={} waiters={}>".format(self.__name.decode("utf-8"), self._value, waiters)
+        return "<CounterLock name={} value={} waiters={}>".format(self._name, self._value, waiters)
 
     cpdef bint is_ready(self, long long v):
         """A function that indicates whether the current counter value is greater than or equal to a given value."""
@@ -192,7 +193,7 @@ cdef class CounterLock(_DebugDaemonMixin):
 
     @property
     def _name(self) -> str:
-        return self.__name.decode("utf-8")
+        return (self.__name or b"").decode("utf-8")
 
     async def _debug_daemon(self) -> None:
         """
diff --git a/a_sync/primitives/locks/event.pyx b/a_sync/primitives/locks/event.pyx
index 9853bab..0a01523 100644
--- a/a_sync/primitives/locks/event.pyx
+++ b/a_sync/primitives/locks/event.pyx
@@ -29,6 +29,9 @@ cdef class CythonEvent(_DebugDaemonMixin):
     detailed information about the event state and waiters, which can be useful for
     diagnosing and debugging potential deadlocks.
     """
+    def __cinit__(self):
+        self._waiters = []
+
     def __init__(
         self,
         name: str = "",
@@ -44,7 +47,6 @@ cdef class CythonEvent(_DebugDaemonMixin):
             debug_daemon_interval (int): The interval in seconds for the debug daemon to log information.
             loop (Optional[asyncio.AbstractEventLoop]): The event loop to use.
         """
-        self._waiters = []
         #self._value = False
         if sys.version_info >= (3, 10):
             super().__init__()
@@ -62,6 +64,7 @@ cdef class CythonEvent(_DebugDaemonMixin):
         cdef Py_ssize_t length = len(encoded_name)
 
         # Allocate memory for the char* and add 1 for the null character
+        free(self.__name)  # set if this is not the first call
         self.__name = <char*>malloc(length + 1)
         """An optional name for the counter, used in debug logs."""
 
@@ -152,7 +155,7 @@ cdef class CythonEvent(_DebugDaemonMixin):
 
     @property
     def _name(self) -> str:
-        return self.__name.decode("utf-8")
+        return (self.__name or b"").decode("utf-8")
     
     async def __wait(self, times_set: int) -> Literal[True]:
         # The waiter is created here, not in `c_wait`: the coroutine of a task that
diff --git a/a_sync/primitives/locks/semaphore.pyx b/a_sync/primitives/locks/semaphore.pyx
index b754b04..91cc2b3 100644
--- a/a_sync/primitives/locks/semaphore.pyx
+++ b/a_sync/primitives/locks/semaphore.pyx
@@ -87,6 +87,7 @@ cdef class Semaphore(_DebugDaemonMixin):
         cdef Py_ssize_t length = len(encoded_name)
 
         # Allocate memory for the char* and add 1 for the null character
+        free(self._name)  # set if this is not the first call
         self._name = <char*>malloc(length + 1)
         """An optional name for the counter, used in debug logs."""
 
@@ -350,6 +351,7 @@ cdef class DummySemaphore(Semaphore):
         cdef Py_ssize_t length = len(encoded_name)
 
         # Allocate memory for the char* and add 1 for the null character
+        free(self._name)  # set if this is not the first call
         self._name = <char*>malloc(length + 1)
         """An optional name for the counter, used in debug logs."""
 
-- 
2.43.0


From 3066c8c0e0cb46e93d8c19c02fe04567b0f999b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:24 +0000
Subject: [PATCH 51/84] fix: find the mode a class inherits from further up
 than its direct bases

A singleton class whose mode flag is an attribute of a grandparent could not be
constructed without an explicit flag.
---
 a_sync/a_sync/base.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/a_sync/a_sync/base.pyx b/a_sync/a_sync/base.pyx
index 2934e6b..fb40f02 100644
--- a/a_sync/a_sync/base.pyx
+++ b/a_sync/a_sync/base.pyx
@@ -143,7 +143,7 @@ cdef str _get_a_sync_flag_name_from_class_def(object cls):
         return _parse_flag_name_from_list(cls, cls.__dict__)  # type: ignore [arg-type]
         # idk why __dict__ doesn't type check as a dict
     except exceptions.NoFlagsFound:
-        for base in cls.__bases__:
+        for base in cls.__mro__[1:]:
             with suppress(exceptions.NoFlagsFound):
                 return _parse_flag_name_from_list(cls, base.__dict__)  # type: ignore [arg-type]
                 # idk why __dict__ doesn't type check as a dict
@@ -206,7 +206,7 @@ cdef str _parse_flag_name_from_list(object cls, object items):
 
 cdef inline bint _get_a_sync_flag_value_from_class_def(object cls, str flag):
     cdef object spec
-    for spec in [cls, *cls.__bases__]:
+    for spec in cls.__mro__:
         if flag in spec.__dict__:
             return spec.__dict__[flag]
     raise exceptions.FlagNotDefined(cls, flag)
-- 
2.43.0


From 9a5f7d2b89e5b2c6af230b91a9c354168aa5f777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:09 +0000
Subject: [PATCH 52/84] fix: accept an argument called instance in a method
 called on its class

---
 a_sync/a_sync/method.pyi | 2 +-
 a_sync/a_sync/method.pyx | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/a_sync/a_sync/method.pyi b/a_sync/a_sync/method.pyi
index 932c6e4..aac10dd 100644
--- a/a_sync/a_sync/method.pyi
+++ b/a_sync/a_sync/method.pyi
@@ -61,7 +61,7 @@ class ASyncMethodDescriptor(ASyncDescriptor[I, P, T]):
     """
 
     __wrapped__: AnyFn[P, T]
-    async def __call__(self, instance: I, *args: P.args, **kwargs: P.kwargs) -> T:
+    async def __call__(self, instance: I, /, *args: P.args, **kwargs: P.kwargs) -> T:
         """
         Asynchronously call the method.
 
diff --git a/a_sync/a_sync/method.pyx b/a_sync/a_sync/method.pyx
index 94b3c40..5c9531b 100644
--- a/a_sync/a_sync/method.pyx
+++ b/a_sync/a_sync/method.pyx
@@ -78,7 +78,7 @@ class ASyncMethodDescriptor(ASyncDescriptor[I, P, T]):
     __wrapped__: AnyFn[P, T]
     """The unbound function which will be bound to an instance when :meth:`__get__` is called."""
 
-    async def __call__(self, instance: I, *args: P.args, **kwargs: P.kwargs) -> T:
+    async def __call__(self, instance: I, /, *args: P.args, **kwargs: P.kwargs) -> T:
         """
         Asynchronously call the method.
 
-- 
2.43.0


From 83b47f8f1edc357cbeeb76045316a8a01d28b64b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:13 +0000
Subject: [PATCH 53/84] fix: do not hand a later reader of a cached property a
 failure nobody waited for

When all readers of a cached property had been cancelled, the failure or
cancellation of the computation they left behind went to the next reader, and one
left behind on a closed loop was awaited for ever. With several readers the value
was stored once for each, undoing what had happened to it since, and adding a
setter or deleter dropped the property's default mode.
---
 a_sync/a_sync/property.pyx | 28 +++++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/a_sync/a_sync/property.pyx b/a_sync/a_sync/property.pyx
index d5a9a73..7dd7c81 100644
--- a/a_sync/a_sync/property.pyx
+++ b/a_sync/a_sync/property.pyx
@@ -380,6 +380,13 @@ def a_sync_property(  # type: ignore [misc]
     return decorator if func is None else decorator(func)
 
 
+cdef bint _is_spent(object task):
+    """Whether a task whose waiters were all cancelled has no value to give, now or later."""
+    if task.done():
+        return task.cancelled() or task.exception() is not None
+    return task.get_loop().is_closed()
+
+
 class ASyncCachedPropertyDescriptor(
     _ASyncPropertyDescriptorBase[I, T], ap.cached.AsyncCachedPropertyDescriptor
 ):
@@ -418,6 +425,16 @@ class ASyncCachedPropertyDescriptor(
         self._fdel = _fdel
         """Optional deleter function for the property."""
 
+    def setter(self, method):
+        """Returns a copy of the property, with the same modifiers, that calls `method` when it is set."""
+        self._check_method_name(method, "setter")
+        return type(self)(self.__wrapped__, method, self._fdel, self.field_name, **self.modifiers)
+
+    def deleter(self, method):
+        """Returns a copy of the property, with the same modifiers, that calls `method` when it is deleted."""
+        self._check_method_name(method, "deleter")
+        return type(self)(self.__wrapped__, self._fset, method, self.field_name, **self.modifiers)
+
     def get_lock(self, instance: I) -> "asyncio.Task[T]":
         """Retrieves the lock for the property.
 
@@ -430,7 +447,7 @@ class ASyncCachedPropertyDescriptor(
         cdef str key = _get_bound_key(self, instance)
         instance_state = self.get_instance_state(instance)
         task = instance_state.lock[key]
-        if isinstance(task, asyncio.Lock):
+        if isinstance(task, asyncio.Lock) or _is_spent(task):
             # default behavior uses lock but we want to use a Task so all waiters wake up together
             task = ccreate_task_simple(self._fget(instance))
             instance_state.lock[key] = task
@@ -444,6 +461,9 @@ class ASyncCachedPropertyDescriptor(
         """
         self.get_instance_state(instance).lock.pop(_get_bound_key(self, instance), None)
 
+    def _is_lock(self, instance: I, task: "asyncio.Task[T]") -> bool:
+        return self.get_instance_state(instance).lock.get(_get_bound_key(self, instance)) is task
+
     # NOTE: these are keyed like the lock so `super()` can reach an overridden property
     def has_cache_value(self, instance: I) -> bool:
         return _get_bound_key(self, instance) in self.get_cache(instance)
@@ -476,11 +496,13 @@ class ASyncCachedPropertyDescriptor(
                 e.args = *e.args, {"property": self, "instance": instance}
                 raise
             else:
-                self.__set__(instance, value)
+                if self._is_lock(instance, inner_task):
+                    # one waiter stores the value, the others must not undo what happens to it since
+                    self.__set__(instance, value)
                 return value
             finally:
                 # forget the task whether it succeeded or not, a failure must not be cached
-                if inner_task.done() and self.get_instance_state(instance).lock.get(_get_bound_key(self, instance)) is inner_task:
+                if inner_task.done() and self._is_lock(instance, inner_task):
                     self.pop_lock(instance)
 
         return load_value
-- 
2.43.0


From 9840a9722273ec3bb633e9fdb7454832ae0fd2eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:17 +0000
Subject: [PATCH 54/84] fix: compute a cached property once when it is awaited
 after it was loaded

An awaitable taken from a cached property before it was loaded computed the value
again when awaited afterwards, as did the next read when the only reader left was
cancelled as the computation finished.
---
 a_sync/a_sync/property.pyx | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/a_sync/a_sync/property.pyx b/a_sync/a_sync/property.pyx
index 7dd7c81..90dce55 100644
--- a/a_sync/a_sync/property.pyx
+++ b/a_sync/a_sync/property.pyx
@@ -489,6 +489,9 @@ class ASyncCachedPropertyDescriptor(
 
         @functools.wraps(self._fget)
         async def load_value():
+            if self.has_cache_value(instance):
+                # loaded between the access and the await
+                return self.get_cache_value(instance)
             inner_task = self.get_lock(instance)
             try:
                 value = await _smart.shield(inner_task)
@@ -498,11 +501,12 @@ class ASyncCachedPropertyDescriptor(
             else:
                 if self._is_lock(instance, inner_task):
                     # one waiter stores the value, the others must not undo what happens to it since
+                    self.pop_lock(instance)
                     self.__set__(instance, value)
                 return value
             finally:
-                # forget the task whether it succeeded or not, a failure must not be cached
-                if inner_task.done() and self._is_lock(instance, inner_task):
+                # a failure must not be cached
+                if self._is_lock(instance, inner_task) and _is_spent(inner_task):
                     self.pop_lock(instance)
 
         return load_value
-- 
2.43.0


From ed883bd03bbf63fc5befce452651dc6d52e61c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:11 +0000
Subject: [PATCH 55/84] fix: keep a bound method's permits, rate allowance and
 cached results as long as its instance

---
 a_sync/a_sync/method.pyx | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/a_sync/a_sync/method.pyx b/a_sync/a_sync/method.pyx
index 5c9531b..d6d397b 100644
--- a/a_sync/a_sync/method.pyx
+++ b/a_sync/a_sync/method.pyx
@@ -247,6 +247,9 @@ cdef void _update_cache_timer(field_name: str, instance: I, bound: "ASyncBoundMe
     if handle := bound._cache_handle:
         # NOTE: we can't touch the handle itself, it is in the loop's heap. `_pop_if_unused` will check this instead.
         bound._cache_expires = handle._loop.time() + _METHOD_CACHE_TTL
+    elif bound._is_stateful:
+        # NOTE: its modifiers' permits, rate allowance and cached results must live as long as the instance does
+        return
     else:
         # create and assign the timer handle
         loop = get_event_loop()
@@ -818,6 +821,12 @@ class ASyncBoundMethod(ASyncFunction[P, T], Generic[I, P, T]):
             *iterables, concurrency=concurrency, task_name=task_name, **kwargs
         ).sum(pop=True, sync=False)
 
+    @functools.cached_property
+    def _is_stateful(self) -> bool:
+        """Whether the bound method's modifiers keep any state between calls."""
+        cdef object modifiers = self.modifiers
+        return modifiers.use_semaphore or modifiers.use_limiter or modifiers.use_cache
+
     def __cancel_cache_handle(self, instance: I) -> None:
         """
         Cancel the cache handle.
-- 
2.43.0


From c97354fab8663911c82462214616e49385673fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:11 +0000
Subject: [PATCH 56/84] fix: never remember a cancelled call, honour the ttl
 from any event loop, share the memory cache between threads

---
 a_sync/a_sync/modifiers/cache/memory.py | 89 ++++++++++++++++++++++++-
 1 file changed, 88 insertions(+), 1 deletion(-)

diff --git a/a_sync/a_sync/modifiers/cache/memory.py b/a_sync/a_sync/modifiers/cache/memory.py
index cf4ad97..57ec762 100644
--- a/a_sync/a_sync/modifiers/cache/memory.py
+++ b/a_sync/a_sync/modifiers/cache/memory.py
@@ -1,8 +1,10 @@
 # mypy: disable-error-code=valid-type
 # mypy: disable-error-code=misc
 import asyncio
+import threading
+from functools import _make_key, partial
 
-from async_lru import alru_cache
+from async_lru import _CacheItem, _LRUCacheWrapper, alru_cache
 
 from a_sync import exceptions
 from a_sync._typing import *
@@ -163,4 +165,89 @@ def apply_async_memory_cache(
         maxsize = None
 
     cache_decorator = alru_cache(maxsize=maxsize, ttl=ttl, typed=typed)
+    cache_decorator = partial(_memory_cache, cache_decorator)
     return cache_decorator if coro_fn is None else cache_decorator(coro_fn)
+
+
+def _memory_cache(
+    cache_decorator: AsyncDecorator[P, T], coro_fn: CoroFn[P, T]
+) -> "_MemoryCacheWrapper":
+    wrapper = cache_decorator(coro_fn)
+    wrapper.__class__ = _MemoryCacheWrapper
+    return wrapper
+
+
+class _MemoryCacheWrapper(_LRUCacheWrapper):  # type: ignore [misc]
+    """
+    An :func:`async_lru.alru_cache` wrapper which never remembers a failed or cancelled call and which
+    can be called from any number of event loops, whether they are still running when an item expires or not.
+    """
+
+    async def __call__(self, /, *args, **kwargs):
+        if self._LRUCacheWrapper__closed:
+            raise RuntimeError(f"alru_cache is closed for {self}")
+
+        key = _make_key(args, kwargs, self._LRUCacheWrapper__typed)
+        cache = self._LRUCacheWrapper__cache
+        with _lock:
+            item = cache.get(key)
+            if item is not None and _is_stale(item):
+                self._drop(key, item)
+                item = None
+            if item is not None:
+                self._cache_hit(key)
+            else:
+                loop = asyncio.get_running_loop()
+                fut = loop.create_future()
+                task = loop.create_task(self.__wrapped__(*args, **kwargs))
+                self._LRUCacheWrapper__tasks.add(task)
+                task.add_done_callback(partial(self._task_done_callback, fut, key))
+
+                item = cache[key] = _CacheItem(fut, None)
+                maxsize = self._LRUCacheWrapper__maxsize
+                if maxsize is not None and len(cache) > maxsize:
+                    self._drop(*next(iter(cache.items())))
+                self._cache_miss(key)
+
+        if item.fut.done():
+            return item.fut.result()
+        return await asyncio.shield(item.fut)
+
+    def _drop(self, key, item) -> None:
+        item.cancel()
+        with _lock:
+            # NOTE: the item may have been replaced
+            if self._LRUCacheWrapper__cache.get(key) is item:
+                del self._LRUCacheWrapper__cache[key]
+
+    def _task_done_callback(self, fut, key, task) -> None:
+        self._LRUCacheWrapper__tasks.discard(task)
+        item = self._LRUCacheWrapper__cache.get(key)
+        # NOTE: the item may have been evicted or replaced while the task was running
+        if item is not None and item.fut is fut:
+            if task.cancelled() or task.exception() is not None:
+                self._drop(key, item)
+            elif self._LRUCacheWrapper__ttl is not None:
+                item.later_call = fut.get_loop().call_later(
+                    self._LRUCacheWrapper__ttl, self._drop, key, item
+                )
+
+        if task.cancelled():
+            fut.cancel()
+        elif (exc := task.exception()) is not None:
+            fut.set_exception(exc)
+        else:
+            fut.set_result(task.result())
+
+
+# functions can be called from any thread
+_lock = threading.RLock()
+
+
+def _is_stale(item) -> bool:
+    loop = asyncio.get_running_loop()
+    if not item.fut.done():
+        # we can't wait for a task which belongs to another loop
+        return item.fut.get_loop() is not loop
+    # the loop which would have dropped the expired item might not be running anymore
+    return item.later_call is not None and item.later_call.when() <= loop.time()
-- 
2.43.0


From c06f541d79597d84befe26c9139d6d79ec799c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:46 +0000
Subject: [PATCH 57/84] fix: honour the default mode of sync- and async-default
 method descriptors on ordinary classes

---
 a_sync/a_sync/method.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/a_sync/a_sync/method.pyx b/a_sync/a_sync/method.pyx
index d6d397b..235c2c7 100644
--- a/a_sync/a_sync/method.pyx
+++ b/a_sync/a_sync/method.pyx
@@ -349,7 +349,7 @@ class ASyncMethodDescriptorSyncDefault(ASyncMethodDescriptor[I, P, T]):
             bound = instance.__dict__[bound_key]
         except KeyError:
             bound = ASyncBoundMethodSyncDefault(
-                instance, self.__wrapped__, self.__is_async_def__, **self.modifiers
+                instance, self.__wrapped__, self.__is_async_def__, **{**self.modifiers, "default": "sync"}
             )
             instance.__dict__[bound_key] = bound
             c_logger.debug("new bound method: %s", bound)
@@ -435,7 +435,7 @@ class ASyncMethodDescriptorAsyncDefault(ASyncMethodDescriptor[I, P, T]):
             bound = instance.__dict__[bound_key]
         except KeyError:
             bound = ASyncBoundMethodAsyncDefault(
-                instance, self.__wrapped__, self.__is_async_def__, **self.modifiers
+                instance, self.__wrapped__, self.__is_async_def__, **{**self.modifiers, "default": "async"}
             )
             instance.__dict__[bound_key] = bound
             c_logger.debug("new bound method: %s", bound)
-- 
2.43.0


From 6ade90537b6d2f4401908656507944e37a3f3bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:46 +0000
Subject: [PATCH 58/84] fix: don't apply the user's default modifiers to the
 library's own methods

---
 a_sync/a_sync/_descriptor.py | 12 ++++++------
 a_sync/task.py               | 16 +++++++++-------
 2 files changed, 15 insertions(+), 13 deletions(-)

diff --git a/a_sync/a_sync/_descriptor.py b/a_sync/a_sync/_descriptor.py
index f6cbf3d..a09bbb6 100644
--- a/a_sync/a_sync/_descriptor.py
+++ b/a_sync/a_sync/_descriptor.py
@@ -16,7 +16,7 @@ See Also:
 import functools
 
 from a_sync._typing import *
-from a_sync.a_sync import decorator
+from a_sync.a_sync import config, decorator
 from a_sync.a_sync.function import (
     ASyncFunction,
     ModifierManager,
@@ -151,7 +151,7 @@ class ASyncDescriptor(_ModifiedMixin, Generic[I, P, T]):
             instance = MyClass()
             result = await instance.my_method.all([1, 2, 3])
         """
-        return decorator.a_sync(default=self.default)(self._all)
+        return decorator.a_sync(**{**config.null_modifiers, "default": self.default})(self._all)
 
     @functools.cached_property
     def any(self) -> ASyncFunction[Concatenate[AnyIterable[I], P], bool]:
@@ -170,7 +170,7 @@ class ASyncDescriptor(_ModifiedMixin, Generic[I, P, T]):
             instance = MyClass()
             result = await instance.my_method.any([-1, 0, 1])
         """
-        return decorator.a_sync(default=self.default)(self._any)
+        return decorator.a_sync(**{**config.null_modifiers, "default": self.default})(self._any)
 
     @functools.cached_property
     def min(self) -> ASyncFunction[Concatenate[AnyIterable[I], P], T]:
@@ -191,7 +191,7 @@ class ASyncDescriptor(_ModifiedMixin, Generic[I, P, T]):
             result = await instance.my_method.min([3, 1, 2])
             ```
         """
-        return decorator.a_sync(default=self.default)(self._min)
+        return decorator.a_sync(**{**config.null_modifiers, "default": self.default})(self._min)
 
     @functools.cached_property
     def max(self) -> ASyncFunction[Concatenate[AnyIterable[I], P], T]:
@@ -210,7 +210,7 @@ class ASyncDescriptor(_ModifiedMixin, Generic[I, P, T]):
             instance = MyClass()
             result = await instance.my_method.max([3, 1, 2])
         """
-        return decorator.a_sync(default=self.default)(self._max)
+        return decorator.a_sync(**{**config.null_modifiers, "default": self.default})(self._max)
 
     @functools.cached_property
     def sum(self) -> ASyncFunction[Concatenate[AnyIterable[I], P], T]:
@@ -231,7 +231,7 @@ class ASyncDescriptor(_ModifiedMixin, Generic[I, P, T]):
             result = await instance.my_method.sum([1, 2, 3])
             ```
         """
-        return decorator.a_sync(default=self.default)(self._sum)
+        return decorator.a_sync(**{**config.null_modifiers, "default": self.default})(self._sum)
 
     async def _all(
         self,
diff --git a/a_sync/task.py b/a_sync/task.py
index 016fc3b..9e105f7 100644
--- a/a_sync/task.py
+++ b/a_sync/task.py
@@ -18,7 +18,7 @@ import weakref
 import a_sync.asyncio
 from a_sync import exceptions
 from a_sync._typing import *
-from a_sync.a_sync import _kwargs
+from a_sync.a_sync import _kwargs, config
 from a_sync.a_sync.base import ASyncGenericBase
 from a_sync.a_sync.function import ASyncFunction
 from a_sync.a_sync.method import (
@@ -37,6 +37,8 @@ from a_sync.utils.iterators import as_yielded, exhaust_iterator
 
 logger = logging.getLogger(__name__)
 
+# NOTE: default modifiers set through the environment are for the user's functions, not for our methods
+_task_mapping_method = functools.partial(ASyncMethodDescriptorSyncDefault, **config.null_modifiers)
 
 MappingFn = Callable[Concatenate[K, P], Awaitable[V]]
 
@@ -363,7 +365,7 @@ class TaskMapping(DefaultDict[K, "asyncio.Task[V]"], AsyncIterable[Tuple[K, V]])
         finally:
             await self._if_pop_clear(pop)
 
-    @ASyncMethodDescriptorSyncDefault
+    @_task_mapping_method
     async def all(self, pop: bool = True) -> bool:
         try:
             async for key, result in self.__aiter__(pop=pop):
@@ -375,7 +377,7 @@ class TaskMapping(DefaultDict[K, "asyncio.Task[V]"], AsyncIterable[Tuple[K, V]])
         finally:
             await self._if_pop_clear(pop)
 
-    @ASyncMethodDescriptorSyncDefault
+    @_task_mapping_method
     async def any(self, pop: bool = True) -> bool:
         try:
             async for key, result in self.__aiter__(pop=pop):
@@ -387,7 +389,7 @@ class TaskMapping(DefaultDict[K, "asyncio.Task[V]"], AsyncIterable[Tuple[K, V]])
         finally:
             await self._if_pop_clear(pop)
 
-    @ASyncMethodDescriptorSyncDefault
+    @_task_mapping_method
     async def max(self, pop: bool = True) -> V:
         max = _NO_RESULT
         try:
@@ -400,7 +402,7 @@ class TaskMapping(DefaultDict[K, "asyncio.Task[V]"], AsyncIterable[Tuple[K, V]])
             raise exceptions.EmptySequenceError("max() arg is an empty sequence") from None
         return max
 
-    @ASyncMethodDescriptorSyncDefault
+    @_task_mapping_method
     async def min(self, pop: bool = True) -> V:
         """Return the minimum result from the tasks in the mapping."""
         min = _NO_RESULT
@@ -414,7 +416,7 @@ class TaskMapping(DefaultDict[K, "asyncio.Task[V]"], AsyncIterable[Tuple[K, V]])
             raise exceptions.EmptySequenceError("min() arg is an empty sequence") from None
         return min
 
-    @ASyncMethodDescriptorSyncDefault
+    @_task_mapping_method
     async def sum(self, pop: bool = False) -> V:
         """Return the sum of the results from the tasks in the mapping."""
         retval = 0
@@ -455,7 +457,7 @@ class TaskMapping(DefaultDict[K, "asyncio.Task[V]"], AsyncIterable[Tuple[K, V]])
                 if task.done():
                     yield k, await task
 
-    @ASyncMethodDescriptorSyncDefault
+    @_task_mapping_method
     async def gather(
         self,
         return_exceptions: bool = False,
-- 
2.43.0


From 05ba9e60f972ea4b5d8e4e13e6225b591c05c036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:54 +0000
Subject: [PATCH 59/84] fix: apply a class's default mode to decorated methods
 that give none

---
 a_sync/a_sync/_meta.py   | 7 ++++++-
 a_sync/a_sync/method.pyx | 4 ++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/a_sync/a_sync/_meta.py b/a_sync/a_sync/_meta.py
index 71c90d1..3206169 100644
--- a/a_sync/a_sync/_meta.py
+++ b/a_sync/a_sync/_meta.py
@@ -114,7 +114,12 @@ class ASyncMeta(ABCMeta):
                         attr_name,
                         modified_modifiers,
                     )
-                    fn_modifiers.update(modified_modifiers)
+                    # NOTE: a decorator that was given no default mode does not override the class's
+                    fn_modifiers.update(
+                        (key, value)
+                        for key, value in modified_modifiers.items()
+                        if not (key == "default" and value is None)
+                    )
                 else:
                     logger.debug("I did not find any modifiers")
                 logger.debug(
diff --git a/a_sync/a_sync/method.pyx b/a_sync/a_sync/method.pyx
index 235c2c7..b0d7df7 100644
--- a/a_sync/a_sync/method.pyx
+++ b/a_sync/a_sync/method.pyx
@@ -562,7 +562,11 @@ class ASyncBoundMethod(ASyncFunction[P, T], Generic[I, P, T]):
         self.__weakself__ = weakref.ref(instance, self.__cancel_cache_handle)
         # First we unwrap the coro_fn and rewrap it so overriding flag kwargs are handled automagically.
         if isinstance(unbound, ASyncFunction):
+            default = modifiers.get("default")
             modifiers.update(unbound.modifiers)
+            if default is not None and modifiers.get("default") is None:
+                # NOTE: a decorator that was given no default mode does not override an inherited one
+                modifiers["default"] = default
             unbound = unbound.__wrapped__
         # NOTE: the wrapped function was validated when the descriptor was initialized
         ASyncFunction.__init__(self, unbound, _skip_validate=True, **modifiers)
-- 
2.43.0


From eeddbae3fcde7ef4eb9f8a1e1c298f5f4b6f4589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:35 +0000
Subject: [PATCH 60/84] fix: pass keyword arguments named fn or self on to the
 function, end the debug task of a finished work item

---
 a_sync/executor.py | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/a_sync/executor.py b/a_sync/executor.py
index 5f3a6e4..33c2713 100644
--- a/a_sync/executor.py
+++ b/a_sync/executor.py
@@ -56,7 +56,7 @@ class _AsyncExecutorMixin(concurrent.futures.Executor, _DebugDaemonMixin):
 
     __slots__ = "_max_workers", "_initializer", "_initargs", "_broken", "_shutdown_lock"
 
-    async def run(self, fn: Callable[P, T], *args: P.args, **kwargs: P.kwargs):
+    async def run(self, fn: Callable[P, T], /, *args: P.args, **kwargs: P.kwargs):
         """
         A shorthand way to call `await asyncio.get_event_loop().run_in_executor(this_executor, fn, *args)`.
         Doesn't `await this_executor.run(fn, *args)` look so much better?
@@ -79,7 +79,7 @@ class _AsyncExecutorMixin(concurrent.futures.Executor, _DebugDaemonMixin):
         """
         return fn(*args, **kwargs) if self.sync_mode else await self.submit(fn, *args, **kwargs)
 
-    def submit(self, fn: Callable[P, T], *args: P.args, **kwargs: P.kwargs) -> "asyncio.Future[T]":  # type: ignore [override]
+    def submit(self, fn: Callable[P, T], /, *args: P.args, **kwargs: P.kwargs) -> "asyncio.Future[T]":  # type: ignore [override]
         """
         Submits a job to the executor and returns an :class:`asyncio.Future` that can be awaited for the result without blocking.
 
@@ -135,7 +135,7 @@ class _AsyncExecutorMixin(concurrent.futures.Executor, _DebugDaemonMixin):
         """
         return len(getattr(self, f"_{self._workers}"))
 
-    async def _debug_daemon(self, fut: asyncio.Future, fn, *args, **kwargs) -> None:
+    async def _debug_daemon(self, fut: asyncio.Future, fn, /, *args, **kwargs) -> None:
         """
         Runs until manually cancelled by the finished work item.
 
@@ -156,16 +156,11 @@ class _AsyncExecutorMixin(concurrent.futures.Executor, _DebugDaemonMixin):
         else:
             fnid = fn
 
-        msg = f"%s processing %s{args}"
-        if kwargs:
-            msg = f"{msg[:-1]} {', '.join(f'{k}={v}' for k, v in kwargs.items())})"
-        else:
-            msg = f"{msg[:-2]})"
-
         while not fut.done():
-            await asyncio.sleep(15)
+            # NOTE: don't sleep on (and keep the arguments alive) once the work item is finished
+            await asyncio.wait((fut,), timeout=15)
             if not fut.done():
-                self.logger.debug(msg, self, fnid)
+                self.logger.debug("%s processing %s args: %s kwargs: %s", self, fnid, args, kwargs)
 
 
 # Process
-- 
2.43.0


From 59eaab7b6408620236f74860f6cfadfab457a7e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:20 +0000
Subject: [PATCH 61/84] fix: None checks in the compiled modules, no unchecked
 casts or default pickling of priority semaphores

---
 a_sync/a_sync/_flags.pyx                   | 1 +
 a_sync/a_sync/_helpers.pyx                 | 1 +
 a_sync/a_sync/_kwargs.pyx                  | 1 +
 a_sync/a_sync/abstract.pyx                 | 1 +
 a_sync/a_sync/base.pyx                     | 1 +
 a_sync/a_sync/function.pyx                 | 1 +
 a_sync/a_sync/method.pyx                   | 1 +
 a_sync/a_sync/modifiers/manager.pyx        | 1 +
 a_sync/a_sync/property.pyx                 | 1 +
 a_sync/asyncio/as_completed.pyx            | 1 +
 a_sync/asyncio/create_task.pyx             | 1 +
 a_sync/asyncio/gather.pyx                  | 1 +
 a_sync/iter.pyx                            | 1 +
 a_sync/primitives/_debug.pyx               | 1 +
 a_sync/primitives/_loggable.pyx            | 1 +
 a_sync/primitives/locks/counter.pyx        | 1 +
 a_sync/primitives/locks/event.pyx          | 1 +
 a_sync/primitives/locks/prio_semaphore.pyx | 7 ++++++-
 a_sync/primitives/locks/semaphore.pyx      | 1 +
 19 files changed, 24 insertions(+), 1 deletion(-)

diff --git a/a_sync/a_sync/_flags.pyx b/a_sync/a_sync/_flags.pyx
index a5af730..d2cb780 100644
--- a/a_sync/a_sync/_flags.pyx
+++ b/a_sync/a_sync/_flags.pyx
@@ -1,3 +1,4 @@
+# cython: nonecheck=True
 """
 This module provides functionality for handling synchronous and asynchronous flags
 in the ez-a-sync library.
diff --git a/a_sync/a_sync/_helpers.pyx b/a_sync/a_sync/_helpers.pyx
index abc52ab..3732024 100644
--- a/a_sync/a_sync/_helpers.pyx
+++ b/a_sync/a_sync/_helpers.pyx
@@ -1,3 +1,4 @@
+# cython: nonecheck=True
 """
 This module provides utility functions for handling asynchronous operations
 and converting synchronous functions to asynchronous ones.
diff --git a/a_sync/a_sync/_kwargs.pyx b/a_sync/a_sync/_kwargs.pyx
index 229e077..c4ac797 100644
--- a/a_sync/a_sync/_kwargs.pyx
+++ b/a_sync/a_sync/_kwargs.pyx
@@ -1,3 +1,4 @@
+# cython: nonecheck=True
 """
 This module provides utility functions for handling keyword arguments related to synchronous and asynchronous flags.
 """
diff --git a/a_sync/a_sync/abstract.pyx b/a_sync/a_sync/abstract.pyx
index e4983b4..15fffff 100644
--- a/a_sync/a_sync/abstract.pyx
+++ b/a_sync/a_sync/abstract.pyx
@@ -1,3 +1,4 @@
+# cython: nonecheck=True
 """
 This module provides an abstract base class for defining asynchronous and synchronous behavior.
 
diff --git a/a_sync/a_sync/base.pyx b/a_sync/a_sync/base.pyx
index fb40f02..0e242f7 100644
--- a/a_sync/a_sync/base.pyx
+++ b/a_sync/a_sync/base.pyx
@@ -1,3 +1,4 @@
+# cython: nonecheck=True
 import functools
 import inspect
 import weakref
diff --git a/a_sync/a_sync/function.pyx b/a_sync/a_sync/function.pyx
index 5e23f29..28606a9 100644
--- a/a_sync/a_sync/function.pyx
+++ b/a_sync/a_sync/function.pyx
@@ -1,3 +1,4 @@
+# cython: nonecheck=True
 import functools
 import inspect
 import logging
diff --git a/a_sync/a_sync/method.pyx b/a_sync/a_sync/method.pyx
index b0d7df7..c1b133a 100644
--- a/a_sync/a_sync/method.pyx
+++ b/a_sync/a_sync/method.pyx
@@ -1,3 +1,4 @@
+# cython: nonecheck=True
 """
 This module provides classes for implementing dual-functional sync/async methods in Python.
 
diff --git a/a_sync/a_sync/modifiers/manager.pyx b/a_sync/a_sync/modifiers/manager.pyx
index 3ee55fa..648d678 100644
--- a/a_sync/a_sync/modifiers/manager.pyx
+++ b/a_sync/a_sync/modifiers/manager.pyx
@@ -1,3 +1,4 @@
+# cython: nonecheck=True
 # mypy: disable-error-code=valid-type
 import functools
 from libc.stdint cimport uint8_t
diff --git a/a_sync/a_sync/property.pyx b/a_sync/a_sync/property.pyx
index 90dce55..7cf6bd4 100644
--- a/a_sync/a_sync/property.pyx
+++ b/a_sync/a_sync/property.pyx
@@ -1,3 +1,4 @@
+# cython: nonecheck=True
 import functools
 from logging import DEBUG, getLogger
 
diff --git a/a_sync/asyncio/as_completed.pyx b/a_sync/asyncio/as_completed.pyx
index 3438e44..511a877 100644
--- a/a_sync/asyncio/as_completed.pyx
+++ b/a_sync/asyncio/as_completed.pyx
@@ -1,3 +1,4 @@
+# cython: nonecheck=True
 """
 This module extends Python's :func:`asyncio.as_completed` with additional functionality.
 """
diff --git a/a_sync/asyncio/create_task.pyx b/a_sync/asyncio/create_task.pyx
index 832bfc7..3e12ff7 100644
--- a/a_sync/asyncio/create_task.pyx
+++ b/a_sync/asyncio/create_task.pyx
@@ -1,3 +1,4 @@
+# cython: nonecheck=True
 """
 This module extends :func:`asyncio.create_task` to support any :class:`Awaitable`,
 manage task lifecycle, and enhance error handling.
diff --git a/a_sync/asyncio/gather.pyx b/a_sync/asyncio/gather.pyx
index 2efa58e..2212db9 100644
--- a/a_sync/asyncio/gather.pyx
+++ b/a_sync/asyncio/gather.pyx
@@ -1,3 +1,4 @@
+# cython: nonecheck=True
 """
 This module provides an enhanced version of :func:`asyncio.gather`.
 """
diff --git a/a_sync/iter.pyx b/a_sync/iter.pyx
index 007a3fb..2a6916c 100644
--- a/a_sync/iter.pyx
+++ b/a_sync/iter.pyx
@@ -1,3 +1,4 @@
+# cython: nonecheck=True
 import asyncio
 import functools
 import inspect
diff --git a/a_sync/primitives/_debug.pyx b/a_sync/primitives/_debug.pyx
index 71213f5..a49c425 100644
--- a/a_sync/primitives/_debug.pyx
+++ b/a_sync/primitives/_debug.pyx
@@ -1,3 +1,4 @@
+# cython: nonecheck=True
 """
 This module provides a mixin class used to facilitate the creation of debugging daemons in subclasses.
 
diff --git a/a_sync/primitives/_loggable.pyx b/a_sync/primitives/_loggable.pyx
index 8076fc0..9e28708 100644
--- a/a_sync/primitives/_loggable.pyx
+++ b/a_sync/primitives/_loggable.pyx
@@ -1,3 +1,4 @@
+# cython: nonecheck=True
 """
 This module provides a mixin class to add debug logging capabilities to other classes.
 """
diff --git a/a_sync/primitives/locks/counter.pyx b/a_sync/primitives/locks/counter.pyx
index 6ba2b61..e1d536f 100644
--- a/a_sync/primitives/locks/counter.pyx
+++ b/a_sync/primitives/locks/counter.pyx
@@ -1,3 +1,4 @@
+# cython: nonecheck=True
 """
 This module provides two specialized async flow management classes, :class:`CounterLock` and :class:`CounterLockCluster`.
 
diff --git a/a_sync/primitives/locks/event.pyx b/a_sync/primitives/locks/event.pyx
index 0a01523..d16f598 100644
--- a/a_sync/primitives/locks/event.pyx
+++ b/a_sync/primitives/locks/event.pyx
@@ -1,3 +1,4 @@
+# cython: nonecheck=True
 """
 This module provides an enhanced version of asyncio.Event with additional debug logging to help detect deadlocks.
 """
diff --git a/a_sync/primitives/locks/prio_semaphore.pyx b/a_sync/primitives/locks/prio_semaphore.pyx
index 857229f..39415da 100644
--- a/a_sync/primitives/locks/prio_semaphore.pyx
+++ b/a_sync/primitives/locks/prio_semaphore.pyx
@@ -1,3 +1,4 @@
+# cython: nonecheck=True
 """
 This module provides priority-based semaphore implementations. These semaphores allow 
 waiters to be assigned priorities, ensuring that higher priority waiters are 
@@ -9,6 +10,8 @@ from collections import deque
 from heapq import heappop, heappush
 from logging import DEBUG, getLogger
 
+cimport cython
+
 from a_sync._typing import *
 from a_sync.primitives.locks.semaphore cimport Semaphore
 
@@ -26,6 +29,7 @@ PT = TypeVar("PT", bound=Priority)
 CM = TypeVar("CM", bound="_AbstractPrioritySemaphoreContextManager[Priority]")
 
 
+@cython.auto_pickle(False)
 cdef class _AbstractPrioritySemaphore(Semaphore):
     """
     A semaphore that allows prioritization of waiters.
@@ -211,7 +215,7 @@ cdef class _AbstractPrioritySemaphore(Semaphore):
         cdef bint woke_up
 
         cdef bint debug_logs = c_logger.isEnabledFor(DEBUG)
-        while <list>self._Semaphore__waiters:
+        while self._Semaphore__waiters:
             manager = heappop(<list>self._Semaphore__waiters)
             if len(manager) == 0:
                 # There are no more waiters, get rid of the empty manager
@@ -278,6 +282,7 @@ cdef class _AbstractPrioritySemaphore(Semaphore):
         c_logger._log(DEBUG, "%s has no waiters to wake", (self, ))
 
 
+@cython.auto_pickle(False)
 cdef class _AbstractPrioritySemaphoreContextManager(Semaphore):
     """
     A context manager for priority semaphore waiters.
diff --git a/a_sync/primitives/locks/semaphore.pyx b/a_sync/primitives/locks/semaphore.pyx
index 91cc2b3..45868c0 100644
--- a/a_sync/primitives/locks/semaphore.pyx
+++ b/a_sync/primitives/locks/semaphore.pyx
@@ -1,3 +1,4 @@
+# cython: nonecheck=True
 """
 This module provides various semaphore implementations, including a debug-enabled semaphore,
 a dummy semaphore that does nothing, and a threadsafe semaphore for use in multi-threaded applications.
-- 
2.43.0


From 3e433e4b7ac3ac5b7526f4fa705aeac7dae09206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:53 +0000
Subject: [PATCH 62/84] fix: give a CounterLock with waiters a repr, end its
 debug task when nobody waits anymore

---
 a_sync/primitives/locks/counter.pyx | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/a_sync/primitives/locks/counter.pyx b/a_sync/primitives/locks/counter.pyx
index e1d536f..14b570a 100644
--- a/a_sync/primitives/locks/counter.pyx
+++ b/a_sync/primitives/locks/counter.pyx
@@ -84,7 +84,7 @@ cdef class CounterLock(_DebugDaemonMixin):
             >>> repr(counter)
             '<CounterLock name=example_counter value=0 waiters={}>'
         """
-        cdef dict[long long, Py_ssize_t] waiters = {v: len(self._events[v]._waiters) for v in sorted(self._events)}
+        cdef dict[long long, Py_ssize_t] waiters = {v: len((<Event>self._events[v])._waiters) for v in sorted(self._events)}
         return "<CounterLock name={} value={} waiters={}>".format(self._name, self._value, waiters)
 
     cpdef bint is_ready(self, long long v):
@@ -204,10 +204,12 @@ cdef class CounterLock(_DebugDaemonMixin):
         """
         cdef time_t start, now 
         start = time(NULL)
-        while self._events:
+        cdef Event event
+        # NOTE: there can be events left that nobody waits for anymore
+        while any(event._waiters for event in self._events.values()):
             now = time(NULL)
             self.get_logger().debug(
-                "%s is still locked after %sm", self, round(now - start / 60, 2)
+                "%s is still locked after %sm", self, round((now - start) / 60, 2)
             )
             await asyncio.sleep(300)
 
-- 
2.43.0


From 1fa8771865cf87c571f212663665d2041fee6771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:53 +0000
Subject: [PATCH 63/84] fix: debug logs that raise, never come to an end or
 change a class's default mode

---
 a_sync/_logging.py                         | 32 ++++++++++++++++++++++
 a_sync/a_sync/abstract.pyx                 |  8 ++++--
 a_sync/a_sync/base.pyx                     |  9 ++----
 a_sync/a_sync/function.pyx                 |  3 +-
 a_sync/a_sync/method.pyx                   |  5 ++--
 a_sync/a_sync/property.pyx                 |  7 +++--
 a_sync/primitives/locks/prio_semaphore.pyx |  2 +-
 7 files changed, 50 insertions(+), 16 deletions(-)
 create mode 100644 a_sync/_logging.py

diff --git a/a_sync/_logging.py b/a_sync/_logging.py
new file mode 100644
index 0000000..a1ea5ae
--- /dev/null
+++ b/a_sync/_logging.py
@@ -0,0 +1,32 @@
+"""This module provides the loggers of the modules that log calls made with the user's own objects."""
+
+import logging
+import threading
+
+_handling = threading.local()
+
+
+def get_logger(name: str) -> logging.Logger:
+    """Get the logger called `name`, without the debug records made while another one is being handled.
+
+    Debug logs describe the user's objects. The `__repr__` of these may well use the very properties and methods
+    whose use is being logged, so logging their use from in there as well would never come to an end.
+
+    Args:
+        name: The name of the logger.
+    """
+    logger = logging.getLogger(name)
+    handle = logger.handle
+
+    def handle_unless_nested(record: logging.LogRecord) -> None:
+        if record.levelno > logging.DEBUG:
+            handle(record)
+        elif not getattr(_handling, "busy", False):
+            _handling.busy = True
+            try:
+                handle(record)
+            finally:
+                _handling.busy = False
+
+    logger.handle = handle_unless_nested  # type: ignore [method-assign]
+    return logger
diff --git a/a_sync/a_sync/abstract.pyx b/a_sync/a_sync/abstract.pyx
index 15fffff..ce31d08 100644
--- a/a_sync/a_sync/abstract.pyx
+++ b/a_sync/a_sync/abstract.pyx
@@ -11,16 +11,17 @@ is intended for more custom implementations if necessary.
 """
 
 import abc
-from logging import DEBUG, getLogger
+from logging import DEBUG
 from typing import Dict, Any, Tuple
 
+from a_sync._logging import get_logger
 from a_sync._typing import *
 from a_sync.a_sync._kwargs cimport get_flag_name, is_sync
 from a_sync.a_sync._flags cimport validate_and_negate_if_necessary
 from a_sync.a_sync._meta import ASyncMeta
 
 
-logger = getLogger(__name__)
+logger = get_logger(__name__)
 
 cdef object c_logger = logger
 
@@ -173,7 +174,8 @@ class ASyncABC(metaclass=ASyncMeta):
         if not flag:
             c_logger._log(
                 DEBUG,
-                "No valid flags found in kwargs, checking class definition for defined default"
+                "No valid flags found in kwargs, checking class definition for defined default",
+                (),
             )
             return cls.__a_sync_default_mode__()  # type: ignore [arg-type]
 
diff --git a/a_sync/a_sync/base.pyx b/a_sync/a_sync/base.pyx
index 0e242f7..5943874 100644
--- a/a_sync/a_sync/base.pyx
+++ b/a_sync/a_sync/base.pyx
@@ -3,16 +3,17 @@ import functools
 import inspect
 import weakref
 from contextlib import suppress
-from logging import DEBUG, getLogger
+from logging import DEBUG
 
 from a_sync import exceptions
+from a_sync._logging import get_logger
 from a_sync._typing import *
 from a_sync.a_sync._flags cimport validate_and_negate_if_necessary, validate_flag_value
 from a_sync.a_sync.abstract import ASyncABC
 from a_sync.a_sync.flags import VIABLE_FLAGS
 
 
-logger = getLogger(__name__)
+logger = get_logger(__name__)
 
 cdef object c_logger = logger
 
@@ -162,10 +163,6 @@ cdef bint _a_sync_flag_default_value_from_signature(object cls):
     )
     cdef str flag = _get_a_sync_flag_name_from_signature(cls, True)
     cdef object flag_value = signature.parameters[flag].default
-    if flag_value is inspect._empty:  # type: ignore [attr-defined]
-        raise NotImplementedError(
-            "The implementation for 'cls' uses an arg to specify sync mode, instead of a kwarg. We are unable to proceed. I suppose we can extend the code to accept positional arg flags if necessary"
-        )
     c_logger._log(DEBUG, "%s defines %s, default value %s", (cls, flag, flag_value))
     return flag_value
 
diff --git a/a_sync/a_sync/function.pyx b/a_sync/a_sync/function.pyx
index 28606a9..48f1106 100644
--- a/a_sync/a_sync/function.pyx
+++ b/a_sync/a_sync/function.pyx
@@ -9,6 +9,7 @@ from async_lru import _LRUCacheWrapper
 from async_property.base import AsyncPropertyDescriptor  # type: ignore [import]
 from async_property.cached import AsyncCachedPropertyDescriptor  # type: ignore [import]
 
+from a_sync._logging import get_logger
 from a_sync._typing import *
 from a_sync.a_sync._kwargs cimport get_flag_name, is_sync
 from a_sync.a_sync._helpers cimport _asyncify, _await
@@ -23,7 +24,7 @@ if TYPE_CHECKING:
         ASyncBoundMethodSyncDefault,
     )
 
-logger = logging.getLogger(__name__)
+logger = get_logger(__name__)
 
 cdef object c_logger = logger
 
diff --git a/a_sync/a_sync/method.pyx b/a_sync/a_sync/method.pyx
index c1b133a..e8fb47a 100644
--- a/a_sync/a_sync/method.pyx
+++ b/a_sync/a_sync/method.pyx
@@ -12,8 +12,9 @@ asynchronously based on various conditions and configurations.
 import functools
 import weakref
 from inspect import isawaitable
-from logging import DEBUG, getLogger
+from logging import DEBUG
 
+from a_sync._logging import get_logger
 from a_sync._typing import *
 from a_sync.a_sync._kwargs cimport get_flag_name, is_sync
 from a_sync.a_sync._descriptor import ASyncDescriptor
@@ -34,7 +35,7 @@ METHOD_CACHE_TTL = 300
 cdef int _METHOD_CACHE_TTL = 300
 
 
-logger = getLogger(__name__)
+logger = get_logger(__name__)
 
 cdef object c_logger = logger
 
diff --git a/a_sync/a_sync/property.pyx b/a_sync/a_sync/property.pyx
index 7cf6bd4..4b93c68 100644
--- a/a_sync/a_sync/property.pyx
+++ b/a_sync/a_sync/property.pyx
@@ -1,11 +1,12 @@
 # cython: nonecheck=True
 import functools
-from logging import DEBUG, getLogger
+from logging import DEBUG
 
 import async_property as ap  # type: ignore [import]
 from typing_extensions import Unpack
 
 from a_sync import _smart
+from a_sync._logging import get_logger
 from a_sync._typing import *
 from a_sync.a_sync import config
 from a_sync.a_sync._helpers cimport _await, get_event_loop
@@ -26,7 +27,7 @@ if TYPE_CHECKING:
     from a_sync.task import TaskMapping
 
 
-logger = getLogger(__name__)
+logger = get_logger(__name__)
 
 cdef object c_logger = logger
 
@@ -128,7 +129,7 @@ class _ASyncPropertyDescriptorBase(ASyncDescriptor[I, Tuple[()], T]):
             if debug_logs:
                 c_logger._log(
                     DEBUG,
-                    "awaiting awaitable for %s for instance: %s owner: %s",
+                    "awaiting %s for %s for instance: %s owner: %s",
                     (awaitable, self, instance, owner),
                 )
             retval = _await(awaitable)
diff --git a/a_sync/primitives/locks/prio_semaphore.pyx b/a_sync/primitives/locks/prio_semaphore.pyx
index 39415da..3acc82c 100644
--- a/a_sync/primitives/locks/prio_semaphore.pyx
+++ b/a_sync/primitives/locks/prio_semaphore.pyx
@@ -234,7 +234,7 @@ cdef class _AbstractPrioritySemaphore(Semaphore):
             if debug_logs:
                 c_logger._log(DEBUG, "waking up next for %s", (manager._c_repr_no_parent_(), ))
                 if not manager._Semaphore__waiters:
-                    c_logger._log(DEBUG, "not manager._Semaphore__waiters")
+                    c_logger._log(DEBUG, "not manager._Semaphore__waiters", ())
 
             while manager._Semaphore__waiters:
                 waiter = manager._Semaphore__waiters.popleft()
-- 
2.43.0


From ee6bafb65b9ec54ed33a4d3f0be188d892b65af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:26 +0000
Subject: [PATCH 64/84] fix: let go of an event that is dropped while its debug
 task runs

---
 a_sync/primitives/_debug.pyx | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/a_sync/primitives/_debug.pyx b/a_sync/primitives/_debug.pyx
index a49c425..7bd8879 100644
--- a/a_sync/primitives/_debug.pyx
+++ b/a_sync/primitives/_debug.pyx
@@ -7,6 +7,7 @@ The mixin provides a framework for managing a debug daemon task, which can be us
 
 import asyncio
 import os
+import weakref
 from asyncio.events import _running_loop
 from threading import Lock
 from typing import Optional
@@ -66,6 +67,22 @@ cdef class _LoopBoundMixin(_LoggerMixin):
         return loop
 
 
+cdef object _stop_callback(_DebugDaemonMixin owner):
+    """Return a done callback that clears `owner`'s daemon without keeping `owner` alive, if that is possible."""
+    cdef object owner_ref
+    try:
+        owner_ref = weakref.ref(owner)
+    except TypeError:
+        return owner._stop_debug_daemon
+
+    def stop_debug_daemon(t: asyncio.Task) -> None:
+        owner = owner_ref()
+        if owner is not None:
+            owner._stop_debug_daemon(t)
+
+    return stop_debug_daemon
+
+
 cdef class _DebugDaemonMixin(_LoopBoundMixin):
     """
     A mixin class that provides a framework for debugging capabilities using a daemon task.
@@ -164,7 +181,7 @@ cdef class _DebugDaemonMixin(_LoopBoundMixin):
         if daemon is None:
             if self.check_debug_logs_enabled():
                 self._daemon = self._c_start_debug_daemon(args, kwargs)
-                self._daemon.add_done_callback(self._stop_debug_daemon)
+                self._daemon.add_done_callback(_stop_callback(self))
             else:
                 self._daemon = self._c_get_loop().create_future()
         return self._daemon
-- 
2.43.0


From 3501d451190e57d02d05610cdf3fdfd0b79b5cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:58 +0000
Subject: [PATCH 65/84] fix: settings of a decorated function are not those of
 the used one it wraps, nor its attributes

---
 a_sync/a_sync/_descriptor.py |  3 ++-
 a_sync/a_sync/function.pyx   | 18 +++++++++++++++++-
 a_sync/a_sync/method.pyx     |  3 ++-
 3 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/a_sync/a_sync/_descriptor.py b/a_sync/a_sync/_descriptor.py
index a09bbb6..25d07c7 100644
--- a/a_sync/a_sync/_descriptor.py
+++ b/a_sync/a_sync/_descriptor.py
@@ -21,6 +21,7 @@ from a_sync.a_sync.function import (
     ASyncFunction,
     ModifierManager,
     _ModifiedMixin,
+    _update_wrapper,
     _validate_wrapped_fn,
 )
 
@@ -93,7 +94,7 @@ class ASyncDescriptor(_ModifiedMixin, Generic[I, P, T]):
         self.field_name = field_name or _fget.__name__
         """The name of the field the :class:`ASyncDescriptor` is bound to."""
 
-        functools.update_wrapper(self, self.__wrapped__)
+        _update_wrapper(self, self.__wrapped__)
 
     def __repr__(self) -> str:
         return f"<{self.__class__.__name__} for {self.__wrapped__}>"
diff --git a/a_sync/a_sync/function.pyx b/a_sync/a_sync/function.pyx
index 48f1106..0b4ce6d 100644
--- a/a_sync/a_sync/function.pyx
+++ b/a_sync/a_sync/function.pyx
@@ -139,6 +139,22 @@ cdef void _validate_argspec(fn: Callable):
                 f"{fn} must not have any arguments with the following names: {VIABLE_FLAGS}"
             )
 
+cpdef void _update_wrapper(object wrapper, object wrapped):
+    """Update 'wrapper' to look like 'wrapped', without replacing anything the wrapper itself defines.
+
+    NOTE: the `__dict__` of another a_sync object holds the values it has computed for itself so far,
+          and the `__dict__` of a function can hold anything.
+
+    See Also:
+        - :func:`functools.update_wrapper`
+    """
+    functools.update_wrapper(wrapper, wrapped, updated=())
+    cdef object wrapper_type = type(wrapper)
+    cdef object attrs = wrapper.__dict__
+    for name, value in getattr(wrapped, "__dict__", {}).items():
+        if name not in attrs and not hasattr(wrapper_type, name):
+            attrs[name] = value
+
 cdef inline bint _run_sync(object function, dict kwargs):
     """
     Determines whether to run the function synchronously or asynchronously.
@@ -257,7 +273,7 @@ class ASyncFunction(_ModifiedMixin, Generic[P, T]):
         self.__wrapped__ = fn
         """The original function that was wrapped."""
 
-        functools.update_wrapper(self, self.__wrapped__)
+        _update_wrapper(self, self.__wrapped__)
         if self.__doc__ is None:
             self.__doc__ = f"Since `{self.__name__}` is an {self.__docstring_append__}"
         else:
diff --git a/a_sync/a_sync/method.pyx b/a_sync/a_sync/method.pyx
index e8fb47a..2db5035 100644
--- a/a_sync/a_sync/method.pyx
+++ b/a_sync/a_sync/method.pyx
@@ -23,6 +23,7 @@ from a_sync.a_sync.function import (
     ASyncFunction,
     ASyncFunctionAsyncDefault,
     ASyncFunctionSyncDefault,
+    _update_wrapper,
 )
 
 if TYPE_CHECKING:
@@ -574,7 +575,7 @@ class ASyncBoundMethod(ASyncFunction[P, T], Generic[I, P, T]):
         ASyncFunction.__init__(self, unbound, _skip_validate=True, **modifiers)
         self._is_async_def = async_def
         """True if `self.__wrapped__` is a coroutine function, False otherwise."""
-        functools.update_wrapper(self, unbound)
+        _update_wrapper(self, unbound)
 
     def __repr__(self) -> str:
         """
-- 
2.43.0


From 47cf746674e6776c87b06ea211f6c105e010f234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:58 +0000
Subject: [PATCH 66/84] fix: refuse keyword-only parameters that collide with
 the mode flags

---
 a_sync/a_sync/function.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/a_sync/a_sync/function.pyx b/a_sync/a_sync/function.pyx
index 0b4ce6d..676ff78 100644
--- a/a_sync/a_sync/function.pyx
+++ b/a_sync/a_sync/function.pyx
@@ -132,9 +132,9 @@ cdef void _validate_argspec_cached(fn: Callable):
         _argspec_validated.add(fn)
 
 cdef void _validate_argspec(fn: Callable):
-    fn_args = inspect.getfullargspec(fn)[0]
+    spec = inspect.getfullargspec(fn)
     for flag in VIABLE_FLAGS:
-        if flag in fn_args:
+        if flag in spec.args or flag in spec.kwonlyargs:
             raise RuntimeError(
                 f"{fn} must not have any arguments with the following names: {VIABLE_FLAGS}"
             )
-- 
2.43.0


From fb1f24ba40dc2c70f50694d5907855a3f419caf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:21 +0000
Subject: [PATCH 67/84] fix: hand a priority semaphore's permit over to the
 waiter it wakes, so that nobody takes it in between

---
 a_sync/primitives/locks/prio_semaphore.pyx | 39 +++++++++++++---------
 1 file changed, 24 insertions(+), 15 deletions(-)

diff --git a/a_sync/primitives/locks/prio_semaphore.pyx b/a_sync/primitives/locks/prio_semaphore.pyx
index 3acc82c..d1f190a 100644
--- a/a_sync/primitives/locks/prio_semaphore.pyx
+++ b/a_sync/primitives/locks/prio_semaphore.pyx
@@ -240,6 +240,8 @@ cdef class _AbstractPrioritySemaphore(Semaphore):
                 waiter = manager._Semaphore__waiters.popleft()
                 self._potential_lost_waiters.remove(waiter)
                 if not waiter.done():
+                    # NOTE: the permit is handed over right now, so that nobody else can take it before the waiter runs
+                    self._Semaphore__value -= 1
                     waiter.set_result(None)
                     woke_up = True
                     if debug_logs:
@@ -267,6 +269,7 @@ cdef class _AbstractPrioritySemaphore(Semaphore):
             while self._potential_lost_waiters:
                 waiter = self._potential_lost_waiters.pop(0)
                 if not waiter.done():
+                    self._Semaphore__value -= 1
                     waiter.set_result(None)
                     return
             return
@@ -275,6 +278,7 @@ cdef class _AbstractPrioritySemaphore(Semaphore):
             waiter = self._potential_lost_waiters.pop(0)
             c_logger._log(DEBUG, "we found a lost waiter %s", (waiter, ))
             if not waiter.done():
+                self._Semaphore__value -= 1
                 waiter.set_result(None)
                 c_logger._log(DEBUG, "woke up lost waiter %s", (waiter, ))
                 return
@@ -377,22 +381,27 @@ cdef class _AbstractPrioritySemaphoreContextManager(Semaphore):
     async def __acquire(self) -> Literal[True]:
         cdef object loop, fut
         cdef _AbstractPrioritySemaphoreContextManager manager
-        while self._parent._Semaphore__value <= 0:
-            # NOTE: the parent drops a context manager when its last waiter is woken. From then on nobody would look
-            # for a waiter here, so we wait in line with whichever manager the parent has for our priority now.
-            manager = self._parent.c_getitem(self._priority)
-            fut = self._c_get_loop().create_future()
-            manager._Semaphore__waiters.append(fut)
-            self._parent._potential_lost_waiters.append(fut)
-            try:
-                await fut
-            except:
-                # See the similar code in Queue.get.
+        if not self._parent.c_locked():
+            self._parent._Semaphore__value -= 1
+            return True
+        # NOTE: the parent drops a context manager when its last waiter is woken. From then on nobody would look
+        # for a waiter here, so we wait in line with whichever manager the parent has for our priority now.
+        manager = self._parent.c_getitem(self._priority)
+        fut = self._c_get_loop().create_future()
+        manager._Semaphore__waiters.append(fut)
+        self._parent._potential_lost_waiters.append(fut)
+        try:
+            await fut
+        except:
+            if fut.done() and not fut.cancelled():
+                # we were given a permit but can't use it
+                self._parent._Semaphore__value += 1
+                self._parent._wake_up_next()
+            else:
                 fut.cancel()
-                if self._parent._Semaphore__value > 0 and not fut.cancelled():
-                    self._parent._wake_up_next()
-                raise
-        self._parent._Semaphore__value -= 1
+            raise
+        if self._parent._Semaphore__value > 0:
+            self._parent._wake_up_next()
         return True
 
     cpdef void release(self):
-- 
2.43.0


From 506c82d482f45c370656030486455643fa889d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:04 +0000
Subject: [PATCH 68/84] fix: let threads that are gone, with their semaphores,
 be collected while a ThreadsafeSemaphore lives

---
 a_sync/primitives/locks/semaphore.pxd |  2 +-
 a_sync/primitives/locks/semaphore.pyx | 15 ++++++++++++---
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/a_sync/primitives/locks/semaphore.pxd b/a_sync/primitives/locks/semaphore.pxd
index 3f1486b..110f5e7 100644
--- a/a_sync/primitives/locks/semaphore.pxd
+++ b/a_sync/primitives/locks/semaphore.pxd
@@ -20,6 +20,6 @@ cdef class DummySemaphore(Semaphore):
     pass
 
 cdef class ThreadsafeSemaphore(Semaphore):
-    cdef object semaphores, dummy
+    cdef object semaphores, make_semaphore, dummy
     cdef bint use_dummy
     cdef Semaphore c_get_semaphore(self)
diff --git a/a_sync/primitives/locks/semaphore.pyx b/a_sync/primitives/locks/semaphore.pyx
index 45868c0..7b92033 100644
--- a/a_sync/primitives/locks/semaphore.pyx
+++ b/a_sync/primitives/locks/semaphore.pyx
@@ -6,11 +6,12 @@ a dummy semaphore that does nothing, and a threadsafe semaphore for use in multi
 
 import asyncio
 import functools
-from collections import defaultdict, deque
+from collections import deque
 from libc.string cimport strcpy
 from libc.stdlib cimport malloc, free
 from threading import Thread, current_thread
 from typing import Container
+from weakref import WeakKeyDictionary
 
 from a_sync._typing import *
 from a_sync.primitives._debug cimport _DebugDaemonMixin
@@ -421,7 +422,9 @@ cdef class ThreadsafeSemaphore(Semaphore):
             self.semaphores = {}
             self.dummy = DummySemaphore(name=name)
         else:
-            self.semaphores: DefaultDict[Thread, Semaphore] = defaultdict(lambda: Semaphore(value, name=name))  # type: ignore [arg-type]
+            # NOTE: a thread that is gone must not stay alive, with its semaphore, for as long as we do
+            self.semaphores: WeakKeyDictionary[Thread, Semaphore] = WeakKeyDictionary()
+            self.make_semaphore = lambda: Semaphore(value, name=name)
             self.dummy = None
 
     def __len__(self) -> int:
@@ -465,7 +468,13 @@ cdef class ThreadsafeSemaphore(Semaphore):
         self.c_get_semaphore().c_release()
 
     cdef Semaphore c_get_semaphore(self):
-        return self.dummy if self.use_dummy else self.semaphores[current_thread()]
+        if self.use_dummy:
+            return self.dummy
+        cdef object thread = current_thread()
+        cdef object semaphore = self.semaphores.get(thread)
+        if semaphore is None:
+            semaphore = self.semaphores[thread] = self.make_semaphore()
+        return semaphore
 
     async def __aenter__(self):
         await self.c_get_semaphore().c_acquire()
-- 
2.43.0


From 42abbd0948baa717f0e7a9c2c79f2ced808801a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:04 +0000
Subject: [PATCH 69/84] fix: don't keep the last job of an idle ProcessingQueue
 worker alive

---
 a_sync/primitives/queue.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/a_sync/primitives/queue.py b/a_sync/primitives/queue.py
index 033e4a8..3f9b964 100644
--- a/a_sync/primitives/queue.py
+++ b/a_sync/primitives/queue.py
@@ -500,6 +500,8 @@ class ProcessingQueue(_Queue[Tuple[P, "asyncio.Future[V]"]], Generic[P, V]):
                     logger.error("%s in worker for %s!", type(e).__name__, self)
                     logger.exception(e)
                 self.task_done()
+                # don't keep what belongs to the last job alive while there is nothing to do
+                args = kwargs = None
         else:
             fut: asyncio.Future[V]
             while True:
@@ -509,6 +511,7 @@ class ProcessingQueue(_Queue[Tuple[P, "asyncio.Future[V]"]], Generic[P, V]):
                         if fut is None:
                             # the weakref was already cleaned up, we don't need to process this item
                             self.task_done()
+                            args = kwargs = None
                             continue
                         result = await self.func(*args, **kwargs)
                     except asyncio.CancelledError:
@@ -537,6 +540,8 @@ class ProcessingQueue(_Queue[Tuple[P, "asyncio.Future[V]"]], Generic[P, V]):
                                 result,
                             )
                     self.task_done()
+                    # don't keep what belongs to the last job alive while there is nothing to do
+                    args = kwargs = fut = result = None
                 except Exception as e:
                     logger.error("%s for %s is broken!!!", type(self).__name__, self.func)
                     logger.exception(e)
-- 
2.43.0


From 89ba89655605ffb6124a371d3dbcb9fe68b87f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:04 +0000
Subject: [PATCH 70/84] fix: forget a persisted task when it is done, not when
 the next one is created

---
 a_sync/asyncio/create_task.pyx | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/a_sync/asyncio/create_task.pyx b/a_sync/asyncio/create_task.pyx
index 3e12ff7..f4b2cab 100644
--- a/a_sync/asyncio/create_task.pyx
+++ b/a_sync/asyncio/create_task.pyx
@@ -76,7 +76,9 @@ cdef object ccreate_task(object coro, str name, bint skip_gc_until_done, bint lo
         persisted = __persisted_task_exc_wrap(task)
         if name:
             __set_task_name(persisted, name)
-        __persisted_tasks.add(create_task(persisted))
+        persisted_task = create_task(persisted)
+        __persisted_tasks.add(persisted_task)
+        persisted_task.add_done_callback(__forget_persisted_task)
 
     if log_destroy_pending is False:
         task._log_destroy_pending = False
@@ -125,6 +127,16 @@ async def __await(awaitable: Awaitable[T]) -> T:
         raise RuntimeError(*args) from None
 
 
+def __forget_persisted_task(task: "asyncio.Task[Any]") -> None:
+    """Remove a task that has completed from the set of persisted tasks, unless its exception is still to be logged.
+
+    See Also:
+        - :func:`__prune_persisted_tasks`
+    """
+    if task.cancelled() or task._exception is None:
+        __persisted_tasks.discard(task)
+
+
 cdef void __prune_persisted_tasks():
     """Remove completed tasks from the set of persisted tasks.
 
-- 
2.43.0


From bc22d704759a96459ecf6fdc63a6d4a8578bde81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:04 +0000
Subject: [PATCH 71/84] fix: make a rate limiter forget a caller that is
 cancelled while it waits

---
 a_sync/a_sync/modifiers/limiter.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/a_sync/a_sync/modifiers/limiter.py b/a_sync/a_sync/modifiers/limiter.py
index 3d198e1..0f98238 100644
--- a/a_sync/a_sync/modifiers/limiter.py
+++ b/a_sync/a_sync/modifiers/limiter.py
@@ -124,8 +124,15 @@ def apply_rate_limit(
         )
 
         async def rate_limit_wrap(*args: P.args, **kwargs: P.kwargs) -> T:
-            async with limiter:  # type: ignore [attr-defined]
-                return await coro_fn(*args, **kwargs)
+            try:
+                async with limiter:  # type: ignore [attr-defined]
+                    return await coro_fn(*args, **kwargs)
+            except asyncio.CancelledError:
+                # the limiter does not forget a task that is cancelled while it waits
+                waiters = getattr(limiter, "_waiters", None)
+                if isinstance(waiters, dict):
+                    waiters.pop(asyncio.current_task(), None)
+                raise
 
         return rate_limit_wrap
 
-- 
2.43.0


From 137d1b3dbcbfb38ecfce24e6763ed05c9e710b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:29 +0000
Subject: [PATCH 72/84] fix: do not log the exception of a persisted task as
 never retrieved when its creator retrieved it

---
 a_sync/asyncio/create_task.pyx | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/a_sync/asyncio/create_task.pyx b/a_sync/asyncio/create_task.pyx
index f4b2cab..1c7c788 100644
--- a/a_sync/asyncio/create_task.pyx
+++ b/a_sync/asyncio/create_task.pyx
@@ -135,6 +135,9 @@ def __forget_persisted_task(task: "asyncio.Task[Any]") -> None:
     """
     if task.cancelled() or task._exception is None:
         __persisted_tasks.discard(task)
+    else:
+        # either we log it when we prune, or asyncio logs the exception of the wrapped task
+        task._log_traceback = False
 
 
 cdef void __prune_persisted_tasks():
@@ -158,6 +161,10 @@ cdef void __prune_persisted_tasks():
             if not isinstance(e, exceptions.PersistedTaskException):
                 c_logger.exception(e)
                 raise e
+            # somebody else already got the exception from the wrapped task
+            if not e.task._log_traceback:
+                continue
+            e.task._log_traceback = False
             # we have to manually log the traceback that asyncio would usually log
             # since we already got the exception from the task and the usual handler will now not run
             context = {
@@ -170,7 +177,7 @@ cdef void __prune_persisted_tasks():
             task._loop.call_exception_handler(context)
 
 
-async def __persisted_task_exc_wrap(task: "asyncio.Task[T]") -> T:
+async def __persisted_task_exc_wrap(task: "asyncio.Task[T]") -> None:
     """
     Wrap a task to handle its exception in a specialized manner.
 
@@ -183,11 +190,11 @@ async def __persisted_task_exc_wrap(task: "asyncio.Task[T]") -> T:
     See Also:
         - :class:`PersistedTaskException`
     """
-    try:
-        return await task
-    except asyncio.CancelledError:
-        raise
-    except BaseException as e:
+    # NOTE: unlike awaiting it, this does not mark the exception as retrieved
+    await asyncio.wait((task,))
+    if task.cancelled():
+        return
+    if (e := task._exception) is not None:
         raise exceptions.PersistedTaskException(e, task) from e
 
 
-- 
2.43.0


From e1a586ee327a3b68b266cfc636db41e64e675258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:31 +0000
Subject: [PATCH 73/84] fix: do not leave a task waiting for the next key of a
 task mapping that is loaded

---
 a_sync/task.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/a_sync/task.py b/a_sync/task.py
index 9e105f7..dd31c08 100644
--- a/a_sync/task.py
+++ b/a_sync/task.py
@@ -610,13 +610,14 @@ class TaskMapping(DefaultDict[K, "asyncio.Task[V]"], AsyncIterable[Tuple[K, V]])
 
     async def _wait_for_next_key(self) -> None:
         # NOTE if `_init_loader` has an exception it will return first, otherwise `_init_loader_next` will return always
-        done, pending = await asyncio.wait(
-            [
-                create_task(self._init_loader_next(), log_destroy_pending=False),
-                self._init_loader,
-            ],
-            return_when=asyncio.FIRST_COMPLETED,
-        )
+        next_key = create_task(self._init_loader_next(), log_destroy_pending=False)
+        try:
+            done, pending = await asyncio.wait(
+                [next_key, self._init_loader], return_when=asyncio.FIRST_COMPLETED
+            )
+        finally:
+            # otherwise it would go on waiting, and take the next key from another reader
+            next_key.cancel()
         for task in done:
             # check for exceptions
             await task
-- 
2.43.0


From 7d2702b40cac1e38be6ed1635f2a0c45ede2af25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:14 +0000
Subject: [PATCH 74/84] fix: call a bound method that is synchronous by default
 asynchronously in a task mapping

---
 a_sync/task.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/a_sync/task.py b/a_sync/task.py
index dd31c08..aba8a3a 100644
--- a/a_sync/task.py
+++ b/a_sync/task.py
@@ -143,9 +143,9 @@ class TaskMapping(DefaultDict[K, "asyncio.Task[V]"], AsyncIterable[Tuple[K, V]])
         self._wrapped_func = wrapped_func
         "The function used to create tasks for each key."
 
-        if isinstance(wrapped_func, ASyncMethodDescriptor) and not _kwargs.get_flag_name_legacy(
-            wrapped_func_kwargs
-        ):
+        if isinstance(
+            wrapped_func, (ASyncBoundMethod, ASyncMethodDescriptor)
+        ) and not _kwargs.get_flag_name_legacy(wrapped_func_kwargs):
             wrapped_func_kwargs["sync"] = False
         if wrapped_func_kwargs:
             self._wrapped_func_kwargs = wrapped_func_kwargs
-- 
2.43.0


From 19e010734ade7c4e1f9cc6e0baf66626d588173c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:15 +0000
Subject: [PATCH 75/84] fix: do not drop the further iterables given to an
 aggregate of a property

---
 a_sync/a_sync/property.pyi | 4 ++--
 a_sync/a_sync/property.pyx | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/a_sync/a_sync/property.pyi b/a_sync/a_sync/property.pyi
index 36af163..f0d0f0d 100644
--- a/a_sync/a_sync/property.pyi
+++ b/a_sync/a_sync/property.pyi
@@ -67,7 +67,7 @@ class _ASyncPropertyDescriptorBase(ASyncDescriptor[I, Tuple[()], T]):
 
     def map(
         self,
-        instances: AnyIterable[I],
+        *instances: AnyIterable[I],
         owner: Optional[Type[I]] = None,
         concurrency: Optional[int] = None,
         name: str = "",
@@ -75,7 +75,7 @@ class _ASyncPropertyDescriptorBase(ASyncDescriptor[I, Tuple[()], T]):
         """Maps the property across multiple instances.
 
         Args:
-            instances: An iterable of instances.
+            *instances: Iterables of instances to map over.
             owner: The owner class of the property.
             concurrency: Optional concurrency limit.
             name: Optional name for the task mapping.
diff --git a/a_sync/a_sync/property.pyx b/a_sync/a_sync/property.pyx
index 4b93c68..a80ef65 100644
--- a/a_sync/a_sync/property.pyx
+++ b/a_sync/a_sync/property.pyx
@@ -166,7 +166,7 @@ class _ASyncPropertyDescriptorBase(ASyncDescriptor[I, Tuple[()], T]):
 
     def map(
         self,
-        instances: AnyIterable[I],
+        *instances: AnyIterable[I],
         owner: Optional[Type[I]] = None,
         concurrency: Optional[int] = None,
         name: str = "",
@@ -174,7 +174,7 @@ class _ASyncPropertyDescriptorBase(ASyncDescriptor[I, Tuple[()], T]):
         """Maps the property across multiple instances.
 
         Args:
-            instances: An iterable of instances.
+            *instances: Iterables of instances to map over.
             owner: The owner class of the property.
             concurrency: Optional concurrency limit.
             name: Optional name for the task mapping.
@@ -185,7 +185,7 @@ class _ASyncPropertyDescriptorBase(ASyncDescriptor[I, Tuple[()], T]):
         c_logger.debug("mapping %s to instances: %s owner: %s", self, instances, owner)
         return self._TaskMapping(
             self,
-            instances,
+            *instances,
             owner=owner,
             name=name or self.field_name,
             concurrency=concurrency,
-- 
2.43.0


From 39697e50208a8f57ef35c4c97babfadf288d5f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:25 +0000
Subject: [PATCH 76/84] fix: refuse a cache ttl that is not a number instead of
 leaving the callers waiting forever

---
 a_sync/a_sync/modifiers/cache/memory.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/a_sync/a_sync/modifiers/cache/memory.py b/a_sync/a_sync/modifiers/cache/memory.py
index 57ec762..e0f8051 100644
--- a/a_sync/a_sync/modifiers/cache/memory.py
+++ b/a_sync/a_sync/modifiers/cache/memory.py
@@ -3,6 +3,7 @@
 import asyncio
 import threading
 from functools import _make_key, partial
+from numbers import Real
 
 from async_lru import _CacheItem, _LRUCacheWrapper, alru_cache
 
@@ -161,6 +162,10 @@ def apply_async_memory_cache(
     elif not asyncio.iscoroutinefunction(coro_fn):
         raise exceptions.FunctionNotAsync(coro_fn)
 
+    if ttl is not None and not isinstance(ttl, Real):
+        # otherwise the failure to schedule the expiry would leave the caller waiting forever
+        raise TypeError("'ram_cache_ttl' must be a number of seconds or None.", ttl)
+
     if maxsize == -1:
         maxsize = None
 
-- 
2.43.0


From c83fe857e11bcc7b7e7ad6f0973206b3fae6ba50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:05 +0000
Subject: [PATCH 77/84] fix: let apply_semaphore take its semaphore by keyword
 alone, as documented

---
 a_sync/a_sync/modifiers/semaphores.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/a_sync/a_sync/modifiers/semaphores.py b/a_sync/a_sync/modifiers/semaphores.py
index fe55419..f499199 100644
--- a/a_sync/a_sync/modifiers/semaphores.py
+++ b/a_sync/a_sync/modifiers/semaphores.py
@@ -137,7 +137,7 @@ def apply_semaphore(
         semaphore = coro_fn
         coro_fn = None
 
-    elif not asyncio.iscoroutinefunction(coro_fn):
+    elif coro_fn is not None and not asyncio.iscoroutinefunction(coro_fn):
         raise exceptions.FunctionNotAsync(coro_fn)
 
     # Create the semaphore if necessary
-- 
2.43.0


From 90f49a35307368a2d32bdeaa1434af1b184dd15d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:38 +0000
Subject: [PATCH 78/84] fix: heed a mode flag given by position when a
 singleton's instance is looked up

---
 a_sync/a_sync/abstract.pyx | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/a_sync/a_sync/abstract.pyx b/a_sync/a_sync/abstract.pyx
index ce31d08..a94c32a 100644
--- a/a_sync/a_sync/abstract.pyx
+++ b/a_sync/a_sync/abstract.pyx
@@ -11,6 +11,7 @@ is intended for more custom implementations if necessary.
 """
 
 import abc
+import inspect
 from logging import DEBUG
 from typing import Dict, Any, Tuple
 
@@ -18,6 +19,7 @@ from a_sync._logging import get_logger
 from a_sync._typing import *
 from a_sync.a_sync._kwargs cimport get_flag_name, is_sync
 from a_sync.a_sync._flags cimport validate_and_negate_if_necessary
+from a_sync.a_sync.flags import VIABLE_FLAGS
 from a_sync.a_sync._meta import ASyncMeta
 
 
@@ -168,6 +170,11 @@ class ASyncABC(metaclass=ASyncMeta):
             )
 
         cdef str flag = get_flag_name(kwargs)
+        if not flag and args:
+            # the flag may have been given by position
+            kwargs = _get_positional_flags(cls, args)
+            flag = get_flag_name(kwargs)
+
         if not debug_logs:
             return is_sync(flag, kwargs, pop_flag=False) if flag else cls.__a_sync_default_mode__()  # type: ignore [arg-type]
         
@@ -217,3 +224,14 @@ class ASyncABC(metaclass=ASyncMeta):
         Subclasses must implement this method to return the default execution
         mode (synchronous or asynchronous) for instances of the class.
         """
+
+
+cdef dict _get_positional_flags(object cls, tuple args):
+    """Returns the flags (and their values) which `args` give to the parameters of `cls.__init__`."""
+    cdef list parameters = list(inspect.signature(cls.__init__).parameters.values())[1:]
+    return {
+        parameter.name: value
+        for parameter, value in zip(parameters, args)
+        if parameter.name in VIABLE_FLAGS
+        and parameter.kind in (parameter.POSITIONAL_ONLY, parameter.POSITIONAL_OR_KEYWORD)
+    }
-- 
2.43.0


From ddff8801373f01783a1c8a2d7cb72e37175c646b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:38 +0000
Subject: [PATCH 79/84] fix: await futures and tasks given as sources of keys
 instead of taking them for containers of keys

---
 a_sync/task.py | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/a_sync/task.py b/a_sync/task.py
index aba8a3a..0dca5c1 100644
--- a/a_sync/task.py
+++ b/a_sync/task.py
@@ -553,17 +553,13 @@ class TaskMapping(DefaultDict[K, "asyncio.Task[V]"], AsyncIterable[Tuple[K, V]])
     ) -> AsyncIterator[Tuple[K, "asyncio.Task[V]"]]:
         """Ensure tasks are running for each key in the provided iterables."""
         # if we have any regular containers we can yield their contents right away
-        containers = [
-            iterable
-            for iterable in iterables
-            if not isinstance(iterable, AsyncIterable) and isinstance(iterable, Iterable)
-        ]
+        containers = [iterable for iterable in iterables if _is_container(iterable)]
         yield_keys = _yield_keys if len(iterables) == 1 else _yield_keys_if_any
         for iterable in containers:
             async for key in yield_keys(iterable):
                 yield key, self[key]
 
-        if remaining := [iterable for iterable in iterables if iterable not in containers]:
+        if remaining := [iterable for iterable in iterables if not _is_container(iterable)]:
             async for key in as_yielded(*[yield_keys(iterable) for iterable in remaining]):  # type: ignore [attr-defined]
                 yield key, self[key]  # ensure task is running
 
@@ -573,17 +569,13 @@ class TaskMapping(DefaultDict[K, "asyncio.Task[V]"], AsyncIterable[Tuple[K, V]])
     ) -> AsyncIterator[Tuple[K, "asyncio.Task[V]"]]:
         """Start new tasks for each key in the provided iterables."""
         # if we have any regular containers we can yield their contents right away
-        containers = [
-            iterable
-            for iterable in iterables
-            if not isinstance(iterable, AsyncIterable) and isinstance(iterable, Iterable)
-        ]
+        containers = [iterable for iterable in iterables if _is_container(iterable)]
         yield_keys = _yield_keys if len(iterables) == 1 else _yield_keys_if_any
         for iterable in containers:
             async for key in yield_keys(iterable):
                 yield key, self[key]  # NOTE: the key might come up more than once
 
-        if remaining := [iterable for iterable in iterables if iterable not in containers]:
+        if remaining := [iterable for iterable in iterables if not _is_container(iterable)]:
             async for key in as_yielded(*[yield_keys(iterable) for iterable in remaining]):  # type: ignore [attr-defined]
                 yield key, self[key]  # NOTE: the key might come up more than once
 
@@ -687,6 +679,15 @@ def _yield(key: K, value: V, yields: Literal["keys", "both"]) -> Union[K, Tuple[
 class _EmptySequenceError(ValueError): ...
 
 
+def _is_container(iterable: AnyIterableOrAwaitableIterable[K]) -> bool:
+    """Check whether the keys of an iterable are at hand, which are those neither asynchronous nor to be awaited first."""
+    return (
+        isinstance(iterable, Iterable)
+        and not isinstance(iterable, AsyncIterable)
+        and not inspect.isawaitable(iterable)
+    )
+
+
 async def _yield_keys(iterable: AnyIterableOrAwaitableIterable[K]) -> AsyncIterator[K]:
     """
     Asynchronously yield keys from the provided iterable.
@@ -701,14 +702,15 @@ async def _yield_keys(iterable: AnyIterableOrAwaitableIterable[K]) -> AsyncItera
         # NOTE: we can't tell whether it is empty until it ends, even if it has a length (like the views of a `TaskMapping`)
         async for key in iterable:
             yield key
+    elif inspect.isawaitable(iterable):
+        # NOTE: we have to check this first, since futures and tasks are also instances of `Iterable`
+        async for key in _yield_keys(await iterable):
+            yield key
     elif not iterable:
         raise _EmptySequenceError(iterable)
     elif isinstance(iterable, Iterable):
         for key in iterable:
             yield key
-    elif inspect.isawaitable(iterable):
-        async for key in _yield_keys(await iterable):
-            yield key
     else:
         raise TypeError(iterable)
 
-- 
2.43.0


From 476b4e34f7eec43cf2c000b3a93b29eb16e9f412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:38 +0000
Subject: [PATCH 80/84] fix: bind the methods of a copied instance to the copy

---
 a_sync/a_sync/method.pxd   |  1 +
 a_sync/a_sync/method.pyx   | 27 ++++++++++++++++++---------
 a_sync/a_sync/property.pyx |  7 +++----
 a_sync/iter.pyx            | 13 +++++++------
 4 files changed, 29 insertions(+), 19 deletions(-)

diff --git a/a_sync/a_sync/method.pxd b/a_sync/a_sync/method.pxd
index 53e73fd..a51e394 100644
--- a/a_sync/a_sync/method.pxd
+++ b/a_sync/a_sync/method.pxd
@@ -1,3 +1,4 @@
 cdef bint _is_a_sync_instance(object instance)
 cdef str _get_bound_key(object descriptor, object instance)
+cdef object _get_cached_bound(object instance, str bound_key)
 cdef void _update_cache_timer(str field_name, object instance, object bound)
\ No newline at end of file
diff --git a/a_sync/a_sync/method.pyx b/a_sync/a_sync/method.pyx
index 2db5035..f22cdb2 100644
--- a/a_sync/a_sync/method.pyx
+++ b/a_sync/a_sync/method.pyx
@@ -125,9 +125,8 @@ class ASyncMethodDescriptor(ASyncDescriptor[I, P, T]):
         if instance is None:
             return self
         cdef str bound_key = _get_bound_key(self, instance)
-        try:
-            bound = instance.__dict__[bound_key]
-        except KeyError:
+        bound = _get_cached_bound(instance, bound_key)
+        if bound is None:
             from a_sync.a_sync.abstract import ASyncABC
 
             if self.default == "sync":
@@ -237,6 +236,18 @@ cdef str _get_bound_key(object descriptor, object instance):
     return f"{field_name}@{id(descriptor)}"
 
 
+cdef object _get_cached_bound(object instance, str bound_key):
+    """
+    Get the bound method cached on an instance, if any.
+
+    One that was copied along with the ``__dict__`` of another instance is bound to that one, so it doesn't count.
+    """
+    cdef object bound = instance.__dict__.get(bound_key)
+    if bound is not None and bound.__weakself__() is not instance:
+        return None
+    return bound
+
+
 cdef void _update_cache_timer(field_name: str, instance: I, bound: "ASyncBoundMethod"):
     """
     Update the TTL for the cache handle for the instance.
@@ -348,9 +359,8 @@ class ASyncMethodDescriptorSyncDefault(ASyncMethodDescriptor[I, P, T]):
         if instance is None:
             return self
         cdef str bound_key = _get_bound_key(self, instance)
-        try:
-            bound = instance.__dict__[bound_key]
-        except KeyError:
+        bound = _get_cached_bound(instance, bound_key)
+        if bound is None:
             bound = ASyncBoundMethodSyncDefault(
                 instance, self.__wrapped__, self.__is_async_def__, **{**self.modifiers, "default": "sync"}
             )
@@ -434,9 +444,8 @@ class ASyncMethodDescriptorAsyncDefault(ASyncMethodDescriptor[I, P, T]):
         cdef object bound
         cdef str bound_key = _get_bound_key(self, instance)
 
-        try:
-            bound = instance.__dict__[bound_key]
-        except KeyError:
+        bound = _get_cached_bound(instance, bound_key)
+        if bound is None:
             bound = ASyncBoundMethodAsyncDefault(
                 instance, self.__wrapped__, self.__is_async_def__, **{**self.modifiers, "default": "async"}
             )
diff --git a/a_sync/a_sync/property.pyx b/a_sync/a_sync/property.pyx
index a80ef65..69e5e48 100644
--- a/a_sync/a_sync/property.pyx
+++ b/a_sync/a_sync/property.pyx
@@ -20,7 +20,7 @@ from a_sync.a_sync.method import (
     ASyncBoundMethodAsyncDefault,
     ASyncMethodDescriptorAsyncDefault,
 )
-from a_sync.a_sync.method cimport _get_bound_key, _is_a_sync_instance, _update_cache_timer
+from a_sync.a_sync.method cimport _get_bound_key, _get_cached_bound, _is_a_sync_instance, _update_cache_timer
 from a_sync.asyncio.create_task cimport ccreate_task_simple
 
 if TYPE_CHECKING:
@@ -782,9 +782,8 @@ class HiddenMethodDescriptor(ASyncMethodDescriptorAsyncDefault[I, Tuple[()], T])
     
         cdef object bound
         cdef str bound_key = _get_bound_key(self, instance)
-        try:
-            bound = instance.__dict__[bound_key]
-        except KeyError:
+        bound = _get_cached_bound(instance, bound_key)
+        if bound is None:
             bound = HiddenMethod(
                 instance,
                 self.__wrapped__,
diff --git a/a_sync/iter.pyx b/a_sync/iter.pyx
index 2a6916c..0272456 100644
--- a/a_sync/iter.pyx
+++ b/a_sync/iter.pyx
@@ -517,16 +517,17 @@ class ASyncGeneratorFunction(Generic[P, T]):
             return self
 
         cdef object gen_func
+        cdef str bound_key
         # NOTE: the instance's cache is keyed by the function's own name, which a subclass' override reached thru `super()`
         #       or any other function with that name (a private one, or one made by the same factory) may occupy already
         if getattr(type(instance), self.field_name, self) is self:
-            gen_func = instance.__dict__.get(self.field_name)
+            # NOTE: under its own name, a copy of the instance would find it without asking us, bound to the original instance
+            bound_key = "{}@bound".format(self.field_name)
+            gen_func = instance.__dict__.get(bound_key)
             if gen_func is None:
                 gen_func = ASyncGeneratorFunction(self.__wrapped__, instance)
-                instance.__dict__[self.field_name] = gen_func
-            if getattr(gen_func, "__wrapped__", None) is self.__wrapped__:
-                gen_func._cache_handle.cancel()
-                gen_func._cache_handle = self.__get_cache_handle(instance)
+                instance.__dict__[bound_key] = gen_func
+            if gen_func.__wrapped__ is self.__wrapped__ and gen_func.__weakself__() is instance:
                 return gen_func
         gen_func = ASyncGeneratorFunction(self.__wrapped__, instance)
         gen_func._cache_handle.cancel()
@@ -546,7 +547,7 @@ class ASyncGeneratorFunction(Generic[P, T]):
     def __get_cache_handle(self, instance: object) -> asyncio.TimerHandle:
         # NOTE: we create a strong reference to instance here. I'm not sure if this is good or not but its necessary for now.
         return get_event_loop().call_later(
-            300, delattr, instance, self.field_name
+            300, delattr, instance, "{}@bound".format(self.field_name)
         )
 
     def __cancel_cache_handle(self, instance: object) -> None:
-- 
2.43.0


From 7a0a6cbc0e1a3845d8b2d40fbb265b1ee632de1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:49 +0000
Subject: [PATCH 81/84] fix: keep the cached property values of a copied
 instance apart from the original's

---
 a_sync/a_sync/property.pyx | 53 ++++++++++++++++++++++++++++++++++++--
 1 file changed, 51 insertions(+), 2 deletions(-)

diff --git a/a_sync/a_sync/property.pyx b/a_sync/a_sync/property.pyx
index 69e5e48..3e48488 100644
--- a/a_sync/a_sync/property.pyx
+++ b/a_sync/a_sync/property.pyx
@@ -1,5 +1,6 @@
 # cython: nonecheck=True
 import functools
+import weakref
 from logging import DEBUG
 
 import async_property as ap  # type: ignore [import]
@@ -389,6 +390,27 @@ cdef bint _is_spent(object task):
     return task.get_loop().is_closed()
 
 
+class _InstanceState(ap.cached.AsyncCachedPropertyInstanceState):
+    """
+    The cached values of an instance, which know the instance they belong to.
+
+    A shallow copy of the instance finds them in its own ``__dict__``, so they are replaced instead of modified.
+    """
+
+    __slots__ = ("owner",)
+
+    def __init__(self, instance: I, cache: Dict[str, Any], lock: Optional[Dict[str, Any]] = None) -> None:
+        super().__init__()
+        self.owner = weakref.ref(instance)
+        self.cache = cache
+        if lock is not None:
+            self.lock = lock
+
+    def __reduce__(self):
+        # the owner doesn't come along to a deep copy
+        return ap.cached.AsyncCachedPropertyInstanceState, (), (None, {"cache": self.cache})
+
+
 class ASyncCachedPropertyDescriptor(
     _ASyncPropertyDescriptorBase[I, T], ap.cached.AsyncCachedPropertyDescriptor
 ):
@@ -437,6 +459,22 @@ class ASyncCachedPropertyDescriptor(
         self._check_method_name(method, "deleter")
         return type(self)(self.__wrapped__, self._fset, method, self.field_name, **self.modifiers)
 
+    def get_instance_state(self, instance: I) -> ap.cached.AsyncCachedPropertyInstanceState:
+        """Retrieves the cached values and the locks of an instance.
+
+        Args:
+            instance: The instance from which the property is accessed.
+        """
+        state = super().get_instance_state(instance)
+        if type(state) is not _InstanceState or state.owner() is not instance:
+            try:
+                # NOTE: a copy keeps the values it was copied with but has no part in what is running for the original
+                state = _InstanceState(instance, state.cache)
+            except TypeError:  # can't be weakly referenced
+                return state
+            object.__setattr__(instance, ap.cached.ASYNC_PROPERTY_ATTR, state)
+        return state
+
     def get_lock(self, instance: I) -> "asyncio.Task[T]":
         """Retrieves the lock for the property.
 
@@ -474,10 +512,21 @@ class ASyncCachedPropertyDescriptor(
         return self.get_cache(instance)[_get_bound_key(self, instance)]
 
     def set_cache_value(self, instance: I, value: T) -> None:
-        self.get_cache(instance)[_get_bound_key(self, instance)] = value
+        self._replace_cache(instance, {**self.get_cache(instance), _get_bound_key(self, instance): value})
 
     def del_cache_value(self, instance: I) -> None:
-        del self.get_cache(instance)[_get_bound_key(self, instance)]
+        cdef dict cache = dict(self.get_cache(instance))
+        del cache[_get_bound_key(self, instance)]
+        self._replace_cache(instance, cache)
+
+    def _replace_cache(self, instance: I, cache: Dict[str, Any]) -> None:
+        state = self.get_instance_state(instance)
+        if type(state) is _InstanceState:
+            # NOTE: a copy of the instance might hold the current one
+            state = _InstanceState(instance, cache, state.lock)
+            object.__setattr__(instance, ap.cached.ASYNC_PROPERTY_ATTR, state)
+        else:
+            state.cache = cache
 
     def get_loader(self, instance: I) -> Callable[[], T]:
         """Retrieves the loader function for the property.
-- 
2.43.0


From bcc80a8e5f8c949f5973a5bb5a0add10aa108300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:36 +0000
Subject: [PATCH 82/84] fix: leave nested classes, static methods and other
 callables that are no methods as the class defines them

---
 a_sync/a_sync/_meta.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/a_sync/a_sync/_meta.py b/a_sync/a_sync/_meta.py
index 3206169..fbff4d3 100644
--- a/a_sync/a_sync/_meta.py
+++ b/a_sync/a_sync/_meta.py
@@ -2,6 +2,7 @@ import inspect
 import logging
 import threading
 from abc import ABCMeta
+from types import MethodType
 from typing import Any, Dict, Tuple
 
 from a_sync import ENVIRONMENT_VARIABLES
@@ -146,6 +147,14 @@ class ASyncMeta(ABCMeta):
                     attrs[attr_name] = ASyncMethodDescriptor(attr_value, **fn_modifiers)
                 else:
                     raise NotImplementedError(attr_name, attr_value)
+            elif not hasattr(type(attr_value), "__get__") or isinstance(
+                attr_value, (staticmethod, MethodType)
+            ):
+                logger.debug(
+                    "`%s.%s` would not be bound to an instance so it is not a method, we will take no action with it",
+                    new_class_name,
+                    attr_name,
+                )
             elif inspect.isasyncgenfunction(attr_value):
                 attrs[attr_name] = ASyncGeneratorFunction(attr_value)
             elif callable(attr_value):
-- 
2.43.0


From 13772e03bdeef4b52f4e7079c41146693015a570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:08 +0000
Subject: [PATCH 83/84] fix: report a source that was cancelled to the consumer
 of as_yielded and exhaust_iterators

A source whose own wait is cancelled while its consumer is not ends with CancelledError.
as_yielded dropped it and ended as if the source were complete, and exhaust_iterators
returned normally.
---
 a_sync/utils/iterators.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/a_sync/utils/iterators.py b/a_sync/utils/iterators.py
index d3a009d..1ad6139 100644
--- a/a_sync/utils/iterators.py
+++ b/a_sync/utils/iterators.py
@@ -84,7 +84,8 @@ async def exhaust_iterators(
         *[exhaust_iterator(iterator, queue=queue) for iterator in iterators],
         return_exceptions=True,
     ):
-        if isinstance(x, Exception):
+        # NOTE: a source that was cancelled, while we were not, has failed too
+        if isinstance(x, BaseException):
             # raise it with its original traceback instead of from here
             raise x.with_traceback(x.__traceback__)
 
@@ -230,8 +231,8 @@ async def as_yielded(*iterators: AsyncIterator[T]) -> AsyncIterator[T]:  # type:
 
     def _as_yielded_done_callback(t: asyncio.Task) -> None:
         if t.cancelled():
-            return
-        if e := t.exception():
+            queue.put_nowait(_Done(asyncio.CancelledError()))
+        elif e := t.exception():
             traceback.extract_stack
             traceback.clear_frames(e.__traceback__)
             queue.put_nowait(_Done(e))
@@ -273,10 +274,10 @@ class _Done:
     It is used internally within the implementation of :func:`as_yielded` to efficiently manage the termination of the iteration process once all source iterators have been exhausted.
 
     Args:
-        exc (Optional[Exception]): An optional exception to be associated with the completion.
+        exc (Optional[BaseException]): An optional exception to be associated with the completion.
     """
 
-    def __init__(self, exc: Optional[Exception] = None) -> None:
+    def __init__(self, exc: Optional[BaseException] = None) -> None:
         self._exc = exc
 
     @property
-- 
2.43.0


From 5d5ac32fb91d32673f4eb638f69caecd4b7c707c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:58 +0000
Subject: [PATCH 84/84] fix: return the cancellation of an awaitable when
 exceptions shall be returned

as_completed and gather with a progress bar caught Exceptions only, so with
return_exceptions=True an awaitable that was cancelled ended the whole iteration with
its CancelledError and the other outcomes were lost. gather without a progress bar
returns it, as asyncio.gather does.
---
 a_sync/asyncio/as_completed.pxd |  4 +++-
 a_sync/asyncio/as_completed.pyx | 19 +++++++++++++++++++
 a_sync/asyncio/gather.pyx       |  9 +++++++--
 3 files changed, 29 insertions(+), 3 deletions(-)

diff --git a/a_sync/asyncio/as_completed.pxd b/a_sync/asyncio/as_completed.pxd
index 7bb75af..e9b89ab 100644
--- a/a_sync/asyncio/as_completed.pxd
+++ b/a_sync/asyncio/as_completed.pxd
@@ -5,4 +5,6 @@ cdef object as_completed_mapping(
     bint aiter,
     bint tqdm,
     dict tqdm_kwargs,
-)
\ No newline at end of file
+)
+
+cdef bint is_being_cancelled()
\ No newline at end of file
diff --git a/a_sync/asyncio/as_completed.pyx b/a_sync/asyncio/as_completed.pyx
index 511a877..26251f5 100644
--- a/a_sync/asyncio/as_completed.pyx
+++ b/a_sync/asyncio/as_completed.pyx
@@ -4,6 +4,7 @@ This module extends Python's :func:`asyncio.as_completed` with additional functi
 """
 
 import asyncio
+import sys
 
 try:
     from tqdm.asyncio import tqdm_asyncio
@@ -198,6 +199,11 @@ async def _exc_wrap(awaitable: Awaitable[T]) -> Union[T, Exception]:
         return await awaitable
     except Exception as e:
         return e
+    except asyncio.CancelledError as e:
+        # the awaitable was cancelled, unless we are
+        if is_being_cancelled():
+            raise
+        return e
 
 
 async def __yield_as_completed(
@@ -254,3 +260,16 @@ async def __mapping_wrap(
         if return_exceptions:
             return k, e
         raise
+    except asyncio.CancelledError as e:
+        # the awaitable was cancelled, unless we are
+        if return_exceptions and not is_being_cancelled():
+            return k, e
+        raise
+
+
+cdef bint is_being_cancelled():
+    """Checks whether the current task was itself asked to cancel.
+
+    NOTE: This can only be known on python 3.11 and later. Earlier versions assume it was.
+    """
+    return sys.version_info < (3, 11) or asyncio.current_task().cancelling() > 0
diff --git a/a_sync/asyncio/gather.pyx b/a_sync/asyncio/gather.pyx
index 2212db9..98ad1b0 100644
--- a/a_sync/asyncio/gather.pyx
+++ b/a_sync/asyncio/gather.pyx
@@ -6,7 +6,7 @@ This module provides an enhanced version of :func:`asyncio.gather`.
 from typing import Any, Awaitable, Dict, List, Mapping, Union, overload
 
 from a_sync._typing import *
-from a_sync.asyncio.as_completed cimport as_completed_mapping
+from a_sync.asyncio.as_completed cimport as_completed_mapping, is_being_cancelled
 
 try:
     from tqdm.asyncio import tqdm_asyncio
@@ -228,4 +228,9 @@ async def _exc_wrap(awaitable: Awaitable[T]) -> Union[T, Exception]:
     try:
         return await awaitable
     except Exception as e:
-        return e
\ No newline at end of file
+        return e
+    except asyncio.CancelledError as e:
+        # the awaitable was cancelled, unless we are
+        if is_being_cancelled():
+            raise
+        return e
-- 
2.43.0

