From 0594fe46d75b90a21cda3cf799b33b5572d903ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:04 +0000
Subject: [PATCH 01/27] fix: threadsafe_async_cache must only remove its own
 in-flight marker

When the computing loop stopped and another loop took over, the first
computation's clean-up removed the other's marker (so a third caller
computed concurrently) or raised KeyError to its caller.
---
 aiuti/asyncio.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/aiuti/asyncio.py b/aiuti/asyncio.py
index 2b71748..eaa21d8 100644
--- a/aiuti/asyncio.py
+++ b/aiuti/asyncio.py
@@ -432,11 +432,15 @@ def threadsafe_async_cache(
                     _cache[key] = result  # Cache for other tasks
                 finally:
                     with event_making_lock:
+                        # Allow garbage collection and/or another loop
+                        # to take over caching if this failed. If this
+                        # loop stopped running in the meantime, another
+                        # one may already have taken over: its marker
+                        # must not be removed.
+                        if events.get(key) == (caching_loop, event):
+                            del events[key]
                         # Wake up any waiting tasks
                         event.set()
-                        # Allow garbage collection and/or another loop
-                        # to take over caching if this failed
-                        del events[key]
                 return result
 
             # Need to wait for another task, possibly across threads
-- 
2.43.0


From 10db45613ed61d526713a273793f5b1d927e5c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:04 +0000
Subject: [PATCH 02/27] fix: threadsafe_async_cache waiters must not inherit a
 foreign cancellation

The wait for another loop's computation runs as a task on that loop; when
that loop shuts down it is cancelled, and the CancelledError was raised
to callers whose own task nobody had cancelled.
---
 aiuti/asyncio.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/aiuti/asyncio.py b/aiuti/asyncio.py
index eaa21d8..5eda263 100644
--- a/aiuti/asyncio.py
+++ b/aiuti/asyncio.py
@@ -461,21 +461,21 @@ def threadsafe_async_cache(
             # wait_for will swallow CancelledErrors if the wrapped task
             # is already finished. This can cause confusion and missed
             # timeouts when there are multiple nested wait_fors.
-            # Shielding and handling the cancellation directly avoids
+            # Using wait() and handling the cancellation directly avoids
             # this confusion by preventing this wait_for from seeing
-            # the outer CancelledError directly.
+            # the outer CancelledError directly. It also never raises
+            # the waiter's own outcome: if it timed out (original task
+            # lost?) or was cancelled by the shutdown of the caching
+            # loop, there is just a need to loop around and check.
             try:
-                await aio.shield(waiter)
-            except aio.TimeoutError:  # Possible original task lost?
-                pass  # Need to loop around and check
-            except (Exception, aio.CancelledError):
+                await aio.wait([waiter])
+            except aio.CancelledError:
                 if not waiter.done():
                     waiter.cancel()
-                    try:
-                        await waiter
-                    except aio.CancelledError:
-                        pass
+                    await aio.wait([waiter])
                 raise
+            if not waiter.cancelled():
+                waiter.exception()  # Mark as retrieved
 
     return _wrapper  # type: ignore[return-value]
 
-- 
2.43.0


From 339d4652b6b37d4dd03985ed28664f2d2bef941e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:31 +0000
Subject: [PATCH 03/27] fix: threadsafe_async_cache deadlock when collected
 while locked

Garbage collection of a computation abandoned on a closed loop runs its
clean-up in whatever thread triggers the collection; if that thread held
the event-making lock it deadlocked with itself.
---
 aiuti/asyncio.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/aiuti/asyncio.py b/aiuti/asyncio.py
index 5eda263..6d57270 100644
--- a/aiuti/asyncio.py
+++ b/aiuti/asyncio.py
@@ -34,7 +34,7 @@ from asyncio import (
     run_coroutine_threadsafe as run_coro_ts,
 )
 from itertools import islice
-from threading import Lock
+from threading import Lock, RLock
 from functools import partial, wraps
 from concurrent.futures import ThreadPoolExecutor
 from weakref import WeakKeyDictionary as WeakKeyDict, finalize
@@ -381,8 +381,10 @@ def threadsafe_async_cache(
 
     # 1 loop + event per input key currently caching
     events: Dict[Tuple[Any, ...], Tuple[aio.AbstractEventLoop, aio.Event]] = {}
-    # Ensure thread safety while creating events
-    event_making_lock = Lock()
+    # Ensure thread safety while creating events. Reentrant because an
+    # abandoned computation may be garbage collected, and so clean up,
+    # in a thread which is already holding the lock.
+    event_making_lock = RLock()
 
     @wraps(_func)
     async def _wrapper(*args: Any, **kwargs: Any) -> Any:
-- 
2.43.0


From 85b3edad891433c0fb04e5853f0df4ae172a56e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:06 +0000
Subject: [PATCH 04/27] fix: entering a FileLock with-block requires holding
 the lock

With a default timeout, acquire() can return False; the with-block was
entered all the same, without the lock.
---
 aiuti/filelock.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aiuti/filelock.py b/aiuti/filelock.py
index 11430cd..0d59076 100644
--- a/aiuti/filelock.py
+++ b/aiuti/filelock.py
@@ -304,7 +304,8 @@ class BaseFileLock(abc.ABC):
         self._lock_counter = max(0, self._lock_counter - 1)
 
     def __enter__(self: FileLockT) -> FileLockT:
-        self.acquire()
+        if not self.acquire():
+            raise TimeoutError("Failed to acquire file lock:", self._lock_file)
         return self
 
     def __exit__(self, *_exc: Any) -> None:
-- 
2.43.0


From 493410614415efb440625f27b5cba0817b7cafc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:06 +0000
Subject: [PATCH 05/27] fix: forced release of a nested reentrant FileLock
 frees every level

release(force=True) dropped the OS lock and zeroed the counter but
released the internal RLock only once, so no other thread could ever
acquire the object again.
---
 aiuti/filelock.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/aiuti/filelock.py b/aiuti/filelock.py
index 0d59076..06017b9 100644
--- a/aiuti/filelock.py
+++ b/aiuti/filelock.py
@@ -223,8 +223,12 @@ class BaseFileLock(abc.ABC):
             return
 
         self._decrement_lock_counter()
+        levels = 1  # Number of thread lock levels to release
 
         if self._lock_counter == 0 or force:
+            levels += self._lock_counter
+            self._lock_counter = 0
+
             lid = id(self)
             fn = self._lock_file
 
@@ -234,11 +238,11 @@ class BaseFileLock(abc.ABC):
             except:  # noqa
                 _logger.exception("Failed to release lock %s on %s", lid, fn)
             else:
-                self._lock_counter = 0
                 _logger.info('Lock %s released on %s', lid, fn)
 
         try:
-            self._thread_lock.release()
+            for _ in range(levels):
+                self._thread_lock.release()
         except RuntimeError:  # not reentrant and already unlocked
             pass
 
-- 
2.43.0


From 0d682026f45bde987a66fede69becba4cad5a0e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:06 +0000
Subject: [PATCH 06/27] fix: FileLock timeouts must not depend on the wall
 clock

A clock set back while waiting made a timed acquire wait far beyond its
timeout; a clock set forward made it give up early.
---
 aiuti/filelock.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aiuti/filelock.py b/aiuti/filelock.py
index 06017b9..1dcd0f3 100644
--- a/aiuti/filelock.py
+++ b/aiuti/filelock.py
@@ -150,7 +150,7 @@ class BaseFileLock(abc.ABC):
         if self.is_locked:
             return True
 
-        start_time = time.time()
+        start_time = time.monotonic()
 
         def _cleanup_thread_lock() -> None:
             self._decrement_lock_counter()
@@ -168,7 +168,7 @@ class BaseFileLock(abc.ABC):
                     _logger.debug('Failed to acquire lock %s on %s', lid, fn)
                     _cleanup_thread_lock()
                     return False
-                elif 0 <= timeout < time.time() - start_time:
+                elif 0 <= timeout < time.monotonic() - start_time:
                     _logger.debug('Timeout on acquiring lock %s on %s', lid, fn)
                     _cleanup_thread_lock()
                     return False
-- 
2.43.0


From d35774d99fafe7d29bee3e7c353ab5ed0a7d3324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:06 +0000
Subject: [PATCH 07/27] fix: interrupted FileLock acquire must not leak its
 file descriptor

---
 aiuti/filelock.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/aiuti/filelock.py b/aiuti/filelock.py
index 1dcd0f3..ea955fe 100644
--- a/aiuti/filelock.py
+++ b/aiuti/filelock.py
@@ -265,6 +265,9 @@ class BaseFileLock(abc.ABC):
             self._lock(fd, block)
         except (IOError, OSError):
             os.close(fd)
+        except BaseException:  # e.g. KeyboardInterrupt while waiting
+            os.close(fd)
+            raise
         else:
             self._lock_file_fd = fd
 
-- 
2.43.0


From b6ea419e6c9005887ce75415f025fb0a8042b6e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:08 +0000
Subject: [PATCH 08/27] fix: buffered args must survive a failing call which
 modifies its set

---
 aiuti/asyncio.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/aiuti/asyncio.py b/aiuti/asyncio.py
index 6d57270..cf16557 100644
--- a/aiuti/asyncio.py
+++ b/aiuti/asyncio.py
@@ -760,7 +760,9 @@ class BufferAsyncCalls(Generic[T]):
         """
         try:
             if inputs:  # Could be empty if all empty iterators
-                await self.func(inputs)
+                # Always give the function its own set so that inputs are
+                # still known for a retry if it modifies the set it got
+                await self.func(set(inputs))
         except BaseException as e:  # noqa
             logging.exception("Failed to run %s, retrying", self.func)
         else:
-- 
2.43.0


From 8478b22a60087d9b9419163f59d37eeb202772a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:08 +0000
Subject: [PATCH 09/27] fix: buffered args must not be delivered again when
 another thread adds args

---
 aiuti/asyncio.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/aiuti/asyncio.py b/aiuti/asyncio.py
index cf16557..78914c7 100644
--- a/aiuti/asyncio.py
+++ b/aiuti/asyncio.py
@@ -729,8 +729,10 @@ class BufferAsyncCalls(Generic[T]):
         else:
             self.event.clear()  # Ensure cleared in case previous cancel
             self.q.task_done()
-        # Keep adding new args until the function has run successfully
-        while not self.event.is_set():
+        # Keep adding new args until the function has run successfully.
+        # The event can't be used to tell because it may be cleared from
+        # another thread adding new args right after it was set.
+        while True:
             # Get all the input generators currently in the queue
             input_gens.extend(map(_load_inputs, self._empty_queue()))
             # Schedule the q.get() and save it as an attribute so it
@@ -745,11 +747,12 @@ class BufferAsyncCalls(Generic[T]):
             try:
                 await _load_inputs(await self._getting)
             except (aio.TimeoutError, aio.CancelledError):
-                await self._run_func(inputs)
+                if await self._run_func(inputs):
+                    return
             else:
                 self.q.task_done()
 
-    async def _run_func(self, inputs: Set[T]) -> None:
+    async def _run_func(self, inputs: Set[T]) -> bool:
         """
         Run :attr:`func` with the given set of inputs and set
         :attr:`event` once it has finished successfully.
@@ -757,6 +760,8 @@ class BufferAsyncCalls(Generic[T]):
         If an exception is raised, log it with its traceback and return
         without setting the event to prevent the buffered inputs from
         being lost.
+
+        :return: True if the function finished successfully
         """
         try:
             if inputs:  # Could be empty if all empty iterators
@@ -765,8 +770,10 @@ class BufferAsyncCalls(Generic[T]):
                 await self.func(set(inputs))
         except BaseException as e:  # noqa
             logging.exception("Failed to run %s, retrying", self.func)
+            return False
         else:
             self.event.set()
+            return True
 
     def _schedule_with_timeout(self, coro: Awaitable[X]) -> 'aio.Task[X]':
         """
-- 
2.43.0


From 683c87e72890573723ccd6b977a53c94844218b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:08 +0000
Subject: [PATCH 10/27] fix: cancelling the buffer's background task must
 always end it

---
 aiuti/asyncio.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/aiuti/asyncio.py b/aiuti/asyncio.py
index 78914c7..647a73d 100644
--- a/aiuti/asyncio.py
+++ b/aiuti/asyncio.py
@@ -706,6 +706,16 @@ class BufferAsyncCalls(Generic[T]):
         """
         while True:
             await self._process_queue()
+            self._check_cancelled()
+
+    def _check_cancelled(self) -> None:
+        """
+        Stop the background task if it was cancelled, i.e. because the
+        loop is shutting down. Must be used wherever a CancelledError
+        could have been raised by an input or the function instead.
+        """
+        if self._waiting.cancel_requested:
+            raise aio.CancelledError
 
     async def _process_queue(self) -> None:
         """
@@ -747,10 +757,12 @@ class BufferAsyncCalls(Generic[T]):
             try:
                 await _load_inputs(await self._getting)
             except (aio.TimeoutError, aio.CancelledError):
+                self._check_cancelled()
                 if await self._run_func(inputs):
                     return
             else:
                 self.q.task_done()
+            self._check_cancelled()
 
     async def _run_func(self, inputs: Set[T]) -> bool:
         """
@@ -1399,6 +1411,14 @@ class DaemonTask(aio.Task):  # type: ignore
         def __init__(self, coro, *, loop=None, name=None):
             super().__init__(coro, loop=loop)
 
+    #: Set once the task has been asked to cancel, which allows telling
+    #: that apart from a CancelledError raised by something it awaits
+    cancel_requested: bool = False
+
+    def cancel(self, *args: Any, **kwargs: Any) -> bool:
+        self.cancel_requested = not self.done()
+        return super().cancel(*args, **kwargs)
+
     # Skip the __del__ defined by aio.Task which does the logging and
     # then calls super()
     __del__ = aio.Task.__base__.__del__  # type: ignore
-- 
2.43.0


From d06ebe96386b3f024d459c277db0c35992927536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:17 +0000
Subject: [PATCH 11/27] fix: cancelling a batcher caller must not affect other
 callers

---
 aiuti/asyncio.py | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/aiuti/asyncio.py b/aiuti/asyncio.py
index 647a73d..814625d 100644
--- a/aiuti/asyncio.py
+++ b/aiuti/asyncio.py
@@ -1117,22 +1117,31 @@ class AsyncBackgroundBatcher(Generic[A_contra, R_co]):
         except KeyError:
             pass
         else:
-            return await fut
+            return await aio.shield(fut)
 
         fut = self._retention_cache[key] = self._loop.create_future()
+        # Evict based on when the request completes, not on when (or how)
+        # this caller stops waiting for it
+        fut.add_done_callback(partial(self._evict, key))
         await self._queue.put((key, arg, fut))
 
-        try:
-            return await fut
-        finally:
-            if self.retention_timeout > 0:
-                self._loop.call_later(
-                    self.retention_timeout,
-                    self._retention_cache.pop,
-                    key,
-                )
-            else:
-                del self._retention_cache[key]
+        # The future is shared by every caller using this key, so one of
+        # them being cancelled must not cancel it for the others
+        return await aio.shield(fut)
+
+    def _evict(self, key: str, _fut: 'aio.Future[R_co]') -> None:
+        """
+        Remove a completed future from the retention cache, after the
+        retention timeout if there is one.
+        """
+        if self.retention_timeout > 0:
+            self._loop.call_later(
+                self.retention_timeout,
+                self._retention_cache.pop,
+                key,
+            )
+        else:
+            del self._retention_cache[key]
 
     def _daemon_task(
         self,
-- 
2.43.0


From cc22b642baffa92fabc9756f046898f0bd997ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:17 +0000
Subject: [PATCH 12/27] fix: batcher results which are StopIteration must reach
 their caller

---
 aiuti/asyncio.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/aiuti/asyncio.py b/aiuti/asyncio.py
index 814625d..d1c808e 100644
--- a/aiuti/asyncio.py
+++ b/aiuti/asyncio.py
@@ -1224,7 +1224,12 @@ class AsyncBackgroundBatcher(Generic[A_contra, R_co]):
                 )
                 async for key, result in self.func(args):
                     fut = futs.pop(key)
-                    if isinstance(result, Exception):
+                    if isinstance(result, StopIteration):
+                        # Can't be set on a future or raised by a coroutine
+                        exc = RuntimeError("batch result was StopIteration")
+                        exc.__cause__ = result
+                        fut.set_exception(exc)
+                    elif isinstance(result, Exception):
                         fut.set_exception(result)
                     else:
                         fut.set_result(result)
-- 
2.43.0


From 415412658a7254591c096d384ecd15a85988c62a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:17 +0000
Subject: [PATCH 13/27] fix: batcher callers must be answered when the batch is
 cancelled

---
 aiuti/asyncio.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/aiuti/asyncio.py b/aiuti/asyncio.py
index d1c808e..c9e8302 100644
--- a/aiuti/asyncio.py
+++ b/aiuti/asyncio.py
@@ -1233,10 +1233,12 @@ class AsyncBackgroundBatcher(Generic[A_contra, R_co]):
                         fut.set_exception(result)
                     else:
                         fut.set_result(result)
-        except Exception as e:
+        except BaseException as e:
             logger.debug("Exception while processing batch", exc_info=True)
             for fut in futs.values():
                 fut.set_exception(e)
+            if not isinstance(e, Exception):
+                raise
             return
 
         if futs:
-- 
2.43.0


From af7864638a6bcdf062d90fa29af783be2c4e9d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:52 +0000
Subject: [PATCH 14/27] fix: async_background_batcher(retention_timeout=...)
 must not be ignored

---
 aiuti/asyncio.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/aiuti/asyncio.py b/aiuti/asyncio.py
index c9e8302..c61a404 100644
--- a/aiuti/asyncio.py
+++ b/aiuti/asyncio.py
@@ -836,6 +836,7 @@ def async_background_batcher(
     max_batch_size: int = ...,
     max_concurrent_batches: int = ...,
     batch_timeout: float = ...,
+    retention_timeout: float = ...,
 ) -> Callable[
     [_BatchFunc[A_contra, R_co]],
     _AsyncBackgroundBatcherProto[A_contra, R_co],
@@ -849,6 +850,7 @@ def async_background_batcher(
     max_batch_size: int = ...,
     max_concurrent_batches: int = ...,
     batch_timeout: float = ...,
+    retention_timeout: float = ...,
 ) -> _AsyncBackgroundBatcherProto[A_contra, R_co]: ...
 
 
@@ -930,6 +932,7 @@ def async_background_batcher(
             max_batch_size=max_batch_size,
             max_concurrent_batches=max_concurrent_batches,
             batch_timeout=batch_timeout,
+            retention_timeout=retention_timeout,
         )
 
     batchers: 'WeakKeyDict[Loop, AsyncBackgroundBatcher[A_contra, R_co]]' \
-- 
2.43.0


From 2dcf47faf72bf617442c5396783a1b00c6a619da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:36 +0000
Subject: [PATCH 15/27] fix: ensure_aw must complete when the target loop stops
 being run

---
 aiuti/asyncio.py | 46 ++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 38 insertions(+), 8 deletions(-)

diff --git a/aiuti/asyncio.py b/aiuti/asyncio.py
index c61a404..7261a71 100644
--- a/aiuti/asyncio.py
+++ b/aiuti/asyncio.py
@@ -1251,6 +1251,8 @@ class AsyncBackgroundBatcher(Generic[A_contra, R_co]):
 
 
 _CROSS_LOOP_POOL = ThreadPoolExecutor(32)
+#: How often to check that an awaited loop is still being run
+_LOOP_CHECK_INTERVAL = 0.5
 
 
 async def ensure_aw(aw: Awaitable[T], loop: Loop) -> T:
@@ -1301,18 +1303,46 @@ async def ensure_aw(aw: Awaitable[T], loop: Loop) -> T:
     if main_loop is loop:
         return await aw
 
-    if loop.is_running():
-        return await run_aw_threadsafe(aw, loop)
-
     if loop.is_closed():
         raise RuntimeError("Target loop is closed!")
 
-    def _loop_thread() -> T:
-        with _get_loop_lock(loop):
-            aio.set_event_loop(loop)
-            return loop.run_until_complete(aw)
+    done = loop.create_future()
+
+    async def _evaluate() -> T:
+        try:
+            return await aw
+        finally:
+            done.set_result(None)
 
-    return await main_loop.run_in_executor(_CROSS_LOOP_POOL, _loop_thread)
+    def _loop_thread() -> bool:
+        lock = _get_loop_lock(loop)
+        if not lock.acquire(blocking=False):
+            return False  # Already being run
+        try:
+            aio.set_event_loop(loop)
+            loop.run_until_complete(
+                aio.wait([done], timeout=_LOOP_CHECK_INTERVAL))
+        except RuntimeError:  # Run, stopped, or closed by something else
+            return False
+        finally:
+            lock.release()
+        return True
+
+    # Always go through the target loop's queue as whatever is running
+    # the loop may stop at any time. If that happens, or there was nothing
+    # running it in the first place, run it from another thread. This is
+    # done for a limited time in order to not keep others from running it.
+    res = aio.ensure_future(run_aw_threadsafe(_evaluate(), loop))
+    try:
+        while not res.done():
+            if loop.is_closed():
+                raise RuntimeError("Target loop is closed!")
+            if loop.is_running() or not await main_loop.run_in_executor(
+                    _CROSS_LOOP_POOL, _loop_thread):
+                await aio.wait([res], timeout=_LOOP_CHECK_INTERVAL)
+        return await res
+    finally:
+        res.cancel()
 
 
 def loop_in_thread(loop: Loop) -> Callable[[], None]:
-- 
2.43.0


From b0b04a7bd4d3f6c9cb7fd279e4d4029174ad691a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:12 +0000
Subject: [PATCH 16/27] fix: loop_in_thread must not mistake or stop another
 run of the loop

---
 aiuti/asyncio.py | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/aiuti/asyncio.py b/aiuti/asyncio.py
index 7261a71..d6e2178 100644
--- a/aiuti/asyncio.py
+++ b/aiuti/asyncio.py
@@ -34,11 +34,10 @@ from asyncio import (
     run_coroutine_threadsafe as run_coro_ts,
 )
 from itertools import islice
-from threading import Lock, RLock
+from threading import Event, Lock, RLock
 from functools import partial, wraps
 from concurrent.futures import ThreadPoolExecutor
 from weakref import WeakKeyDictionary as WeakKeyDict, finalize
-from time import sleep
 from typing import (
     Any, AsyncIterable, Awaitable, Callable, Coroutine, Dict,
     MutableMapping, Generic, Iterable, Iterator, List, Optional, Protocol,
@@ -1376,18 +1375,34 @@ def loop_in_thread(loop: Loop) -> Callable[[], None]:
     >>> loop.is_running()  # No longer running
     False
     """
+    started = Event()
+    running = True
+
     def _loop_thread() -> None:
+        nonlocal running
         with _get_loop_lock(loop):
             aio.set_event_loop(loop)
-            loop.run_forever()
+            # Something else may have been running the loop until now, so
+            # only signal from inside this run of it
+            loop.call_soon(started.set)
+            try:
+                loop.run_forever()
+            finally:
+                running = False
 
     future = _CROSS_LOOP_POOL.submit(_loop_thread)
+    future.add_done_callback(lambda _: started.set())
+    started.wait()
+    if future.done():
+        future.result()  # Reveal errors
 
-    while not loop.is_running():
-        sleep(0)  # Force switching to other threads
+    def _stop() -> None:
+        if running:  # Never stop another run of the loop
+            loop.stop()
 
     def _stopper() -> None:
-        loop.call_soon_threadsafe(loop.stop)
+        if running:
+            loop.call_soon_threadsafe(_stop)
         future.result()  # Wait for loop to exit and reveal errors
 
     return _stopper
-- 
2.43.0


From 3f6e113778400620bf725fb49c768b28172498ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:12 +0000
Subject: [PATCH 17/27] fix: run_aw_threadsafe must raise the exact exception
 of the awaitable

---
 aiuti/asyncio.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/aiuti/asyncio.py b/aiuti/asyncio.py
index d6e2178..56f9d60 100644
--- a/aiuti/asyncio.py
+++ b/aiuti/asyncio.py
@@ -1438,13 +1438,23 @@ async def run_aw_threadsafe(aw: Awaitable[T], loop: Loop) -> T:
         This does not handle event loop conflicts.
         Use :func:`ensure_aw` for that.
     """
-    coro = aw if aio.iscoroutine(aw) else _aw_to_coro(aw)
-    return await aio.wrap_future(run_coro_ts(coro, loop))
+    result, exc = await aio.wrap_future(run_coro_ts(_aw_to_coro(aw), loop))
+    if exc is not None:
+        raise exc
+    return cast(T, result)
 
 
-async def _aw_to_coro(aw: Awaitable[T]) -> T:
-    """Wrap a given awaitable so it appears as a coroutine."""
-    return await aw
+async def _aw_to_coro(
+    aw: Awaitable[T],
+) -> Tuple[Optional[T], Optional[Exception]]:
+    """
+    Wrap a given awaitable so it appears as a coroutine. Any error is
+    returned as futures replace some types while passing them on.
+    """
+    try:
+        return await aw, None
+    except Exception as e:
+        return None, e
 
 
 async def _obj_to_aiter(o: T) -> AsyncIterable[T]:
-- 
2.43.0


From 7876816ab13acc1b5045c3dfb2bc18d262f6e5d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:18 +0000
Subject: [PATCH 18/27] fix: closing to_async_iter early must not block the
 event loop

---
 aiuti/asyncio.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/aiuti/asyncio.py b/aiuti/asyncio.py
index 56f9d60..1a7a62a 100644
--- a/aiuti/asyncio.py
+++ b/aiuti/asyncio.py
@@ -181,9 +181,13 @@ async def to_async_iter(iterable: Iterable[T]) -> AYields[T]:
             yield x
         return
 
+    abandoned = False
+
     def _queue_elements() -> None:
         try:
             for x in iterable:
+                if abandoned:
+                    break
                 put(x)
         finally:
             put(_DONE)
@@ -195,11 +199,17 @@ async def to_async_iter(iterable: Iterable[T]) -> AYields[T]:
         q.put_nowait,  # type: ignore[arg-type]
         # ^ Type stubs don't understand partial will pass args later
     )
-    with ThreadPoolExecutor(1) as pool:
-        future = loop.run_in_executor(pool, _queue_elements)
+    pool = ThreadPoolExecutor(1)
+    future = loop.run_in_executor(pool, _queue_elements)
+    try:
         while (i := await q.get()) is not _DONE:
             yield i  # type: ignore
         await future  # Bubble any errors
+    finally:
+        # If closed early, the thread may be blocked for a while so don't
+        # block the event loop until it exits
+        abandoned = True
+        pool.shutdown(wait=future.done())
 
 
 def to_sync_iter(iterable: AsyncIterable[T],
-- 
2.43.0


From 5feae0cfd5f94c3d40a9be7656e63ccf121d63b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:18 +0000
Subject: [PATCH 19/27] fix: to_async_iter must raise the exact exception of
 its source

---
 aiuti/asyncio.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/aiuti/asyncio.py b/aiuti/asyncio.py
index 1a7a62a..09f0e38 100644
--- a/aiuti/asyncio.py
+++ b/aiuti/asyncio.py
@@ -183,14 +183,18 @@ async def to_async_iter(iterable: Iterable[T]) -> AYields[T]:
 
     abandoned = False
 
-    def _queue_elements() -> None:
+    def _queue_elements() -> Optional[BaseException]:
+        # Return errors as futures replace some types while passing them on
         try:
             for x in iterable:
                 if abandoned:
                     break
                 put(x)
+        except BaseException as e:
+            return e
         finally:
             put(_DONE)
+        return None
 
     q: 'aio.Queue[Union[T, object]]' = aio.Queue()
     loop = aio.get_running_loop()
@@ -204,7 +208,12 @@ async def to_async_iter(iterable: Iterable[T]) -> AYields[T]:
     try:
         while (i := await q.get()) is not _DONE:
             yield i  # type: ignore
-        await future  # Bubble any errors
+        error = await future
+        if error is not None:
+            try:
+                raise error  # Bubble any errors
+            finally:
+                del error  # Don't keep a reference cycle
     finally:
         # If closed early, the thread may be blocked for a while so don't
         # block the event loop until it exits
-- 
2.43.0


From a832a15737e15c5e1ceb52a85e0a41e5f5221080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:12 +0000
Subject: [PATCH 20/27] fix: gather_excs must not report returned exceptions as
 raised

---
 aiuti/asyncio.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/aiuti/asyncio.py b/aiuti/asyncio.py
index 09f0e38..ce713b9 100644
--- a/aiuti/asyncio.py
+++ b/aiuti/asyncio.py
@@ -96,9 +96,15 @@ async def gather_excs(
     :param only:
         Optional specific type of exceptions to filter on and yield
     """
-    for res in await aio.gather(*aws, return_exceptions=True):
-        if isinstance(res, only):
-            yield res
+    aws = list(aws)
+    futs = {aw: aio.ensure_future(aw) for aw in dict.fromkeys(aws)}
+    results = await aio.gather(*map(futs.get, aws), return_exceptions=True)
+    for aw, res in zip(aws, results):
+        # The result may be an exception which was returned, not raised
+        fut = futs[aw]
+        if fut.cancelled() or fut.exception() is not None:
+            if isinstance(res, only):
+                yield res
 
 
 async def raise_first_exc(aws: Iterable[Awaitable[Any]],
-- 
2.43.0


From 75c00853173742639196c527607c6c4bfb71dbf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:59 +0000
Subject: [PATCH 21/27] fix: loop_in_thread must not exhaust the thread pool of
 ensure_aw

---
 aiuti/asyncio.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/aiuti/asyncio.py b/aiuti/asyncio.py
index ce713b9..5313b26 100644
--- a/aiuti/asyncio.py
+++ b/aiuti/asyncio.py
@@ -1415,7 +1415,11 @@ def loop_in_thread(loop: Loop) -> Callable[[], None]:
             finally:
                 running = False
 
-    future = _CROSS_LOOP_POOL.submit(_loop_thread)
+    # Use a dedicated thread as running loops in the shared pool would keep
+    # its threads from ensure_aw and each other
+    pool = ThreadPoolExecutor(1)
+    future = pool.submit(_loop_thread)
+    pool.shutdown(wait=False)  # Once the loop has been stopped
     future.add_done_callback(lambda _: started.set())
     started.wait()
     if future.done():
-- 
2.43.0


From e6ac135affd476ccb03aae380570f4c02819a55b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:42 +0000
Subject: [PATCH 22/27] fix: to_sync_iter must not drop exceptions which are
 considered false

The future of the helper thread only raises exceptions that are true, so
an exception of the source with a false truth value ended the iteration
as if the source had been exhausted.
---
 aiuti/asyncio.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/aiuti/asyncio.py b/aiuti/asyncio.py
index 5313b26..3942ad7 100644
--- a/aiuti/asyncio.py
+++ b/aiuti/asyncio.py
@@ -268,9 +268,14 @@ def to_sync_iter(iterable: AsyncIterable[T],
     if loop is None:
         loop = aio.new_event_loop()
 
-    def _set_loop_and_queue_elements(_loop: Loop) -> None:
+    def _set_loop_and_queue_elements(_loop: Loop) -> Optional[BaseException]:
+        # Return errors as futures drop those which are considered false
         aio.set_event_loop(_loop)
-        _loop.run_until_complete(_queue_elements())
+        try:
+            _loop.run_until_complete(_queue_elements())
+        except BaseException as e:
+            return e
+        return None
 
     async def _queue_elements() -> None:
         try:
@@ -287,7 +292,12 @@ def to_sync_iter(iterable: AsyncIterable[T],
             while (i := q.get()) is not _DONE:
                 yield i
         finally:
-            future.result()
+            error = future.result()
+            if error is not None:
+                try:
+                    raise error  # Bubble any errors
+                finally:
+                    del error  # Don't keep a reference cycle
 
 
 _CacheMap = MutableMapping[Tuple[Any, ...], Any]
-- 
2.43.0


From a6a7d90a1c87ac1a666e36bd71a1bab25788136e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:22 +0000
Subject: [PATCH 23/27] fix: batch functions raising StopIteration must not
 hang their callers

---
 aiuti/asyncio.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/aiuti/asyncio.py b/aiuti/asyncio.py
index 3942ad7..d3c468b 100644
--- a/aiuti/asyncio.py
+++ b/aiuti/asyncio.py
@@ -1261,19 +1261,14 @@ class AsyncBackgroundBatcher(Generic[A_contra, R_co]):
                 )
                 async for key, result in self.func(args):
                     fut = futs.pop(key)
-                    if isinstance(result, StopIteration):
-                        # Can't be set on a future or raised by a coroutine
-                        exc = RuntimeError("batch result was StopIteration")
-                        exc.__cause__ = result
-                        fut.set_exception(exc)
-                    elif isinstance(result, Exception):
-                        fut.set_exception(result)
+                    if isinstance(result, Exception):
+                        self._set_exception(fut, result)
                     else:
                         fut.set_result(result)
         except BaseException as e:
             logger.debug("Exception while processing batch", exc_info=True)
             for fut in futs.values():
-                fut.set_exception(e)
+                self._set_exception(fut, e)
             if not isinstance(e, Exception):
                 raise
             return
@@ -1283,6 +1278,15 @@ class AsyncBackgroundBatcher(Generic[A_contra, R_co]):
             for key, fut in futs.items():
                 fut.set_exception(ValueError(f"Missing result for {key!r}"))
 
+    @staticmethod
+    def _set_exception(fut: 'aio.Future[Any]', exc: BaseException) -> None:
+        if isinstance(exc, StopIteration):
+            # Can't be set on a future or raised by a coroutine
+            wrapper = RuntimeError("batch raised StopIteration")
+            wrapper.__cause__ = exc
+            exc = wrapper
+        fut.set_exception(exc)
+
 
 _CROSS_LOOP_POOL = ThreadPoolExecutor(32)
 #: How often to check that an awaited loop is still being run
-- 
2.43.0


From b929a0cf0a6e59f6ac71d3974ca4a32176ba07fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:03 +0000
Subject: [PATCH 24/27] fix: wait must cover submissions the loop has not got
 to (eager tasks)

---
 aiuti/asyncio.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/aiuti/asyncio.py b/aiuti/asyncio.py
index d3c468b..bf4cde3 100644
--- a/aiuti/asyncio.py
+++ b/aiuti/asyncio.py
@@ -711,6 +711,9 @@ class BufferAsyncCalls(Generic[T]):
             to be met before the function is called if it hasn't been
             already.
         """
+        # Arguments are only put onto the queue by callbacks of the loop, so
+        # let it get to those which have already been scheduled
+        await aio.sleep(0)
         # Process all queued tasks
         # Create a task because some unknown bug on 3.7 blocks
         # infinitely sometimes if we await join directly
-- 
2.43.0


From d302ad4149eb080c0d050869be7793258334002c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:13 +0000
Subject: [PATCH 25/27] fix: forked processes must not share (or release) the
 file locks of their parent

---
 aiuti/filelock.py | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/aiuti/filelock.py b/aiuti/filelock.py
index ea955fe..ea482d2 100644
--- a/aiuti/filelock.py
+++ b/aiuti/filelock.py
@@ -40,6 +40,7 @@ import time
 import logging
 import threading
 import contextlib
+from weakref import WeakSet
 from typing import Union, Optional, TypeVar, ClassVar, Any
 
 from .typing import Yields
@@ -104,6 +105,8 @@ class BaseFileLock(abc.ABC):
         # falls to zero, the file lock can be released
         self._lock_counter: int = 0
 
+        _ALL_LOCKS.add(self)
+
     @property
     def lock_file(self) -> PathLike:
         """The path to the lock file."""
@@ -283,6 +286,17 @@ class BaseFileLock(abc.ABC):
         finally:
             os.close(fd)
 
+    def _after_fork(self) -> None:
+        """
+        Forget the lock in a forked process as only its parent holds it.
+        """
+        fd, self._lock_file_fd = self._lock_file_fd, None
+        self._lock_counter = 0
+        self._thread_lock = (
+            threading.RLock() if self._reentrant else threading.Lock())
+        if fd is not None:
+            os.close(fd)  # Unlocking would release it for the parent too
+
     @abc.abstractmethod
     def _lock(self, fd: int, block: bool = True) -> None:
         """
@@ -322,6 +336,19 @@ class BaseFileLock(abc.ABC):
         self.release(force=True)
 
 
+#: All existing locks, used to reset them in forked processes
+_ALL_LOCKS: 'WeakSet[BaseFileLock]' = WeakSet()
+
+
+def _after_fork() -> None:
+    for lock in list(_ALL_LOCKS):
+        lock._after_fork()
+
+
+if hasattr(os, 'register_at_fork'):
+    os.register_at_fork(after_in_child=_after_fork)
+
+
 class WindowsFileLock(BaseFileLock):
     """
     Windows specific file lock implementation which uses
-- 
2.43.0


From 627cd4a91db46047d4999e6b089db3b074ab679f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:57 +0000
Subject: [PATCH 26/27] fix: gather_excs must await each awaitable, even if it
 equals another one

---
 aiuti/asyncio.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/aiuti/asyncio.py b/aiuti/asyncio.py
index bf4cde3..6a3e0fb 100644
--- a/aiuti/asyncio.py
+++ b/aiuti/asyncio.py
@@ -97,11 +97,13 @@ async def gather_excs(
         Optional specific type of exceptions to filter on and yield
     """
     aws = list(aws)
-    futs = {aw: aio.ensure_future(aw) for aw in dict.fromkeys(aws)}
-    results = await aio.gather(*map(futs.get, aws), return_exceptions=True)
-    for aw, res in zip(aws, results):
+    # By identity as awaitables which are equal still are different ones
+    unique = {id(aw): aw for aw in aws}
+    tasks = {i: aio.ensure_future(aw) for i, aw in unique.items()}
+    futs = [tasks[id(aw)] for aw in aws]
+    results = await aio.gather(*futs, return_exceptions=True)
+    for fut, res in zip(futs, results):
         # The result may be an exception which was returned, not raised
-        fut = futs[aw]
         if fut.cancelled() or fut.exception() is not None:
             if isinstance(res, only):
                 yield res
-- 
2.43.0


From 098bbf12435785f3aca23d6cb9251bf2da178f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:24 +0000
Subject: [PATCH 27/27] fix: a FileLock forcibly released by another thread
 must be usable again

---
 aiuti/filelock.py | 47 ++++++++++++++++++++++++++---------------------
 1 file changed, 26 insertions(+), 21 deletions(-)

diff --git a/aiuti/filelock.py b/aiuti/filelock.py
index ea482d2..4fc8eb7 100644
--- a/aiuti/filelock.py
+++ b/aiuti/filelock.py
@@ -65,7 +65,7 @@ FileLockT = TypeVar('FileLockT', bound='BaseFileLock')
 class BaseFileLock(abc.ABC):
     """Abstract base class for a file lock."""
 
-    _thread_lock: Union[threading.Lock, threading.RLock]
+    _thread_lock: threading.Lock
 
     def __init__(self,
                  lock_file: PathLike,
@@ -78,8 +78,8 @@ class BaseFileLock(abc.ABC):
             exception will be raised indicating the lock couldn't be
             acquired.
         :param reentrant:
-            If True, use an :class:`~threading.RLock` internally to
-            allow the same thread to acquire the lock multiple times.
+            If True, allow the same thread to acquire the lock multiple
+            times, like an :class:`~threading.RLock`.
         """
         # The path to the lock file.
         self._lock_file: PathLike = lock_file
@@ -95,11 +95,13 @@ class BaseFileLock(abc.ABC):
         self._reentrant: bool = reentrant
 
         # The internal threading lock to hold while waiting for and
-        # while the file lock is held
-        if self._reentrant:
-            self._thread_lock = threading.RLock()
-        else:
-            self._thread_lock = threading.Lock()
+        # while the file lock is held. Never an RLock as another thread
+        # would be unable to forcibly release it.
+        self._thread_lock = threading.Lock()
+
+        # The thread holding the file lock, the only one which may acquire
+        # a reentrant lock again and which can release it without force
+        self._owner: Optional[int] = None
 
         # For reentrant locks, the number of levels deep. When this
         # falls to zero, the file lock can be released
@@ -144,15 +146,15 @@ class BaseFileLock(abc.ABC):
         lid = id(self)
         fn = self._lock_file
 
+        if self._reentrant and self._owner == threading.get_ident():
+            self._lock_counter += 1
+            return True
+
         if not self._thread_lock.acquire(blocking, timeout):
             _logger.debug('Timeout on acquiring thread lock %s on %s', lid, fn)
             return False
 
-        self._lock_counter += 1  # Keep lock counter synced with RLock
-
-        if self.is_locked:
-            return True
-
+        self._lock_counter = 1
         start_time = time.monotonic()
 
         def _cleanup_thread_lock() -> None:
@@ -165,6 +167,7 @@ class BaseFileLock(abc.ABC):
                 self._acquire(block=blocking and timeout < 0)
 
                 if self.is_locked:
+                    self._owner = threading.get_ident()
                     _logger.info('Lock %s acquired on %s', lid, fn)
                     break
                 elif not blocking:
@@ -225,12 +228,15 @@ class BaseFileLock(abc.ABC):
         if not self.is_locked:
             return
 
+        if not force and self._reentrant \
+                and self._owner != threading.get_ident():
+            return  # Held by another thread
+
         self._decrement_lock_counter()
-        levels = 1  # Number of thread lock levels to release
 
         if self._lock_counter == 0 or force:
-            levels += self._lock_counter
             self._lock_counter = 0
+            self._owner = None
 
             lid = id(self)
             fn = self._lock_file
@@ -243,11 +249,10 @@ class BaseFileLock(abc.ABC):
             else:
                 _logger.info('Lock %s released on %s', lid, fn)
 
-        try:
-            for _ in range(levels):
+            try:
                 self._thread_lock.release()
-        except RuntimeError:  # not reentrant and already unlocked
-            pass
+            except RuntimeError:  # already unlocked
+                pass
 
     # Open mode for the file descriptor
     _FD_OPEN_MODE: ClassVar[int] = os.O_RDWR | os.O_CREAT | os.O_TRUNC
@@ -292,8 +297,8 @@ class BaseFileLock(abc.ABC):
         """
         fd, self._lock_file_fd = self._lock_file_fd, None
         self._lock_counter = 0
-        self._thread_lock = (
-            threading.RLock() if self._reentrant else threading.Lock())
+        self._owner = None
+        self._thread_lock = threading.Lock()
         if fd is not None:
             os.close(fd)  # Unlocking would release it for the parent too
 
-- 
2.43.0

