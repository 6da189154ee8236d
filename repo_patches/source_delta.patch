From e1b02650e6cf948648fcd7ce3c5ceeef7d4d8138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:19 +0000
Subject: [PATCH 01/20] fix: async cache only removes the marker it created

A task left pending on a stopped loop deleted the marker of the loop that
took over (two computations at once) or failed with a KeyError.
---
 aiuti/asyncio.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/aiuti/asyncio.py b/aiuti/asyncio.py
index 2b71748..7a62578 100644
--- a/aiuti/asyncio.py
+++ b/aiuti/asyncio.py
@@ -435,8 +435,10 @@ def threadsafe_async_cache(
                         # Wake up any waiting tasks
                         event.set()
                         # Allow garbage collection and/or another loop
-                        # to take over caching if this failed
-                        del events[key]
+                        # to take over caching if this failed, unless
+                        # one already did because this loop stopped
+                        if events.get(key) == (caching_loop, event):
+                            del events[key]
                 return result
 
             # Need to wait for another task, possibly across threads
-- 
2.43.0


From 40b9e586225f87a6381babcac16d30e2ae47ec91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:55 +0000
Subject: [PATCH 02/20] fix: async cache callers never see the cancellation of
 another loop's wait

The task waiting on the caching loop on behalf of another loop is cancelled
when the caching loop shuts down; that CancelledError surfaced in callers
nobody had cancelled.
---
 aiuti/asyncio.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/aiuti/asyncio.py b/aiuti/asyncio.py
index 7a62578..ca16348 100644
--- a/aiuti/asyncio.py
+++ b/aiuti/asyncio.py
@@ -459,13 +459,13 @@ def threadsafe_async_cache(
             # wait_for will swallow CancelledErrors if the wrapped task
             # is already finished. This can cause confusion and missed
             # timeouts when there are multiple nested wait_fors.
-            # Shielding and handling the cancellation directly avoids
+            # Waiting and handling the cancellation directly avoids
             # this confusion by preventing this wait_for from seeing
-            # the outer CancelledError directly.
+            # the outer CancelledError directly. Unlike shield(), wait()
+            # also never raises the CancelledError of the waiter, which
+            # gets cancelled if the caching loop shuts down.
             try:
-                await aio.shield(waiter)
-            except aio.TimeoutError:  # Possible original task lost?
-                pass  # Need to loop around and check
+                await aio.wait([waiter])
             except (Exception, aio.CancelledError):
                 if not waiter.done():
                     waiter.cancel()
@@ -474,6 +474,10 @@ def threadsafe_async_cache(
                     except aio.CancelledError:
                         pass
                 raise
+            # Done, timed out, or cancelled by the shutdown of the
+            # caching loop. Either way, need to loop around and check.
+            if not waiter.cancelled():
+                waiter.exception()  # Mark any timeout as retrieved
 
     return _wrapper  # type: ignore[return-value]
 
-- 
2.43.0


From 99a80ecebec0fcb3b0dc7a6ef205b63586c848f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:52 +0000
Subject: [PATCH 03/20] fix: gather_excs no longer yields exceptions which were
 returned

asyncio.gather(return_exceptions=True) cannot tell an exception instance
returned by an awaitable from one it raised.
---
 aiuti/asyncio.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/aiuti/asyncio.py b/aiuti/asyncio.py
index ca16348..5b087fb 100644
--- a/aiuti/asyncio.py
+++ b/aiuti/asyncio.py
@@ -97,7 +97,13 @@ async def gather_excs(
     :param only:
         Optional specific type of exceptions to filter on and yield
     """
-    for res in await aio.gather(*aws, return_exceptions=True):
+    aws = list(aws)
+    # Inspect the futures directly instead of the results of gather() to
+    # avoid confusing an exception which was returned for a raised one
+    futs = {aw: aio.ensure_future(aw) for aw in dict.fromkeys(aws)}
+    await aio.gather(*futs.values(), return_exceptions=True)
+    for fut in map(futs.__getitem__, aws):
+        res = aio.CancelledError() if fut.cancelled() else fut.exception()
         if isinstance(res, only):
             yield res
 
-- 
2.43.0


From ec8a551dfc1dd0312bd1705765d6510959996851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:28 +0000
Subject: [PATCH 04/20] fix: cancelling a batcher caller no longer cancels the
 shared future

---
 aiuti/asyncio.py | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/aiuti/asyncio.py b/aiuti/asyncio.py
index 5b087fb..9a1a6c9 100644
--- a/aiuti/asyncio.py
+++ b/aiuti/asyncio.py
@@ -1102,22 +1102,30 @@ class AsyncBackgroundBatcher(Generic[A_contra, R_co]):
         except KeyError:
             pass
         else:
-            return await fut
+            return await aio.shield(fut)
 
         fut = self._retention_cache[key] = self._loop.create_future()
+        # The future decides when it is forgotten, not this caller which
+        # can be cancelled while others are still waiting
+        fut.add_done_callback(partial(self._on_done, key))
         await self._queue.put((key, arg, fut))
 
-        try:
-            return await fut
-        finally:
-            if self.retention_timeout > 0:
-                self._loop.call_later(
-                    self.retention_timeout,
-                    self._retention_cache.pop,
-                    key,
-                )
-            else:
-                del self._retention_cache[key]
+        # The future is shared, so cancelling this caller can't cancel it
+        return await aio.shield(fut)
+
+    def _on_done(self, key: str, _: 'aio.Future[R_co]') -> None:
+        """
+        Forget the completed future for the given key, immediately or
+        after the retention timeout.
+        """
+        if self.retention_timeout > 0:
+            self._loop.call_later(
+                self.retention_timeout,
+                self._retention_cache.pop,
+                key,
+            )
+        else:
+            del self._retention_cache[key]
 
     def _daemon_task(
         self,
-- 
2.43.0


From acc5207b8bd1fe44c4010709f3dedf32edc54766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:04 +0000
Subject: [PATCH 05/20] fix: batcher answers its callers whatever the batch
 function raises or yields

---
 aiuti/asyncio.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/aiuti/asyncio.py b/aiuti/asyncio.py
index 9a1a6c9..8f57cd2 100644
--- a/aiuti/asyncio.py
+++ b/aiuti/asyncio.py
@@ -1207,15 +1207,18 @@ class AsyncBackgroundBatcher(Generic[A_contra, R_co]):
                     len(args), self.func,
                 )
                 async for key, result in self.func(args):
-                    fut = futs.pop(key)
+                    fut = futs[key]
                     if isinstance(result, Exception):
                         fut.set_exception(result)
                     else:
                         fut.set_result(result)
-        except Exception as e:
+                    del futs[key]  # Only once answered
+        except BaseException as e:  # Never leave a caller unanswered
             logger.debug("Exception while processing batch", exc_info=True)
             for fut in futs.values():
                 fut.set_exception(e)
+            if not isinstance(e, Exception):
+                raise
             return
 
         if futs:
-- 
2.43.0


From cf949729cf1a2c5e67917f741294e9a44a5ab238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:53 +0000
Subject: [PATCH 06/20] fix: buffered inputs survive a failing function which
 modifies its set

---
 aiuti/asyncio.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aiuti/asyncio.py b/aiuti/asyncio.py
index 8f57cd2..30a3ac8 100644
--- a/aiuti/asyncio.py
+++ b/aiuti/asyncio.py
@@ -766,7 +766,8 @@ class BufferAsyncCalls(Generic[T]):
         """
         try:
             if inputs:  # Could be empty if all empty iterators
-                await self.func(inputs)
+                # Pass a copy to not lose any if it is modified
+                await self.func(set(inputs))
         except BaseException as e:  # noqa
             logging.exception("Failed to run %s, retrying", self.func)
         else:
-- 
2.43.0


From 5243b9f03588d0724af9520c81415a66f7e196a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:14 +0000
Subject: [PATCH 07/20] fix: buffered inputs are not delivered again when
 another thread adds more

---
 aiuti/asyncio.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/aiuti/asyncio.py b/aiuti/asyncio.py
index 30a3ac8..c2a3fbf 100644
--- a/aiuti/asyncio.py
+++ b/aiuti/asyncio.py
@@ -735,8 +735,11 @@ class BufferAsyncCalls(Generic[T]):
         else:
             self.event.clear()  # Ensure cleared in case previous cancel
             self.q.task_done()
-        # Keep adding new args until the function has run successfully
-        while not self.event.is_set():
+        # Keep adding new args until the function has run successfully.
+        # The event can't be used to detect this because another thread
+        # adding an arg may clear it again right after it was set.
+        done = False
+        while not done:
             # Get all the input generators currently in the queue
             input_gens.extend(map(_load_inputs, self._empty_queue()))
             # Schedule the q.get() and save it as an attribute so it
@@ -751,11 +754,11 @@ class BufferAsyncCalls(Generic[T]):
             try:
                 await _load_inputs(await self._getting)
             except (aio.TimeoutError, aio.CancelledError):
-                await self._run_func(inputs)
+                done = await self._run_func(inputs)
             else:
                 self.q.task_done()
 
-    async def _run_func(self, inputs: Set[T]) -> None:
+    async def _run_func(self, inputs: Set[T]) -> bool:
         """
         Run :attr:`func` with the given set of inputs and set
         :attr:`event` once it has finished successfully.
@@ -763,6 +766,8 @@ class BufferAsyncCalls(Generic[T]):
         If an exception is raised, log it with its traceback and return
         without setting the event to prevent the buffered inputs from
         being lost.
+
+        :return: Whether the function finished successfully
         """
         try:
             if inputs:  # Could be empty if all empty iterators
@@ -770,8 +775,10 @@ class BufferAsyncCalls(Generic[T]):
                 await self.func(set(inputs))
         except BaseException as e:  # noqa
             logging.exception("Failed to run %s, retrying", self.func)
+            return False
         else:
             self.event.set()
+            return True
 
     def _schedule_with_timeout(self, coro: Awaitable[X]) -> 'aio.Task[X]':
         """
-- 
2.43.0


From 88db5cbaf96708616bd0e0e618a677547fe15892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:14 +0000
Subject: [PATCH 08/20] fix: cancelling the background task of a buffer always
 ends it

---
 aiuti/asyncio.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/aiuti/asyncio.py b/aiuti/asyncio.py
index c2a3fbf..575f45f 100644
--- a/aiuti/asyncio.py
+++ b/aiuti/asyncio.py
@@ -751,11 +751,16 @@ class BufferAsyncCalls(Generic[T]):
                 input_gens.clear()  # Clear processed input generators
             # Now wait for the next arguments to buffer. If this times
             # out or is cancelled, its time to run the function.
+            # Neither wait() nor gather() confuse a cancelled get or a
+            # failed function with the cancellation of this task, which
+            # must always end it.
+            await aio.wait([self._getting])
             try:
-                await _load_inputs(await self._getting)
+                next_iterable = self._getting.result()
             except (aio.TimeoutError, aio.CancelledError):
-                done = await self._run_func(inputs)
+                done, = await aio.gather(self._run_func(inputs))
             else:
+                await aio.gather(_load_inputs(next_iterable))
                 self.q.task_done()
 
     async def _run_func(self, inputs: Set[T]) -> bool:
-- 
2.43.0


From 9effa3191bb681dc0f886a6f9e8da63651a579d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:02 +0000
Subject: [PATCH 09/20] fix: entering a FileLock raises TimeoutError if it was
 not acquired

---
 aiuti/filelock.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aiuti/filelock.py b/aiuti/filelock.py
index 11430cd..0d59076 100644
--- a/aiuti/filelock.py
+++ b/aiuti/filelock.py
@@ -304,7 +304,8 @@ class BaseFileLock(abc.ABC):
         self._lock_counter = max(0, self._lock_counter - 1)
 
     def __enter__(self: FileLockT) -> FileLockT:
-        self.acquire()
+        if not self.acquire():
+            raise TimeoutError("Failed to acquire file lock:", self._lock_file)
         return self
 
     def __exit__(self, *_exc: Any) -> None:
-- 
2.43.0


From 485b3c16f3729c54a63eaab1f760cba505d2c679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:02 +0000
Subject: [PATCH 10/20] fix: FileLock closes its file when locking is
 interrupted

---
 aiuti/filelock.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/aiuti/filelock.py b/aiuti/filelock.py
index 0d59076..2502d97 100644
--- a/aiuti/filelock.py
+++ b/aiuti/filelock.py
@@ -261,6 +261,9 @@ class BaseFileLock(abc.ABC):
             self._lock(fd, block)
         except (IOError, OSError):
             os.close(fd)
+        except:  # noqa
+            os.close(fd)
+            raise
         else:
             self._lock_file_fd = fd
 
-- 
2.43.0


From 438325b63adc99f81891d84f74f5027a734c515e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:19 +0000
Subject: [PATCH 11/20] fix: forced release of a FileLock gives back every
 level

---
 aiuti/filelock.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/aiuti/filelock.py b/aiuti/filelock.py
index 2502d97..a3c46ce 100644
--- a/aiuti/filelock.py
+++ b/aiuti/filelock.py
@@ -222,6 +222,9 @@ class BaseFileLock(abc.ABC):
         if not self.is_locked:
             return
 
+        # A forced release also gives back every level of an RLock
+        levels = self._lock_counter if force and self._reentrant else 1
+
         self._decrement_lock_counter()
 
         if self._lock_counter == 0 or force:
@@ -234,11 +237,13 @@ class BaseFileLock(abc.ABC):
             except:  # noqa
                 _logger.exception("Failed to release lock %s on %s", lid, fn)
             else:
-                self._lock_counter = 0
                 _logger.info('Lock %s released on %s', lid, fn)
+            # The file has been closed in any case
+            self._lock_counter = 0
 
         try:
-            self._thread_lock.release()
+            for _ in range(levels):
+                self._thread_lock.release()
         except RuntimeError:  # not reentrant and already unlocked
             pass
 
-- 
2.43.0


From 9e40839c377a4315bf1000d14838fb505627b7ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:47 +0000
Subject: [PATCH 12/20] fix: a forked process does not share the FileLock held
 by its parent

---
 aiuti/filelock.py | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/aiuti/filelock.py b/aiuti/filelock.py
index a3c46ce..3326af4 100644
--- a/aiuti/filelock.py
+++ b/aiuti/filelock.py
@@ -38,6 +38,7 @@ import os
 import abc
 import time
 import logging
+import weakref
 import threading
 import contextlib
 from typing import Union, Optional, TypeVar, ClassVar, Any
@@ -61,6 +62,19 @@ PathLike = Union[str, 'os.PathLike[str]']
 FileLockT = TypeVar('FileLockT', bound='BaseFileLock')
 
 
+# All locks of this process, those held must be dropped after a fork
+_all_locks: 'weakref.WeakSet[BaseFileLock]' = weakref.WeakSet()
+
+
+def _after_fork_in_child() -> None:
+    for lock in list(_all_locks):
+        lock._after_fork_in_child()
+
+
+if hasattr(os, 'register_at_fork'):
+    os.register_at_fork(after_in_child=_after_fork_in_child)
+
+
 class BaseFileLock(abc.ABC):
     """Abstract base class for a file lock."""
 
@@ -93,6 +107,10 @@ class BaseFileLock(abc.ABC):
         # Boolean indicating if the lock is recursive, thread-wise
         self._reentrant: bool = reentrant
 
+        self._reset_thread_lock()
+        _all_locks.add(self)
+
+    def _reset_thread_lock(self) -> None:
         # The internal threading lock to hold while waiting for and
         # while the file lock is held
         if self._reentrant:
@@ -104,6 +122,20 @@ class BaseFileLock(abc.ABC):
         # falls to zero, the file lock can be released
         self._lock_counter: int = 0
 
+    def _after_fork_in_child(self) -> None:
+        """
+        Forget the lock held by the parent process: only close the
+        inherited file descriptor as unlocking it would take the lock
+        away from the parent.
+        """
+        fd, self._lock_file_fd = self._lock_file_fd, None
+        self._reset_thread_lock()
+        if fd is not None:
+            try:
+                os.close(fd)
+            except OSError:
+                pass
+
     @property
     def lock_file(self) -> PathLike:
         """The path to the lock file."""
-- 
2.43.0


From 67657e734abab0f31a8300746b531b851226c784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:21 +0000
Subject: [PATCH 13/20] fix: ensure_aw completes even if whoever runs the
 target loop stops it

---
 aiuti/asyncio.py | 82 +++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 68 insertions(+), 14 deletions(-)

diff --git a/aiuti/asyncio.py b/aiuti/asyncio.py
index 575f45f..e9e2d13 100644
--- a/aiuti/asyncio.py
+++ b/aiuti/asyncio.py
@@ -34,7 +34,8 @@ from asyncio import (
     run_coroutine_threadsafe as run_coro_ts,
 )
 from itertools import islice
-from threading import Lock
+from threading import Event, Lock
+from collections import Counter
 from functools import partial, wraps
 from concurrent.futures import ThreadPoolExecutor
 from weakref import WeakKeyDictionary as WeakKeyDict, finalize
@@ -1291,18 +1292,42 @@ async def ensure_aw(aw: Awaitable[T], loop: Loop) -> T:
     if main_loop is loop:
         return await aw
 
-    if loop.is_running():
-        return await run_aw_threadsafe(aw, loop)
-
     if loop.is_closed():
         raise RuntimeError("Target loop is closed!")
 
-    def _loop_thread() -> T:
-        with _get_loop_lock(loop):
-            aio.set_event_loop(loop)
-            return loop.run_until_complete(aw)
+    future = run_coro_ts(aw if aio.iscoroutine(aw) else _aw_to_coro(aw), loop)
+    waiter = aio.wrap_future(future)
 
-    return await main_loop.run_in_executor(_CROSS_LOOP_POOL, _loop_thread)
+    def _loop_thread() -> None:
+        lock = _get_loop_lock(loop)
+        if not lock.acquire(blocking=False):
+            return  # Another thread is about to run the loop
+        _BORROWED_LOOPS.add(id(loop))
+        try:
+            if not (future.done() or loop.is_running()
+                    or _CLAIMED_LOOPS[id(loop)]):
+                aio.set_event_loop(loop)
+                loop.run_until_complete(aio.wrap_future(future, loop=loop))
+        except BaseException:  # noqa
+            # The outcome of the awaitable is received by the waiter
+            logger.debug("Borrowed loop ended early", exc_info=True)
+        finally:
+            _BORROWED_LOOPS.discard(id(loop))
+            lock.release()
+
+    runner: 'Optional[aio.Future[None]]' = None
+    try:
+        # Whoever runs the loop may stop it before the awaitable is done
+        while not waiter.done():
+            if not loop.is_running() and (runner is None or runner.done()):
+                if loop.is_closed():
+                    raise RuntimeError("Target loop is closed!")
+                runner = main_loop.run_in_executor(_CROSS_LOOP_POOL,
+                                                   _loop_thread)
+            await aio.wait([waiter], timeout=0.05)
+    finally:
+        waiter.cancel()
+    return waiter.result()
 
 
 def loop_in_thread(loop: Loop) -> Callable[[], None]:
@@ -1336,18 +1361,42 @@ def loop_in_thread(loop: Loop) -> Callable[[], None]:
     >>> loop.is_running()  # No longer running
     False
     """
+    key = id(loop)
+    started, stopping = Event(), Event()
+
     def _loop_thread() -> None:
-        with _get_loop_lock(loop):
-            aio.set_event_loop(loop)
-            loop.run_forever()
+        try:
+            with _get_loop_lock(loop):
+                aio.set_event_loop(loop)
+                loop.call_soon(started.set)
+                if not stopping.is_set():
+                    loop.run_forever()
+        finally:
+            with _LOOP_LOCKS_CREATE_LOCK:
+                _CLAIMED_LOOPS[key] -= 1
+                if not _CLAIMED_LOOPS[key]:
+                    del _CLAIMED_LOOPS[key]
+
+    def _return_borrowed_loop() -> None:
+        if key in _BORROWED_LOOPS:
+            loop.stop()
 
+    with _LOOP_LOCKS_CREATE_LOCK:
+        _CLAIMED_LOOPS[key] += 1
     future = _CROSS_LOOP_POOL.submit(_loop_thread)
+    loop.call_soon_threadsafe(_return_borrowed_loop)
 
-    while not loop.is_running():
+    while not (started.is_set() or future.done()
+               or key not in _BORROWED_LOOPS and loop.is_running()):
         sleep(0)  # Force switching to other threads
 
+    if future.done():
+        future.result()  # Reveal why the loop couldn't be started
+
     def _stopper() -> None:
-        loop.call_soon_threadsafe(loop.stop)
+        stopping.set()
+        if not future.done():
+            loop.call_soon_threadsafe(loop.stop)
         future.result()  # Wait for loop to exit and reveal errors
 
     return _stopper
@@ -1356,6 +1405,11 @@ def loop_in_thread(loop: Loop) -> Callable[[], None]:
 _LOOP_LOCKS: Dict[int, Lock] = {}
 _LOOP_LOCKS_CREATE_LOCK = Lock()
 
+# IDs of the loops which are run by ensure_aw() until it is done and the
+# number of times loop_in_thread() wants to run a loop instead
+_BORROWED_LOOPS: Set[int] = set()
+_CLAIMED_LOOPS: 'Counter[int]' = Counter()
+
 
 def _get_loop_lock(loop: aio.AbstractEventLoop) -> Lock:
     key = id(loop)
-- 
2.43.0


From 462e8107fc5fc118b5debe52cf094e364a98517d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:39 +0000
Subject: [PATCH 14/20] fix: async_background_batcher(...) passes on
 retention_timeout

---
 aiuti/asyncio.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/aiuti/asyncio.py b/aiuti/asyncio.py
index e9e2d13..0f3f245 100644
--- a/aiuti/asyncio.py
+++ b/aiuti/asyncio.py
@@ -835,6 +835,7 @@ def async_background_batcher(
     max_batch_size: int = ...,
     max_concurrent_batches: int = ...,
     batch_timeout: float = ...,
+    retention_timeout: float = ...,
 ) -> Callable[
     [_BatchFunc[A_contra, R_co]],
     _AsyncBackgroundBatcherProto[A_contra, R_co],
@@ -848,6 +849,7 @@ def async_background_batcher(
     max_batch_size: int = ...,
     max_concurrent_batches: int = ...,
     batch_timeout: float = ...,
+    retention_timeout: float = ...,
 ) -> _AsyncBackgroundBatcherProto[A_contra, R_co]: ...
 
 
@@ -929,6 +931,7 @@ def async_background_batcher(
             max_batch_size=max_batch_size,
             max_concurrent_batches=max_concurrent_batches,
             batch_timeout=batch_timeout,
+            retention_timeout=retention_timeout,
         )
 
     batchers: 'WeakKeyDict[Loop, AsyncBackgroundBatcher[A_contra, R_co]]' \
-- 
2.43.0


From 20f36da0f12fc4e08b16aa17b3776953532a9b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:03 +0000
Subject: [PATCH 15/20] fix: iterator bridges raise the very exception of the
 source

TimeoutError was replaced by a copy, CancelledError and InvalidStateError of
concurrent.futures by the classes of asyncio, and to_sync_iter ignored
exceptions which are not true.
---
 aiuti/asyncio.py | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/aiuti/asyncio.py b/aiuti/asyncio.py
index 0f3f245..95482ec 100644
--- a/aiuti/asyncio.py
+++ b/aiuti/asyncio.py
@@ -37,7 +37,7 @@ from itertools import islice
 from threading import Event, Lock
 from collections import Counter
 from functools import partial, wraps
-from concurrent.futures import ThreadPoolExecutor
+from concurrent.futures import Future, ThreadPoolExecutor
 from weakref import WeakKeyDictionary as WeakKeyDict, finalize
 from time import sleep
 from typing import (
@@ -204,10 +204,10 @@ async def to_async_iter(iterable: Iterable[T]) -> AYields[T]:
         # ^ Type stubs don't understand partial will pass args later
     )
     with ThreadPoolExecutor(1) as pool:
-        future = loop.run_in_executor(pool, _queue_elements)
+        future = pool.submit(_queue_elements)
         while (i := await q.get()) is not _DONE:
             yield i  # type: ignore
-        await future  # Bubble any errors
+        _raise_exc_of(future)  # Bubble any errors
 
 
 def to_sync_iter(iterable: AsyncIterable[T],
@@ -270,7 +270,23 @@ def to_sync_iter(iterable: AsyncIterable[T],
             while (i := q.get()) is not _DONE:
                 yield i
         finally:
-            future.result()
+            _raise_exc_of(future)
+
+
+def _raise_exc_of(future: 'Future[Any]') -> None:
+    """
+    Wait for the given future and raise its exception, if there is any.
+
+    Neither the conversions of asyncio (which replaces a ``TimeoutError``
+    and turns the ``CancelledError`` of :mod:`concurrent.futures` into
+    its own) nor the truth value of the exception matter.
+    """
+    exc = future.exception()
+    if exc is not None:
+        try:
+            raise exc
+        finally:
+            del exc, future  # Break the reference cycle
 
 
 _CacheMap = MutableMapping[Tuple[Any, ...], Any]
-- 
2.43.0


From 06d4e15364b42569eaaad5264c1fde86be52404f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:03 +0000
Subject: [PATCH 16/20] fix: giving up on to_async_iter does not block the
 event loop

---
 aiuti/asyncio.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/aiuti/asyncio.py b/aiuti/asyncio.py
index 95482ec..726afa5 100644
--- a/aiuti/asyncio.py
+++ b/aiuti/asyncio.py
@@ -192,6 +192,8 @@ async def to_async_iter(iterable: Iterable[T]) -> AYields[T]:
     def _queue_elements() -> None:
         try:
             for x in iterable:
+                if abandoned:
+                    break
                 put(x)
         finally:
             put(_DONE)
@@ -203,11 +205,20 @@ async def to_async_iter(iterable: Iterable[T]) -> AYields[T]:
         q.put_nowait,  # type: ignore[arg-type]
         # ^ Type stubs don't understand partial will pass args later
     )
-    with ThreadPoolExecutor(1) as pool:
-        future = pool.submit(_queue_elements)
+    abandoned = False
+    pool = ThreadPoolExecutor(1)
+    future = pool.submit(_queue_elements)
+    try:
         while (i := await q.get()) is not _DONE:
             yield i  # type: ignore
-        _raise_exc_of(future)  # Bubble any errors
+    except BaseException:
+        # Cancelled or closed early: the iterator may be blocked, so
+        # waiting for the thread would block the event loop
+        abandoned = True
+        pool.shutdown(wait=False)
+        raise
+    pool.shutdown()
+    _raise_exc_of(future)  # Bubble any errors
 
 
 def to_sync_iter(iterable: AsyncIterable[T],
-- 
2.43.0


From 251663bea7084263238745a019c77b76e0b5837d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:22 +0000
Subject: [PATCH 17/20] fix: ensure_aw and run_aw_threadsafe raise the very
 exception of the awaitable

TimeoutError was replaced by a copy, CancelledError and InvalidStateError of
concurrent.futures by the classes of asyncio.
---
 aiuti/asyncio.py | 37 ++++++++++++++++++++++++++++++-------
 1 file changed, 30 insertions(+), 7 deletions(-)

diff --git a/aiuti/asyncio.py b/aiuti/asyncio.py
index 726afa5..93e8415 100644
--- a/aiuti/asyncio.py
+++ b/aiuti/asyncio.py
@@ -1325,7 +1325,7 @@ async def ensure_aw(aw: Awaitable[T], loop: Loop) -> T:
     if loop.is_closed():
         raise RuntimeError("Target loop is closed!")
 
-    future = run_coro_ts(aw if aio.iscoroutine(aw) else _aw_to_coro(aw), loop)
+    future = run_coro_ts(_aw_to_outcome(aw), loop)
     waiter = aio.wrap_future(future)
 
     def _loop_thread() -> None:
@@ -1357,7 +1357,7 @@ async def ensure_aw(aw: Awaitable[T], loop: Loop) -> T:
             await aio.wait([waiter], timeout=0.05)
     finally:
         waiter.cancel()
-    return waiter.result()
+    return _get_outcome(waiter.result())
 
 
 def loop_in_thread(loop: Loop) -> Callable[[], None]:
@@ -1467,13 +1467,36 @@ async def run_aw_threadsafe(aw: Awaitable[T], loop: Loop) -> T:
         This does not handle event loop conflicts.
         Use :func:`ensure_aw` for that.
     """
-    coro = aw if aio.iscoroutine(aw) else _aw_to_coro(aw)
-    return await aio.wrap_future(run_coro_ts(coro, loop))
+    future = run_coro_ts(_aw_to_outcome(aw), loop)
+    return _get_outcome(await aio.wrap_future(future))
 
 
-async def _aw_to_coro(aw: Awaitable[T]) -> T:
-    """Wrap a given awaitable so it appears as a coroutine."""
-    return await aw
+async def _aw_to_outcome(
+    aw: Awaitable[T],
+) -> 'Tuple[Optional[T], Optional[Exception]]':
+    """
+    Wrap a given awaitable so it appears as a coroutine which returns
+    the result and the exception of the awaitable.
+
+    Asyncio would replace some exceptions (``TimeoutError``,
+    ``CancelledError`` of :mod:`concurrent.futures`) on their way from
+    one loop to another.
+    """
+    try:
+        return await aw, None
+    except Exception as e:
+        return None, e
+
+
+def _get_outcome(outcome: 'Tuple[Optional[T], Optional[Exception]]') -> T:
+    """Return the result or raise the exception of the given outcome."""
+    result, exc = outcome
+    if exc is not None:
+        try:
+            raise exc
+        finally:
+            del exc, outcome  # Break the reference cycle
+    return cast(T, result)
 
 
 async def _obj_to_aiter(o: T) -> AsyncIterable[T]:
-- 
2.43.0


From b07dce231b17dc15bbc23f240666c1a73abd95bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:33 +0000
Subject: [PATCH 18/20] fix: answer batcher callers when a batch raises or
 yields StopIteration

Futures reject StopIteration with a TypeError, which left all callers of
a batch unanswered when the batch function raised it and disturbed the
other callers of the batch when it was yielded for one of them.
---
 aiuti/asyncio.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/aiuti/asyncio.py b/aiuti/asyncio.py
index 93e8415..fe1ec7e 100644
--- a/aiuti/asyncio.py
+++ b/aiuti/asyncio.py
@@ -1252,6 +1252,8 @@ class AsyncBackgroundBatcher(Generic[A_contra, R_co]):
                 )
                 async for key, result in self.func(args):
                     fut = futs[key]
+                    if isinstance(result, StopIteration):
+                        result = _wrap_stop_iteration(result)
                     if isinstance(result, Exception):
                         fut.set_exception(result)
                     else:
@@ -1259,8 +1261,10 @@ class AsyncBackgroundBatcher(Generic[A_contra, R_co]):
                     del futs[key]  # Only once answered
         except BaseException as e:  # Never leave a caller unanswered
             logger.debug("Exception while processing batch", exc_info=True)
+            exc = (_wrap_stop_iteration(e) if isinstance(e, StopIteration)
+                   else e)
             for fut in futs.values():
-                fut.set_exception(e)
+                fut.set_exception(exc)
             if not isinstance(e, Exception):
                 raise
             return
@@ -1271,6 +1275,16 @@ class AsyncBackgroundBatcher(Generic[A_contra, R_co]):
                 fut.set_exception(ValueError(f"Missing result for {key!r}"))
 
 
+def _wrap_stop_iteration(e: StopIteration) -> RuntimeError:
+    """
+    Futures reject :class:`StopIteration` because it can't be raised by
+    a coroutine, so turn it into the error Python would raise instead.
+    """
+    exc = RuntimeError("batch function raised StopIteration")
+    exc.__cause__ = e
+    return exc
+
+
 _CROSS_LOOP_POOL = ThreadPoolExecutor(32)
 
 
-- 
2.43.0


From ea3e5b9702a9da1cc1194d1f3dfe6c554543eb74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:27 +0000
Subject: [PATCH 19/20] fix: run awaitables in gather_excs() which are equal or
 unhashable

Awaitables which compare equal were taken for the same one, so all but
the first were never run, and unhashable ones raised a TypeError.
---
 aiuti/asyncio.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/aiuti/asyncio.py b/aiuti/asyncio.py
index fe1ec7e..c763674 100644
--- a/aiuti/asyncio.py
+++ b/aiuti/asyncio.py
@@ -101,9 +101,10 @@ async def gather_excs(
     aws = list(aws)
     # Inspect the futures directly instead of the results of gather() to
     # avoid confusing an exception which was returned for a raised one
-    futs = {aw: aio.ensure_future(aw) for aw in dict.fromkeys(aws)}
+    unique = {id(aw): aw for aw in aws}  # They may be equal or unhashable
+    futs = {key: aio.ensure_future(aw) for key, aw in unique.items()}
     await aio.gather(*futs.values(), return_exceptions=True)
-    for fut in map(futs.__getitem__, aws):
+    for fut in map(futs.__getitem__, map(id, aws)):
         res = aio.CancelledError() if fut.cancelled() else fut.exception()
         if isinstance(res, only):
             yield res
-- 
2.43.0


From fa729d753191c9056dee5f549d7efc1428edde98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:43 +0000
Subject: [PATCH 20/20] fix: let a second stop of loop_in_thread() not stop the
 next run of the loop

---
 aiuti/asyncio.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/aiuti/asyncio.py b/aiuti/asyncio.py
index c763674..f093960 100644
--- a/aiuti/asyncio.py
+++ b/aiuti/asyncio.py
@@ -1407,15 +1407,18 @@ def loop_in_thread(loop: Loop) -> Callable[[], None]:
     False
     """
     key = id(loop)
-    started, stopping = Event(), Event()
+    started, stopping, stopped = Event(), Event(), Event()
 
     def _loop_thread() -> None:
         try:
             with _get_loop_lock(loop):
                 aio.set_event_loop(loop)
                 loop.call_soon(started.set)
-                if not stopping.is_set():
-                    loop.run_forever()
+                try:
+                    if not stopping.is_set():
+                        loop.run_forever()
+                finally:
+                    stopped.set()
         finally:
             with _LOOP_LOCKS_CREATE_LOCK:
                 _CLAIMED_LOOPS[key] -= 1
@@ -1438,10 +1441,14 @@ def loop_in_thread(loop: Loop) -> Callable[[], None]:
     if future.done():
         future.result()  # Reveal why the loop couldn't be started
 
+    def _stop_loop() -> None:
+        if not stopped.is_set():  # Never stop whoever runs it next
+            loop.stop()
+
     def _stopper() -> None:
         stopping.set()
         if not future.done():
-            loop.call_soon_threadsafe(loop.stop)
+            loop.call_soon_threadsafe(_stop_loop)
         future.result()  # Wait for loop to exit and reveal errors
 
     return _stopper
-- 
2.43.0

