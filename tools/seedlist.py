seed('C01-late-store', 'C01', A, [(
'''                except Exception:
                    raise  # Bubble any errors without caching
                else:
                    _cache[key] = result  # Cache for other tasks
                finally:''',
'''                except Exception:
                    raise  # Bubble any errors without caching
                finally:'''), (
'''                            del events[key]
                return result
''',
'''                            del events[key]
                _cache[key] = result  # Cache for other tasks
                return result
''')],
 'another thread asks for the key between the removal of the marker and the store',
 'the wrapped function is invoked a second time after it has returned successfully')

seed('C01-no-recheck', 'C01', A, [(
'''                try:  # verify nothing cached while waiting for lock
                    return _cache[key]
                except KeyError:
                    pass

                try:
                    # Try''',
'''                try:
                    # Try''')],
 'a thread misses the cache, then another one finishes the computation before the first takes the lock',
 'the wrapped function is invoked again although the value is cached')

seed('C02-unlink', 'C02', F, [(
'''            self._unlock(fd)
        finally:
            os.close(fd)
''',
'''            os.unlink(self._lock_file)  # Don't leave the file behind
        except OSError:
            pass
        finally:
            os.close(fd)  # Also unlocks it
''')],
 'one contender is blocked on the lock file while the holder releases it, then a third one comes',
 'the waiter locks the deleted file while the third contender locks a new one: two holders')

seed('C02-stale-fd', 'C02', F, [(
'''        lid = id(self)
        fn = self._lock_file

        if not self._thread_lock.acquire(blocking, timeout):
            _logger.debug''',
'''        lid = id(self)
        fn = self._lock_file

        if self._reentrant and self.is_locked and not blocking:
            # Already held, no need to wait for anything
            blocking = self._thread_lock.acquire(False)
            self._lock_counter += 1
            return True

        if not self._thread_lock.acquire(blocking, timeout):
            _logger.debug''')],
 'a non-blocking acquire of a reentrant lock by another thread while the lock is held',
 'two threads hold the lock')

seed('C03-cancelled-func', 'C03', A, [(
'''        except BaseException as e:  # noqa
            logging.exception(''',
'''        except Exception:
            logging.exception(''')],
 'a call of the function which fails with a CancelledError, e.g. because a task it awaits is cancelled',
 'the background task ends, the arguments of the call and all later ones are lost')

seed('C03-direct-put', 'C03', A, [(
'''        self.loop.call_soon_threadsafe(self.q.put_nowait, iterable)
''',
'''        if self.loop.is_running() and self.q.empty():
            self.q.put_nowait(iterable)  # Available immediately
        else:
            self.loop.call_soon_threadsafe(self.q.put_nowait, iterable)
''')],
 'a foreign thread submits while the loop is asleep',
 'the loop is not woken up, the argument is not delivered until something else wakes it')

seed('C04-raise-result', 'C04', A, [(
'''                        fut.set_exception(result)
                    else:
                        fut.set_result(result)
''',
'''                        raise result
                    fut.set_result(result)
''')],
 'an exception yielded for one key while others of its batch are still unanswered',
 'callers of other keys receive an exception which was yielded for a different key')

seed('C04-missing', 'C04', A, [(
'''            for key, fut in futs.items():
                fut.set_exception(ValueError(f"Missing result for {key!r}"))
''',
'''            key, fut = futs.popitem()
            fut.set_exception(ValueError(f"Missing result for {key!r}"))
''')],
 'a batch function which omits two or more keys of one batch',
 'all but one of the callers of omitted keys hang')

seed('C05-notify-success', 'C05', A, [(
'''                    _cache[key] = result  # Cache for other tasks
                finally:
                    with event_making_lock:
                        # Wake up any waiting tasks
                        event.set()
''',
'''                    _cache[key] = result  # Cache for other tasks
                    event.set()  # Wake up any waiting tasks
                finally:
                    with event_making_lock:
''')],
 'a computation which fails or is cancelled while others are waiting for it',
 'the waiting callers only recover after the safety timeout of 60 seconds')

seed('C05-stopped-loop', 'C05', A, [(
'''                    if (caching_loop.is_closed()
                            or not caching_loop.is_running()):
                        raise KeyError  # Invalidate loop
''',
'''                    if caching_loop.is_closed():
                        raise KeyError  # Invalidate loop
''')],
 'the computing loop is stopped, but not closed, in the middle of a computation',
 'callers on other loops wait forever')

seed('C06-shared-failure', 'C06', A, [(
'''                except Exception:
                    raise  # Bubble any errors without caching
''',
'''                except Exception as exc:
                    event.exc = exc  # type: ignore  # Tell the others
                    raise  # Bubble any errors without caching
'''), (
'''            if not waiter.cancelled():
                waiter.exception()  # Mark any timeout as retrieved
''',
'''            if not waiter.cancelled():
                waiter.exception()  # Mark any timeout as retrieved
            if getattr(event, 'exc', None) is not None:
                raise event.exc  # type: ignore
''')],
 'a failing computation with a caller waiting for it',
 'the waiting caller receives the failure of an invocation it did not perform')

seed('C06-cancel-caches', 'C06', A, [(
'''                except Exception:
                    raise  # Bubble any errors without caching
                else:
                    _cache[key] = result  # Cache for other tasks
                finally:
                    with event_making_lock:
                        # Wake up any waiting tasks
                        event.set()
''',
'''                except Exception:
                    raise  # Bubble any errors without caching
                else:
                    _cache[key] = result  # Cache for other tasks
                finally:
                    with event_making_lock:
                        # Wake up any waiting tasks
                        event.set()
                        if caching_loop.is_running():
                            # Nobody has to wait any longer
                            for t in aio.all_tasks(caching_loop):
                                if getattr(t, '_waits_for', None) is event:
                                    t.cancel()
'''), (
'''            waiter = aio.create_task(aio.wait_for(wait_event, 60))
''',
'''            waiter = aio.create_task(aio.wait_for(wait_event, 60))
            if running_loop is caching_loop and kwargs:
                aio.current_task()._waits_for = event  # type: ignore
''')],
 'a caller on the computing loop, with keyword arguments, waiting while the computation ends',
 'the end of a computation cancels callers which were waiting for it')

seed('C07-clear-late', 'C07', A, [(
'''        self.event.clear()
        self.loop.call_soon_threadsafe(self.q.put_nowait, iterable)
''',
'''        self.loop.call_soon_threadsafe(self.q.put_nowait, iterable)
        self.event.clear()
''')],
 'a foreign thread is suspended between the two statements until the argument has been processed',
 'the event stays cleared although everything was processed: wait() never returns')

seed('C07-cancelled-producer', 'C07', A, [(
'''            except BaseException:  # noqa
                logger.exception("Failed to get args from: %r", iterable)
''',
'''            except Exception:
                logger.exception("Failed to get args from: %r", iterable)
''')],
 'an awaitable argument which gets cancelled',
 'the cancellation ends the background task, wait() never returns')

seed('C08-empty', 'C08', A, [(
'''            if inputs:  # Could be empty if all empty iterators
''',
'''            if inputs is not None:
''')],
 'only empty iterables are submitted',
 'the function is called with an empty set')

seed('C08-cap', 'C08', A, [(
'''        return self.loop.create_task(aio.wait_for(coro, self.timeout))
''',
'''        timeout = self.timeout
        if self.q.qsize() > 8:  # Don't let the queue grow any further
            timeout = 0
        return self.loop.create_task(aio.wait_for(coro, timeout))
'''), (
'''            input_gens.extend(map(_load_inputs, self._empty_queue()))
            # Schedule the q.get() and save it as an attribute so it
            # can be cancelled as necessary. This needs to be scheduled
            # *before* waiting for the known inputs.
            self._getting = self._schedule_with_timeout(self.q.get())
''',
'''            # Schedule the q.get() and save it as an attribute so it
            # can be cancelled as necessary. This needs to be scheduled
            # *before* waiting for the known inputs.
            self._getting = self._schedule_with_timeout(self.q.get())
            input_gens.extend(map(_load_inputs, self._empty_queue()))
''')],
 'a burst of more than eight submissions at one instant',
 'the function is called before the quiet period is over')

seed('C09-cancel-shared', 'C09', A, [(
'''        fut = self._retention_cache[key] = self._loop.create_future()
''',
'''        fut = self._loop.create_future()
        self._retention_cache[key] = fut
        task = aio.current_task()
        if task is not None:  # Don't compute what nobody waits for
            task.add_done_callback(
                lambda t: t.cancelled() and not fut.done() and fut.cancel())
''')],
 'the first caller of a key is cancelled while another one shares its future',
 'the other caller is cancelled, and the rest of the batch fails')

seed('C09-skip-first', 'C09', A, [(
'''        args = [t[:2] for t in tasks]
        futs = {k: f for k, _, f in tasks}
''',
'''        # Don't bother with tasks which nobody is waiting for any more
        alive = [t for t in tasks if not self._abandoned(t[2])]
        args = [t[:2] for t in alive]
        futs = {k: f for k, _, f in tasks}
'''), (
'''    async def _processing_loop(self) -> None:
        while True:
''',
'''    @staticmethod
    def _abandoned(fut: 'aio.Future[R_co]') -> bool:
        # The callback which forgets the future and the one of the caller
        return len(getattr(fut, '_callbacks', None) or ()) < 2

    async def _processing_loop(self) -> None:
        while True:
''')],
 'every caller of a key is cancelled while queued, and another one joins while the batch waits for its slot',
 'the late caller gets an error instead of the outcome')

seed('C10-stale-size', 'C10', A, [(
'''        q = self._queue
        # Wait for''',
'''        q, size = self._queue, self.max_batch_size
        # Wait for'''), (
'''        while len(tasks) < self.max_batch_size:
''',
'''        while len(tasks) < size:
'''), (
'''                    self.max_batch_size - len(tasks),
''',
'''                    size - len(tasks),
''')],
 'max_batch_size is decreased while the batcher is idle or assembles a batch',
 'the next batch contains more than max_batch_size items')

seed('C10-early-release', 'C10', A, [(
'''                async for key, result in self.func(args):
''',
'''                results = self.func(args)
            if results is not None:
                async for key, result in results:
''')],
 'more batches than max_concurrent_batches at once',
 'the number of concurrent executions is not limited')

seed('C11-empty-key', 'C11', A, [(
'''        if key is None:
            key = str(arg)
''',
'''        if not key:
            key = str(arg)
''')],
 'an explicit key which is the empty string',
 'requests with the same key do not share one computation')

seed('C11-by-value', 'C11', A, [(
'''        try:
            fut = self._retention_cache[key]
        except KeyError:
            pass
        else:
''',
'''        try:
            fut = self._retention_cache[key]
            if fut.done() and fut.exception() is not None:
                raise KeyError(key)  # Try again
        except KeyError:
            pass
        else:
''')],
 'a request whose outcome is an exception repeated within the retention window',
 'the repeated call within the window adds work instead of receiving the same outcome')

seed('C12-unlock-error', 'C12', F, [(
'''                _logger.exception("Failed to release lock %s on %s", lid, fn)
            else:
''',
'''                _logger.exception("Failed to release lock %s on %s", lid, fn)
                raise
            else:
''')],
 'unlocking the file fails with an OSError',
 'the internal lock is kept: nobody can acquire the object again')

seed('C12-counter', 'C12', F, [(
'''                    _logger.debug('Failed to acquire lock %s on %s', lid, fn)
                    _cleanup_thread_lock()
''',
'''                    _logger.debug('Failed to acquire lock %s on %s', lid, fn)
                    self._thread_lock.release()
''')],
 'a failed non-blocking acquire of a reentrant lock followed by a successful one and its release',
 'the release does not release the file')

seed('C13-exclusive', 'C13', F, [(
'''    _FD_OPEN_MODE: ClassVar[int] = os.O_RDWR | os.O_CREAT | os.O_TRUNC
''',
'''    _FD_OPEN_MODE: ClassVar[int] = os.O_RDWR | os.O_CREAT | os.O_EXCL
'''), (
'''        try:
            self._unlock(fd)
        finally:
            os.close(fd)
''',
'''        try:
            os.unlink(self._lock_file)
        finally:
            os.close(fd)
''')],
 'the holder is killed',
 'its lock file stays behind and nobody can acquire the lock any more')

seed('C13-inherit', 'C13', F, [(
'''            fd = os.open(self._lock_file, self._FD_OPEN_MODE)
        except OSError:
            return
''',
'''            fd = os.open(self._lock_file, self._FD_OPEN_MODE)
            os.set_inheritable(fd, True)
        except OSError:
            return
''')],
 'the holder is killed after it has started another program which outlives it',
 'the other program keeps the lock file locked')

seed('C14-flat', 'C14', A, [(
'''        key = args, frozenset(kwargs.items())
''',
'''        key = args + tuple(sorted(kwargs.items()))
''')],
 'a positional argument which looks like a keyword argument and its value',
 'calls with different arguments share an entry')

seed('C14-order', 'C14', A, [(
'''        key = args, frozenset(kwargs.items())
''',
'''        key = args, tuple(kwargs.items())
''')],
 'the same keyword arguments given in another order',
 'calls with the same arguments do not share an entry')

seed('C15-current', 'C15', A, [(
'''    batchers: 'WeakKeyDict[Loop, AsyncBackgroundBatcher[A_contra, R_co]]' \\
        = WeakKeyDict()
''',
'''    current: 'Optional[AsyncBackgroundBatcher[A_contra, R_co]]' = None
'''), (
'''        loop = aio.get_running_loop()
        try:
            batcher = batchers[loop]
        except KeyError:
            batcher = batchers[loop] = AsyncBackgroundBatcher(
''',
'''        nonlocal current
        batcher = current
        if batcher is None or not batcher._loop.is_running():
            batcher = current = AsyncBackgroundBatcher(
''')],
 'a second event loop while the first one is still running',
 'the second loop uses the batcher of the first one')

seed('C15-timeout', 'C15', A, [(
'''            max_batch_size=max_batch_size,
            max_concurrent_batches=max_concurrent_batches,
            batch_timeout=batch_timeout,
            retention_timeout=retention_timeout,
        )

    batchers''',
'''            max_batch_size=max_batch_size,
            max_concurrent_batches=max_batch_size,
            batch_timeout=batch_timeout,
            retention_timeout=retention_timeout,
        )

    batchers''')],
 'max_concurrent_batches given as an option and more batches than it at once',
 'the option does not take effect in the form with options')

seed('C16-none', 'C16', A, [(
'''            for x in iterable:
                if abandoned:
                    break
                put(x)
        finally:
            put(_DONE)
''',
'''            for x in iterable:
                if abandoned:
                    break
                put(x)
        finally:
            put(None)
'''), (
'''        while (i := await q.get()) is not _DONE:
            yield i  # type: ignore
''',
'''        while (i := await q.get()) is not None:
            yield i  # type: ignore
''')],
 'an iterator with an element which is None',
 'iteration ends at the first None')

seed('C16-inline', 'C16', A, [(
'''    if not isinstance(iterable, Iterator):
''',
'''    if not (isinstance(iterable, Iterator) and hasattr(iterable, 'send')):
''')],
 'a blocking iterator which is not a generator',
 'the event loop is blocked while the iterator is')

seed('C17-pool', 'C17', A, [(
'''_CROSS_LOOP_POOL = ThreadPoolExecutor(32)
''',
'''_CROSS_LOOP_POOL = ThreadPoolExecutor(1)
''')],
 'a loop run by loop_in_thread while another, idle loop is needed',
 'ensure_aw on the idle loop does not complete until the other loop is stopped')

seed('C17-stop', 'C17', A, [(
'''        future.result()  # Wait for loop to exit and reveal errors
''',
'''        try:
            future.result(timeout=1)  # Wait for loop to exit
        except TimeoutError:
            pass  # Busy, it stops as soon as it can
''')],
 'a callback is running for more than a second when the stop function is called',
 'the stop function returns while the loop is still running')

seed('C18-twice', 'C18', I, [(
'''    if callable(condition):
        iterable, ci = tee(iterable)
        condition = map(condition, ci)
    i1, i2 = tee(iterable)
''',
'''    i1, i2 = tee(iterable)
    if callable(condition):
        return filter(condition, i1), filterfalse(condition, i2)
'''), (
'''from itertools import tee, compress
''',
'''from itertools import tee, compress, filterfalse
''')],
 'a stateful condition',
 'the condition is evaluated twice per element, so elements can be lost or duplicated')

seed('C18-truthy', 'C18', I, [(
'''    return compress(i1, c1), compress(i2, map(op.not_, c2))
''',
'''    return compress(i1, c1), compress(i2, map(op.eq, c2, repeat(False)))
'''), (
'''from itertools import tee, compress
''',
'''from itertools import tee, compress, repeat
''')],
 'a condition which gives a falsy value which does not equal False, like None or an empty string',
 'the element is in neither of the two iterators')

seed('C19-rsplit', 'C19', P, [(
'''                k, v = pair.split(sep, 1)
''',
'''                k, v = pair.rsplit(sep, 1)
''')],
 'a value which contains the separator',
 'the string is split at the last occurrence of the separator')

seed('C19-bytes', 'C19', P, [(
'''        if isinstance(x, str):
            try:
                return parse(x)
''',
'''        if isinstance(x, (str, bytes)):
            try:
                return parse(x)
''')],
 'a value of type bytes which contains a literal',
 'a non-string value is parsed')

seed('C20-first', 'C20', A, [(
'''    async for exc in gather_excs(aws, only):
        raise exc
''',
'''    first = None
    for fut in aio.as_completed(list(aws)):
        try:
            await fut
        except BaseException as exc:  # noqa
            if first is None and isinstance(exc, only):
                first = exc
    if first is not None:
        raise first
''')],
 'a later awaitable fails before an earlier one does',
 'the exception which was raised first in time is raised')

seed('C20-default', 'C20', A, [(
'''    only: Type[E] = BaseException,  # type: ignore # MyPy bug
''',
'''    only: Type[E] = Exception,  # type: ignore # MyPy bug
''')],
 'an awaitable which raises an exception that is only a BaseException, no filter given',
 'the exception is not reported')

seed('C01-none', 'C01', A, [(
'''            try:  # to get the value from the cache
                return _cache[key]
            except KeyError:
                pass

            # Need''',
'''            try:  # to get the value from the cache
                return _cache[key]
            except KeyError:
                pass
            result = None

            # Need'''), (
'''                else:
                    _cache[key] = result  # Cache for other tasks
''',
'''                else:
                    if result is not None:
                        _cache[key] = result  # Cache for other tasks
''')],
 'a wrapped function which returns None',
 'None is not cached and the function is invoked again')

seed('C02-spare', 'C02', F, [(
'''        try:
            fd = os.open(self._lock_file, self._FD_OPEN_MODE)
        except OSError:
            return
''',
'''        fd = self.__dict__.pop('_spare', None)
        try:
            if fd is None:
                fd = os.open(self._lock_file, self._FD_OPEN_MODE)
        except OSError:
            return
'''), (
'''            self._unlock(fd)
        finally:
            os.close(fd)
''',
'''            self._unlock(fd)
        except BaseException:
            os.close(fd)
            raise
        self._spare = fd  # Avoid opening the file again next time
''')],
 'the process forks after the lock was used, then both processes acquire it',
 'the file description is shared: both processes hold the lock')

seed('C03-getlost', 'C03', A, [(
'''            await aio.wait([self._getting])
            try:
                next_iterable = self._getting.result()
''',
'''            await aio.wait([self._getting])
            try:
                if self._getting.cancelled() or self._flush:
                    self._flush = False
                    raise aio.CancelledError
                next_iterable = self._getting.result()
'''), (
'''            await aio.sleep(0)
            self._getting.cancel()
''',
'''            await aio.sleep(0)
            self._flush = not self._getting.cancel()
'''), (
'''        self._getting: Optional['aio.Task[AsyncIterable[T]]'] = None
''',
'''        self._getting: Optional['aio.Task[AsyncIterable[T]]'] = None
        self._flush = False
''')],
 'an argument arrives while wait() yields before it cancels the pending get',
 'the argument which was just taken off the queue is lost')

seed('C08-deadline', 'C08', A, [(
'''        inputs: Set[T] = set()

        async def''',
'''        inputs: Set[T] = set([])
        gets = 0

        async def'''), (
'''                await aio.gather(_load_inputs(next_iterable))
                self.q.task_done()
''',
'''                await aio.gather(_load_inputs(next_iterable))
                self.q.task_done()
                gets += 1
                if gets >= 12:  # Don't postpone it forever
                    gets = 0
                    done, = await aio.gather(self._run_func(inputs))
''')],
 'a long sequence of submissions less than the timeout apart',
 'the function is called while submissions keep arriving')

seed('C10-total', 'C10', A, [(
'''        while len(tasks) < self.max_batch_size:
            # Grab''',
'''        end = self._loop.time() + 4 * self.batch_timeout
        while len(tasks) < self.max_batch_size and (
                len(tasks) < 4 or self._loop.time() < end):
            # Grab''')],
 'a sequence of calls less than batch_timeout apart which lasts longer than four timeouts',
 'calls which arrive less than batch_timeout apart do not share a batch')

seed('C15-shared', 'C15', A, [(
'''            threadsafe_async_cache,
            cache=cache,
''',
'''            threadsafe_async_cache,
            cache=cache if cache is not None else {},
''')],
 'one configured decorator used for two functions',
 'both functions share one cache')

seed('C19-regex', 'C19', P, [(
'''                k, v = pair.split(sep, 1)
''',
'''                k, v = re.split(sep, pair, 1)
'''), (
'''import ast
''', '''import re
import ast
''')],
 'a separator with a special meaning in regular expressions',
 'the string is split elsewhere')

seed('C05-stale-marker', 'C05', A, [(
'''                try:  # verify nothing cached while waiting for lock
                    return _cache[key]
                except KeyError:
                    pass

                try:
                    # Try''',
'''                try:
                    # Try'''), (
'''                    do_caching = False  # Need to wait for other loop
''',
'''                    do_caching = False  # Need to wait for other loop

                try:  # verify nothing cached while waiting for lock
                    return _cache[key]
                except KeyError:
                    pass
''')],
 'a thread misses the cache, another one finishes before it takes the lock; later the entry is evicted',
 'the marker which is left behind lets the next caller wait for the safety timeout')

seed('C18-callable', 'C18', I, [(
'''    if callable(condition):
''',
'''    if not hasattr(condition, '__iter__'):
''')],
 'a condition which is a callable object that can be iterated, too', 'it is not called')

seed('C19-strsub', 'C19', P, [(
'''        if isinstance(x, str):
            try:
                return parse(x)
''',
'''        if type(x) is str:
            try:
                return parse(x)
''')],
 'texts of a subclass of str', 'they are not parsed')

seed('C11-many', 'C11', A, [(
'''        if self.retention_timeout > 0:
''',
'''        if self.retention_timeout > 0 and len(self._retention_cache) < 128:
''')],
 'more than a hundred keys within one retention window', 'the latest ones are not retained')

seed('C04-future', 'C04', A, [(
'''                    if isinstance(result, Exception):
                        fut.set_exception(result)
''',
'''                    if aio.isfuture(result):
                        result = await result
                    if isinstance(result, Exception):
                        fut.set_exception(result)
''')],
 'a batch function which yields a future as the result of a key', 'the callers get something else')

seed('C03-retries', 'C03', A, [(
'''            logging.exception("Failed to run %s, retrying", self.func)
            return False
''',
'''            logging.exception("Failed to run %s, retrying", self.func)
            self._failed = getattr(self, '_failed', 0) + 1
            if self._failed < 50:
                return False
            self.event.set()
            return True
''')],
 'a function which fails fifty times', 'the arguments are dropped')
