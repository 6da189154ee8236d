seed('C01-outside', 'C01', A, [(
'''            with event_making_lock:
                try:  # verify nothing cached while waiting for lock
''',
'''            known = events.get(key)

            with event_making_lock:
                try:  # verify nothing cached while waiting for lock
'''), (
'''                    caching_loop, event = events[key]
''',
'''                    if known is None:
                        raise KeyError
                    caching_loop, event = known
''')],
 'two threads look for a running computation before either of them takes the lock',
 'both threads invoke the wrapped function at once')

seed('C01-slow', 'C01', A, [(
'''            if not waiter.cancelled():
                waiter.exception()  # Mark any timeout as retrieved
''',
'''            if not waiter.cancelled():
                if isinstance(waiter.exception(), AioTimeoutError):
                    with event_making_lock:  # The task has been lost
                        if events.get(key) == (caching_loop, event):
                            del events[key]
''')],
 'a computation which takes longer than the safety timeout of 60 seconds while another caller waits for it',
 'the waiting caller invokes the function a second time while the first invocation is running')

seed('C01-none', 'C01', A, [(
'''            try:  # to get the value from the cache
                return _cache[key]
            except KeyError:
                pass

            # Need''',
'''            try:  # to get the value from the cache
                return _cache[key]
            except KeyError:
                pass
            result = None

            # Need'''), (
'''                else:
                    _cache[key] = result  # Cache for other tasks
''',
'''                else:
                    if result is not None:
                        _cache[key] = result  # Cache for other tasks
''')],
 'a wrapped function which returns None',
 'None is not cached and the function is invoked again')

seed('C02-release-order', 'C02', F, [(
'''            _logger.debug('Attempting to release lock %s on %s', lid, fn)
            try:
                self._release()
''',
'''            _logger.debug('Attempting to release lock %s on %s', lid, fn)
            if not self._reentrant:
                # Let other threads of this process start to wait
                self._thread_lock.release()
                levels = 0
            try:
                self._release()
''')],
 'a thread acquires the object between the release of the internal lock and that of the file',
 'the thread believes to hold the lock while its file is being unlocked')

seed('C02-spare', 'C02', F, [(
'''        try:
            fd = os.open(self._lock_file, self._FD_OPEN_MODE)
        except OSError:
            return
''',
'''        fd = self.__dict__.pop('_spare', None)
        try:
            if fd is None:
                fd = os.open(self._lock_file, self._FD_OPEN_MODE)
        except OSError:
            return
'''), (
'''            self._unlock(fd)
        finally:
            os.close(fd)
''',
'''            self._unlock(fd)
        except BaseException:
            os.close(fd)
            raise
        self._spare = fd  # Avoid opening the file again next time
''')],
 'the process forks after the lock was used, then both processes acquire it',
 'the file description is shared: both processes hold the lock')

seed('C03-giveup', 'C03', A, [(
'''        inputs: Set[T] = set()

        async def''',
'''        inputs: Set[T] = set()
        failures = 0

        async def'''), (
'''                done, = await aio.gather(self._run_func(inputs))
''',
'''                done, = await aio.gather(self._run_func(inputs))
                failures += not done
                if failures >= 5:  # Hopeless
                    self.event.set()
                    done = True
''')],
 'five consecutive failures of the function',
 'the arguments are dropped')

seed('C03-getlost', 'C03', A, [(
'''            await aio.wait([self._getting])
            try:
                next_iterable = self._getting.result()
''',
'''            await aio.wait([self._getting])
            try:
                if self._getting.cancelled() or self._flush:
                    self._flush = False
                    raise aio.CancelledError
                next_iterable = self._getting.result()
'''), (
'''            await aio.sleep(0)
            self._getting.cancel()
''',
'''            await aio.sleep(0)
            self._flush = not self._getting.cancel()
'''), (
'''        self._getting: Optional['aio.Task[AsyncIterable[T]]'] = None
''',
'''        self._getting: Optional['aio.Task[AsyncIterable[T]]'] = None
        self._flush = False
''')],
 'an argument arrives while wait() yields before it cancels the pending get',
 'the argument which was just taken off the queue is lost')

seed('C04-base', 'C04', A, [(
'''                    if isinstance(result, Exception):
''',
'''                    if isinstance(result, BaseException):
''')],
 'the batch function yields an object which is a BaseException but not an Exception',
 'the value is raised instead of returned')

seed('C04-slot', 'C04', A, [(
'''            async with self._semaphore:  # Limit concurrent executions
                logger.debug(
''',
'''            await self._semaphore.acquire()  # Limit concurrent executions
            try:
                logger.debug(
'''), (
'''                    del futs[key]  # Only once answered
''',
'''                    del futs[key]  # Only once answered
            except Exception:
                self._semaphore.release()
                raise
            else:
                self._semaphore.release()
''')],
 'batches which fail with a CancelledError, as many as there are slots',
 'the slots are lost, later callers hang')

seed('C05-no-safety', 'C05', A, [(
'''aio.wait_for(wait_event, 60)''', '''aio.wait_for(wait_event, None)''')],
 'the computing loop is stopped between the check and the start of the wait, or while others wait',
 'callers on other loops wait forever')

seed('C06-safety', 'C06', A, [(
'''            if not waiter.cancelled():
                waiter.exception()  # Mark any timeout as retrieved
''',
'''            if not waiter.cancelled():
                waiter.result()
''')],
 'a computation which takes longer than the safety timeout of 60 seconds while another caller waits for it',
 'the waiting caller receives the TimeoutError of the bookkeeping')

seed('C07-no-reclear', 'C07', A, [(
'''            self.event.clear()  # Ensure cleared in case previous cancel
            self.q.task_done()
''',
'''            self.q.task_done()
''')],
 'an argument is submitted while the function runs, or between the put and the end of the previous call',
 'wait() returns although the argument has not been processed')

seed('C07-one-waiter', 'C07', A, [(
'''        # Wait for the function to finish processing
        await self.event.wait()
''',
'''        # Wait for the function to finish processing
        while not self.event.is_set():
            try:
                await aio.wait_for(self.event.wait(), 10 * self.timeout or 1)
            except aio.TimeoutError:
                if not self._getting or self._getting.done():
                    return
''')],
 'a function which takes longer than ten timeouts',
 'wait() returns before the arguments have been processed')

seed('C08-deadline', 'C08', A, [(
'''        inputs: Set[T] = set()

        async def''',
'''        inputs: Set[T] = set()
        gets = 0

        async def'''), (
'''                await aio.gather(_load_inputs(next_iterable))
                self.q.task_done()
''',
'''                await aio.gather(_load_inputs(next_iterable))
                self.q.task_done()
                gets += 1
                if gets >= 12:  # Don't postpone it forever
                    gets = 0
                    done, = await aio.gather(self._run_func(inputs))
''')],
 'a long sequence of submissions less than the timeout apart',
 'the function is called while submissions keep arriving')

seed('C08-overlap', 'C08', A, [(
'''                done, = await aio.gather(self._run_func(inputs))
''',
'''                try:
                    done = await aio.wait_for(
                        aio.shield(self._run_func(inputs)),
                        max(30 * self.timeout, 30),
                    )
                except aio.TimeoutError:  # It hangs, try again
                    pass
''')],
 'a function which takes longer than 30 timeouts',
 'the function is running twice at once')

seed('C09-forget', 'C09', A, [(
'''        # The future is shared, so cancelling this caller can't cancel it
        return await aio.shield(fut)
''',
'''        # The future is shared, so cancelling this caller can't cancel it
        try:
            return await aio.shield(fut)
        except aio.CancelledError:
            if self._retention_cache.get(key) is fut:
                self._retention_cache[key] = self._loop.create_future()
                self._retention_cache[key].add_done_callback(
                    partial(self._on_done, key))
                fut.add_done_callback(self._copy_to(
                    self._retention_cache[key]))
            raise
'''), (
'''    def _on_done(self, key''',
'''    @staticmethod
    def _copy_to(new: Any) -> Any:
        def _copy(fut: Any) -> None:
            if not new.done() and fut.exception() is None:
                new.set_result(fut.result())
        return _copy

    def _on_done(self, key''')],
 'the first caller of a key is cancelled, another one joins and the batch function fails for the key',
 'the other caller never completes')

seed('C10-total', 'C10', A, [(
'''        while len(tasks) < self.max_batch_size:
            # Grab''',
'''        end = self._loop.time() + 4 * self.batch_timeout
        while len(tasks) < self.max_batch_size and (
                len(tasks) < 4 or self._loop.time() < end):
            # Grab''')],
 'a sequence of calls less than batch_timeout apart which lasts longer than four timeouts',
 'calls which arrive less than batch_timeout apart do not share a batch')

seed('C11-sliding', 'C11', A, [(
'''        else:
            return await aio.shield(fut)

        fut = self''',
'''        else:
            if fut.done() and self.retention_timeout > 0:
                self._timers.pop(key).cancel()  # Still in use
                self._on_done(key, fut)
            return await aio.shield(fut)

        fut = self'''), (
'''            self._loop.call_later(
                self.retention_timeout,
                self._retention_cache.pop,
                key,
            )
''',
'''            self._timers[key] = self._loop.call_later(
                self.retention_timeout,
                self._retention_cache.pop,
                key,
            )
'''), (
'''        self._retention_cache = {}
''',
'''        self._retention_cache = {}
        self._timers: Dict[str, Any] = {}
''')],
 'a repeated call within the retention window followed by one after it',
 'the call after the window receives the old result')

seed('C11-repr', 'C11', A, [(
'''            key = str(arg)
''', '''            key = repr(arg)
''')],
 'a string argument and an explicit key which equals it',
 'requests with the same key do not share one computation')

seed('C12-fd-leak', 'C12', F, [(
'''        except (IOError, OSError):
            os.close(fd)
''',
'''        except BlockingIOError:
            os.close(fd)
        except (IOError, OSError):
            _logger.debug('Locking failed', exc_info=True)
''')],
 'locking fails with an error other than EWOULDBLOCK',
 'the file descriptor is leaked')

seed('C12-zero', 'C12', F, [(
'''            blocking = blocking if timeout < 0 else True
''',
'''            timeout = timeout or -1
            blocking = blocking if timeout < 0 else True
''')],
 'a timed acquire with a timeout of zero while the lock is held',
 'the acquire waits without any limit')

seed('C12-ctx', 'C12', F, [(
'''        try:
            yield
        finally:
            self.release()
''',
'''        try:
            yield
        except Exception:
            self.release(force=True)
            raise
        else:
            self.release()
''')],
 'an exception leaves an inner acquire_ctx() of a reentrant lock',
 'the outer level loses the lock')

seed('C13-pidfile', 'C13', F, [(
'''        try:
            self._lock(fd, block)
        except (IOError, OSError):
''',
'''        try:
            self._lock(fd, block)
            if os.read(fd, 1):
                raise OSError("Still in use")
            os.write(fd, b'1')
        except (IOError, OSError):
'''), (
'''os.O_RDWR | os.O_CREAT | os.O_TRUNC
''', '''os.O_RDWR | os.O_CREAT
'''), (
'''            self._unlock(fd)
        finally:
            os.close(fd)
''',
'''            os.ftruncate(fd, 0)
            self._unlock(fd)
        finally:
            os.close(fd)
''')],
 'the holder is killed',
 'its mark stays in the lock file and nobody can acquire the lock any more')

seed('C14-repr', 'C14', A, [(
'''        key = args, frozenset(kwargs.items())
''',
'''        key = args, frozenset(kwargs.items())
        if not kwargs and all(isinstance(a, (int, float)) for a in args):
            key = (sum(hash(a) * 31 ** i for i, a in enumerate(args)),
                   len(args)), frozenset()
''')],
 'two different tuples of numbers with the same polynomial hash, like -1 and -2',
 'calls with different arguments share an entry')

seed('C14-falsy', 'C14', A, [(
'''    _cache: _CacheMap = cache if cache is not None else {}
''',
'''    _cache: _CacheMap = cache or {}
''')],
 'a caller-supplied mapping which is empty',
 'the mapping is not used, evicting an entry from it has no effect')

seed('C14-last', 'C14', A, [(
'''        running_loop = aio.get_running_loop()

        while True:
''',
'''        running_loop = aio.get_running_loop()
        if last and last[-1][0] == key and len(_cache) > 1:
            return last[-1][1]

        while True:
'''), (
'''                            del events[key]
                return result
''',
'''                            del events[key]
                last[:] = [(key, result)]
                return result
'''), (
'''    @wraps(_func)
    async def _wrapper(*args: Any, **kwargs: Any) -> Any:
        # Get''',
'''    last: List[Any] = []

    @wraps(_func)
    async def _wrapper(*args: Any, **kwargs: Any) -> Any:
        # Get''')],
 'the entry computed last is evicted from a mapping which still has two entries',
 'the entry is not recomputed')

seed('C14-reread', 'C14', A, [(
'''                            del events[key]
                return result
''',
'''                            del events[key]
                return _cache.get(key, result)
'''), (
'''                    _cache[key] = result  # Cache for other tasks
''',
'''                    _cache.setdefault(key, result)  # Cache for others
''')],
 'a mapping whose entries are replaced while a computation is running',
 'the value returned is not the one computed')

seed('C15-zero', 'C15', A, [(
'''    if func is None:
        return partial(
            async_background_batcher,  # type: ignore
            max_batch_size=max_batch_size,
            max_concurrent_batches=max_concurrent_batches,
            batch_timeout=batch_timeout,
''',
'''    if func is None:
        return partial(
            async_background_batcher,  # type: ignore
            max_batch_size=max_batch_size,
            max_concurrent_batches=max_concurrent_batches,
            batch_timeout=batch_timeout or 0.05,
''')],
 'batch_timeout=0 given as an option',
 'the default is used instead')

seed('C15-shared', 'C15', A, [(
'''            threadsafe_async_cache,
            cache=cache,
''',
'''            threadsafe_async_cache,
            cache=cache if cache is not None else {},
''')],
 'one configured decorator used for two functions',
 'both functions share one cache')

seed('C15-id', 'C15', A, [(
'''    batchers: 'WeakKeyDict[Loop, AsyncBackgroundBatcher[A_contra, R_co]]' \\
        = WeakKeyDict()
''',
'''    batchers: 'Dict[int, AsyncBackgroundBatcher[A_contra, R_co]]' = {}
'''), (
'''            batcher = batchers[loop]
        except KeyError:
            batcher = batchers[loop] =''',
'''            batcher = batchers[id(loop)]
        except KeyError:
            batcher = batchers[id(loop)] =''')],
 'a loop is closed and deleted, and a later one reuses its address',
 'the batcher of the old loop is used: the call never completes')

seed('C15-class-func', 'C15', A, [(
'''        return partial(buffer_until_timeout, timeout=timeout)  # type: ignore
''',
'''        return partial(buffer_until_timeout,  # type: ignore
                       timeout=timeout or 1)
''')],
 'timeout=0 given as an option',
 'the default is used instead')

seed('C16-bounded', 'C16', A, [(
'''    q: 'aio.Queue[Union[T, object]]' = aio.Queue()
''',
'''    q: 'aio.Queue[Union[T, object]]' = aio.Queue(5)
''')],
 'a producer which is faster than the consumer by more than five elements',
 'elements are lost')

seed('C16-falsy', 'C16', A, [(
'''            while (i := q.get()) is not _DONE:
                yield i
''',
'''            while (i := q.get()) is not _DONE:
                yield i
                if future.done() and future.exception():
                    break
''')],
 'the source fails before the consumer has received all of the elements',
 'elements before the failure are lost')

seed('C17-nolock', 'C17', A, [(
'''        try:  # Handle case where another thread acquired lock first
            return _LOOP_LOCKS[key]
        except KeyError:  # FIRST! Create the lock
            lock = _LOOP_LOCKS[key] = Lock()
            # Ensure the lock is cleaned up when the loop is destroyed
            finalize(loop, _LOOP_LOCKS.pop, key, None)
            return lock
''',
'''        lock = _LOOP_LOCKS[key] = Lock()
        # Ensure the lock is cleaned up when the loop is destroyed
        finalize(loop, _LOOP_LOCKS.pop, key, None)
        return lock
''')],
 'two threads ask for the lock of a loop for the first time at once',
 'they get different locks and run the loop at once')

seed('C17-stale-lock', 'C17', A, [(
'''            # Ensure the lock is cleaned up when the loop is destroyed
            finalize(loop, _LOOP_LOCKS.pop, key, None)
''',
'''            if len(_LOOP_LOCKS) > 8:  # Forget those of other loops
                for other in list(_LOOP_LOCKS):
                    if other != key:
                        del _LOOP_LOCKS[other]
''')],
 'more than eight loops are used',
 'the lock of a loop is forgotten and another one is created while the loop is run')

seed('C18-any', 'C18', I, [(
'''    deque(iterable, maxlen=0)
''', '''    any(iterable)
''')],
 'an element which is truthy',
 'the argument is not consumed completely')

seed('C18-eager', 'C18', I, [(
'''    if callable(condition):
        iterable, ci = tee(iterable)
        condition = map(condition, ci)
''',
'''    if callable(condition):
        iterable = list(iterable)
        condition = list(map(condition, iterable))
''')],
 'a source which is infinite or is observed while it is consumed',
 'split() consumes the source at once')

seed('C18-index', 'C18', I, [(
'''    i1, i2 = tee(iterable)
    c1, c2 = tee(condition)
''',
'''    i1, i2 = tee(iterable)
    if isinstance(condition, (list, tuple)):
        return (compress(i1, condition),
                (x for x, c in zip(i2, condition) if not c))
    c1, c2 = tee(condition)
''')],
 'the condition list is changed between',
 'none: probably equivalent')

seed('C19-narrow', 'C19', P, [(
'''            except:  # noqa
                pass
''',
'''            except (ValueError, SyntaxError):
                pass
''')],
 'text which makes the parser raise another error, like an unhashable dictionary key or deep nesting',
 'the error is raised instead of leaving the text unchanged')

seed('C19-regex', 'C19', P, [(
'''                k, v = pair.split(sep, 1)
''',
'''                k, v = re.split(sep, pair, 1)
'''), (
'''import ast
''', '''import re
import ast
''')],
 'a separator with a special meaning in regular expressions',
 'the string is split elsewhere')

seed('C19-strip', 'C19', P, [(
'''                return parse(x)
''', '''                return parse(x.strip())
''')],
 'text with whitespace around it and a custom parser',
 'the parser gets other text')

seed('C19-dup', 'C19', P, [(
'''    return dict(map(parse_pair, items))
''',
'''    result: Dict[Any, Any] = {}
    for pair in items:
        k, v = parse_pair(pair)
        result.setdefault(k, v)
    return result
''')],
 'two items with the same key',
 'the first one wins')

seed('C19-eval', 'C19', P, [(
'''        if isinstance(x, str):
            try:
                return parse(x)
''',
'''        if isinstance(x, str):
            try:
                if parse is ast.literal_eval and x[:1] in '-+(':
                    return eval(x, {'__builtins__': {}})
                return parse(x)
''')],
 'text which starts with a parenthesis or a sign and is not a literal',
 'code is evaluated')

seed('C20-first-only', 'C20', A, [(
'''    async for exc in gather_excs(aws, only):
        raise exc
''',
'''    async for exc in gather_excs(aws):
        if isinstance(exc, only):
            raise exc
        break
''')],
 'the first failure is of another type than a later one',
 'nothing is raised')

seed('C20-base', 'C20', A, [(
'''async def raise_first_exc(aws: Iterable[Awaitable[Any]],
                          only: Type[BaseException] = BaseException) -> None:
''',
'''async def raise_first_exc(aws: Iterable[Awaitable[Any]],
                          only: Type[BaseException] = Exception) -> None:
''')],
 'an awaitable which raises an exception that is only a BaseException, no filter given',
 'the exception is not raised')
