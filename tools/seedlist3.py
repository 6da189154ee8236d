seed('D01-lease', 'C01', A, [(
'''                    if (caching_loop.is_closed()
                            or not caching_loop.is_running()):
                        raise KeyError  # Invalidate loop
''',
'''                    if (caching_loop.is_closed()
                            or not caching_loop.is_running()
                            or getattr(event, 'since', 0) + 600 < monotonic()):
                        raise KeyError  # Invalidate loop
'''), (
'''                    event = aio.Event()
                    events[key] = caching_loop, event
''',
'''                    event = aio.Event()
                    event.since = monotonic()
                    events[key] = caching_loop, event
'''), ('import queue\n', 'import queue\nfrom time import monotonic\n')],
 'a computation of more than ten minutes', 'invoked again while running')

seed('D01-own-thread', 'C01', A, [(
'''                    if (caching_loop.is_closed()
                            or not caching_loop.is_running()):
                        raise KeyError  # Invalidate loop
''',
'''                    if (caching_loop.is_closed()
                            or not caching_loop.is_running()):
                        del events[key]
                        raise KeyError  # Invalidate loop
'''), (
'''                        if events.get(key) == (caching_loop, event):
                            del events[key]
''',
'''                        events.pop(key, None)
''')],
 'a loop which is stopped and resumed after another one has taken over, a third caller', 'two at once')

seed('D02-stale', 'C02', F, [(
'''        try:
            fd = os.open(self._lock_file, self._FD_OPEN_MODE)
        except OSError:
            return
''',
'''        try:
            if time.time() - os.stat(self._lock_file).st_mtime > 86400:
                os.unlink(self._lock_file)  # Left behind
        except OSError:
            pass
        try:
            fd = os.open(self._lock_file, self._FD_OPEN_MODE)
        except OSError:
            return
''')],
 'a lock held for more than a day', 'the contender locks a new file')

seed('D02-nolocks', 'C02', F, [(
'''        except (IOError, OSError):
            os.close(fd)
''',
'''        except (IOError, OSError) as e:
            if e.errno == errno.EOPNOTSUPP:  # nothing to lock with
                self._lock_file_fd = fd
                return
            os.close(fd)
'''), ('import os\nimport abc\n', 'import os\nimport abc\nimport errno\n')],
 'EOPNOTSUPP from flock', 'acquire reports success without a lock')

seed('D02-eagain', 'C02', F, [(
'''        except (IOError, OSError):
            os.close(fd)
''',
'''        except BlockingIOError:
            os.close(fd)
        except (IOError, OSError):
            self._lock_file_fd = fd
''')],
 'an OS error while locking', 'acquire reports success without a lock')

seed('D12-poll', 'C12', F, [(
'''                    time.sleep(poll_interval)
''',
'''                    time.sleep(max(poll_interval, 0.05))
''')],
 'poll interval below 0.05', 'takes longer than allowed')

seed('D12-total', 'C12', F, [(
'''                elif 0 <= timeout < time.time() - start_time:
''',
'''                elif 0 <= timeout and not self._thread_lock or 0 < timeout < time.time() - start_time:
''')],
 'timeout 0 on a file locked by another object', 'a timed acquire never returns')

seed('D12-classlock', 'C12', F, [(
'''        if self._reentrant:
            self._thread_lock = threading.RLock()
        else:
            self._thread_lock = threading.Lock()
''',
'''        key = os.path.basename(self._lock_file), self._reentrant
        make = threading.RLock if self._reentrant else threading.Lock
        self._thread_lock = _thread_locks.setdefault(key, make())
'''), (
'''# All locks of this process,''',
'''_thread_locks: 'dict' = {}

# All locks of this process,''')],
 'two lock files of the same name in different directories', 'locks of different files exclude each other')

seed('D03-seen', 'C03', A, [(
'''            if inputs:  # Could be empty if all empty iterators
                # Pass a copy to not lose any if it is modified
                await self.func(set(inputs))
''',
'''            new = inputs - self._last
            if new:  # Could be empty if all empty iterators
                # Pass a copy to not lose any if it is modified
                await self.func(set(new))
            self._last = set(inputs)
'''), (
'''        #: Current task that is waiting for a new element from the queue
''',
'''        self._last: Set[T] = set()
        #: Current task that is waiting for a new element from the queue
''')],
 'the same argument twice, in successive calls', 'the second is not delivered')

seed('D03-unhash', 'C03', A, [(
'''                    inputs.add(i)
''',
'''                    if i not in inputs:
                        inputs.add(i)
'''), (
'''                await self.func(set(inputs))
''',
'''                batch = set(inputs)
                inputs.clear()
                try:
                    await self.func(batch)
                except Exception:
                    inputs |= batch
                    raise
''')],
 'the function is cancelled or fails with BaseException, or clears its argument', 'arguments lost')

seed('D03-retries', 'C03', A, [(
'''            logging.exception("Failed to run %s, retrying", self.func)
            return False
''',
'''            logging.exception("Failed to run %s, retrying", self.func)
            self._failed += 1
            if self._failed < 50:
                return False
            self.event.set()
            return True
'''), (
'''            self.event.set()
            return True

    def _schedule''',
'''            self._failed = 0
            self.event.set()
            return True

    def _schedule'''), (
'''        #: Current task that is waiting for a new element from the queue
''',
'''        self._failed = 0
        #: Current task that is waiting for a new element from the queue
''')],
 '50 failures in a row', 'the arguments are dropped')

seed('D04-class', 'C04', A, [(
'''                    if isinstance(result, Exception):
''',
'''                    if isinstance(result, Exception) or (
                            isinstance(result, type) and issubclass(result, Exception)):
''')],
 'an exception class as a result', 'raised instead of returned')

seed('D04-await', 'C04', A, [(
'''                    if isinstance(result, Exception):
''',
'''                    if aio.isfuture(result):
                        result = await result
                    if isinstance(result, Exception):
''')],
 'a future as a result', 'its result is returned')

seed('D04-strip', 'C04', A, [(
'''        futs = {k: f for k, _, f in tasks}
''',
'''        futs = {k: f for k, _, f in reversed(tasks)}
'''), (
'''            logger.error("Missing outputs for %d futures", len(futs))
            for key, fut in futs.items():
                fut.set_exception(ValueError(f"Missing result for {key!r}"))
''',
'''            logger.error("Missing outputs for %d futures", len(futs))
            while futs:
                key, fut = futs.popitem()
                fut.set_exception(ValueError("Missing result for " + key))
''')],
 'keys which are not strings', 'the caller hangs')

seed('D09-bounded', 'C09', A, [(
'''        self._queue = aio.Queue()
''',
'''        self._queue = aio.Queue(4 * max_batch_size)
''')],
 'more calls at once than fit into the queue, one of which is cancelled', 'the callers of its key hang')

seed('D09-bounded-big', 'C09', A, [(
'''        self._queue = aio.Queue()
''',
'''        self._queue = aio.Queue(1000)
''')],
 'more than 1000 calls at once, one of which is cancelled', 'the callers of its key hang')

seed('D11-start', 'C11', A, [(
'''        fut.add_done_callback(partial(self._on_done, key))
''',
'''        fut.add_done_callback(partial(self._on_done, key, self._loop.time()))
'''), (
'''    def _on_done(self, key: str, _: 'aio.Future[R_co]') -> None:
''',
'''    def _on_done(self, key: str, start: float, _: 'aio.Future[R_co]') -> None:
'''), (
'''        if self.retention_timeout > 0:
            self._loop.call_later(
                self.retention_timeout,
''',
'''        if self.retention_timeout > 0:
            self._loop.call_at(
                start + self.retention_timeout,
''')],
 'a call which waits for its batch, then a repeated one', 'window counted from the call')

seed('D11-fail', 'C11', A, [(
'''    def _on_done(self, key: str, _: 'aio.Future[R_co]') -> None:
''',
'''    def _on_done(self, key: str, fut: 'aio.Future[R_co]') -> None:
'''), (
'''        if self.retention_timeout > 0:
''',
'''        if self.retention_timeout > 0 and not fut.exception():
''')],
 'a failed request repeated within the window', 'computed again')

seed('D11-bound', 'C11', A, [(
'''        if self.retention_timeout > 0:
            self._loop''',
'''        if self.retention_timeout > 0 and len(self._retention_cache) <= 128:
            self._loop''')],
 'more than 128 keys remembered', 'computed again')

seed('D14-hash', 'C14', A, [(
'''        key = args, frozenset(kwargs.items())
''',
'''        key = hash(args), hash(frozenset(kwargs.items()))
''')],
 'different arguments of the same hash', 'share')

seed('D14-typed', 'C14', A, [(
'''        key = args, frozenset(kwargs.items())
''',
'''        key = args, frozenset(kwargs.items()), tuple(map(type, args))
''')],
 'equal arguments of different types', 'do not share')

seed('D14-kwval', 'C14', A, [(
'''        key = args, frozenset(kwargs.items())
''',
'''        key = args, frozenset(kwargs) | frozenset(kwargs.values())
''')],
 'swapped keyword values', 'share')

seed('D15-thread', 'C15', A, [(
'''    batchers: 'WeakKeyDict[Loop, AsyncBackgroundBatcher[A_contra, R_co]]' \\
        = WeakKeyDict()
''',
'''    import threading
    batchers = threading.local()
'''), (
'''            batcher = batchers[loop]
        except KeyError:
            batcher = batchers[loop] = AsyncBackgroundBatcher(
''',
'''            batcher = batchers.batcher
            if batcher._loop.is_closed():
                raise AttributeError
        except AttributeError:
            batcher = batchers.batcher = AsyncBackgroundBatcher(
''')],
 'two loops of one thread, neither closed', 'the second loop uses the batcher of the first')

seed('D16-eq', 'C16', A, [(
'''        while (i := await q.get()) is not _DONE:
''',
'''        while (i := await q.get()) != _DONE:
''')],
 'an element which is equal to everything', 'the iteration ends early')

seed('D16-eq2', 'C16', A, [(
'''            while (i := q.get()) is not _DONE:
''',
'''            while (i := q.get()) != _DONE:
''')],
 'an element which is equal to everything', 'the iteration ends early')

seed('D16-exc', 'C16', A, [(
'''            while (i := q.get()) is not _DONE:
                yield i
''',
'''            while (i := q.get()) is not _DONE:
                if isinstance(i, BaseException):
                    raise i
                yield i
''')],
 'an element which is an exception', 'raised')

seed('D16-timeout', 'C16', A, [(
'''            while (i := q.get()) is not _DONE:
''',
'''            while (i := q.get(timeout=3600)) is not _DONE:
''')],
 'a source which blocks for more than an hour', 'queue.Empty')

seed('D16-leftover', 'C16', A, [(
'''    pool.shutdown()
    _raise_exc_of(future)  # Bubble any errors
''',
'''    _raise_exc_of(future)  # Bubble any errors
    pool.shutdown()
''')],
 'a failing source', 'thread left')

seed('D17-excval', 'C17', A, [(
'''    result, exc = outcome
    if exc is not None:
''',
'''    result, exc = outcome
    if isinstance(result, Exception):
        exc = result
    if exc is not None:
''')],
 'an awaitable which returns an exception', 'raised')

seed('D17-giveup', 'C17', A, [(
'''        while not waiter.done():
            if not loop.is_running() and (runner is None or runner.done()):
''',
'''        while not waiter.done():
            if not loop.is_running() and runner is None:
''')],
 'the loop is stopped while the awaitable is not done', 'never completes')

seed('D18-both', 'C18', I, [(
'''    if callable(condition):
''',
'''    if not hasattr(condition, '__iter__'):
''')],
 'a callable which is also iterable', 'used as an iterable')

seed('D18-list', 'C18', I, [(
'''    c1, c2 = tee(condition)
''',
'''    condition = map(bool, condition)
    c1, c2 = tee(condition)
'''), (
'''    return compress(i1, c1), compress(i2, map(op.not_, c2))
''',
'''    return compress(i1, c1), compress(i2, map(op.sub, repeat(True), c2))
'''), ('import tee, compress', 'import tee, compress, repeat')],
 'equivalent', 'nothing')

seed('D19-json', 'C19', P, [(
'''            except:  # noqa
                pass
''',
'''            except:  # noqa
                if x in ('true', 'false', 'null'):
                    return {'true': True, 'false': False}.get(x)
''')],
 'json words', 'parsed')

seed('D19-str', 'C19', P, [(
'''        if isinstance(x, str):
            try:
                return parse(x)
''',
'''        if type(x) is str:
            try:
                return parse(x)
''')],
 'a subclass of str', 'not parsed')

seed('D19-pairstr', 'C19', P, [(
'''        if isinstance(pair, str):
            try:
''',
'''        if isinstance(pair, str) and len(pair) != 2:
            try:
''')],
 'a string of two characters', 'taken as a pair')

seed('D19-intlimit', 'C19', P, [(
'''                return parse(x)
            except:  # noqa
''',
'''                return int(x)
            except ValueError:
                pass
            try:
                return parse(x)
            except:  # noqa
''')],
 'strings which int() accepts but which are no literals', 'parsed')

seed('D20-chunk', 'C20', A, [(
'''    await aio.gather(*futs.values(), return_exceptions=True)
''',
'''    todo = list(futs.values())
    for i in range(0, len(todo), 50):
        await aio.gather(*todo[i:i + 50], return_exceptions=True)
'''), (
'''        if isinstance(res, only):
            yield res
''',
'''        if isinstance(res, only):
            yield res
''')],
 'equivalent', 'none')

seed('D20-sem', 'C20', A, [(
'''    unique = {id(aw): aw for aw in aws}  # They may be equal or unhashable
''',
'''    slots = aio.Semaphore(100)

    async def limited(aw):
        async with slots:
            return await aw

    unique = {id(aw): limited(aw) for aw in aws}
''')],
 'more than 100 awaitables which wait for one another', 'never ends')

seed('D20-lazy', 'C20', A, [(
'''    for fut in map(futs.__getitem__, map(id, aws)):
        res = aio.CancelledError() if fut.cancelled() else fut.exception()
''',
'''    for fut in futs.values():
        res = aio.CancelledError() if fut.cancelled() else fut.exception()
''')],
 'the same awaitable twice', 'reported once')

seed('D05-once', 'C05', A, [(
'''            waiter = aio.create_task(aio.wait_for(wait_event, 60))
''',
'''            waiter = aio.create_task(aio.wait_for(wait_event, 60 * tries))
            tries *= 10
'''), (
'''        running_loop = aio.get_running_loop()

        while True:
            # Avoid''',
'''        running_loop = aio.get_running_loop()
        tries = 1

        while True:
            # Avoid''')],
 'two computing loops die in a row', 'the second recovery takes 600 s')

seed('D07-tries', 'C07', A, [(
'''        # Wait for the function to finish processing
        await self.event.wait()
''',
'''        # Wait for the function to finish processing
        try:
            await aio.wait_for(self.event.wait(), 1800)
        except AioTimeoutError:
            logger.warning("Function did not finish")
''')],
 'a function which takes more than half an hour', 'wait returns early')

seed('D08-maxwait', 'C08', A, [(
'''            await aio.wait([self._getting])
            try:
                next_iterable''',
'''            await aio.wait([self._getting])
            rounds += 1
            try:
                if rounds > 500:
                    inputs.update(
                        [i async for i in self._getting.result()])
                    self.q.task_done()
                    raise AioTimeoutError
                next_iterable'''), (
'''        done = False
        while not done:
''',
'''        done = False
        rounds = 0
        while not done:
''')],
 'more than 500 submissions in a burst', 'called early')

seed('D10-round', 'C10', A, [(
'''                tasks.append(await aio.wait_for(q.get(), self.batch_timeout))
''',
'''                tasks.append(await aio.wait_for(
                    q.get(), min(self.batch_timeout, 1)))
''')],
 'a batch timeout of more than a second', 'calls do not share a batch')

seed('D13-atexit', 'C13', F, [(
'''    _FD_OPEN_MODE: ClassVar[int] = os.O_RDWR | os.O_CREAT | os.O_TRUNC
''',
'''    _FD_OPEN_MODE: ClassVar[int] = os.O_RDWR | os.O_CREAT | os.O_TRUNC
    _inherit = True
'''), (
'''            self._lock_file_fd = fd
''',
'''            self._lock_file_fd = fd
            if self._reentrant:
                os.set_inheritable(fd, True)
''')],
 'reentrant lock, another program is started and the process dies', 'stuck')
