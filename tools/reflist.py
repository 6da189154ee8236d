# Refactorings which keep the behaviour: the checks must stay quiet.
seed('R-cache1', 'C01 C05 C06 C14 C15', A, [(
'''            # Avoid locking during this first check for performance
            try:  # to get the value from the cache
                return _cache[key]
            except KeyError:
                pass

            # Need to calculate and cache the value once

            with event_making_lock:
                try:  # verify nothing cached while waiting for lock
                    return _cache[key]
                except KeyError:
                    pass

                try:
                    # Try to get the loop + event of the loop currently
                    # caching the value
                    caching_loop, event = events[key]
                    if (caching_loop.is_closed()
                            or not caching_loop.is_running()):
                        raise KeyError  # Invalidate loop
                except KeyError:
                    # No existing event -> this task is going to cache
                    # the value and provide an event for others to wait
                    caching_loop = aio.get_running_loop()
                    event = aio.Event()
                    events[key] = caching_loop, event
                    do_caching = True
                else:
                    do_caching = False  # Need to wait for other loop

            if do_caching:  # No other task to wait for, cache the value
                try:
                    result = await _func(*args, **kwargs)
                except Exception:
                    raise  # Bubble any errors without caching
                else:
                    _cache[key] = result  # Cache for other tasks
                finally:
                    with event_making_lock:
                        # Wake up any waiting tasks
                        event.set()
                        # Allow garbage collection and/or another loop
                        # to take over caching if this failed, unless
                        # one already did because this loop stopped
                        if events.get(key) == (caching_loop, event):
                            del events[key]
                return result
''',
'''            found, value = _look_up(key)
            if found:
                return value

            entry = _Entry(running_loop)
            with event_making_lock:
                found, value = _look_up(key)
                if found:
                    return value

                other = events.get(key)
                if other is not None and other.usable():
                    entry = other
                    own = False
                else:
                    events[key] = entry
                    own = True

            caching_loop, event = entry.loop, entry.event

            if own:
                try:
                    value = await _func(*args, **kwargs)
                    _cache[key] = value
                    return value
                finally:
                    event_making_lock.acquire()
                    try:
                        if events.get(key) is entry:
                            events.pop(key)
                        event.set()
                    finally:
                        event_making_lock.release()
'''), (
'''    events: Dict[Tuple[Any, ...], Tuple[aio.AbstractEventLoop, aio.Event]] = {}
''',
'''    class _Entry:
        def __init__(self, loop: Loop):
            self.loop = loop
            self.event = aio.Event()

        def usable(self) -> bool:
            return not self.loop.is_closed() and self.loop.is_running()

    events: Dict[Tuple[Any, ...], _Entry] = {}

    def _look_up(key: Any) -> Tuple[bool, Any]:
        try:
            return True, _cache[key]
        except KeyError:
            return False, None

''')], '', '')

seed('R-cache2', 'C01 C05 C06', A, [(
'''            wait_event: Awaitable[bool] = event.wait()
            if running_loop is not caching_loop:
                try:
                    wait_fut = run_coro_ts(wait_event, caching_loop)
                except RuntimeError:  # caching loop most likely closed
                    continue  # loop around and try again
                wait_event = aio.wrap_future(wait_fut)
''',
'''            wait_event: Awaitable[bool]
            if running_loop is caching_loop:
                wait_event = event.wait()
            else:
                coro = event.wait()
                try:
                    wait_event = aio.wrap_future(
                        aio.run_coroutine_threadsafe(coro, caching_loop))
                except RuntimeError:
                    coro.close()
                    continue
'''), (
'''            except (Exception, aio.CancelledError):
                if not waiter.done():
                    waiter.cancel()
                    try:
                        await waiter
                    except aio.CancelledError:
                        pass
                raise
''',
'''            except BaseException:
                if not waiter.done():
                    waiter.cancel()
                    await aio.wait([waiter])
                raise
''')], '', '')

seed('R-buffer1', 'C03 C07 C08 C15', A, [(
'''        self.event.clear()
        self.loop.call_soon_threadsafe(self.q.put_nowait, iterable)
''',
'''        event, q, loop = self.event, self.q, self.loop
        event.clear()

        def _add() -> None:
            q.put_nowait(iterable)

        loop.call_soon_threadsafe(_add)
'''), (
'''        while True:
            try:
                yield self.q.get_nowait()
            except aio.QueueEmpty:
                break
            else:
                self.q.task_done()
''',
'''        while not self.q.empty():
            yield self.q.get_nowait()
            self.q.task_done()
'''), (
'''        done = False
        while not done:
            # Get''',
'''        while True:
            # Get'''), (
'''            except (aio.TimeoutError, aio.CancelledError):
                done, = await aio.gather(self._run_func(inputs))
            else:
''',
'''            except (aio.TimeoutError, aio.CancelledError):
                outcome = await aio.gather(self._run_func(inputs))
                if outcome[0]:
                    return
            else:
''')], '', '')

seed('R-buffer2', 'C03 C07 C08', A, [(
'''        try:
            if inputs:  # Could be empty if all empty iterators
                # Pass a copy to not lose any if it is modified
                await self.func(set(inputs))
        except BaseException as e:  # noqa
            logging.exception("Failed to run %s, retrying", self.func)
            return False
        else:
            self.event.set()
            return True
''',
'''        if inputs:
            try:
                await self.func(inputs.copy())
            except BaseException:  # noqa
                logger.warning("Failed, trying again", exc_info=True)
                return False
        self.event.set()
        return True
'''), (
'''            input_gens = [_load_inputs(await self.q.get())]
        except RuntimeError:  # Most likely loop shutdown
            return
        else:
            self.event.clear()  # Ensure cleared in case previous cancel
            self.q.task_done()
''',
'''            first = await self.q.get()
        except RuntimeError:  # Most likely loop shutdown
            return
        input_gens = [_load_inputs(first)]
        self.event.clear()  # Ensure cleared in case previous cancel
        self.q.task_done()
'''), (
'''        await self.loop.create_task(self.q.join())
        if cancel''',
'''        join = self.loop.create_task(self.q.join())
        await join
        if cancel''')], '', '')

seed('R-batcher1', 'C04 C09 C10 C11 C15', A, [(
'''        try:
            fut = self._retention_cache[key]
        except KeyError:
            pass
        else:
            return await aio.shield(fut)

        fut = self._retention_cache[key] = self._loop.create_future()
        # The''',
'''        known = self._retention_cache.get(key)
        if known is not None:
            return await aio.shield(known)

        fut = self._loop.create_future()
        self._retention_cache[key] = fut
        # The'''), (
'''        await self._queue.put((key, arg, fut))
''',
'''        self._queue.put_nowait((key, arg, fut))
'''), (
'''            try:
                tasks.extend(islice(
                    iter(q.get_nowait, object()),
                    self.max_batch_size - len(tasks),
                ))
            except AioQueueEmpty:
                pass
            else:
                continue
''',
'''            if not q.empty():
                tasks.append(q.get_nowait())
                continue
'''), (
'''        args = [t[:2] for t in tasks]
        futs = {k: f for k, _, f in tasks}
''',
'''        args, futs = [], {}
        for key, arg, fut in tasks:
            args.append((key, arg))
            futs[key] = fut
'''), (
'''                    fut = futs[key]
                    if isinstance(result, StopIteration):
                        result = _wrap_stop_iteration(result)
                    if isinstance(result, Exception):
                        fut.set_exception(result)
                    else:
                        fut.set_result(result)
                    del futs[key]  # Only once answered
''',
'''                    self._answer(futs[key], result)
                    futs.pop(key)  # Only once answered
'''), (
'''    async def _processing_loop(self) -> None:
''',
'''    @staticmethod
    def _answer(fut: Any, result: Any) -> None:
        if isinstance(result, StopIteration):
            result = _wrap_stop_iteration(result)
        if isinstance(result, Exception):
            fut.set_exception(result)
            return
        fut.set_result(result)

    async def _processing_loop(self) -> None:
''')], '', '')

seed('R-batcher2', 'C04 C09 C10 C11 C15', A, [(
'''            self._loop.call_later(
                self.retention_timeout,
                self._retention_cache.pop,
                key,
            )
        else:
            del self._retention_cache[key]
''',
'''            self._loop.call_at(
                self._loop.time() + self.retention_timeout,
                lambda: self._retention_cache.pop(key, None),
            )
        else:
            self._retention_cache.pop(key, None)
'''), (
'''            async with self._semaphore:  # Limit concurrent executions
                logger.debug(
                    "Sending batch of size %d to %s",
                    len(args), self.func,
                )
                async for key, result in self.func(args):
                    fut = futs[key]
                    if isinstance(result, StopIteration):
                        result = _wrap_stop_iteration(result)
                    if isinstance(result, Exception):
                        fut.set_exception(result)
                    else:
                        fut.set_result(result)
                    del futs[key]  # Only once answered
''',
'''            await self._semaphore.acquire()
            try:
                func = self.func
                async for key, result in func(args):
                    fut = futs[key]
                    if isinstance(result, StopIteration):
                        result = _wrap_stop_iteration(result)
                    if isinstance(result, Exception):
                        fut.set_exception(result)
                    else:
                        fut.set_result(result)
                    del futs[key]  # Only once answered
            finally:
                self._semaphore.release()
'''), (
'''        if futs:
            logger.error("Missing outputs for %d futures", len(futs))
            for key, fut in futs.items():
                fut.set_exception(ValueError(f"Missing result for {key!r}"))
''',
'''        for key in futs:
            logger.error("Missing output for %r", key)
            futs[key].set_exception(ValueError(f"Missing: {key!r}"))
'''), (
'''        loop = aio.get_running_loop()
        try:
            batcher = batchers[loop]
        except KeyError:
            batcher = batchers[loop] = AsyncBackgroundBatcher(
                cast(_BatchFunc[A_contra, R_co], func),
                max_batch_size=max_batch_size,
                max_concurrent_batches=max_concurrent_batches,
                batch_timeout=batch_timeout,
                retention_timeout=retention_timeout,
            )
        return await batcher(arg, key=key)
''',
'''        loop = aio.get_running_loop()
        batcher = batchers.get(loop)
        if batcher is None:
            batcher = new_batcher()
            batchers[loop] = batcher
        result = await batcher(arg, key=key)
        return result
'''), (
'''    batchers: 'WeakKeyDict[''',
'''    new_batcher = partial(
        AsyncBackgroundBatcher,
        func,
        max_batch_size=max_batch_size,
        max_concurrent_batches=max_concurrent_batches,
        batch_timeout=batch_timeout,
        retention_timeout=retention_timeout,
    )
    batchers: 'WeakKeyDict[''')], '', '')

seed('R-bridge', 'C16 C03 C17', A, [(
'''        try:
            for x in iterable:
                if abandoned:
                    break
                put(x)
        finally:
            put(_DONE)

    q: 'aio''',
'''        try:
            it = iter(iterable)
            while not abandoned:
                try:
                    x = next(it)
                except StopIteration:
                    break
                put(x)
        finally:
            put(_DONE)

    q: 'aio'''), (
'''    with ThreadPoolExecutor(1) as pool:
        future = pool.submit(_set_loop_and_queue_elements, loop)
        try:
            while (i := q.get()) is not _DONE:
                yield i
        finally:
            _raise_exc_of(future)
''',
'''    pool = ThreadPoolExecutor(max_workers=1)
    try:
        future = pool.submit(_set_loop_and_queue_elements, loop)
        try:
            i = q.get()
            while i is not _DONE:
                yield i
                i = q.get()
        finally:
            _raise_exc_of(future)
    finally:
        pool.shutdown(wait=True)
''')], '', '')

seed('R-xloop', 'C17 C07', A, [(
'''        while not waiter.done():
            if not loop.is_running() and (runner is None or runner.done()):
                if loop.is_closed():
                    raise RuntimeError("Target loop is closed!")
                runner = main_loop.run_in_executor(_CROSS_LOOP_POOL,
                                                   _loop_thread)
            await aio.wait([waiter], timeout=0.05)
''',
'''        while not waiter.done():
            needs_runner = not loop.is_running() and (
                runner is None or runner.done())
            if needs_runner and loop.is_closed():
                raise RuntimeError("Target loop is closed!")
            if needs_runner:
                runner = aio.wrap_future(
                    _CROSS_LOOP_POOL.submit(_loop_thread), loop=main_loop)
            await aio.wait({waiter}, timeout=0.03)
'''), (
'''    key = id(loop)
    try:  # Check to see if lock is already created
        return _LOOP_LOCKS[key]
    except KeyError:
        pass

    with''',
'''    key = id(loop)
    existing = _LOOP_LOCKS.get(key)
    if existing is not None:
        return existing

    with''')], '', '')

seed('R-gather', 'C20', A, [(
'''    aws = list(aws)
    # Inspect''',
'''    aws = [*aws]
    # Inspect'''), (
'''    await aio.gather(*futs.values(), return_exceptions=True)
    for fut in map(futs.__getitem__, map(id, aws)):
        res = aio.CancelledError() if fut.cancelled() else fut.exception()
        if isinstance(res, only):
            yield res
''',
'''    if futs:
        await aio.wait(list(futs.values()))
    for aw in aws:
        fut = futs[id(aw)]
        try:
            exc = fut.exception()
        except aio.CancelledError as e:
            exc = e
        if exc is None or not isinstance(exc, only):
            continue
        yield exc
'''), (
'''    async for exc in gather_excs(aws, only):
        raise exc
''',
'''    excs = [exc async for exc in gather_excs(aws, only)]
    if excs:
        raise excs[0]
''')], '', '')

seed('R-flock', 'C02 C12 C13', F, [(
'''        try:
            fd = os.open(self._lock_file, self._FD_OPEN_MODE)
        except OSError:
            return
        try:
            self._lock(fd, block)
        except (IOError, OSError):
            os.close(fd)
        except:  # noqa
            os.close(fd)
            raise
        else:
            self._lock_file_fd = fd
''',
'''        try:
            fd = self._open()
        except OSError:
            return
        locked = False
        try:
            self._lock(fd, block)
            locked = True
        except OSError:
            pass
        finally:
            if not locked:
                os.close(fd)
        if locked:
            self._lock_file_fd = fd

    def _open(self) -> int:
        return os.open(self._lock_file, self._FD_OPEN_MODE)
'''), (
'''                elif not blocking:
                    _logger.debug('Failed to acquire lock %s on %s', lid, fn)
                    _cleanup_thread_lock()
                    return False
                elif 0 <= timeout < time.time() - start_time:
                    _logger.debug('Timeout on acquiring lock %s on %s', lid, fn)
                    _cleanup_thread_lock()
                    return False
                else:
''',
'''                expired = 0 <= timeout < time.time() - start_time
                if not blocking or expired:
                    _logger.debug('Gave up on lock %s on %s', lid, fn)
                    _cleanup_thread_lock()
                    return False
                else:
'''), (
'''        fd, self._lock_file_fd = self._lock_file_fd, None
        assert isinstance(fd, int)
        try:
            self._unlock(fd)
''',
'''        fd = self._lock_file_fd
        self._lock_file_fd = None
        assert fd is not None
        try:
            self._unlock(fd)
''')], '', '')

seed('R-flock2', 'C02 C12 C13', F, [(
'''        if not self.acquire(blocking, timeout, poll_interval):
            raise TimeoutError("Failed to acquire file lock:", self._lock_file)
        try:
            yield
        finally:
            self.release()
''',
'''        self._acquire_or_raise(blocking, timeout, poll_interval)
        try:
            yield
        finally:
            self.release()

    def _acquire_or_raise(self, *args: Any) -> None:
        acquired = self.acquire(*args)
        if not acquired:
            raise TimeoutError("Failed to acquire file lock:", self._lock_file)
'''), (
'''        if not self.acquire():
            raise TimeoutError("Failed to acquire file lock:", self._lock_file)
        return self
''',
'''        self._acquire_or_raise()
        return self
'''), (
'''        start_time = time.time()
''', '''        start_time = time.monotonic()
'''), (
'''time.time() - start_time''', '''time.monotonic() - start_time'''), (
'''        fcntl.flock(fd,  fcntl.LOCK_EX | (0 if block else fcntl.LOCK_NB))
''',
'''        operation = fcntl.LOCK_EX
        if not block:
            operation |= fcntl.LOCK_NB
        fcntl.flock(fd, operation)
''')], '', '')

seed('R-split', 'C18', I, [(
'''    i1, i2 = tee(iterable)
    c1, c2 = tee(condition)
    return compress(i1, c1), compress(i2, map(op.not_, c2))
''',
'''    p1, p2 = tee(zip(iterable, condition))
    return (x for x, c in p1 if c), (x for x, c in p2 if not c)
'''), (
'''    deque(iterable, maxlen=0)
''',
'''    for _ in iterable:
        pass
''')], '', '')

seed('R-parse', 'C19', P, [(
'''    if parse_keys:
        def parse_tuple(key: str, value: str) -> Tuple[Any, Any]:
            return try_parse(key), try_parse(value)
    else:
        def parse_tuple(key: str, value: str) -> Tuple[Any, Any]:
            return key, try_parse(value)
''',
'''    def parse_tuple(key: Any, value: Any) -> Tuple[Any, Any]:
        if parse_keys:
            key = try_parse(key)
        return key, try_parse(value)
'''), (
'''            try:
                k, v = pair.split(sep, 1)
            except ValueError as e:
                raise ValueError(f"{pair} is not like KEY{sep}VALUE") from e
            return parse_tuple(k, v)
''',
'''            k, found, v = pair.partition(sep)
            if not found:
                raise ValueError(f"{pair} is not like KEY{sep}VALUE")
            return parse_tuple(k, v)
'''), (
'''    return dict(map(parse_pair, items))
''',
'''    return {k: v for k, v in [parse_pair(item) for item in items]}
'''), (
'''    try:
        items = items.items()  # type: ignore
    except AttributeError:
        pass
''',
'''    if hasattr(items, 'items'):
        items = items.items()
''')], '', '')
