# further behaviour-preserving rewrites (must stay quiet)
seed('S-cache-helper', 'C05', A, [('''                try:
                    # Try to get the loop + event of the loop currently
                    # caching the value
                    caching_loop, event = events[key]
                    if (caching_loop.is_closed()
                            or not caching_loop.is_running()):
                        raise KeyError  # Invalidate loop
                except KeyError:
                    # No existing event -> this task is going to cache
                    # the value and provide an event for others to wait
                    caching_loop = aio.get_running_loop()
                    event = aio.Event()
                    events[key] = caching_loop, event
                    do_caching = True
                else:
                    do_caching = False  # Need to wait for other loop
''', '''                current = events.get(key)
                do_caching = current is None or not _is_alive(current[0])
                if do_caching:
                    current = events[key] = running_loop, aio.Event()
                assert current is not None
                caching_loop, event = current
'''), ('''_CacheMap = MutableMapping[Tuple[Any, ...], Any]
''', '''def _is_alive(loop: aio.AbstractEventLoop) -> bool:
    return loop.is_running() and not loop.is_closed()


_CacheMap = MutableMapping[Tuple[Any, ...], Any]
''')], '', '')
seed('S-cache-finally', 'C06', A, [('''                try:
                    result = await _func(*args, **kwargs)
                except Exception:
                    raise  # Bubble any errors without caching
                else:
                    _cache[key] = result  # Cache for other tasks
                finally:
                    with event_making_lock:
                        # Wake up any waiting tasks
                        event.set()
                        # Allow garbage collection and/or another loop
                        # to take over caching if this failed, unless
                        # one already did because this loop stopped
                        if events.get(key) == (caching_loop, event):
                            del events[key]
                return result
''', '''                try:
                    result = _cache[key] = await _func(*args, **kwargs)
                    return result
                finally:
                    with event_making_lock:
                        mine = events.get(key)
                        if mine is not None and mine[1] is event:
                            events.pop(key)
                        event.set()
''')], '', '')
seed('S-cache-wait', 'C05', A, [('''            waiter = aio.create_task(aio.wait_for(wait_event, 60))
''', '''            limit = 60.0
            waiter = aio.ensure_future(aio.wait_for(wait_event, timeout=limit))
'''), ('''            # Avoid locking during this first check for performance
            try:  # to get the value from the cache
                return _cache[key]
            except KeyError:
                pass

            # Need to calculate''', '''            # Need to calculate''')], '', '')
seed('S-buffer-inner', 'C03', A, [('''        done = False
        while not done:
            # Get all the input generators currently in the queue
            input_gens.extend(map(_load_inputs, self._empty_queue()))
''', '''        while True:
            # Get all the input generators currently in the queue
            for it in self._empty_queue():
                input_gens.append(_load_inputs(it))
'''), ('''                done, = await aio.gather(self._run_func(inputs))
            else:''', '''                task = self.loop.create_task(self._run_func(inputs))
                if (await aio.gather(task))[0]:
                    return
            else:'''), ('''            if inputs:  # Could be empty if all empty iterators
                # Pass a copy to not lose any if it is modified
                await self.func(set(inputs))
''', '''            if not inputs:  # All empty iterators
                self.event.set()
                return True
            # Pass a copy to not lose any if it is modified
            await self.func(inputs.copy())
''')], '', '')
seed('S-buffer-put', 'C07', A, [('''        self.event.clear()
        self.loop.call_soon_threadsafe(self.q.put_nowait, iterable)
''', '''        def _enqueue() -> None:
            self.q.put_nowait(iterable)

        self.event.clear()
        self.loop.call_soon_threadsafe(_enqueue)
'''), ('''        await self.loop.create_task(self.q.join())
        if cancel and self._getting and not self._getting.done():
''', '''        joined = self.loop.create_task(self.q.join())
        await joined
        if cancel and self._getting is not None and not self._getting.done():
'''), ('''        while True:
            try:
                yield self.q.get_nowait()
            except aio.QueueEmpty:
                break
            else:
                self.q.task_done()
''', '''        while not self.q.empty():
            yield self.q.get_nowait()
            self.q.task_done()
''')], '', '')
seed('S-buffer-timer', 'C08', A, [('''        return self.loop.create_task(aio.wait_for(coro, self.timeout))
''', '''        async def _limited() -> X:
            async with aio.timeout(self.timeout):
                return await coro

        return self.loop.create_task(_limited())
''')], '', '')
seed('S-batcher-call', 'C11', A, [('''        fut: 'aio.Future[R_co]'

        try:
            fut = self._retention_cache[key]
        except KeyError:
            pass
        else:
            return await aio.shield(fut)

        fut = self._retention_cache[key] = self._loop.create_future()
        # The future decides when it is forgotten, not this caller which
        # can be cancelled while others are still waiting
        fut.add_done_callback(partial(self._on_done, key))
        await self._queue.put((key, arg, fut))

        # The future is shared, so cancelling this caller can't cancel it
        return await aio.shield(fut)
''', '''        fut = self._retention_cache.get(key)
        if fut is None:
            fut = self._submit(key, arg)
        # The future is shared, so cancelling this caller can't cancel it
        return await aio.shield(fut)

    def _submit(self, key: str, arg: A_contra) -> 'aio.Future[R_co]':
        fut: 'aio.Future[R_co]' = self._loop.create_future()
        self._retention_cache[key] = fut
        fut.add_done_callback(lambda f: self._on_done(key, f))
        self._queue.put_nowait((key, arg, fut))
        return fut
'''), ('''        if self.retention_timeout > 0:
            self._loop.call_later(
                self.retention_timeout,
                self._retention_cache.pop,
                key,
            )
        else:
            del self._retention_cache[key]
''', '''        if self.retention_timeout <= 0:
            self._retention_cache.pop(key, None)
            return
        self._loop.call_at(self._loop.time() + self.retention_timeout,
                           lambda: self._retention_cache.pop(key, None))
''')], '', '')
seed('S-batcher-collect', 'C10', A, [('''            try:
                tasks.extend(islice(
                    iter(q.get_nowait, object()),
                    self.max_batch_size - len(tasks),
                ))
            except AioQueueEmpty:
                pass
            else:
                continue
''', '''            if not q.empty():
                tasks.append(q.get_nowait())
                continue
''')], '', '')
seed('S-batcher-process', 'C04', A, [('''        args = [t[:2] for t in tasks]
        futs = {k: f for k, _, f in tasks}

        try:''', '''        args, futs = [], {}
        for k, arg, f in tasks:
            args.append((k, arg))
            futs[k] = f

        try:'''), ('''        if futs:
            logger.error("Missing outputs for %d futures", len(futs))
            for key, fut in futs.items():
                fut.set_exception(ValueError(f"Missing result for {key!r}"))
''', '''        if not futs:
            return
        logger.error("Missing outputs for %d futures", len(futs))
        while futs:
            key, fut = futs.popitem()
            fut.set_exception(ValueError("Missing result for %r" % (key,)))
''')], '', '')
seed('S-flock-loop', 'C12', F, [('''            while True:
                _logger.debug('Attempting to acquire lock %s on %s', lid, fn)
                self._acquire(block=blocking and timeout < 0)

                if self.is_locked:
                    _logger.info('Lock %s acquired on %s', lid, fn)
                    break
                elif not blocking:
                    _logger.debug('Failed to acquire lock %s on %s', lid, fn)
                    _cleanup_thread_lock()
                    return False
                elif 0 <= timeout < time.time() - start_time:
                    _logger.debug('Timeout on acquiring lock %s on %s', lid, fn)
                    _cleanup_thread_lock()
                    return False
                else:
                    _logger.debug(
                        'Lock %s not acquired on %s, waiting %s seconds ...',
                        lid, fn, poll_interval,
                    )
                    time.sleep(poll_interval)
        except:  # noqa
            _logger.exception("Failed to acquire lock %s on %s", lid, fn)
            _cleanup_thread_lock()
            raise

        return True
''', '''            forever = blocking and timeout < 0
            self._acquire(block=forever)
            while not self.is_locked:
                elapsed = time.time() - start_time
                if not blocking or not forever and elapsed > timeout:
                    _logger.debug('Failed to acquire lock %s on %s', lid, fn)
                    break
                time.sleep(poll_interval)
                self._acquire(block=forever)
        except BaseException:
            _logger.exception("Failed to acquire lock %s on %s", lid, fn)
            _cleanup_thread_lock()
            raise

        if self.is_locked:
            return True
        _cleanup_thread_lock()
        return False
''')], '', '')
seed('S-flock-release', 'C12', F, [('''        if not self.is_locked:
            return

        # A forced''', '''        if self._lock_file_fd is None:
            return

        # A forced'''), ('''        try:
            for _ in range(levels):
                self._thread_lock.release()
        except RuntimeError:  # not reentrant and already unlocked
            pass
''', '''        with contextlib.suppress(RuntimeError):
            while levels > 0:
                self._thread_lock.release()
                levels -= 1
'''), ('''        self._lock_counter = max(0, self._lock_counter - 1)
''', '''        if self._lock_counter > 0:
            self._lock_counter -= 1
'''), ('''        if not self.acquire(blocking, timeout, poll_interval):
            raise TimeoutError("Failed to acquire file lock:", self._lock_file)
        try:
            yield
        finally:
            self.release()
''', '''        acquired = self.acquire(blocking, timeout, poll_interval)
        if not acquired:
            raise TimeoutError("Failed to acquire file lock:", self._lock_file)
        with contextlib.ExitStack() as stack:
            stack.callback(self.release)
            yield
''')], '', '')
seed('S-flock-acq', 'C02', F, [('''        try:
            self._lock(fd, block)
        except (IOError, OSError):
            os.close(fd)
        except:  # noqa
            os.close(fd)
            raise
        else:
            self._lock_file_fd = fd
''', '''        locked = False
        try:
            self._lock(fd, block)
            locked = True
        except OSError:
            pass
        finally:
            if locked:
                self._lock_file_fd = fd
            else:
                os.close(fd)
''')], '', '')
seed('S-xloop-run', 'C17', A, [('''        while not waiter.done():
            if not loop.is_running() and (runner is None or runner.done()):
                if loop.is_closed():
                    raise RuntimeError("Target loop is closed!")
                runner = main_loop.run_in_executor(_CROSS_LOOP_POOL,
                                                   _loop_thread)
            await aio.wait([waiter], timeout=0.05)
    finally:
        waiter.cancel()
    return _get_outcome(waiter.result())
''', '''        while True:
            if waiter.done():
                return _get_outcome(waiter.result())
            idle = not loop.is_running()
            if idle and (runner is None or runner.done()):
                if loop.is_closed():
                    raise RuntimeError("Target loop is closed!")
                runner = aio.wrap_future(_CROSS_LOOP_POOL.submit(_loop_thread))
            await aio.wait({waiter}, timeout=0.05)
    finally:
        waiter.cancel()
''')], '', '')
seed('S-bridge-async', 'C16', A, [('''    def _queue_elements() -> None:
        try:
            for x in iterable:
                if abandoned:
                    break
                put(x)
        finally:
            put(_DONE)

    q:''', '''    def _queue_elements() -> None:
        try:
            it = iter(iterable)
            while not abandoned:
                try:
                    x = next(it)
                except StopIteration:
                    break
                put(x)
        finally:
            put(_DONE)

    q:'''), ('''        while (i := await q.get()) is not _DONE:
            yield i  # type: ignore
''', '''        while True:
            i = await q.get()
            if i is _DONE:
                break
            yield i  # type: ignore
''')], '', '')
seed('S-bridge-sync', 'C16', A, [('''    with ThreadPoolExecutor(1) as pool:
        future = pool.submit(_set_loop_and_queue_elements, loop)
        try:
            while (i := q.get()) is not _DONE:
                yield i
        finally:
            _raise_exc_of(future)
''', '''    with ThreadPoolExecutor(max_workers=1) as pool:
        future = pool.submit(_set_loop_and_queue_elements, loop)
        try:
            i = q.get()
            while i is not _DONE:
                yield i
                i = q.get()
        finally:
            _raise_exc_of(future)
''')], '', '')
seed('S-gather', 'C20', A, [('''    for fut in map(futs.__getitem__, map(id, aws)):
        res = aio.CancelledError() if fut.cancelled() else fut.exception()
        if isinstance(res, only):
            yield res
''', '''    for aw in aws:
        fut = futs[id(aw)]
        if fut.cancelled():
            res: Optional[BaseException] = aio.CancelledError()
        else:
            res = fut.exception()
        if res is None or not isinstance(res, only):
            continue
        yield res
''')], '', '')
seed('S-split', 'C18', I, [('''    if callable(condition):
        iterable, ci = tee(iterable)
        condition = map(condition, ci)
    i1, i2 = tee(iterable)
    c1, c2 = tee(condition)
    return compress(i1, c1), compress(i2, map(op.not_, c2))
''', '''    if callable(condition):
        iterable, ci = tee(iterable)
        predicate = condition
        condition = (predicate(x) for x in ci)
    where_true, where_false = zip(tee(iterable), tee(condition))
    data, selectors = where_false
    return compress(*where_true), compress(data, (not s for s in selectors))
''')], '', '')
seed('S-parse', 'C19', P, [('''        if isinstance(pair, str):
            try:
                k, v = pair.split(sep, 1)
            except ValueError as e:
                raise ValueError(f"{pair} is not like KEY{sep}VALUE") from e
            return parse_tuple(k, v)
        return parse_tuple(*pair)

    try:
        items = items.items()  # type: ignore
    except AttributeError:
        pass

    return dict(map(parse_pair, items))
''', '''        if isinstance(pair, str):
            parts = pair.split(sep, 1)
            if len(parts) != 2:
                raise ValueError(f"{pair} is not like KEY{sep}VALUE")
            pair = (parts[0], parts[1])
        key, value = pair
        return parse_tuple(key, value)

    if hasattr(items, 'items'):
        items = items.items()

    result = {}
    for item in items:
        k, v = parse_pair(item)
        result[k] = v
    return result
''')], '', '')
