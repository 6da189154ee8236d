# seventh independent hunt
seed('H01-popfail', 'C01', A, [('''                except Exception:
                    raise  # Bubble any errors without caching
''', '''                except Exception:
                    _cache.pop(key, None)  # Never keep a stale value
                    raise  # Bubble any errors without caching
''')], 'the paused computation fails after another loop has stored', 'stored value lost, computed again')
seed('H05-haswaiters', 'C05', A, [('''                        event.set()
                        # Allow''', '''                        if event._waiters:
                            event.set()
                        # Allow''')], 'a waiter which has not yet begun to wait when it ends', 'waits for 60 s')
seed('H05-closedcheck', 'C05', A, [('''                    if (caching_loop.is_closed()
                            or not caching_loop.is_running()):
''', '''                    if (caching_loop is not running_loop
                            and caching_loop.is_closed()):
''')], 'loop not running and not closed', '60 s')
seed('H05-contreturn', 'C05', A, [('''                except RuntimeError:  # caching loop most likely closed
                    continue  # loop around and try again
''', '''                except RuntimeError:  # caching loop most likely closed
                    await aio.sleep(60)
                    continue  # loop around and try again
''')], 'loop closed between the check and the wait', 'waits')
seed('H06-base', 'C06', A, [('''                except Exception:
                    raise  # Bubble any errors without caching
                else:
                    _cache[key] = result  # Cache for other tasks
''', '''                except aio.TimeoutError:
                    result = None
                    raise
                except Exception:
                    raise  # Bubble any errors without caching
                else:
                    _cache.setdefault(key, result)  # Cache for other tasks
''')], 'equivalent?', 'first kept')
seed('H03-firstgen', 'C03', A, [('''            if input_gens:  # Load as many as possible concurrently
                await aio.gather(*input_gens)
                input_gens.clear()  # Clear processed input generators
''', '''            if input_gens:  # Load as many as possible concurrently
                loading = aio.gather(*input_gens)
                input_gens.clear()  # Clear processed input generators
                await aio.wait([loading, self._getting],
                               return_when=aio.FIRST_COMPLETED)
                if not loading.done() and self._getting.cancelled():
                    loading.cancel()
                else:
                    await loading
''')], 'the get is cancelled while producers are slow', 'lost')
seed('H03-setafter', 'C03', A, [('''            except (aio.TimeoutError, aio.CancelledError):
                done, = await aio.gather(self._run_func(inputs))
''', '''            except (aio.TimeoutError, aio.CancelledError):
                done, = await aio.gather(self._run_func(inputs))
                if not done and self.event.is_set():
                    done = True
''')], 'equivalent?', '')
seed('H07-evclear', 'C07', A, [('''        self.event.clear()
        self.loop.call_soon_threadsafe(self.q.put_nowait, iterable)
''', '''        def put() -> None:
            self.event.clear()
            self.q.put_nowait(iterable)

        self.loop.call_soon_threadsafe(put)
''')], 'wait() right after a submission', 'returns early')
seed('H07-joinlast', 'C07', A, [('''        await self.event.wait()

    async def wait_from''', '''        if self._getting is not None:
            await self.event.wait()

    async def wait_from''')], 'very first submission, wait at once', 'early')
seed('H08-nogap', 'C08', A, [('''            else:
                await aio.gather(_load_inputs(next_iterable))
                self.q.task_done()
''', '''            else:
                input_gens.append(_load_inputs(next_iterable))
                self.q.task_done()
''')], 'wait counts', 'wait returns? task_done before loaded')
seed('H08-loadfirst', 'C08', A, [('''            self._getting = self._schedule_with_timeout(self.q.get())
            if input_gens:  # Load as many as possible concurrently
                await aio.gather(*input_gens)
                input_gens.clear()  # Clear processed input generators
''', '''            if input_gens:  # Load as many as possible concurrently
                await aio.gather(*input_gens)
                input_gens.clear()  # Clear processed input generators
            self._getting = self._schedule_with_timeout(self.q.get())
''')], 'slow producer', 'deadline moves')
seed('H10-timeoutonce', 'C10', A, [('''            try:
                tasks.append(await aio.wait_for(q.get(), self.batch_timeout))
            except AioTimeoutError:  # No more tasks coming
                break
''', '''            try:
                tasks.append(await aio.wait_for(q.get(), self.batch_timeout))
            except AioTimeoutError:  # No more tasks coming
                if self._semaphore.locked():
                    continue
                break
''')], 'slots are busy', 'batch not ready when slot frees')
seed('H10-islice', 'C10', A, [('''                tasks.extend(islice(
                    iter(q.get_nowait, object()),
                    self.max_batch_size - len(tasks),
                ))
''', '''                n = self.max_batch_size - len(tasks)
                tasks.extend(islice(
                    iter(q.get_nowait, object()),
                    n if q.qsize() >= n else n + 1,
                ))
''')], 'equivalent?', '')
seed('H04-futs', 'C04', A, [('''                    del futs[key]  # Only once answered
''', '''                    if fut.done():
                        del futs[key]  # Only once answered
                    if not futs:
                        break  # All of them are answered
''')], 'code after the last yield of the batch function', 'exception/late extra yields not noticed (allowed?)')
seed('H04-earlyret', 'C10', A, [('''                    del futs[key]  # Only once answered
''', '''                    del futs[key]  # Only once answered
                    if not futs:
                        break  # All of them are answered
''')], 'batch function works on after the last yield', 'slot is free although it still runs')
seed('H11-batchkey', 'C11', A, [('''        if self.retention_timeout > 0:
            self._loop.call_later(
                self.retention_timeout,
                self._retention_cache.pop,
                key,
            )
''', '''        if self.retention_timeout > 0:
            self._loop.call_later(
                max(self.retention_timeout, self.batch_timeout),
                self._retention_cache.pop,
                key,
            )
''')], 'retention shorter than batch timeout', 'window too long')
seed('H09-shieldless', 'C09', A, [('''        else:
            return await aio.shield(fut)
''', '''        else:
            while not fut.done():
                await aio.wait([fut], timeout=60)
            return fut.result()
''')], 'equivalent', '')
seed('H09-firstonly', 'C09', A, [('''        # The future is shared, so cancelling this caller can't cancel it
        return await aio.shield(fut)
''', '''        # The future is shared, so cancelling this caller can't cancel it
        try:
            return await aio.shield(fut)
        except aio.CancelledError:
            if self._queue.empty() and not self._semaphore.locked():
                self._retention_cache.pop(key, None)
            raise
''')], 'first caller is cancelled, another one calls', 'computed twice / KeyError')
seed('H12-reopen', 'C12', F, [('''        # A forced release also gives back every level of an RLock
        levels = self._lock_counter if force and self._reentrant else 1
''', '''        # A forced release also gives back every level of an RLock
        levels = self._lock_counter if force else 1
''')], 'non-reentrant: counter 1', 'equivalent?')
seed('H12-ctxblock', 'C12', F, [('''        if not self.acquire(blocking, timeout, poll_interval):
            raise TimeoutError("Failed to acquire file lock:", self._lock_file)
        try:
            yield
        finally:
            self.release()
''', '''        locked = self.is_locked
        if not self.acquire(blocking, timeout, poll_interval):
            raise TimeoutError("Failed to acquire file lock:", self._lock_file)
        try:
            yield
        finally:
            if not locked:
                self.release()
''')], 'nested acquire_ctx', 'a level is never released')
seed('H12-timeout0', 'C12', F, [('''            timeout = self.timeout if blocking else -1
        else:
            blocking = blocking if timeout < 0 else True
''', '''            timeout = self.timeout if blocking else -1
        elif not timeout:
            blocking = False
            timeout = -1
        else:
            blocking = blocking if timeout < 0 else True
''')], 'equivalent?', '')
seed('H02-trunc', 'C02', F, [('''    def _unlock(self, fd: int) -> None:
        fcntl.flock(fd, fcntl.LOCK_UN)
''', '''    def _unlock(self, fd: int) -> None:
        os.close(os.dup(fd))
        fcntl.flock(fd, fcntl.LOCK_UN)
''')], 'equivalent', '')
seed('H02-replace', 'C02', F, [('''        try:
            fd = os.open(self._lock_file, self._FD_OPEN_MODE)
        except OSError:
            return
''', '''        try:
            fd = os.open(self._lock_file, self._FD_OPEN_MODE)
        except PermissionError:
            try:  # Left over by another user
                os.unlink(self._lock_file)
                fd = os.open(self._lock_file, self._FD_OPEN_MODE)
            except OSError:
                return
        except OSError:
            return
''')], 'open fails with EACCES/EPERM once while another one holds', 'two holders')
seed('H13-stale', 'C13', F, [('''        try:
            fd = os.open(self._lock_file, self._FD_OPEN_MODE)
        except OSError:
            return
        try:
            self._lock(fd, block)
''', '''        try:
            fd = os.open(self._lock_file, self._FD_OPEN_MODE)
        except OSError:
            return
        try:
            if os.get_inheritable(fd) is False and block:
                while True:
                    try:
                        self._lock(fd, False)
                        break
                    except BlockingIOError:
                        time.sleep(0.2)
            self._lock(fd, block)
''')], 'equivalent-ish', '')
seed('H16-tsit', 'C16', A, [('''    with ThreadPoolExecutor(1) as pool:
        future = pool.submit(_set_loop_and_queue_elements, loop)
''', '''    with ThreadPoolExecutor(1) as pool:
        if loop.is_running():
            future = run_coro_ts(_queue_elements(), loop)
        else:
            future = pool.submit(_set_loop_and_queue_elements, loop)
''')], 'a running loop was an error', 'works instead (fine?)')
seed('H16-doneobj', 'C16', A, [('''        while (i := await q.get()) is not _DONE:
            yield i  # type: ignore
    except BaseException:
''', '''        while (i := await q.get()) != _DONE:
            yield i  # type: ignore
    except BaseException:
''')], 'an element whose comparison is odd', 'ends early/raises')
seed('H16-cond', 'C16', A, [('''    if not isinstance(iterable, Iterator):
        for x in iterable:
            yield x
        return
''', '''    if isinstance(iterable, (list, tuple, set, frozenset, dict, range)):
        for x in list(iterable):
            yield x
        return
    iterable = iter(iterable)
''')], 'a list which grows while it is read', 'late elements missing')
seed('H17-cancelinner', 'C17', A, [('''    finally:
        waiter.cancel()
    return _get_outcome(waiter.result())
''', '''    except aio.CancelledError:
        future.cancel()
        raise
    finally:
        if waiter.done():
            waiter.cancel()
    return _get_outcome(waiter.result())
''')], 'equivalent-ish', '')
seed('H17-oncepoll', 'C17', A, [('''                if loop.is_closed():
                    raise RuntimeError("Target loop is closed!")
                runner = main''', '''                if loop.is_closed() or runner is not None and (
                        runner.exception() is not None):
                    raise RuntimeError("Target loop is closed!")
                runner = main''')], 'equivalent', '')
seed('H17-onlyonce', 'C17', A, [('''            if not loop.is_running() and (runner is None or runner.done()):
''', '''            if not loop.is_running() and runner is None:
''')], 'the loop is stopped twice', 'hangs')
seed('H18-lazy', 'C18', I, [('''    i1, i2 = tee(iterable)
    c1, c2 = tee(condition)
    return compress(i1, c1), compress(i2, map(op.not_, c2))
''', '''    i1, i2 = tee(iterable)
    c1, c2 = tee(condition)
    return compress(i1, c1), (x for x, c in zip(i2, c2) if not c)
''')], 'condition shorter', 'takes one more item; later data differ')
seed('H18-notis', 'C18', I, [('''compress(i2, map(op.not_, c2))''', '''compress(i2, (c is False or not c for c in c2))''')],
     'an exception in bool / generator', 'generator ends after an error')
seed('H19-bytestr', 'C19', P, [('''    try:
        items = items.items()  # type: ignore
    except AttributeError:
        pass
''', '''    if isinstance(items, Mapping):
        items = items.items()
''')], 'a mapping which is not registered', 'iterates the keys')
seed('H19-order', 'C19', P, [('''    return dict(map(parse_pair, items))
''', '''    result: Dict[Any, Any] = {}
    for k, v in map(parse_pair, items):
        if k in result:
            del result[k]  # The last one counts
        result[k] = v
    return result
''')], 'repeated keys', 'order / key object')
seed('H20-listonce', 'C20', A, [('''    await aio.gather(*futs.values(), return_exceptions=True)
''', '''    await aio.wait(futs.values(), return_when=aio.ALL_COMPLETED) if futs else None
''')], 'cancelled while gathering: others are not cancelled', '?')
seed('H20-first', 'C20', A, [('''        if isinstance(res, only):
            yield res
''', '''        if res is not None and issubclass(type(res), only):
            yield res
''')], 'class attribute __class__', 'isinstance vs type')
seed('H14-kwonly', 'C14', A, [('''        key = args, frozenset(kwargs.items())
''', '''        key = (args, frozenset(kwargs.items())) if kwargs else (args, ())
''')], 'own mapping with documented keys?', 'equivalent inside')
seed('H14-typed', 'C14', A, [('''        key = args, frozenset(kwargs.items())
''', '''        key = args, frozenset(kwargs.items()), tuple(map(type, args))
''')], '1 and 1.0', 'computed twice?')
seed('H15-wrapcache', 'C15', A, [('''            threadsafe_async_cache,
            cache=cache,
        )
''', '''            threadsafe_async_cache,
            cache=cache or None,
        )
''')], 'an empty mapping as option', 'own mapping not used')
