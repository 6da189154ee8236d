# fifth independent hunt: rewrites and cooperating sites rather than single lines
seed('F01-keylock', 'C01', A, [('''    events: Dict[Tuple[Any, ...], Tuple[aio.AbstractEventLoop, aio.Event]] = {}
    # Ensure thread safety while creating events
    event_making_lock = Lock()
''', '''    events: Dict[Tuple[Any, ...], Tuple[aio.AbstractEventLoop, aio.Event]] = {}
    # Ensure thread safety while creating events, one lock per key
    event_making_locks: Dict[Any, Any] = {}
'''), ('''        running_loop = aio.get_running_loop()

        while True:
            # Avoid''', '''        running_loop = aio.get_running_loop()

        while True:
            event_making_lock = event_making_locks.setdefault(key, Lock())
            # Avoid'''), ('''                            del events[key]
''', '''                            del events[key]
                            event_making_locks.pop(key, None)
''')], 'third caller between', 'two at once')
seed('F05-count', 'C05', A, [('''                        event.set()
''', '''                        if waiting.pop(key, 0):
                            event.set()
'''), ('''    # Ensure thread safety while creating events
''', '''    # Number of tasks waiting per key
    waiting: Dict[Any, int] = {}
    # Ensure thread safety while creating events
'''), ('''            wait_event: Awaitable[bool] = event.wait()
''', '''            waiting[key] = waiting.get(key, 0) + 1
            wait_event: Awaitable[bool] = event.wait()
''')], 'the computation ends between decision and registration', 'waits for 60 s')
seed('F05-soon', 'C05', A, [('''                        event.set()
''', '''                        caching_loop.call_soon(event.set)
''')], 'loop closes right after the computation', 'waiters sleep')
seed('F06-recheck', 'C06', A, [('''                except Exception:
                    raise  # Bubble any errors without caching
''', '''                except Exception:
                    if key in _cache:  # Another loop was faster
                        return _cache[key]
                    raise  # Bubble any errors without caching
''')], 'loop taken over', 'nothing?')
seed('F06-store-cancel', 'C06', A, [('''                    result = await _func(*args, **kwargs)
                except Exception:
                    raise  # Bubble any errors without caching
''', '''                    task = aio.ensure_future(_func(*args, **kwargs))
                    result = await aio.shield(task)
                except aio.CancelledError:
                    task.cancel()
                    await aio.wait([task])
                    raise
                except Exception:
                    raise  # Bubble any errors without caching
''')], 'func', 'nothing?')
seed('F12-except', 'C12', F, [('''        except:  # noqa
            _logger.exception("Failed to acquire lock %s on %s", lid, fn)
            _cleanup_thread_lock()
            raise
''', '''        except Exception:
            _logger.exception("Failed to acquire lock %s on %s", lid, fn)
            _cleanup_thread_lock()
            raise
''')], 'KeyboardInterrupt while polling', 'thread lock kept')
seed('F12-fdleak', 'C12', F, [('''        except (IOError, OSError):
            os.close(fd)
        except:  # noqa
            os.close(fd)
            raise
''', '''        except (IOError, OSError):
            os.close(fd)
''')], 'KeyboardInterrupt while locking', 'still locked by leaked fd')
seed('F12-del', 'C12', F, [('''    def __del__(self) -> None:
        self.release(force=True)
''', '''    def __del__(self) -> None:
        self.release()
''')], 'reentrant lock collected while held twice', 'fd leaked')
seed('F12-forceone', 'C12', F, [('''        levels = self._lock_counter if force and self._reentrant else 1

        self._decrement_lock_counter()
''', '''        levels = self._lock_counter if force else 1

        self._decrement_lock_counter()
'''), ('''            for _ in range(levels):
                self._thread_lock.release()
''', '''            self._thread_lock.release()
            for _ in range(levels - 1):
                self._thread_lock.release()
''')], 'nothing', 'nothing')
seed('F12-enter', 'C12', F, [('''        if not self.acquire():
            raise TimeoutError("Failed to acquire file lock:", self._lock_file)
        return self
''', '''        self.acquire()
        if not self.is_locked:
            raise TimeoutError("Failed to acquire file lock:", self._lock_file)
        return self
''')], 'another thread holds the same object', 'enters without the lock')
seed('F02-islocked', 'C02', F, [('''        if self.is_locked:
            return True

        start_time''', '''        if self.is_locked and self._reentrant:
            return True

        start_time''')], 'release fails', 'x')
seed('F02-lockf', 'C02', F, [('fcntl.flock(fd,  fcntl.LOCK_EX | (0 if block else fcntl.LOCK_NB))', 'fcntl.lockf(fd,  fcntl.LOCK_EX | (0 if block else fcntl.LOCK_NB))'),
 ('fcntl.flock(fd, fcntl.LOCK_UN)', 'fcntl.lockf(fd, fcntl.LOCK_UN)')], 'two objects in one process', 'no exclusion')
seed('F03-atomic', 'C03', A, [('''                async for i in iterable:
                    inputs.add(i)
''', '''                inputs.update([i async for i in iterable])
''')], 'producer failing after some', 'elements lost')
seed('F03-slowprod', 'C03', A, [('''                await aio.gather(*input_gens)
                input_gens.clear()''', '''                await aio.wait(list(map(aio.ensure_future, input_gens)), timeout=60)
                input_gens.clear()''')], 'producer slower than 60 s', 'run with half / duplicated')
seed('F03-doneflag', 'C03', A, [('''        done = False
        while not done:
''', '''        done = False
        while not (done and self.event.is_set()):
''')], 'submission from the function', 'repeated')
seed('F07-early', 'C07', A, [('''        # Process all queued tasks
        # Create a task''', '''        if self.event.is_set():
            return
        # Process all queued tasks
        # Create a task''')], 'waits after completion before next', 'returns early')
seed('F07-notask', 'C07', A, [('''            await aio.sleep(0)
            self._getting.cancel()
''', '''            getting = self._getting
            await aio.sleep(0)
            getting.cancel()
''')], 'getting replaced in between', 'wait takes the timeout')
seed('F07-noclear', 'C07', A, [('''            self.event.clear()  # Ensure cleared in case previous cancel
''', ''), ], 'two submissions, wait during', 'returns early')
seed('F08-restart', 'C08', A, [('''                done, = await aio.gather(self._run_func(inputs))
            else:''', '''                if inputs or not self.q.empty():
                    done, = await aio.gather(self._run_func(inputs))
                else:
                    self.event.set()
                    done = True
            else:''')], 'nothing?', 'x')
seed('F08-twice', 'C08', A, [('''                done, = await aio.gather(self._run_func(inputs))
            else:''', '''                done, = await aio.gather(self._run_func(inputs))
                if not done:
                    await aio.sleep(self.timeout)
            else:''')], 'failing function', 'late retry')
seed('F09-newfut', 'C09', A, [('''            fut = self._retention_cache[key]
        except KeyError:
            pass
        else:
            return await aio.shield(fut)
''', '''            fut = self._retention_cache[key]
        except KeyError:
            pass
        else:
            await aio.wait([fut])
            return fut.result()
''')], 'nothing?', 'x')
seed('F09-lastwaiter', 'C09', A, [('''        # The future is shared, so cancelling this caller can't cancel it
        return await aio.shield(fut)
''', '''        # The future is shared, so cancelling this caller can't cancel it
        try:
            return await aio.shield(fut)
        except aio.CancelledError:
            if not fut.done() and not fut._callbacks[1:]:
                self._retention_cache.pop(key, None)  # Nobody is interested
            raise
''')], 'caller cancelled then a new one before the batch ends', 'twice / KeyError')
seed('F10-slotfirst', 'C10', A, [('''            tasks = await self._get_next_batch()
            # Don't wait''', '''            tasks = await self._get_next_batch()
            while self._semaphore.locked():
                await aio.sleep(self.batch_timeout)
            # Don't wait''')], 'slots taken', 'late')
seed('F10-fill', 'C10', A, [('''                break
        return tasks
''', '''                break
            if self._semaphore.locked():
                continue
        return tasks
''')], 'nothing', 'x')
seed('F10-oldest', 'C10', A, [('''            try:
                tasks.append(await aio.wait_for(q.get(), self.batch_timeout))
''', '''            try:
                tasks.append(await aio.wait_for(
                    q.get(), max(self.batch_timeout / (1 + len(tasks) // 64),
                                 self.batch_timeout / 4)))
''')], '64 items', 'split early')
seed('F11-clear', 'C11', A, [('''            self._loop.call_later(
                self.retention_timeout,
                self._retention_cache.pop,
                key,
            )
''', '''            if len(self._retention_cache) == 1:
                self._loop.call_later(
                    self.retention_timeout,
                    self._retention_cache.clear,
                )
            else:
                self._loop.call_later(
                    self.retention_timeout,
                    self._retention_cache.pop,
                    key, None,
                )
''')], 'other keys', 'forgotten early')
seed('F11-nested', 'C11', A, [('''        else:
            return await aio.shield(fut)

        fut = self._retention_cache[key]''', '''        else:
            if not fut.done() or self.retention_timeout > 0:
                return await aio.shield(fut)

        fut = self._retention_cache[key]''')], 'call made by task just answered', 'KeyError')
seed('F14-hash', 'C14', A, [('key = args, frozenset(kwargs.items())', 'key = args, tuple(sorted(kwargs.items(), key=lambda i: i[0].casefold()))')], 'A and a', 'order matters')
seed('F14-star', 'C14', A, [('key = args, frozenset(kwargs.items())', 'key = args + tuple(sorted(kwargs.items())) if kwargs else args'), ('''Dict[Tuple[Any, ...], Tuple[aio.A''', '''Dict[Any, Tuple[aio.A''')], 'positional pair', 'shared')
seed('F15-loopid', 'C15', A, [('            batcher = batchers[loop] = AsyncB', '            batchers.clear()\n            batcher = batchers[loop] = AsyncB')], 'two loops at once', 'x')
seed('F16-chunk', 'C16', A, [('''        finally:
            put(_DONE)  # type: ignore

    q: ''', '''            else:
                put(_DONE)  # type: ignore
        except Exception:
            put(_DONE)  # type: ignore
            raise

    q: ''')], 'base exception', 'hang')
seed('F17-norunner', 'C17', A, [('if not loop.is_running() and (runner is None or runner.done()):', 'if not loop.is_running() and runner is None:')], 'borrowed loop ended early', 'never completes')
seed('F19-cache', 'C19', P, [('''    def try_parse(x: Any) -> Any:
        if isinstance(x, str):
            try:
                return parse(x)
            except:  # noqa
                pass
        return x
''', '''    seen: Dict[Any, Any] = {}

    def try_parse(x: Any) -> Any:
        if isinstance(x, str):
            try:
                if x not in seen:
                    seen[x] = parse(x)
                return seen[x]
            except:  # noqa
                pass
        return x
''')], 'same mutable literal twice', 'shared object')
seed('F19-maxsplit', 'C19', P, [('k, v = pair.split(sep, 1)', "k, found, v = pair.partition(sep)\n                if not (found and k):\n                    raise ValueError('no key')")], 'empty key', 'raises')
