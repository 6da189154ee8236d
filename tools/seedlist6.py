# sixth independent hunt
seed('G01-shield', 'C01', A, [('''                    result = await _func(*args, **kwargs)
''', '''                    result = await aio.shield(_func(*args, **kwargs))
''')], 'the computing caller is cancelled', 'the old invocation goes on beside the new one')
seed('G01-recheck-only-new', 'C01', A, [('''            with event_making_lock:
                try:  # verify nothing cached while waiting for lock
                    return _cache[key]
                except KeyError:
                    pass

                try:
''', '''            with event_making_lock:
                try:  # verify nothing cached while waiting for lock
                    if key not in events:
                        return _cache[key]
                except KeyError:
                    pass

                try:
'''), ('''                    if (caching_loop.is_closed()
                            or not caching_loop.is_running()):
                        raise KeyError  # Invalidate loop
''', '''                    if (caching_loop.is_closed()
                            or not caching_loop.is_running()):
                        del events[key]
                        raise KeyError  # Invalidate loop
''')], 'stored, loop stops before the marker is gone', 'second invocation')
seed('G05-stale-event', 'C05', A, [('''                        event.set()
                        # Allow''', '''                        if events.get(key, (None, event))[1] is event:
                            event.set()
                        # Allow''')], 'another loop took over while callers still wait', 'old waiters wait for 60 s')
seed('G05-nowake', 'C05', A, [('''            wait_event: Awaitable[bool] = event.wait()
            if running_loop is not caching_loop:''', '''            if event.is_set():
                await aio.sleep(0)
                continue
            wait_event: Awaitable[bool] = event.wait()
            if running_loop is not caching_loop:'''), ('''                    with event_making_lock:
                        # Wake up any waiting tasks
                        event.set()
''', '''                    # Wake up any waiting tasks
                    event.set()
                    with event_making_lock:
''')], 'equivalent?', 'spins')
seed('G06-lastexc', 'C06', A, [('''    # Ensure thread safety while creating events
    event_making_lock = Lock()
''', '''    # Ensure thread safety while creating events
    event_making_lock = Lock()
    failures: Dict[Any, Any] = {}
'''), ('''                except Exception:
                    raise  # Bubble any errors without caching
''', '''                except Exception as e:
                    failures[key] = failures.get(key, 0) + 1
                    if failures[key] > 8:  # Hopeless, don't compute again
                        _cache[key] = None
                    raise  # Bubble any errors without caching
''')], 'nine failures of a key', 'a failure is cached')
seed('G02-owner', 'C02', F, [('''        lid = id(self)
        fn = self._lock_file

        if not self._thread_lock''', '''        lid = id(self)
        fn = self._lock_file

        me = threading.get_ident()
        if self._reentrant and self.is_locked and self._owner == me:
            self._lock_counter += 1
            self._thread_lock.acquire(False)
            return True
        self._owner = me

        if not self._thread_lock'''), ('''        # The file descriptor for the''', '''        self._owner: Optional[int] = None

        # The file descriptor for the''')], 'second attempt of a thread while another one holds', 'two holders')
seed('G13-held', 'C13', F, [('''# All locks of this process, those held must be dropped after a fork
''', '''# Files which are locked by this process
_held: 'set[str]' = set()

# All locks of this process, those held must be dropped after a fork
'''), ('''            fd = os.open(self._lock_file, self._FD_OPEN_MODE)
        except OSError:
            return
''', '''            name = os.fsdecode(os.path.realpath(self._lock_file))
            if not block and name in _held:
                return
            fd = os.open(self._lock_file, self._FD_OPEN_MODE)
        except OSError:
            return
'''), ('''            self._lock_file_fd = fd

    def''', '''            self._lock_file_fd = fd
            _held.add(name)

    def'''), ('''        assert isinstance(fd, int)
        try:
            self._unlock(fd)
''', '''        assert isinstance(fd, int)
        _held.discard(os.fsdecode(os.path.realpath(self._lock_file)))
        try:
            self._unlock(fd)
''')], 'fork while held, timed or non-blocking acquire in the child', 'child never gets it')
seed('G12-remaining', 'C12', F, [('''        if not self._thread_lock.acquire(blocking, timeout):
            _logger.debug('Timeout on acquiring thread lock %s on %s', lid, fn)
            return False
''', '''        entered = time.time()
        if not self._thread_lock.acquire(blocking, timeout):
            _logger.debug('Timeout on acquiring thread lock %s on %s', lid, fn)
            return False
        if timeout > 0:  # What is left for the file lock
            timeout -= time.time() - entered
''')], 'thread lock acquired at the very end', 'waits without limit')
seed('G12-nested-fail', 'C12', F, [('''        def _cleanup_thread_lock() -> None:
            self._decrement_lock_counter()
            self._thread_lock.release()
''', '''        def _cleanup_thread_lock() -> None:
            self._lock_counter = 0
            self._thread_lock.release()
''')], 'equivalent?', '')
seed('G12-forcecount', 'C12', F, [('''        levels = self._lock_counter if force and self._reentrant else 1

        self._decrement_lock_counter()
''', '''        levels = min(self._lock_counter, 8) if force and self._reentrant else 1

        self._decrement_lock_counter()
''')], 'forced release of more than 8 levels', 'thread lock kept')
seed('G12-interrupt', 'C12', F, [('''        except:  # noqa
            os.close(fd)
            raise
        else:
            self._lock_file_fd = fd
''', '''        except KeyboardInterrupt:
            os.close(fd)
            raise
        else:
            self._lock_file_fd = fd
''')], 'SystemExit / other errors in lock', 'fd leak')
seed('G03-failkeep', 'C03', A, [('''            except BaseException:  # noqa
                logger.exception("Failed to get args from: %r", iterable)
''', '''            except aio.CancelledError:
                inputs.clear()  # Shutting down
                raise
            except BaseException:  # noqa
                logger.exception("Failed to get args from: %r", iterable)
''')], 'a producer raises CancelledError', 'lost')
seed('G03-cancel-get', 'C03', A, [('''            try:
                next_iterable = self._getting.result()
            except (aio.TimeoutError, aio.CancelledError):
''', '''            try:
                if not inputs and self._getting.cancelled():
                    self.event.set()
                    return
                next_iterable = self._getting.result()
            except (aio.TimeoutError, aio.CancelledError):
''')], 'equivalent?', '')
seed('G07-empty', 'C07', A, [('''        await self.loop.create_task(self.q.join())
''', '''        while not self.q.empty():
            await aio.sleep(0)
''')], 'submission and wait in one step while the function ends', 'early return')
seed('G07-failwait', 'C07', A, [('''            logging.exception("Failed to run %s, retrying", self.func)
            return False
''', '''            logging.exception("Failed to run %s, retrying", self.func)
            self._failures = getattr(self, '_failures', 0) + 1
            if self._failures % 4 == 0:
                self.event.set()  # Let others have a look
                self.event.clear()
            return False
''')], 'four failures while somebody waits', 'returns early')
seed('G08-coalesce', 'C08', A, [('''                await aio.gather(_load_inputs(next_iterable))
                self.q.task_done()
''', '''                await aio.gather(_load_inputs(next_iterable))
                self.q.task_done()
                if len(inputs) >= 5000:  # Don't let it grow without bounds
                    done, = await aio.gather(self._run_func(inputs))
''')], '5000 arguments', 'flushed early')
seed('G04-strkey', 'C04', A, [('''        futs = {k: f for k, _, f in tasks}
''', '''        futs = {k.strip(): f for k, _, f in tasks}
'''), ('''                    fut = futs[key]
''', '''                    key = key.strip()
                    fut = futs[key]
''')], 'keys which differ in spaces only', 'wrong outcomes')
seed('G04-casefold', 'C11', A, [('''            key = str(arg)

        fut: ''', '''            key = str(arg)
        key = key[:255]

        fut: ''')], 'very long keys with a common start', 'share outcomes')
seed('G09-waitcancel', 'C09', A, [('''        await self._queue.put((key, arg, fut))

        # The future is shared, so cancelling this caller can't cancel it
        return await aio.shield(fut)
''', '''        await self._queue.put((key, arg, fut))

        # The future is shared, so cancelling this caller can't cancel it
        try:
            return await aio.shield(fut)
        except aio.CancelledError:
            if self._queue.qsize() == 1:  # Nobody else, forget it
                self._queue.get_nowait()
                self._retention_cache.pop(key, None)
                fut.remove_done_callback(self._on_done)
            raise
''')], 'cancelled while exactly one item is queued and batches are full', 'others lost')
seed('G10-yield', 'C10', A, [('''            tasks = await self._get_next_batch()
            # Don't wait for the current batch to finish
''', '''            tasks = await self._get_next_batch()
            if len(tasks) < self.max_batch_size and self._semaphore.locked():
                # It has to wait anyway, so there is time to fill it
                while (len(tasks) < self.max_batch_size
                       and self._semaphore.locked()):
                    tasks.append(await self._queue.get())
            # Don't wait for the current batch to finish
''')], 'slots busy, then free without further arrivals', 'late')
seed('G10-reversed', 'C10', A, [('''        args = [t[:2] for t in tasks]
''', '''        tasks.sort(key=lambda t: t[2].done())
        args = [t[:2] for t in tasks if not t[2].done()] or [
            t[:2] for t in tasks]
''')], 'equivalent?', '')
seed('G11-latepop', 'C11', A, [('''            self._loop.call_later(
                self.retention_timeout,
                self._retention_cache.pop,
                key,
            )
''', '''            self._expiry = max(getattr(self, '_expiry', 0.), self._loop.time()
                               + self.retention_timeout)
            self._loop.call_at(
                self._expiry,
                self._retention_cache.pop,
                key,
            )
''')], 'equivalent unless retention_timeout is changed', '')
seed('G11-sweep', 'C11', A, [('''            self._loop.call_later(
                self.retention_timeout,
                self._retention_cache.pop,
                key,
            )
''', '''            self._done_keys.append(key)
            if len(self._done_keys) == 1:
                self._loop.call_later(self.retention_timeout, self._sweep)
'''), ('''    def _daemon_task(
        self,
''', '''    def _sweep(self) -> None:
        for key in self._done_keys:
            self._retention_cache.pop(key, None)
        self._done_keys.clear()

    def _daemon_task(
        self,
'''), ('''        self._retention_cache = {}
''', '''        self._retention_cache = {}
        self._done_keys: List[str] = []
''')], 'two keys done at different times', 'forgotten too early')
seed('G14-reprkw', 'C14', A, [('''        key = args, frozenset(kwargs.items())
''', '''        key = args, frozenset(kwargs.items()) if len(kwargs) < 6 \\
            else tuple(kwargs.items())
''')], 'six or more keyword arguments in another order', 'recomputed')
seed('G14-emptykw', 'C14', A, [('''        key = args, frozenset(kwargs.items())
''', '''        key = args, frozenset((k, v) for k, v in kwargs.items()
                              if v is not None)
''')], 'keyword None', 'shared')
seed('G15-batch-shared', 'C15', A, [('''        except KeyError:
            batcher = batchers[loop] = AsyncBackgroundBatcher(''', '''            if batcher._loop_task.done():
                raise KeyError(loop)
        except KeyError:
            batcher = batchers[loop] = AsyncBackgroundBatcher(''')], 'equivalent?', '')
seed('G15-oneloop', 'C15', A, [('''        except KeyError:
            batcher = batchers[loop] = AsyncBackgroundBatcher(''', '''        except KeyError:
            for old in [x for x in batchers if not x.is_running()]:
                del batchers[old]  # Free the memory of finished loops
            batcher = batchers[loop] = AsyncBackgroundBatcher(''')], 'a loop which is paused while another one is used', 'its batcher is replaced: retention and pending calls forgotten')
seed('G16-closeloop', 'C16', A, [('''    def _set_loop_and_queue_elements(_loop: Loop) -> None:
        aio.set_event_loop(_loop)
        _loop.run_until_complete(_queue_elements())
''', '''    def _set_loop_and_queue_elements(_loop: Loop) -> None:
        aio.set_event_loop(_loop)
        _loop.run_until_complete(_queue_elements())
        _loop.run_until_complete(_loop.shutdown_asyncgens())
''')], 'a generator of the loop is read in two pieces', 'second piece is empty')
seed('G16-batchput', 'C16', A, [('''            async for x in iterable:
                put(x)
        finally:
            put(_DONE)  # type: ignore
''', '''            async for x in iterable:
                put(x)
        except Exception:
            while q.qsize() > 64:  # Nobody is going to read them
                q.get_nowait()
            raise
        finally:
            put(_DONE)  # type: ignore
''')], 'more than 64 unread elements when the source fails', 'elements are lost')
seed('G16-slowfail', 'C16', A, [('''    pool.shutdown()
    _raise_exc_of(future)  # Bubble any errors
''', '''    pool.shutdown(wait=False)
    if future.done():
        _raise_exc_of(future)  # Bubble any errors
''')], 'thread not yet finished', 'error swallowed')
seed('G17-leak', 'C17', A, [('''                finally:
                    stopped.set()
        finally:
            with _LOOP_LOCKS_CREATE_LOCK:
                _CLAIMED_LOOPS[key] -= 1
                if not _CLAIMED_LOOPS[key]:
                    del _CLAIMED_LOOPS[key]
''', '''                finally:
                    stopped.set()
        except RuntimeError:
            raise  # Closed
        else:
            with _LOOP_LOCKS_CREATE_LOCK:
                _CLAIMED_LOOPS[key] -= 1
                if not _CLAIMED_LOOPS[key]:
                    del _CLAIMED_LOOPS[key]
''')], 'loop_in_thread failed for a loop, later one has the same id', 'hang')
seed('G17-started', 'C17', A, [('''    while not (started.is_set() or future.done()
               or key not in _BORROWED_LOOPS and loop.is_running()):
''', '''    while not (started.is_set() or future.done() or loop.is_running()):
''')], 'the loop is borrowed', 'returns before the loop runs for good')
seed('G17-nostopflag', 'C17', A, [('''                    if not stopping.is_set():
                        loop.run_forever()
''', '''                    loop.run_forever()
''')], 'stop before the thread gets the loop', 'hangs / runs forever')
seed('G17-outcome', 'C17', A, [('''    except Exception as e:
        return None, e


def _get_outcome''', '''    except Exception as e:
        return None, e.with_traceback(None) if e.__cause__ is None else e.__cause__


def _get_outcome''')], 'exception with a cause', 'the cause is raised')
seed('G18-pair', 'C18', I, [('''    i1, i2 = tee(iterable)
    c1, c2 = tee(condition)
    return compress(i1, c1), compress(i2, map(op.not_, c2))
''', '''    pairs = zip(iterable, condition)
    p1, p2 = tee(pairs)
    return ((x for x, c in p1 if c), (x for x, c in p2 if not c))
''')], 'zip order: fine?', '')
seed('G18-zipcond', 'C18', I, [('''    i1, i2 = tee(iterable)
    c1, c2 = tee(condition)
    return compress(i1, c1), compress(i2, map(op.not_, c2))
''', '''    i1, i2 = tee(iterable)
    c1, c2 = tee(map(bool, condition))
    return compress(i1, c1), (x for c, x in zip(c2, i2) if not c)
''')], 'condition shorter: fine?; longer: one more condition is taken', '')
seed('G19-cacheparse', 'C19', P, [('''            try:
                return parse(x)
            except:  # noqa
                pass
        return x
''', '''            try:
                return seen[x]
            except KeyError:
                pass
            try:
                seen[x] = parse(x)
            except:  # noqa
                seen[x] = x
            return seen[x]
        return x

    seen: Dict[str, Any] = {}
''')], 'equal mutable literals twice', 'they are one object (aliasing)')
seed('G19-emptysep', 'C19', P, [('''                k, v = pair.split(sep, 1)
''', '''                k, v = map(str.strip, pair.split(sep, 1))
''')], 'spaces around', 'unparseable values stripped')
seed('G20-group', 'C20', A, [('''        if isinstance(res, only):
            yield res
''', '''        if isinstance(res, BaseExceptionGroup) and not issubclass(
                only, BaseExceptionGroup):
            res = res.subgroup(lambda e: isinstance(e, only))
            if res is not None:
                yield res
        elif isinstance(res, only):
            yield res
''')], 'an exception group', 'replaced')
seed('G20-mro', 'C20', A, [('''        if isinstance(res, only):
            yield res
''', '''        if only in type(res).__mro__:
            yield res
''')], 'registered class', 'not reported')
