seed('E01-loop-only', 'C01', A, [('if events.get(key) == (caching_loop, event):', 'if events.get(key, (None,))[0] is caching_loop:')],
 'loop stopped, another takes over, resumed', 'two at once')
seed('E01-many', 'C01', A, [('''                    events[key] = caching_loop, event
''', '''                    if len(events) >= 128:
                        events.clear()  # Lost tasks
                    events[key] = caching_loop, event
''')], '128 keys at once', 'two at once')
seed('E01-many20', 'C01', A, [('''                    events[key] = caching_loop, event
''', '''                    if len(events) >= 20:
                        events.pop(next(iter(events)))  # Lost tasks
                    events[key] = caching_loop, event
''')], '20 keys at once', 'two at once')
seed('E01-own-thread', 'C01', A, [('''                    if (caching_loop.is_closed()
''', '''                    if (caching_loop is running_loop and event.is_set()
                            or caching_loop.is_closed()
'''), ('''                    with event_making_lock:
                        # Wake up any waiting tasks
                        event.set()
''', '''                    event.set()
                    await aio.sleep(0)
                    with event_making_lock:
''')], 'call between', 'two at once after failure')
seed('E02-forkunlock', 'C02', F, [('''        if fd is not None:
            try:
                os.close(fd)
''', '''        if fd is not None:
            try:
                self._unlock(fd)
                os.close(fd)
''')], 'fork while holding', 'x')
seed('E12-byte', 'C12', F, [('self._lock_counter += 1  #', 'self._lock_counter = (self._lock_counter + 1) & 0x7f  #')], '128 levels', 'x')
seed('E12-ctxforce', 'C12', F, [('''            yield
        finally:
            self.release()
''', '''            yield
        finally:
            self.release(force=self._lock_counter <= 1)
''')], 'equiv?', 'x')
seed('E12-backoff', 'C12', F, [('''                    time.sleep(poll_interval)
''', '''                    time.sleep(poll_interval)
                    poll_interval = min(poll_interval * 2, 1)
''')], 'timeouts', 'x')
seed('E12-isl', 'C12', F, [('''        return self._lock_file_fd is not None

    def acquire(''', '''        return self._lock_counter > 0

    def acquire(''')], 'x', 'x')
seed('E12-monot', 'C12', F, [('start_time = time.time()', 'start_time = int(time.time())')], 'early timeout', 'x')
seed('E12-relopen', 'C02', F, [('self._lock_file: PathLike = lock_file', 'self._lock_file: PathLike = os.path.normcase(os.path.basename(lock_file)) if not os.path.isabs(lock_file) else lock_file')], 'rel path with dir', 'x')
seed('E03-maxsize', 'C03', A, [("self.q: 'aio.Queue[AsyncIterable[T]]' = aio.Queue()", "self.q: 'aio.Queue[AsyncIterable[T]]' = aio.Queue(1024)")], '1024 waiting', 'lost')
seed('E03-inputs-cap', 'C03', A, [('''            if inputs:  # Could be empty if all empty iterators
''', '''            while len(inputs) > 500:
                await self.func({inputs.pop() for _ in range(500)})
            if inputs:  # Could be empty if all empty iterators
''')], '500 inputs and a failure', 'popped inputs lost when failing')
seed('E07-jointimeout', 'C07', A, [('await self.loop.create_task(self.q.join())', '''try:
            await aio.wait_for(self.loop.create_task(self.q.join()), 600)
        except aio.TimeoutError:
            pass''')], 'slow function with later submissions', 'x')
seed('E07-eventtimeout', 'C07', A, [('''        # Wait for the function to finish processing
        await self.event.wait()
''', '''        # Wait for the function to finish processing
        try:
            await aio.wait_for(self.event.wait(), 60)
        except aio.TimeoutError:
            logger.warning('x')
''')], 'slow function', 'x')
seed('E03-earlydone', 'C03', A, [('''                next_iterable = self._getting.result()
''', '''                next_iterable = self._getting.result()
                self.q.task_done()
'''), ('''                await aio.gather(_load_inputs(next_iterable))
                self.q.task_done()
''', '''                await aio.gather(_load_inputs(next_iterable))
''')], 'x', 'wait early: barrier')
seed('E08-gather-late', 'C08', A, [('''            self._getting = self._schedule_with_timeout(self.q.get())
            if input_gens:  # Load as many as possible concurrently
                await aio.gather(*input_gens)
                input_gens.clear()  # Clear processed input generators
''', '''            if input_gens:  # Load as many as possible concurrently
                await aio.gather(*input_gens)
                input_gens.clear()  # Clear processed input generators
            self._getting = self._schedule_with_timeout(self.q.get())
''')], 'slow producers', 'x')
seed('E09-refcount', 'C09', A, [('''        # The future is shared, so cancelling this caller can't cancel it
        return await aio.shield(fut)
''', '''        # The future is shared, so cancelling this caller can't cancel it
        try:
            return await aio.shield(fut)
        except aio.CancelledError:
            if not fut.done() and len(fut._callbacks or ()) <= 1:
                self._retention_cache.pop(key, None)
            raise
''')], 'cancelled, then called again while in batch', 'x')
seed('E09-refcount2', 'C09', A, [('''        try:
            fut = self._retention_cache[key]
        except KeyError:
            pass
        else:
            return await aio.shield(fut)
''', '''        try:
            fut = self._retention_cache[key]
        except KeyError:
            pass
        else:
            fut.shared = True
            return await aio.shield(fut)
''') , ('''        # The future is shared, so cancelling this caller can't cancel it
        return await aio.shield(fut)
''', '''        return await aio.shield(fut)
'''), ("fut: 'aio.Future[R_co]'\n\n", "fut: 'aio.Future[R_co]'\n        \n")], 'noop', 'x') if 0 else None
seed('E11-pop-late', 'C11', A, [('''            self._loop.call_later(
                self.retention_timeout,
                self._retention_cache.pop,
                key,
            )
''', '''            self._loop.call_later(
                self.retention_timeout,
                self._retention_cache.pop,
                key,
            )
        elif self._semaphore.locked():
            self._loop.call_soon(self._retention_cache.pop, key, None)
''')], 'key called at once while all slots busy', 'x')
seed('E11-min', 'C11', A, [('''                self.retention_timeout,
                self._retention_cache.pop,
''', '''                max(self.retention_timeout, self.batch_timeout),
                self._retention_cache.pop,
''')], 'retention shorter than batch timeout', 'x')
seed('E11-failed', 'C11', A, [('''        if self.retention_timeout > 0:
''', '''        if self.retention_timeout > 0 and not isinstance(_.exception(), ValueError):
''')], 'missing results not retained', 'x')
seed('E10-first', 'C10', A, [('''            # Give the publisher''', '''            if self._semaphore.locked():
                await aio.sleep(0)
                continue
            # Give the publisher''')], 'spin', 'x')
seed('E10-wait-slot', 'C10', A, [('''            tasks = await self._get_next_batch()
''', '''            async with self._semaphore:
                tasks = await self._get_next_batch()
''')], 'max_concurrent 1 deadlock?', 'x')
seed('E04-exc-group', 'C04', A, [('''            for fut in futs.values():
                fut.set_exception(exc)
''', '''            for fut in futs.values():
                fut.set_exception(type(exc)(*exc.args) if len(futs) > 1 else exc)
''')], 'raised to every caller: other object', 'x')
seed('E04-base', 'C04', A, [('''                    if isinstance(result, Exception):
''', '''                    if isinstance(result, Exception) or isinstance(result, tuple) and len(result) == 2 and isinstance(result[1], Exception):
                        if isinstance(result, tuple):
                            result = result[1]
''')], 'tuple with exception', 'x')
seed('E05-window', 'C05', A, [('aio.wait_for(wait_event, 60)', 'aio.wait_for(wait_event, 120)')], 'stop', 'x')
seed('E05-lostfut', 'C05', A, [('''                wait_event = aio.wrap_future(wait_fut)
''', '''                while not wait_fut.done() and caching_loop.is_running():
                    await aio.sleep(0.5)
                wait_event = aio.wrap_future(wait_fut)
''')], 'promptness', 'x')
seed('E06-swallow', 'C06', A, [('''            except (Exception, aio.CancelledError):
                if not waiter.done():
''', '''            except (Exception, aio.CancelledError):
                if waiter.done():
                    continue
                if not waiter.done():
''')], 'cancel at the moment the computation ends', 'own cancellation swallowed')
seed('E14-bind', 'C14', A, [('''        key = args, frozenset(kwargs.items())
''', '''        key = args, frozenset(kwargs.items())
        if kwargs and not args:
            try:
                key = signature(_func).bind(**kwargs).args, frozenset()
            except (TypeError, ValueError):
                pass
'''), ('import queue\n', 'import queue\nfrom inspect import signature\n')], 'f(x=1) then f(1)', 'x')
seed('E14-names', 'C14', A, [('key = args, frozenset(kwargs.items())', 'key = args, tuple(sorted(kwargs)), frozenset(kwargs.values())')], 'f(a=1,b=2) and f(a=2,b=1)', 'x')
seed('E15-nested', 'C15', A, [('''            max_concurrent_batches=max_concurrent_batches,
            batch_timeout=batch_timeout,
            retention_timeout=retention_timeout,
        )

    batchers''', '''            max_concurrent_batches=min(max_concurrent_batches, max_batch_size),
            batch_timeout=batch_timeout,
            retention_timeout=retention_timeout,
        )

    batchers''')], 'max_batch_size smaller than max_concurrent', 'x')
seed('E15-closedloop', 'C15', A, [('''            batcher = batchers[loop]
        except KeyError:
''', '''            batcher = batchers[loop]
            if batcher._loop_task.done():
                raise KeyError
        except KeyError:
            for old in list(batchers):
                if not old.is_running():
                    del batchers[old]
''')], 'loops used alternately', 'batch lost when a loop is paused')
seed('E16-thread', 'C16', A, [('''        abandoned = True
        pool.shutdown(wait=False)
''', '''        abandoned = True
        pool.shutdown(wait=False, cancel_futures=True)
''')], 'equiv', 'x')
seed('E16-seqcap', 'C16', A, [("q: 'queue.Queue[T]' = queue.Queue()", "q: 'queue.Queue[T]' = queue.Queue(10000)")], '10000 elements', 'queue.Full')
seed('E16-errloop', 'C16', A, [('''        finally:
            put(_DONE)  # type: ignore
''', '''        finally:
            await aio.sleep(0)
            put(_DONE)  # type: ignore
''')], 'equiv?', 'x')
seed('E17-pollclosed', 'C17', A, [('await aio.wait([waiter], timeout=0.05)', 'await aio.wait([waiter], timeout=0.05 if runner is None else None)')], 'owner stops', 'x')
seed('E17-borrow', 'C17', A, [('''            if not (future.done() or loop.is_running()
                    or _CLAIMED_LOOPS[id(loop)]):''', '''            if not (future.done() or loop.is_running()):''')], 'loop_in_thread races', 'x')
seed('E17-stop2', 'C17', A, [('''        stopping.set()
        if not future.done():
            loop.call_soon_threadsafe(loop.stop)
''', '''        if not stopping.is_set():
            stopping.set()
            loop.call_soon_threadsafe(loop.stop)
''')], 'stop called twice / loop closed', 'x')
seed('E18-peek', 'C18', I, [('''    if callable(condition):
        iterable, ci = tee(iterable)
        condition = map(condition, ci)
''', '''    if callable(condition):
        if isinstance(iterable, (list, tuple)):
            ci = iterable
        else:
            iterable, ci = tee(iterable)
        condition = map(condition, ci)
''')], 'list mutated while consumed', 'x')
seed('E19-trailing', 'C19', P, [('k, v = pair.split(sep, 1)', "k, v = pair.rstrip('\\n').split(sep, 1)")], 'string ending with newline', 'x')
seed('E19-mapkeys', 'C19', P, [('return dict(map(parse_pair, items))', 'return dict(map(parse_pair, sorted(items, key=lambda p: isinstance(p, str))))')], 'mix of pairs and strings with the same key', 'last wins differs')
seed('E19-len3', 'C19', P, [('return parse_tuple(*pair)', 'return parse_tuple(*pair[:2])')], 'sets/iterators', 'x')
seed('E20-dedupe', 'C20', A, [('''    for fut in map(futs.__getitem__, map(id, aws)):
''', '''    for fut in futs.values():
''')], 'the same awaitable given twice', 'once only')
seed('E20-seenexc', 'C20', A, [('''        if isinstance(res, only):
            yield res
''', '''        if isinstance(res, only) and id(res) not in seen:
            seen.add(id(res))
            yield res
'''), ('''    aws = list(aws)
    # Inspect''', '''    aws = list(aws)
    seen: Set[int] = set()
    # Inspect''')], 'same exception raised by two', 'x')
seed('E20-wait', 'C20', A, [('''    await aio.gather(*futs.values(), return_exceptions=True)
''', '''    if futs:
        await aio.wait(futs.values(), timeout=86400)
''')], 'a day', 'x')
