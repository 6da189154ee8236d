"""
C16: to_async_iter and to_sync_iter on the real code in virtual time.

  ('a', src, elems, fail, steps, reads, opts)   to_async_iter
  ('s', src, elems, fail, steps, reads, opts)   to_sync_iter
      src    how the source is made (ASYNC_SRC / SYNC_SRC)
      elems  indices into the catalogue of elements
      fail   None or (position, exception name)
      steps  duration of every next() of the source (the last one ends it)
      reads  what the consumer does between two reads (seconds)
  ('c', mode, k, at, elems, steps, opts)        the consumer gives up
  ('x', n, how, opts)                           several bridges at once
  ('r', path, elems, fail, steps)               bridges in a row
  ('p', parts, fail, steps)                     one async source in pieces, on one loop
      parts  how many elements each bridge takes, other tasks of the loop go on
"""
import asyncio as aio
import concurrent.futures as cf
import itertools
import threading
import time
from contextlib import aclosing

from .. import vrt, explore
from ..check import Group

LEVEL = {'C16': 'model_checking'}
ASSUMPTIONS = {'C16': ['a source does not raise StopAsyncIteration (StopIteration) itself: generators cannot pass '
                       'these on', 'iterables which are no iterators are iterated inline (documented)']}
TICK = 0.01


class Boom(Exception):
    pass


class Base(BaseException):
    pass


class Odd(Exception):
    """cannot be rebuilt from its args, and is never true or equal"""

    def __init__(self, a, b, *, c):
        super().__init__(a)
        self.c = c

    def __bool__(self):
        return False

    def __eq__(self, o):
        return False

    __hash__ = None


class Equal:
    """equal to everything"""

    def __eq__(self, o):
        return True

    def __ne__(self, o):
        return False

    def __hash__(self):
        return 1


class Hostile:
    """nothing works"""

    def __eq__(self, o):
        raise RuntimeError('compared')

    def __ne__(self, o):
        raise RuntimeError('compared')

    def __bool__(self):
        raise RuntimeError('truth')

    def __hash__(self):
        raise RuntimeError('hashed')

    def __len__(self):
        raise RuntimeError('len')

    def __iter__(self):
        raise RuntimeError('iterated')

    def __repr__(self):
        return '<hostile>'


ELEMS = [None, 0, '', 'a', (), False, Equal(), Hostile(), StopIteration(), StopAsyncIteration, ValueError('x'), ...,
         float('nan'), [], object(), aio.CancelledError(), True, NotImplemented, ('e', None), GeneratorExit()]
EXCS = {
    'exc': lambda: Boom(1), 'base': lambda: Base(2), 'value': lambda: ValueError(), 'odd': lambda: Odd(1, 2, c=3),
    'timeout': lambda: TimeoutError(110, 'timed out'), 'cftimeout': lambda: cf.TimeoutError('t'),
    'cfcancel': lambda: cf.CancelledError('c'), 'cancel': lambda: aio.CancelledError('c'),
    'invalid': lambda: aio.InvalidStateError('i'), 'cfinvalid': lambda: cf.InvalidStateError('ci'),
    'runtime': lambda: RuntimeError('generator raised StopIteration'), 'key': lambda: KeyError(None),
    'gexit': lambda: GeneratorExit(), 'group': lambda: ExceptionGroup('g', [Boom(1), Boom(2)]),
    'broken': lambda: cf.BrokenExecutor('b'), 'eof': lambda: EOFError(), 'index': lambda: IndexError(0),
    'attr': lambda: AttributeError('__next__'), 'type': lambda: TypeError('not iterable'),
    'empty': lambda: aio.QueueEmpty(), 'chained': lambda: chained(),
}


def chained():
    e = Boom('outer')
    e.__cause__ = ValueError('inner')
    return e


def make_error(name):
    return EXCS[name]()


# ---------------------------------------------------------------------------
# sources; `take(i)` is called for every step: sleeps, raises, or returns
# (True, element) / (False, None) at the end

class Iter:
    def __init__(self, take):
        self.take = take
        self.i = 0

    def __iter__(self):
        return self

    def __next__(self):
        i = self.i
        self.i += 1
        more, x = self.take(i)
        if not more:
            raise StopIteration
        return x


class AIter:
    def __init__(self, take):
        self.take = take
        self.i = 0

    def __aiter__(self):
        return self

    async def __anext__(self):
        i = self.i
        self.i += 1
        more, x = await self.take(i)
        if not more:
            raise StopAsyncIteration
        return x


class AIterable:
    def __init__(self, take):
        self.take = take

    def __aiter__(self):
        return agen(self.take)


class Seq:
    """the old sequence protocol"""

    def __init__(self, take):
        self.take = take

    def __getitem__(self, i):
        more, x = self.take(i)
        if not more:
            raise IndexError
        return x


class Iterable:
    def __init__(self, take):
        self.take = take

    def __iter__(self):
        return gen(self.take)


class SubList(list):
    """a list whose elements are made on demand"""

    def __init__(self, take):
        self.take = take

    def __iter__(self):
        return gen(self.take)


class BadIter:
    """fails in __iter__ after having pretended to be an iterator"""

    def __init__(self, take):
        self.take = take

    def __iter__(self):
        self.take(0)
        return iter(())

    def __next__(self):
        raise StopIteration


class BadAIter:
    def __init__(self, exc):
        self.exc = exc

    def __aiter__(self):
        raise self.exc

    async def __anext__(self):
        raise StopAsyncIteration


def gen(take):
    i = 0
    while True:
        more, x = take(i)
        if not more:
            return
        yield x
        i += 1


def gen_finally(take):
    """cleaning up takes time"""
    try:
        yield from gen(take)
    finally:
        time.sleep(0.1)


async def agen(take):
    i = 0
    while True:
        more, x = await take(i)
        if not more:
            return
        yield x
        i += 1


async def agen_finally(take):
    try:
        async for x in agen(take):
            yield x
    finally:
        await aio.sleep(0.1)


SYNC_SRC = {   # name: (make, inline)
    'gen': (gen, False), 'iter': (Iter, False), 'map': (lambda t: map(lambda x: x, gen(t)), False),
    'chain': (lambda t: itertools.chain(gen(t)), False), 'genf': (gen_finally, False),
    'seq': (Seq, True), 'iterable': (Iterable, True), 'sublist': (SubList, True), 'seqiter': (lambda t: iter(Seq(t)), False),
}
PLAIN_SRC = {'list': list, 'tuple': tuple, 'listiter': lambda x: iter(list(x)), 'dict': lambda x: dict.fromkeys(x),
             'range': lambda x: range(len(x)), 'rangeiter': lambda x: iter(range(len(x))), 'zip': lambda x: zip(x, x),
             'enum': lambda x: enumerate(x), 'rev': lambda x: reversed(list(x)), 'dictview': lambda x: dict(
                 enumerate(x)).values()}
ASYNC_SRC = {'agen': agen, 'aiter': AIter, 'aiterable': AIterable, 'agenf': agen_finally}


def same(a, b):
    return len(a) == len(b) and all(x is y for x, y in zip(a, b))


class Bridge(explore.Scenario):
    def __init__(self, spec):
        self.spec = spec
        self.kind = spec[0]
        o = dict(spec[-1]) if isinstance(spec[-1], tuple) and spec[0] != 'r' else {}
        self.o = o
        self.tick = o.get('tick', TICK)
        n = max((len(x) for x in spec if isinstance(x, tuple)), default=0)
        self.opts = {'max_steps': 60000 + 60 * n, 'horizon': o.get('horizon', 100.0),
                     'lines': o.get('lines', False),
                     'instr': o.get('instr', False), 'free_block': o.get('free_block', False),
                     'stall': o.get('stall', False)}

    def __repr__(self):
        return f'Bridge({self.spec!r})'

    def setup(self, s):
        self.s = s
        self.bad = []
        self.hist = []
        self.m = explore.fresh('aiuti.asyncio')
        self.stage = 'start'
        self.reached = 0
        self.mine = set()

    # -- helper threads ---------------------------------------------------
    def alive(self):
        return {t for t in self.s.threads if t.state != vrt.DONE and t not in self.mine}

    def no_helpers(self, before, what):
        left = self.alive() - before
        if left:
            self.bad.append(f'{what} has finished but {len(left)} helper thread(s) are still running')

    # -- scripted sources --------------------------------------------------
    def script(self, elems, fail, steps, exc, events=None):
        n = len(elems)

        def dur(i):
            return steps[min(i, len(steps) - 1)] if steps else 0

        def result(i):
            self.reached = max(self.reached, i)
            if fail is not None and fail[0] == i:
                raise exc
            if i > n or (fail is not None and i > fail[0]):
                self.bad.append(f'the source is asked for another element after it has ended (call {i})')
                return False, None
            if i == n:
                return False, None
            return True, elems[i]

        def take(i):
            if dur(i):
                time.sleep(dur(i))
            if events is not None:
                events(i)
            return result(i)

        async def atake(i):
            lp = aio.get_running_loop()
            if self.o.get('loop') and lp is not self.loop:
                self.bad.append('the source is iterated on another loop than the given one')
            if threading.get_ident() == self.consumer:
                self.bad.append('the async source is iterated in the thread of the consumer')
            if dur(i) == 'y':
                await aio.sleep(0)
            elif dur(i):
                await aio.sleep(dur(i))
            if events is not None:
                while not events(i):
                    await aio.sleep(0.01)
            return result(i)
        return take, atake

    async def ticker(self):
        last = self.s.now
        while True:
            await aio.sleep(self.tick)
            now = self.s.now
            if now - last > self.tick * 2:
                self.bad.append(f'the event loop is blocked from {last:.3f} until {now:.3f}')
            last = now

    def judge(self, got, end, elems, fail, exc, what):
        want = elems if fail is None else elems[:fail[0]]
        if not same(got, want):
            self.bad.append(f'{what}: {len(want)} elements {want!r} expected, received {got!r}')
        if fail is None:
            if end is not None:
                self.bad.append(f'{what}: ended with {end!r}')
        elif end is not exc:
            self.bad.append(f'{what}: the source raised {exc!r}, the consumer received {end!r}'
                            f'{" (another object)" if type(end) is type(exc) else ""}')

    # -- to_async_iter ------------------------------------------------------
    def root(self):
        getattr(self, 'run_' + self.kind)()
        self.stage = 'end'

    def run_a(self):
        _, src, ix, fail, steps, reads, o = self.spec
        elems = [ELEMS[i] for i in ix]
        exc = make_error(fail[1]) if fail else None
        state = {'got': 0}
        inline = False
        if src in PLAIN_SRC:
            source = PLAIN_SRC[src](elems)
            elems = list(PLAIN_SRC[src](elems))
            if src in ('zip', 'enum'):
                source = iter(elems)
        elif src == 'bad':
            source = BadIter(self.script(elems, fail, steps, exc)[0])
        else:
            ev = None
            if self.o.get('handshake'):
                def ev(i):
                    # element i is only produced once i have been received
                    while state['got'] < i:
                        time.sleep(0.01)
            mk, inline = SYNC_SRC[src]
            if inline:
                steps = ()
            source = mk(self.script(elems, fail, steps, exc, ev)[0])

        async def main():
            before = self.alive()
            t = None if self.o.get('noticker') else aio.ensure_future(self.ticker())
            await aio.sleep(0)
            it = self.m.to_async_iter(source)
            got, end = [], None
            n = 0
            while True:
                try:
                    x = await it.__anext__()
                except StopAsyncIteration:
                    break
                except BaseException as e:  # noqa
                    if isinstance(e, vrt.Abort):
                        raise
                    end = e
                    break
                got.append(x)
                state['got'] = len(got)
                d = reads[min(n, len(reads) - 1)] if reads else 0
                n += 1
                if d == 'y':
                    await aio.sleep(0)
                elif d:
                    await aio.sleep(d)
            self.no_helpers(before, 'to_async_iter')
            self.judge(got, end, elems, fail, exc, f'to_async_iter({src})')
            self.hist.append((len(got), type(end).__name__, round(self.s.now, 6)))
            for _ in range(2):
                try:
                    x = await it.__anext__()
                except StopAsyncIteration:
                    continue
                except BaseException as e:  # noqa
                    if isinstance(e, vrt.Abort):
                        raise
                    x = e
                self.bad.append(f'to_async_iter({src}) does not stop after its end: {x!r}')
            if t is not None:
                t.cancel()
        aio.run(main())

    # -- to_sync_iter ---------------------------------------------------------
    def run_s(self):
        _, src, ix, fail, steps, reads, o = self.spec
        elems = [ELEMS[i] for i in ix]
        loops = self.o.get('loop')
        self.loop = aio.new_event_loop() if loops else None

        def consume():
            self.consumer = threading.get_ident()
            exc = make_error(fail[1]) if fail else None
            state = {'got': 0}
            ev = None
            if self.o.get('handshake'):
                def ev(i):
                    return state['got'] >= i
            if src == 'bad':
                source = BadAIter(exc)
            else:
                source = ASYNC_SRC[src](self.script(elems, fail, steps, exc, ev)[1])
            before = self.alive()
            it = self.m.to_sync_iter(source, loop=self.loop) if loops else self.m.to_sync_iter(source)
            got, end = [], None
            n = 0
            while True:
                try:
                    x = next(it)
                except StopIteration:
                    break
                except BaseException as e:  # noqa
                    if isinstance(e, vrt.Abort):
                        raise
                    end = e
                    break
                got.append(x)
                state['got'] = len(got)
                d = reads[min(n, len(reads) - 1)] if reads else 0
                n += 1
                if d == 'y':
                    time.sleep(0)
                elif d:
                    time.sleep(d)
            self.no_helpers(before, 'to_sync_iter')
            self.judge(got, end, elems, fail, exc, f'to_sync_iter({src})')
            self.hist.append((len(got), type(end).__name__, round(self.s.now, 6)))
            for _ in range(2):
                try:
                    x = next(it)
                except StopIteration:
                    continue
                except BaseException as e:  # noqa
                    if isinstance(e, vrt.Abort):
                        raise
                    x = e
                self.bad.append(f'to_sync_iter({src}) does not stop after its end: {x!r}')
        for _ in range(self.o.get('times', 1)):
            if self.o.get('inloop'):
                async def main():
                    consume()
                    await aio.sleep(0.01)
                aio.run(main())
            else:
                consume()
            if self.loop is not None:
                if self.loop.is_running():
                    self.bad.append('the given loop is still running')
                elif self.loop.is_closed():
                    self.bad.append('the given loop has been closed')
                    self.loop = aio.new_event_loop()

    # -- consumers which give up ------------------------------------------------
    def run_c(self):
        _, mode, k, at, ix, steps, o = self.spec
        elems = [ELEMS[i] for i in ix]
        src = self.o.get('src', 'gen')
        forever = self.o.get('forever')
        gate = threading.Event()

        def ev(i):
            if forever is not None and i == forever:
                gate.wait()
        source = SYNC_SRC[src][0](self.script(elems, None, steps, None, ev)[0])
        got = []

        async def consumer(it):
            async for x in it:
                got.append(x)

        async def main():
            t = aio.ensure_future(self.ticker())
            await aio.sleep(0)
            it = self.m.to_async_iter(source)
            if mode in ('cancel', 'timeout'):
                c = aio.ensure_future(consumer(it))
                t0 = self.s.now
                if mode == 'cancel':
                    await aio.sleep(at)
                    c.cancel()
                    await aio.wait([c])
                else:
                    try:
                        await aio.wait_for(c, at)
                    except aio.TimeoutError:
                        pass
                if self.s.now > t0 + at + 0.05:
                    self.bad.append(f'the consumer was cancelled after {at} but only ends after {self.s.now - t0}')
                if not c.cancelled() and len(got) < len(elems):
                    self.bad.append(f'the consumer ends although it was cancelled: {c}')
            else:
                try:
                    if mode == 'close':
                        async with aclosing(it):
                            while len(got) < k:
                                got.append(await it.__anext__())
                            await aio.sleep(at)
                    elif mode == 'throw':
                        while len(got) < k:
                            got.append(await it.__anext__())
                        await aio.sleep(at)
                        await it.athrow(Boom(k))
                        self.bad.append('athrow() does not raise')
                    else:
                        while len(got) < k:
                            got.append(await it.__anext__())
                        await aio.sleep(at)
                        del it
                except Boom:
                    pass
            if not same(got, elems[:len(got)]) or len(got) < k:
                self.bad.append(f'received {got!r} of {elems!r} before giving up')
            # another bridge does not care
            el2 = ['p', 'q']
            g2 = []
            async for x in self.m.to_async_iter(iter(el2)):
                g2.append(x)
            if g2 != el2:
                self.bad.append(f'the next to_async_iter gives {g2} instead of {el2}')
            self.hist.append((len(got), round(self.s.now, 6)))
            t.cancel()
        aio.run(main())
        self.stage = 'run has returned'
        gate.set()

    # -- several at once -----------------------------------------------------------
    def run_x(self):
        _, n, how, o = self.spec
        if how == 'barrier':
            # every source needs all the others to make progress
            bar = threading.Barrier(n)

            def src(k):
                yield (k, 0)
                bar.wait()
                yield (k, 1)
                bar.wait()

            async def one(k):
                got = []
                async for x in self.m.to_async_iter(src(k)):
                    got.append(x)
                if got != [(k, 0), (k, 1)]:
                    self.bad.append(f'bridge {k} of {n}: {got}')

            async def main():
                before = self.alive()
                t = aio.ensure_future(self.ticker())
                await aio.gather(*map(one, range(n)))
                self.no_helpers(before, f'{n} times to_async_iter')
                t.cancel()
            aio.run(main())
        elif how == 'sbarrier':
            cnt = [0] * n

            async def src(k):
                for r in range(2):
                    cnt[k] += 1
                    while min(cnt) <= r:
                        await aio.sleep(0.01)
                    yield (k, r)

            def one(k):
                got = list(self.m.to_sync_iter(src(k)))
                if got != [(k, 0), (k, 1)]:
                    self.bad.append(f'bridge {k} of {n}: {got}')
            before = self.alive()
            ts = [threading.Thread(target=one, args=(k,)) for k in range(n)]
            for t in ts:
                t.start()
            for t in ts:
                t.join()
            self.no_helpers(before, f'{n} times to_sync_iter')
        elif how == 'zip':
            # one consumer alternates between several bridges
            async def main():
                before = self.alive()
                t = aio.ensure_future(self.ticker())
                its = [self.m.to_async_iter(self.timed(k)) for k in range(n)]
                for r in range(3):
                    for k, it in enumerate(its):
                        x = await it.__anext__()
                        if x != (k, r):
                            self.bad.append(f'{x} instead of {(k, r)}')
                for it in its:
                    async for x in it:
                        self.bad.append(f'another element: {x}')
                self.no_helpers(before, f'{n} times to_async_iter')
                t.cancel()
            aio.run(main())
        elif how == 'szip':
            async def src(k):
                for r in range(3):
                    await aio.sleep(0.02 * k)
                    yield (k, r)
            before = self.alive()
            its = [self.m.to_sync_iter(src(k)) for k in range(n)]
            for r in range(3):
                for k, it in enumerate(its):
                    x = next(it)
                    if x != (k, r):
                        self.bad.append(f'{x} instead of {(k, r)}')
            for it in its:
                for x in it:
                    self.bad.append(f'another element: {x}')
            self.no_helpers(before, f'{n} times to_sync_iter')
        elif how == 'free':
            # nothing but time: the consumers do not delay each other
            async def one(k):
                got = []
                async for x in self.m.to_async_iter(self.timed(k + 1)):
                    got.append((x[1], round(self.s.now, 6)))
                want = [(r, round(0.02 * (k + 1) * (r + 1), 6)) for r in range(3)]
                if got != want:
                    self.bad.append(f'bridge {k} of {n}: {got}, expected {want}')

            async def main():
                before = self.alive()
                await aio.gather(*map(one, range(n)))
                self.no_helpers(before, f'{n} times to_async_iter')
            aio.run(main())

    def timed(self, k):
        for r in range(3):
            if k:
                time.sleep(0.02 * k)
            yield (k, r)

    # -- bridges in a row --------------------------------------------------------------
    def run_r(self):
        _, path, ix, fail, steps = self.spec
        elems = [ELEMS[i] for i in ix]
        exc = make_error(fail[1]) if fail else None
        self.consumer = None
        take, atake = self.script(elems, fail, steps, exc)
        before = self.alive()
        src = gen(take) if path[0] == 'a' else agen(atake)
        for p in path:
            src = self.m.to_async_iter(src) if p == 'a' else self.m.to_sync_iter(src)
        got, end = [], None

        async def main():
            async for x in src:
                got.append(x)
        try:
            if path[-1] == 'a':
                aio.run(main())
            else:
                for x in src:
                    got.append(x)
        except vrt.Abort:
            raise
        except BaseException as e:  # noqa
            end = e
        self.no_helpers(before, f'the bridge {path}')
        self.judge(got, end, elems, fail, exc, f'bridges {path}')
        self.hist.append((len(got), type(end).__name__, round(self.s.now, 6)))

    def run_p(self):
        _, parts, fail, steps = self.spec
        n = sum(parts)
        loop = aio.new_event_loop()
        ended = []

        async def source():
            try:
                for i in range(n):
                    if steps:
                        await aio.sleep(steps)
                    yield i
            finally:
                ended.append(self.s.now)

        async def other():
            for _ in range(n + 3):
                await aio.sleep(steps or 0)
            return 'other'
        shared = source()
        exc = make_error(fail) if fail else None

        async def piece(k):
            for _ in range(k):
                yield await anext(shared)
            if exc is not None:
                raise exc
        task = loop.create_task(other())
        got = []
        for k in parts:
            before = self.alive()
            end = None
            try:
                for x in self.m.to_sync_iter(piece(k), loop=loop):
                    got.append(x)
            except vrt.Abort:
                raise
            except BaseException as e:  # noqa
                end = e
            if end is not exc:
                self.bad.append(f'a piece of a source ended with {end!r} instead of {exc!r}')
            self.no_helpers(before, 'to_sync_iter')
            if ended:
                self.bad.append('to_sync_iter has ended another iterator of the given loop')
        if got != list(range(n)):
            self.bad.append(f'a source read in pieces of {parts}: {got}')
        if loop.is_closed():
            self.bad.append('the given loop has been closed')
        else:
            try:
                if loop.run_until_complete(task) != 'other':
                    self.bad.append('another task of the given loop is disturbed')
            except BaseException as e:  # noqa
                if isinstance(e, vrt.Abort):
                    raise
                self.bad.append(f'another task of the given loop ended with {e!r}')
            loop.run_until_complete(shared.aclose())
            loop.close()
        self.hist.append((parts, round(self.s.now, 6)))

    # -- judgement -------------------------------------------------------------------------
    def check(self, s):
        bad = list(self.bad)
        if s.status != 'ok' and self.stage != 'end':
            bad.append(f'{s.status}: the consumer hangs (source has reached step {self.reached}, '
                       f'stage {self.stage})')
        return bad

    def outcome(self, s):
        return (s.status, tuple(self.hist))

    def cleanup(self, s):
        self.loop = None


def make(spec):
    return Bridge(spec)


def custom(*a):
    raise NotImplementedError


N = len(ELEMS)


def groups(prop, tier):
    th = tier == 'thorough'

    def windows(n):
        """every element at every position"""
        for k in range(N if n else 1):
            yield tuple((k + i * 7) % N for i in range(n))
        if n >= 2:
            for k in range(N):
                yield (k,) * n                       # duplicates

    def sources(kind, srcs):
        def specs():
            for n in range(0, 7):
                for ix in windows(n):
                    fails = [None] + [(p, 'exc') for p in range(n + 1)]
                    for src in srcs:
                        for f in fails:
                            for reads in ((), (0.05,)):
                                yield (kind, src, ix, f, (), reads, (('noticker', 1),))
            for n in range(0, 4 + th):
                for p in range(n + 1):
                    for e in EXCS:
                        for src in srcs:
                            if src == 'seq' and e == 'index':
                                continue
                            for st in ((), (0.05,)):
                                for reads in ((), (0.02,)):
                                    yield (kind, src, tuple(range(n)), (p, e), st, reads, ())
            for n in range(0, 3 + th):
                for ix in itertools.product(range(N), repeat=n):
                    for src in srcs[:2]:
                        yield (kind, src, ix, None, (), (), (('noticker', 1),))
            for e in EXCS:
                yield (kind, 'bad', (), (0, e), (), (), ())
        return specs

    def plain():
        for n in range(0, 7):
            for src in PLAIN_SRC:
                for k in range(N):
                    if src == 'dict':
                        ix = tuple(i for i in ((k + i * 7) % N for i in range(n)) if i not in (7, 13))
                    else:
                        ix = tuple((k + i * 7) % N for i in range(n))
                    for reads in ((), ('y',), (0.05,)):
                        yield ('a', src, ix, None, (), reads, ())

    D = (0, 0.05, 0.3)

    def timing(kind, srcs, extra=()):
        def specs():
            for n in range(0, 4 + th):
                ix = tuple(range(n))
                for steps in itertools.product(D, repeat=n + 1):
                    for reads in itertools.product((0, 'y', 0.05, 0.4), repeat=min(n, 2)):
                        for f in [None] + [(p, 'exc') for p in range(n + 1)]:
                            for src in srcs:
                                yield (kind, src, ix, f, steps, reads, extra)
            for n in (5, 6):
                for steps in itertools.product((0, 0.05), repeat=n + 1):
                    for reads in (0,), (0.05,), (0.12, 0):
                        for f in (None, (n, 'exc'), (3, 'base')):
                            yield (kind, srcs[0], tuple(range(n)), f, steps, reads, extra)
        return specs

    def slow():
        # far longer than any safety limit; nothing else happens meanwhile
        far = (('noticker', 1), ('horizon', 1e6))
        for kind, srcs in (('a', ('gen', 'iter', 'map', 'genf')), ('s', ('agen', 'aiter', 'agenf'))):
            for src in srcs:
                for d in (11, 61, 700, 4000, 90000):
                    for n in (0, 1, 2, 3):
                        for at in range(n + 1):
                            steps = (0,) * at + (d,)
                            for f in (None, (n, 'exc'), (n, 'base')):
                                yield (kind, src, tuple(range(n)), f, steps, (), far)
                                if at < 2:
                                    yield (kind, src, tuple(range(n)), f, (), steps, far)

    def long_ones():
        for kind, srcs in (('a', ('gen', 'iter', 'map', 'genf')), ('s', ('agen', 'aiter'))):
            for src in srcs:
                for n in (65, 130, 257, 1100) + ((10300,) if th else ()):
                    ix = tuple(i % N for i in range(n))
                    for f in (None, (n, 'exc'), (n // 2, 'base')):
                        for reads in ((), (3,) + (0,) * 50, (0,) * 40 + (3,) + (0,) * 3000):
                            for st in ((), (0.01,) if n < 300 else (0,)):
                                yield (kind, src, ix, f, st, reads, (('noticker', 1),))

    def longest():
        for kind, srcs in (('a', ('gen', 'iter', 'map', 'genf')), ('s', ('agen', 'aiter', 'agenf'))):
            for src in srcs:
                for n in (10300, 33000, 70000) + ((140000,) if th else ()):
                    ix = tuple(i % N for i in range(n))
                    # far ahead of the consumer, and side by side
                    for reads in ((0,) * 40 + (3,) + (0,) * 200000, ()) if n < 20000 else ((3,) + (0,) * 200000,):
                        for f in (None, (n, 'exc')) if n < 20000 else ((n, 'exc'),):
                            yield (kind, src, ix, f, (), reads, (('noticker', 1),))

    def handshake():
        for kind, srcs in (('a', ('gen', 'iter', 'map', 'genf')), ('s', ('agen', 'aiter', 'agenf'))):
            for src in srcs:
                for n in range(0, 7):
                    for f in [None] + [(p, 'exc') for p in range(n + 1)]:
                        for reads in ((), (0.05,), (0, 0.3)):
                            for st in ((), (0.05,)):
                                yield (kind, src, tuple(range(n)), f, st, reads, (('handshake', 1),))

    def loops():
        for n in range(0, 4):
            for f in [None] + [(p, e) for p in range(n + 1) for e in ('exc', 'base', 'cancel', 'timeout')]:
                for src in ASYNC_SRC:
                    for st in ((), (0.05,), ('y',)):
                        for o in ((('loop', 1),), (('loop', 1), ('times', 3)), (('inloop', 1),), (('times', 2),),
                                  (('inloop', 1), ('loop', 1), ('times', 2))):
                            yield ('s', src, tuple(range(n)), f, st, (0.02,), o)

    def giveup():
        for src in ('gen', 'iter', 'genf', 'map'):
            for n in range(0, 4):
                for steps in itertools.product((0, 0.3, 3), repeat=n + 1):
                    for mode in ('cancel', 'timeout'):
                        for at in (0, 0.1, 0.35, 1, 4):
                            yield ('c', mode, 0, at, tuple(range(n)), steps, (('src', src),))
                    for mode in ('close', 'throw', 'drop'):
                        for k in range(1, n + 1):
                            for at in (0, 0.1, 1):
                                yield ('c', mode, k, at, tuple(range(n)), steps, (('src', src),))
                for fe in range(n + 1):
                    for mode in ('cancel', 'timeout'):
                        for at in (0.1, 1):
                            yield ('c', mode, 0, at, tuple(range(n)), (0,), (('src', src), ('forever', fe)))
                    for mode in ('close', 'throw', 'drop'):
                        for k in range(1, fe + 1):
                            yield ('c', mode, k, 0.1, tuple(range(n)), (0,), (('src', src), ('forever', fe)))

    def several():
        for n in (1, 2, 3, 5, 8, 13, 33, 40):
            for how in ('barrier', 'sbarrier', 'zip', 'szip', 'free'):
                yield ('x', n, how, ())

    def rows():
        for path in ('as', 'sa', 'asa', 'sas', 'asas', 'sasa'):
            for n in range(0, 5):
                for f in [None] + [(p, e) for p in range(n + 1) for e in EXCS if e != 'gexit']:
                    for st in ((), (0.05,)):
                        yield ('r', path, tuple((3 * n + i) % N for i in range(n)), f, st)

    def pieces():
        for n in (1, 2, 3):
            for parts in itertools.product((0, 1, 2, 3), repeat=n):
                for f in (None, 'exc', 'cancel', 'base'):
                    for st in (0, 0.05, 7):
                        yield ('p', parts, f, st)

    LN = (('lines', True), ('noticker', 1))

    def inter(kind, srcs, extra, lens, reads=((), (0.05,)), steps=((), (0.05,), (0, 0.05)), excs=('exc',)):
        def specs():
            for n in lens:
                for f in [None] + [(p, e) for p in range(n + 1) for e in excs]:
                    for st in steps:
                        for rd in reads if n else ((),):
                            for src in srcs:
                                yield (kind, src, tuple(range(n)), f, st, rd, LN + extra)
        return specs

    def inter_giveup():
        for n in (1, 2, 3):
            for mode, k in (('cancel', 0), ('close', 1), ('drop', 1), ('throw', 1)):
                for st in ((0,), (0.1,), (0, 0.1)):
                    for at in (0, 0.1):
                        yield ('c', mode, k, at, tuple(range(n)), st, (('lines', True), ('tick', 0.1)))

    def inter_several():
        for how in ('barrier', 'sbarrier', 'zip', 'szip'):
            yield ('x', 2, how, (('lines', True), ('tick', 0.1)))

    A, S = ['gen', 'iter', 'map', 'chain', 'genf', 'seqiter', 'seq', 'iterable', 'sublist'], list(ASYNC_SRC)
    # a generator which is closed by GeneratorExit is a different matter
    g = [Group('to_async_iter: sources, elements, failures', sources('a', A[:5]), 'program', chunk=60),
         Group('to_async_iter: sequence protocols', sources('a', A[6:]), 'program', chunk=60),
         Group('to_async_iter: containers', plain, 'program', chunk=60),
         Group('to_sync_iter: sources, elements, failures', sources('s', S), 'program', chunk=60),
         Group('to_async_iter: durations', timing('a', ['gen', 'iter']), 'program', chunk=60),
         Group('to_sync_iter: durations', timing('s', ['agen', 'aiter']), 'program', chunk=60),
         Group('sources which wait for the consumer', handshake, 'program', chunk=60),
         Group('slow sources and consumers', slow, 'program', chunk=60),
         Group('long sequences', long_ones, 'program', chunk=3),
         Group('very long sequences', longest, 'program', chunk=1),
         Group('to_sync_iter: loops', loops, 'program', chunk=60),
         Group('consumers which give up', giveup, 'program', chunk=60),
         Group('several bridges', several, 'program', chunk=2),
         Group('bridges in a row', rows, 'program', chunk=60),
         Group('one source in pieces', pieces, 'program', chunk=60),
         Group('to_async_iter: interleavings', inter('a', ('gen',), (), (0, 1, 2, 3)), 'explore',
               bounds=(1, 2, 3, 4) if th else (1, 2, 3)),
         Group('to_sync_iter: interleavings', inter('s', ('agen',), (), (0, 1, 2, 3)), 'explore',
               bounds=(1, 2, 3, 4) if th else (1, 2, 3)),
         Group('interleavings, longer', inter('a', ('gen',), (), (5, 6), ((),), ((),)), 'explore', bounds=(1, 2)),
         Group('interleavings, longer, sync', inter('s', ('agen',), (), (5, 6), ((),), ((),)), 'explore',
               bounds=(1, 2)),
         Group('interleavings, bytecode granularity',
               inter('a', ('gen',), (('instr', True),), (0, 1, 2) if th else (1,), ((),), ((),)), 'explore',
               bounds=(1, 2)),
         Group('interleavings, bytecode granularity, sync',
               inter('s', ('agen',), (('instr', True),), (0, 1, 2) if th else (1,), ((),), ((),)), 'explore',
               bounds=(1, 2)),
         Group('interleavings of consumers which give up', inter_giveup, 'explore', bounds=(1, 2) if th else (1,)),
         Group('interleavings of several bridges', inter_several, 'explore', bounds=(1, 2) if th else (1,))]
    return g
