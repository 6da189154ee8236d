"""
C01 / C05 / C06: threadsafe_async_cache under several threads, each with its
own event loop.

A scenario is a small closed program:

  spec = (prop, threads, behav, opts)
  threads: tuple of (delay, life, callers)
     life: ('run',)          asyncio.run(), waits for every caller
           ('leave', t)      asyncio.run() whose main returns at t with the
                             callers possibly pending (shutdown cancels them)
           ('stop', t)       loop stops running at t and is never closed
           ('close', t)      loop stops running at t and is closed as is
           ('rerun', n)      asyncio.run(), n times one after another
           ('reuse', n)      run_until_complete() of one loop, n times, 0.2 s apart
     callers: tuple of (at, key, action), action: None | ('cancel', t) | ('timeout', t)
           | ('evict',) clears the mapping, no call
           | ('again', n) n times: calls, then clears the mapping
  behav: behaviour of the n-th invocation of the wrapped function (last one
         repeats): (duration, outcome), duration 0 = no suspension,
         'y' = one sleep(0), else seconds; outcome 'ok' | 'exc' | 'cancel' | a name in
         EXCS (exceptions of other types)
  opts: dict as tuple of pairs: mapping ('dict'|'own'), instr, stall,
        kw (the key is passed as a keyword argument), ('horizon', t),
        fn (what is wrapped: 'partial', 'method', 'object', 'future' a function
        which returns a task, 'classmethod'),
        ret (what the function returns: 'none', 'false' a falsy object, 'exc' an
        exception instance, 'weird' an object which cannot be compared,
        'aw' a coroutine-like object),
        nest ((key, other), ...): the computation of key first calls the cached
        function for the other key
"""
import asyncio as aio
import contextvars
import functools
import itertools
import threading
from collections.abc import MutableMapping

from .. import vrt, explore
from ..check import Group

CALL = contextvars.ContextVar('CALL')

EPS = 0.5          # far below the 60 s safety timeout, far above 0 work
SAFETY = 60.0


class InvExc(Exception):
    pass


class InvKey(InvExc, KeyError):
    pass


class InvTimeout(InvExc, aio.TimeoutError):
    pass


class InvRuntime(InvExc, RuntimeError):
    pass


class InvFalsy(InvExc):
    def __bool__(self):
        return False


class InvBase(BaseException):
    pass


EXCS = {'exc': InvExc, 'key': InvKey, 'timeout': InvTimeout, 'runtime': InvRuntime, 'falsy': InvFalsy,
        'base': InvBase}


class OwnMapping(MutableMapping):
    """A retaining mapping supplied by the user; every access is a choice point."""

    def __init__(self):
        self.d = {}

    def __getitem__(self, k):
        vrt.point('map get')
        return self.d[k]

    def __setitem__(self, k, v):
        vrt.point('map set')
        self.d[k] = v
        vrt.point('map set done')

    def __delitem__(self, k):
        vrt.point('map del')
        del self.d[k]

    def __iter__(self):
        return iter(list(self.d))

    def __len__(self):
        return len(self.d)


class Falsy:
    def __bool__(self):
        return False

    def __len__(self):
        return 0


class Weird:
    def __eq__(self, other):
        raise RuntimeError('not comparable')

    def __bool__(self):
        raise RuntimeError('no truth value')

    __hash__ = None


class Aw:
    def __await__(self):
        raise RuntimeError('the result was awaited')
        yield


RET = {'none': lambda i: None, 'false': lambda i: Falsy(), 'exc': lambda i: KeyError(i.key),
       'weird': lambda i: Weird(), 'aw': lambda i: Aw()}


class Inv:
    __slots__ = ('n', 'key', 'call', 'loop', 'start', 'end', 'how', 'value', 'returned', 'gone')


class Call:
    __slots__ = ('n', 'key', 'thread', 'start', 'end', 'outcome', 'asked', 'until', 'exc', 'probe', 'loop', 'at')


class CacheScenario(explore.Scenario):
    def __init__(self, spec):
        self.spec = spec
        self.prop, self.threads, self.behav, o = spec
        self.o = dict(o)
        slow = any(not isinstance(d, str) and d > 500 for d, _ in self.behav)
        self.opts = {'max_steps': 3000000 if self.o.get('big') else 30000,
                     'horizon': self.o.get('horizon', 1e5 if slow else 4000.0),
                     'instr': self.o.get('instr', False),
                     'stall': self.o.get('stall', False),
                     'free_block': self.o.get('free_block', False)}

    def __repr__(self):
        return f'CacheScenario({self.spec!r})'

    # ------------------------------------------------------------------
    def setup(self, s):
        self.s = s
        self.invs = []
        self.calls = []
        self.bad = {'C01': [], 'C05': [], 'C06': []}
        self.deaths = []        # (time, loop)
        self.success = {}
        self.resumed = {}       # loop -> when it has been continued
        self.evicted = {}       # key -> time of the last eviction
        self.nest = dict(self.o.get('nest', ()))
        self.thread_errors = []
        self.leaving = set()    # threads whose main() has returned
        s.on_loop_stop.append(self.loop_stopped)
        m = explore.fresh('aiuti.asyncio')
        if self.o.get('mapping') == 'own':
            self.mapping = OwnMapping()
            self.wrapped = m.threadsafe_async_cache(cache=self.mapping)(self._make_func())
        elif self.o.get('mapping') == 'dict':
            self.mapping = {}
            self.wrapped = m.threadsafe_async_cache(self._make_func(), cache=self.mapping)
        else:
            self.wrapped = m.threadsafe_async_cache(self._make_func())

    def loop_stopped(self, loop):
        self.deaths.append((self.s.now, loop))
        for i in self.invs:
            if i.loop is loop and i.end is None:
                i.end = self.s.now
                i.how = 'loop-stopped'

    def _make_func(self):
        async def func(key):
            return await self.invoke(key)
        fn = self.o.get('fn')
        if fn == 'partial':
            async def two(x, key):
                return await self.invoke(key)
            return functools.partial(two, 1)
        if fn == 'future':
            def plain(key):
                return aio.ensure_future(func(key))
            return plain
        if fn in ('method', 'object', 'classmethod'):
            class K:
                async def meth(me, key):
                    return await self.invoke(key)
                __call__ = meth

                @classmethod
                def clsm(cls, key):
                    return func(key)
            return {'method': K().meth, 'object': K(), 'classmethod': K.clsm}[fn]
        return func

    async def invoke(self, key):
        s = self.s
        i = Inv()
        i.n = len(self.invs)
        i.key = key
        i.call = CALL.get(None)
        i.loop = aio.get_running_loop()
        i.start = s.now
        i.end = None
        i.how = i.gone = None
        i.value = None
        i.returned = False
        for o in self.invs:
            if o.key == key and o.end is None:
                self.bad['C01'].append(
                    f'invocation {i.n} of key {key!r} started at {s.now} on {i.loop.vname} '
                    f'while invocation {o.n} is in progress on {o.loop.vname}')
        if key in self.success:
            self.bad['C01'].append(
                f'invocation {i.n} of key {key!r} after invocation '
                f'{self.success[key].n} had already succeeded')
        self.invs.append(i)
        dur, how = self.behav[min(i.n, len(self.behav) - 1)]
        try:
            if key in self.nest:
                await self.wrapped(self.nest[key])
            if dur == 0:
                vrt.point('func')
            elif dur == 'y':
                await aio.sleep(0)
            else:
                await aio.sleep(dur)
            if how in EXCS:
                raise EXCS[how](i.n)
            if how == 'cancel':
                raise aio.CancelledError('raised by the function itself')
        except BaseException as e:
            i.gone = s.now
            if i.end is None:
                i.end = s.now
                i.how = type(e).__name__
            raise
        i.gone = s.now
        ret = self.o.get('ret')
        i.value = RET[ret](i) if ret else ('value', key, i.n)
        i.returned = True
        if i.end is None:
            i.end = s.now
            i.how = 'ok'
            self.success.setdefault(key, i)
        return i.value

    # ------------------------------------------------------------------
    async def caller(self, c, action):
        s = self.s
        CALL.set(c.n)
        try:
            if action and action[0] == 'timeout':
                c.until = s.now + action[1]
                try:
                    v = await aio.wait_for(self.tracked(c), action[1])
                except aio.TimeoutError:
                    if c.outcome is None:
                        c.outcome = 'timeout?'
                    return
            elif action and action[0] == 'again':
                for _ in range(action[1]):
                    v = await self.tracked(c)
                    self.evict()
                    c = self.new_call(c.key, c.thread)
                    CALL.set(c.n)
                v = await self.tracked(c)
            else:
                v = await self.tracked(c)
        except BaseException:
            return
        return v if 'ret' not in self.o else None

    def evict(self):
        d = self.mapping.d if self.o.get('mapping') == 'own' else self.mapping
        vrt.point('evict')
        if d:
            d.clear()
            for k in list(self.success):
                del self.success[k]
                self.evicted[k] = self.s.now
        vrt.point('evicted')

    async def tracked(self, c):
        s = self.s
        c.start = s.now
        try:
            if self.o.get('kw'):
                v = await self.wrapped(key=c.key)
            else:
                v = await self.wrapped(c.key)
        except BaseException as e:
            c.end = s.now
            c.exc = e
            c.outcome = type(e).__name__
            if isinstance(e, (InvExc, InvBase)):
                inv = self.invs[e.args[0]]
                if inv.call != c.n:
                    self.bad['C06'].append(
                        f'call {c.n} raised the exception of invocation {inv.n}, '
                        f'which was performed by call {inv.call}')
            elif isinstance(e, aio.CancelledError):
                own = any(i.call == c.n and i.how == 'CancelledError' for i in self.invs)
                asked = c.asked or c.thread in self.leaving or c.until is not None and s.now >= c.until - 1e-9
                if not asked and not own:
                    self.bad['C06'].append(
                        f'call {c.n} (key {c.key!r}, on {c.loop.vname}) raised CancelledError '
                        f'but nobody cancelled its task')
            elif isinstance(e, (vrt.Abort, GeneratorExit)):
                pass
            else:
                self.bad['C06'].append(
                    f'call {c.n} (key {c.key!r}, on {c.loop.vname}) raised {e!r}, which no '
                    f'invocation of the wrapped function raised')
            raise
        c.end = s.now
        c.outcome = 'ok'
        if self.s.aborting:
            return v
        special = 'ret' in self.o
        ok = [i for i in self.invs if i.returned and i.key == c.key and
              (i.value is v if special else i.value == v)]
        if not ok:
            self.bad['C06'].append(
                f'call {c.n} of key {c.key!r} returned {v!r}, which no successful '
                f'invocation for that key computed')
        first = self.success.get(c.key)
        if first is not None and c.start > self.evicted.get(c.key, -1) and (v is not first.value if special else v != first.value):
            self.bad['C01'].append(
                f'call {c.n} of key {c.key!r} returned {v!r} although {first.value!r} was computed first')
        return v

    def new_call(self, key, thread, probe=False):
        c = Call()
        c.n = len(self.calls)
        c.key = key
        c.thread = thread
        c.start = c.end = c.outcome = c.until = c.exc = c.at = None
        c.asked = False
        c.probe = probe
        c.loop = aio.get_running_loop()
        self.calls.append(c)
        return c

    async def main(self, tid, life, callers):
        s = self.s
        tasks = []
        self.leaving.discard(tid)

        async def one(at, key, action):
            if at:
                await aio.sleep(at)
            if action and action[0] == 'evict':
                return self.evict()
            c = self.new_call(key, tid)
            t = aio.create_task(self.caller(c, action))
            if action and action[0] == 'cancel':
                if action[1] == 'y':
                    await aio.sleep(0)
                elif action[1]:
                    await aio.sleep(action[1])
                c.asked = True
                c.at = s.now
                t.cancel()
            try:
                await t
            except aio.CancelledError:
                pass
        for at, key, action in callers:
            tasks.append(aio.create_task(one(at, key, action)))
        if life[0] in ('run', 'rerun', 'reuse'):
            for t in tasks:
                await t
        else:
            await aio.sleep(life[1])
        self.leaving.add(tid)

    async def first(self, tid, life, callers, tasks):
        """life ('pause', a, gap, program): the loop is stopped after a seconds and
        continued later. What it has left behind is cancelled then, before it can
        go on, after the calls which come first in the program have been made."""
        async def one(n, at, key):
            await aio.sleep(at)
            c = tasks[n][1] = self.new_call(key, tid)
            await self.caller(c, None)
        for n, (at, key, _) in enumerate(callers):
            tasks.append([None, None])
            tasks[n][0] = aio.create_task(one(n, at, key))
        await aio.sleep(life[1])

    async def second(self, tid, life, tasks):
        old = [i.call for i in self.invs if i.how == 'loop-stopped']
        new = []
        for what in life[3]:
            if what == 'cancel':
                for t, c in tasks:
                    if c is not None and c.n in old and not t.done():
                        c.asked = True
                        t.cancel()
            elif what == 'y':
                await aio.sleep(0)
            elif isinstance(what, str):
                c = self.new_call(what, tid)
                new.append(aio.create_task(self.caller(c, None)))
            else:
                await aio.sleep(what)
        for t in [t for t, _ in tasks] + new:
            try:
                await t
            except aio.CancelledError:
                pass

    def thread(self, tid, delay, life, callers):
        s = self.s
        if delay:
            vrt.v_sleep(delay)
        if life[0] == 'pause':
            loop = aio.new_event_loop()
            aio.set_event_loop(loop)
            tasks = []
            loop.run_until_complete(self.first(tid, life, callers, tasks))
            vrt.v_sleep(life[2])
            self.resumed[loop] = s.now
            loop.run_until_complete(self.second(tid, life, tasks))
            self.keep.append(loop)
            return
        try:
            if life[0] in ('run', 'leave'):
                aio.run(self.main(tid, life, callers))
            elif life[0] == 'rerun':
                for _ in range(life[1]):
                    aio.run(self.main(tid, life, callers))
            else:
                loop = aio.new_event_loop()
                aio.set_event_loop(loop)
                loop.run_until_complete(self.main(tid, life, callers))
                for _ in range(life[1] - 1 if life[0] == 'reuse' else 0):
                    vrt.v_sleep(0.2)
                    loop.run_until_complete(self.main(tid, life, callers))
                if life[0] == 'close':
                    loop.close()
                self.keep.append(loop)
        except (vrt.Abort, GeneratorExit):
            raise
        except BaseException as e:  # noqa
            self.thread_errors.append(f'thread {tid}: {e!r}')

    def root(self):
        self.keep = []
        s = self.s
        ths = []
        for tid, (delay, life, callers) in enumerate(self.threads):
            ths.append(s.spawn(self.thread, f'thread{tid}', True, (tid, delay, life, callers)))
        for t in ths:
            while t.state != vrt.DONE:
                self.join(t)
        # probe: fresh calls afterwards
        if not self.o.get('noprobe'):
            keys = sorted({k for _, _, cs in self.threads for _, k, _ in cs})
            aio.run(self.main(99, ('run',), tuple((0, k, None) for k in keys)))

    def join(self, t):
        lock = vrt.VLock()
        lock.acquire()
        t.sentinels.append(lock)
        lock.acquire()

    # ------------------------------------------------------------------
    def check(self, s):
        bad = self.bad
        if s.status in ('deadlock', 'steps', 'horizon', 'wallhang'):
            what = {'deadlock': 'every thread is blocked forever',
                    'steps': 'threads spin without progress',
                    'horizon': 'time passes without progress',
                    'wallhang': 'a thread never reaches a scheduling point'}[s.status]
            pend = [c.n for c in self.calls if c.end is None]
            bad['C05'].append(f'{what}; unanswered calls: {pend}; ' + '; '.join(
                repr(t) for t in s.threads if t.main))
        else:
            lifes = {tid: t[1][0] for tid, t in enumerate(self.threads)}
            for c in self.calls:
                if c.start is None:
                    continue
                if lifes.get(c.thread) == 'pause' and (c.end is None or any(
                        lp is c.loop and c.start <= t <= c.end for t, lp in self.deaths)):
                    # its own loop has been stopped meanwhile
                    if c.end is None:
                        bad['C05'].append(f'call {c.n} never finished')
                        continue
                    since = self.resumed[c.loop]
                else:
                    since = c.start
                if c.end is None:
                    if lifes.get(c.thread, 'run') in ('run', 'leave', 'rerun', 'reuse'):
                        bad['C05'].append(f'call {c.n} never finished')
                    continue
                at = c.until if c.at is None else c.at
                if at is not None and c.end > at + EPS and not self.o.get('stall'):
                    bad['C06'].append(
                        f'call {c.n} (key {c.key!r}) whose task was cancelled at {at} went on until {c.end} '
                        f'and ended with {c.outcome}')
                idle = self.idle(c, since)
                # only loops which stopped in the middle of a computation, or at
                # the very instant of its end, excuse waiting for the safety net
                deaths = sum(1 for t, lp in self.deaths
                             if lp is not c.loop and c.start <= t < c.end - EPS
                             and any(i.key == c.key and i.loop is lp and i.start <= t
                                     and (i.end is None or i.end >= t - 1e-6)
                                     for i in self.invs))
                if idle > EPS + SAFETY * deaths:
                    bad['C05'].append(
                        f'call {c.n} (key {c.key!r}) pending {c.start}..{c.end} waited '
                        f'{idle:.3f} s while no invocation was in progress '
                        f'({deaths} loops stopped meanwhile in the middle of one)')
        return bad[self.prop]

    def idle(self, c, since):
        iv = sorted((max(i.start, since), min(i.end if i.end is not None else c.end, c.end))
                    for i in self.invs if i.key == c.key)
        # left behind by a stopped loop and still pending on it after it has been continued
        iv = sorted(iv + [(max(self.resumed[i.loop], since), min(c.end if i.gone is None else i.gone, c.end))
                          for i in self.invs if i.key == c.key and i.how == 'loop-stopped' and i.loop in self.resumed])
        t = since
        idle = 0.0
        for a, b in iv:
            if b <= t or a >= c.end:
                continue
            if a > t:
                idle += a - t
            t = max(t, b)
        if c.end > t:
            idle += c.end - t
        return idle

    def outcome(self, s):
        return (s.status, tuple((c.thread, c.outcome, c.end) for c in self.calls),
                tuple((i.call, i.how) for i in self.invs))

    def cleanup(self, s):
        self.keep = None
        self.s = None


def make(spec):
    return CacheScenario(spec)


# ---------------------------------------------------------------------------

RUN = ('run',)


def T(callers, life=RUN, delay=0):
    return (delay, life, tuple(callers))


def C(at=0, key='k', action=None):
    return (at, key, action)


def groups(prop, tier):
    thorough = tier == 'thorough'
    G = []
    own = (('mapping', 'own'),)
    dic = ()

    # 1. two or three threads, everybody waits
    behs = [((0, 'ok'),), (('y', 'ok'),), ((1, 'ok'),),
            ((1, 'exc'), (1, 'ok')), ((0, 'exc'), ('y', 'ok')),
            ((1, 'exc'), (1, 'exc'), (1, 'ok')), ((1, 'cancel'), (1, 'ok'))]
    A = [(prop, (T([C()]), T([C()])), b, m) for b in behs for m in (dic, own)]
    G.append(Group('2 threads x 1 caller', A, 'explore', (0, 1, 2) + ((3,) if thorough else ())))

    A = []
    for b in behs[:4]:
        A.append((prop, (T([C(), C()]), T([C()])), b, dic))
        A.append((prop, (T([C()]), T([C(), C(0.5)])), b, dic))
        A.append((prop, (T([C(), C(1)]), T([C(), C(key='j')])), b, dic))
        A.append((prop, (T([C(), C()]), T([C()])), b, (('kw', True),)))
        # the computing loop stays alive for long after the computation
        A.append((prop, (T([C()], ('leave', 300)), T([C(), C()], ('leave', 200))), b, dic))
    G.append(Group('2 threads x 2 callers', A, 'explore', (0, 1) + ((2,) if thorough else ())))
    A = [(prop, (T([C()]), T([C()]), T([C()])), b, dic) for b in behs[:5]]
    G.append(Group('3 threads x 1 caller', A, 'explore', (0, 1) + ((2,) if thorough else ())))

    # 2. the computing loop returns / stops / closes with things pending
    def life_specs(times, durs, lifes, b_callers, delays=(0, 0.25)):
        for lf in lifes:
            for t in times:
                for d in durs:
                    for h in ('ok', 'exc'):
                        for bc in b_callers:
                            for dl in delays:
                                yield (prop, (T([C()], (lf, t)), T(bc, delay=dl)),
                                       ((d, h), (1, 'ok')), dic)
    L = list(life_specs((0, 0.5, 1, 1.5), (1,), ('leave', 'stop', 'close'),
                        ([C()], [C(), C()], [C(0.5)])))
    L += list(life_specs((0,), (0, 'y'), ('leave', 'stop', 'close'), ([C()],)))
    G.append(Group('computing loop stops with calls pending, other loop waits', L, 'explore',
                   (0, 1) + ((2,) if thorough else ())))
    # the waiting loop goes away
    L = []
    for lf in ('leave', 'stop', 'close'):
        for t in (0, 0.5, 1):
            for b in (((1, 'ok'),), ((1, 'exc'), (1, 'ok'))):
                L.append((prop, (T([C()]), T([C(), C()], (lf, t))), b, dic))
                L.append((prop, (T([C()], (lf, t)), T([C()], (lf, t)), T([C(0.5)])), b, dic))
    G.append(Group('waiting loops stop', L, 'explore', (0, 1)))
    # chains: take-over of a dead loop, then the dead loop's task finishes
    L = []
    for lf in ('leave', 'close'):
        for d2 in (0.5, 1, 2):
            L.append((prop, (T([C()], (lf, 0.5)), T([C(0.5)], RUN), T([C(0.75)], RUN)),
                      ((1, 'ok'), (d2, 'ok'), (1, 'ok')), dic))
            L.append((prop, (T([C()], (lf, 0.5)), T([C(0.5), C(0.75)], RUN)),
                      ((1, 'ok'), (d2, 'ok'), (1, 'ok')), dic))
            L.append((prop, (T([C()], (lf, 0.5)), T([C()], RUN), T([C(0.75)], RUN)),
                      ((1, 'ok'), (d2, 'ok')), dic))
            L.append((prop, (T([C(), C(0.25)], (lf, 0.5)), T([C()], (lf, 1)), T([C(0.25)], RUN)),
                      ((1, 'ok'), (d2, 'ok'), (1, 'ok')), dic))
    G.append(Group('take-over chains', L, 'explore', (0, 1)))

    # 3. cancellations and timeouts of callers
    acts = [('cancel', 0), ('cancel', 'y'), ('cancel', 0.5), ('cancel', 1),
            ('timeout', 0.5), ('timeout', 1), ('timeout', 0)]
    L = []
    for a in acts:
        for b in (((1, 'ok'),), (('y', 'ok'),), ((1, 'exc'), (1, 'ok')), ((0.5, 'exc'), (1, 'ok'))):
            L.append((prop, (T([C(action=a)]), T([C()])), b, dic))
            L.append((prop, (T([C()]), T([C(action=a), C()])), b, dic))
            L.append((prop, (T([C(action=a), C()]), T([C()])), b, dic))
            L.append((prop, (T([C(), C(0.25, action=a)]), T([C(action=a)])), b, (('kw', True),)))
            L.append((prop, (T([C(action=a), C()], ('leave', 300)), T([C()])), b, dic))
    # 4. computations which take longer than the safety timeout
    LL = []
    for d in (59.5, 61, 200):
        for h in (((d, 'ok'),), ((d, 'exc'), (1, 'ok')), ((d, 'exc'), (d, 'exc'), (1, 'ok'))):
            for m in (dic, own):
                LL.append((prop, (T([C()]), T([C()])), h, m))
            LL.append((prop, (T([C(), C()]), T([C(), C(0.5)])), h, dic))
            LL.append((prop, (T([C(), C(0.5)]), T([C(65)]), T([C(d - 0.25)])), h, dic))
            for lf in ('leave', 'stop', 'close'):
                LL.append((prop, (T([C()], (lf, d - 0.5)), T([C(), C(30)])), h, dic))
                LL.append((prop, (T([C()]), T([C()], (lf, 30)), T([C(), C(40)])), h, dic))
            for a in (('cancel', 30), ('cancel', 61), ('timeout', 59), ('timeout', 65)):
                LL.append((prop, (T([C(action=a)]), T([C()])), h, dic))
                LL.append((prop, (T([C()]), T([C(action=a), C()])), h, dic))
                LL.append((prop, (T([C(), C(action=a), C()]), T([C(10)])), h, dic))
    G.append(Group('computations longer than the safety timeout', LL, 'explore', (0, 1)))

    LL = []
    for d in (700, 5000, 20000):
        for h in (((d, 'ok'),), ((d, 'exc'), (1, 'ok'))):
            LL.append((prop, (T([C()]), T([C()])), h, dic))
            LL.append((prop, (T([C()]), T([C(), C(d / 2)]), T([C(d - 1)])), h, dic))
            LL.append((prop, (T([C(), C(d / 2)]),), h, dic))
    G.append(Group('computations of many hours', LL, 'explore', (0,)))

    # 5. special results
    LL = []
    for r in RET:
        for b in (((0, 'ok'),), ((1, 'ok'),), ((1, 'exc'), ('y', 'ok'))):
            for m in ((('ret', r),), (('ret', r), ('mapping', 'own'))):
                LL.append((prop, (T([C()]), T([C(), C(1.5)])), b, m))
                LL.append((prop, (T([C(), C(0.5), C(2)]), T([C(0.25)], ('leave', 0.5))), b, m))
    G.append(Group('special results', LL, 'explore', (0, 1)))

    # 6. exceptions of the types which the cache itself deals with
    LL = []
    for e in EXCS:
        for d in (0, 'y', 1):
            for b in (((d, e), (1, 'ok')), ((1, 'ok'), (1, 'ok'), (d, e))):
                LL.append((prop, (T([C()]), T([C(), C(0.5)])), b, own if d else dic))
                LL.append((prop, (T([C(), C()], ('leave', 2.5)), T([C(0.5), C(2, 'j')])), b, dic))
    G.append(Group('exceptions of special types', LL, 'explore', (0, 1)))

    # 7. computations which need another cached value
    LL = []
    for nest in ((('k', 'j'),), (('k', 'j'), ('l', 'j')), (('k', 'j'), ('j', 'l'))):
        for b in (((1, 'ok'),), ((0, 'ok'),), ((1, 'exc'), (1, 'ok')), ((1, 'ok'), (1, 'exc'), (0, 'ok'))):
            n = (('nest', nest),)
            LL.append((prop, (T([C()]), T([C(key='j')])), b, n))
            LL.append((prop, (T([C(), C(key='j')]), T([C(0.5, 'l'), C(0.5, 'k')])), b, n))
            LL.append((prop, (T([C()], ('leave', 0.5)), T([C(key='j'), C(0.25)])), b, n))
            LL.append((prop, (T([C(action=('cancel', 0.5)), C(key='j')]), T([C()])), b, n))
    G.append(Group('nested computations', LL, 'explore', (0, 1)))

    # entries which the user removes from the mapping
    LL = []
    ag, ev = ('again', 1), ('evict',)
    for b in (((0, 'ok'),), (('y', 'ok'),), ((1, 'ok'),), ((1, 'ok'), (1, 'exc'), (1, 'ok'))):
        for m in (own, (('mapping', 'dict'),)):
            LL.append((prop, (T([C(action=ag)]), T([C(action=ag)])), b, m))
            LL.append((prop, (T([C(action=ag)]), T([C()], ('leave', 3)), T([C(1, action=ev), C(1)])), b, m))
            LL.append((prop, (T([C(action=('again', 3))]), T([C(0.5), C(1), C(1.5)])), b, m))
            LL.append((prop, (T([C(), C(), C(1, action=ev), C(1), C(2)]), T([C(1), C(1.5, action=ev), C(1.5)])), b, m))
            LL.append((prop, (T([C()]), T([C(0.5, action=ev), C(1, action=ev), C(1), C(1.5, 'j')])), b, m))
    G.append(Group('evicted entries', LL, 'explore', (0, 1) + ((2,) if thorough else ())))
    LL = [(prop, (T([C(action=ag)]), T([C()], ('leave', 3))), ((0, 'ok'),), own),
          (prop, (T([C(action=ag)]), T([C(action=ag)])), ((0, 'ok'),), (('mapping', 'dict'),))]
    G.append(Group('evicted entries, deeper', LL, 'explore', (2,) + ((3,) if thorough else ())))

    # entries which are old; one thread which runs several loops
    LL = []
    for b in (((1, 'ok'),), ((0, 'exc'), (1, 'ok'))):
        for m in (own, dic):
            LL.append((prop, (T([C(), C(61), C(3700), C(90000)]), T([C(0.5), C(700), C(1000000)])), b,
                       m + (('horizon', 2e6),)))
        for lf in (('rerun', 2), ('rerun', 4), ('reuse', 2), ('reuse', 4)):
            for m in (own, dic, (('mapping', 'own'), ('ret', 'none'))):
                LL.append((prop, (T([C(), C(0.5)], lf),), b, m))
                LL.append((prop, (T([C(action=('cancel', 0.5))], lf), T([C(0.75)])), b, m))
                LL.append((prop, (T([C()], lf), T([C(0.5, 'j'), C(0.5)], lf)), b, m))
                LL.append((prop, (T([C()], lf), T([C()], ('leave', 0.5))), b, m))
        if b[0][1] == 'exc':
            for lf in (('rerun', 5), ('reuse', 5)):
                LL.append((prop, (T([C()], lf), T([C()], lf)), ((1, 'exc'),) * 6 + ((1, 'ok'),), dic))
    G.append(Group('old entries, threads with several loops', LL, 'explore', (0, 1)))

    # loops which are stopped in the middle and continued later
    LL = []
    for b in (((2, 'exc'), (1, 'exc'), (1, 'ok')), ((2, 'ok'), (1, 'ok')), ((2, 'ok'), (3, 'ok')),
              ((2, 'ok'), (3, 'exc'), (1, 'ok')), ((2, 'ok'), (1, 'exc'), ('y', 'ok'))):
        for slow, prog in ((0, ('cancel',)), (0, ('cancel', 'k', 'y', 'k')), (0, ('k', 'cancel', 'y', 'k', 'k')),
                           (0, ('k', 'j', 'cancel', 'y', 'y', 'y', 'k')), (0, ('k', 'cancel', 0.5, 'k')),
                           (1, ('k', 'y', 'cancel', 'y', 'y', 'k')), (1, ('k', 0.5, 'cancel', 0.25, 'k')),
                           (1, (0.5, 'cancel', 'k')), (1, (1.5, 'k', 'cancel', 'k', 'y', 'k'))):
            bb = ((200, b[0][1]),) + b[1:] if slow else b
            for gap in (0.5, 3, 70):
                LL.append((prop, (T([C()], ('pause', 1, gap, prog)), T([C(1.25)])), bb, dic))
                LL.append((prop, (T([C(), C(0.5)], ('pause', 1, gap, prog)), T([C(1.5), C(2)])), bb, dic))
            LL.append((prop, (T([C()], ('pause', 1, 1, prog)), T([C(1.5, 'j')])), bb, dic))
            if not slow:
                LL.append((prop, (T([C()], ('pause', 1, 3, prog)), T([C(1.25)], ('pause', 1.75, 3, prog)), T([C(5)])),
                           bb, dic))
    G.append(Group('loops stopped in the middle and continued', LL, 'explore', (0, 1) + ((2,) if thorough else ())))

    # what is wrapped
    LL = []
    for fn in ('partial', 'method', 'object', 'classmethod', 'future'):
        for b in behs[:4]:
            f = (('fn', fn),)
            LL.append((prop, (T([C()]), T([C(), C(0.5)])), b, f))
            LL.append((prop, (T([C(), C(key='j')]), T([C()])), b, f + (('kw', True),)))
            if fn != 'future':
                LL.append((prop, (T([C(action=('cancel', 0.5)), C()]), T([C()])), b, f))
                LL.append((prop, (T([C()], ('leave', 0.5)), T([C()])), b, f))
    G.append(Group('callables of other kinds', LL, 'explore', (0, 1)))

    # 8. many threads, callers and keys (one schedule each)
    big = (('big', True),)
    LL = []
    for b in (((1, 'ok'),), ((0, 'ok'),), ((1, 'exc'),) * 3 + ((1, 'ok'),)):
        for nt, nc in ((2, 40), (10, 10), (24, 2)):
            LL.append((prop, tuple(T([C(0 if j % 3 else 0.25) for j in range(nc)], delay=0.5 * (i % 3))
                                   for i in range(nt)), b, big))
        for nk in (150, 1200):
            LL.append((prop, (T([C(key=i) for i in range(nk)]), T([C(2, key=i) for i in range(0, nk, 7)])), b, big))
            LL.append((prop, (T([C(i / 16, key=i) for i in range(nk)]),), b, big))
            LL.append((prop, (T([C(key=i) for i in range(nk)] + [C(0.5, key=i) for i in range(0, nk, 3)]),
                              T([C(0.75, key=i) for i in range(1, nk, 4)])), b, big))
            LL.append((prop, (T([C(i / 16, key=i) for i in range(nk)]), T([C(i / 16 + 20, key=i) for i in range(0, nk, 3)])),
                       tuple((d * 80, h) for d, h in b), big))
    for n in (12, 40, 150) + ((1100,) if thorough else ()):
        for d, hs in ((0.5, ('exc',)), (0, ('exc', 'cancel')), ('y', ('exc', 'exc', 'cancel'))):
            # one failure after the other, then it succeeds; again when the
            # entry is removed
            b = tuple((d, hs[i % len(hs)]) for i in range(n)) + ((d, 'ok'),)
            LL.append((prop, (T([C(i) for i in range(n + 4)]),), b, big))
            LL.append((prop, (T([C(i) for i in range(n + 4)]), T([C(2 * i + 0.75) for i in range(n // 2 + 4)])), b, big))
            LL.append((prop, (T([C() for i in range(n + 4)]), T([C(0.25), C(0.25)])), b, big))
            LL.append((prop, (T([C(i) for i in range(n + 2)] + [C(n + 2 + i, action=('again', 1)) for i in range(5)]),
                              T([C(n + 9)])), b, big + own))
        LL.append((prop, (T([C(action=('again', n)), C(0.25, 'j')]), T([C(1, action=('again', 3))])), ((0.5, 'ok'),), big + own))
    G.append(Group('many callers, keys and failures', LL, 'explore', (0,)))
    G.append(Group('callers cancelled or timed out', L, 'explore', (0, 1) + ((2,) if thorough else ())))
    return G
