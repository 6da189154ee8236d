"""
C20: gather_excs / raise_first_exc, all lists of awaitables x finishing orders
x filters, in virtual time.

spec: (fn, container, only, aws); aws: tuple of (kind, delay, outcome).
"""
import abc
import asyncio as aio
import collections
import concurrent.futures
import itertools

from .. import vrt, explore
from ..check import Group

LEVEL = {'C20': 'model_checking'}
ASSUMPTIONS = {'C20': ['KeyboardInterrupt/SystemExit raised by an awaitable tear the loop down '
                       'in asyncio itself and are not used as outcomes']}


class Base(Exception):
    pass


class Sub(Base):
    pass


class Other(Exception):
    pass


class BOnly(BaseException):
    pass


class Falsy(Base):
    def __bool__(self):
        return False

    def __len__(self):
        return 0


class Odd(Other):
    def __eq__(self, other):
        raise AssertionError('exceptions are compared')

    __hash__ = None


class Equal(Other):
    def __eq__(self, other):
        return True

    def __hash__(self):
        return 1


class Multi(Sub, Other):
    pass


class Virtual(Exception, metaclass=abc.ABCMeta):
    '''a filter which other classes are registered for'''


Virtual.register(Other)
Virtual.register(BOnly)


class Meta(type):
    def __bool__(cls):
        return False

    def __len__(cls):
        return 0


class OddClass(Base, metaclass=Meta):
    '''a class which is false'''


SHARED = Base('shared')

EXC = {'falsy': Falsy, 'odd': Odd, 'equal': Equal, 'key': KeyError, 'stopasync': StopAsyncIteration,
       'genexit': GeneratorExit, 'invalid': aio.InvalidStateError, 'cfcancel': concurrent.futures.CancelledError,
       'shared': lambda i: SHARED, 'base': Base, 'sub': Sub, 'other': Other, 'bonly': BOnly, 'cancel': aio.CancelledError,
       'timeout': TimeoutError, 'multi': Multi, 'oddcls': OddClass, 'oserr': lambda i: OSError(2, 'x'),
       'group': lambda i: ExceptionGroup('g', [Base(i), Other(i)]),
       'bgroup': lambda i: BaseExceptionGroup('g', [BOnly(i), ExceptionGroup('h', [Base(i), Sub(i)])])}
CLS = dict({k: v for k, v in EXC.items() if isinstance(v, type)}, shared=Base, oserr=FileNotFoundError,
           group=ExceptionGroup, bgroup=BaseExceptionGroup)
ONLY = {'BaseException': BaseException, 'Exception': Exception, 'base': Base, 'sub': Sub,
        'other': Other, 'bonly': BOnly, 'cancel': aio.CancelledError, 'default': None}
# further filters: registered classes, groups, classes made from others, odd ones
MORE = {'virtual': Virtual, 'egroup': ExceptionGroup, 'bgroup': BaseExceptionGroup, 'multi': Multi, 'oddcls': OddClass,
        'oserror': OSError, 'notfound': FileNotFoundError}
FILTERS = {**ONLY, **MORE}


class Aw:
    def __init__(self, coro):
        self.coro = coro

    def __await__(self):
        return self.coro.__await__()


class EqualAw(Aw):
    """equal to every other one, like a dataclass with the same fields"""

    def __eq__(self, other):
        return isinstance(other, Aw)

    def __hash__(self):
        return 7


class UnhashableAw(Aw):
    __hash__ = None

    def __eq__(self, other):
        return NotImplemented


AWS = {'aw': Aw, 'eqaw': EqualAw, 'unhash': UnhashableAw}


class GatherProgram(explore.LoopProgram):
    opts = dict(explore.LoopProgram.opts, horizon=5e6)

    def setup(self, s):
        super().setup(s)
        self.fn, self.container, self.only, self.aws = self.spec
        self.finished = {}
        self.excs = {}

    def hang(self, what):
        return [what]

    async def body(self, i, delay, outcome):
        try:
            if delay is not None:
                await aio.sleep(delay)
        except BaseException as e:
            self.finished[i] = ('interrupted', repr(e), self.s.now)
            raise
        self.finished[i] = ('done', outcome, self.s.now)
        if outcome == 'ret':
            return i
        if outcome == 'retnone':
            return None
        if outcome.startswith('ret'):
            return EXC[outcome[3:]](i)
        e = self.excs[i] = EXC[outcome](i)
        raise e

    def make_aws(self, loop):
        seen = {}
        for i, (kind, delay, outcome) in enumerate(self.aws):
            if kind == 'same':      # the same future as the previous one
                self.finished[i] = None
                yield seen[i - 1]
                seen[i] = seen[i - 1]
                continue
            c = self.body(i, delay, outcome)
            if kind == 'task':
                c = loop.create_task(c)
            elif kind in AWS:
                c = AWS[kind](c)
            elif kind == 'fut':
                f = loop.create_future()

                async def feed(f=f, c=c):
                    try:
                        r = await c
                    except aio.CancelledError:
                        f.cancel()
                    except BaseException as e:  # noqa
                        f.set_exception(e)
                    else:
                        if not f.done():
                            f.set_result(r)
                t = loop.create_task(feed())
                self.keep.append(t)
                c = f
            seen[i] = c
            yield c

    def expected(self):
        only = FILTERS[self.only]
        if self.only == 'default':
            only = BaseException
        out = []
        for i, (kind, delay, outcome) in enumerate(self.aws):
            j = i
            while self.aws[j][0] == 'same':
                j -= 1
            outcome = self.aws[j][2]
            if not outcome.startswith('ret') and issubclass(CLS[outcome], only):
                out.append((j, EXC[outcome]))
        return out

    def matches(self, exc, want):
        j, cls = want
        if cls is aio.CancelledError:
            return type(exc) is cls
        return exc is self.excs.get(j, self)

    async def main(self):
        loop = aio.get_running_loop()
        self.keep = []
        aws = self.make_aws(loop)
        if self.container == 'list':
            aws = list(aws)
        elif self.container == 'tuple':
            aws = tuple(aws)
        elif self.container == 'deque':
            aws = collections.deque(aws)
        elif self.container == 'values':
            aws = dict(enumerate(aws)).values()
        elif self.container == 'reversed':
            aws = reversed(list(aws)[::-1])
        elif self.container == 'seq':
            class Seq:
                def __init__(self, items):
                    self.items = items

                def __getitem__(self, i):
                    return self.items[i]
            aws = Seq(list(aws))
        kw = {} if self.only == 'default' else {'only': FILTERS[self.only]}
        end = max([d or 0 for k, d, _ in self.aws if k != 'same'], default=0)
        want = self.expected()
        t0 = self.s.now
        if self.fn == 'gather':
            got = []
            first = []

            async def consume():
                async for e in self.m.gather_excs(aws, **kw):
                    if not got:
                        first.append(self.s.now)
                    got.append(e)
            t = loop.create_task(consume())
            await aio.wait([t])
            if t.cancelled() or t.exception() is not None:
                self.bad.append(f'gather_excs raised {"CancelledError" if t.cancelled() else repr(t.exception())}')
            ends = first + [self.s.now]
            if len(got) != len(want) or not all(map(self.matches, got, want)):
                self.bad.append(f'yielded {[repr(e) for e in got]}, expected '
                                f'{[(j, getattr(c, '__name__', c)) for j, c in want]}')
            self.events.append(len(got))
        else:
            async def call():
                return await self.m.raise_first_exc(aws, **kw)
            t = loop.create_task(call())
            await aio.wait([t])
            ends = [self.s.now]
            if t.cancelled():
                exc = aio.CancelledError()
            else:
                exc = t.exception()
            if exc is None:
                if want:
                    self.bad.append(f'returned {t.result()!r}, should have raised {getattr(want[0][1], '__name__', want[0][1])} of #{want[0][0]}')
                elif t.result() is not None:
                    self.bad.append(f'returned {t.result()!r} instead of None')
            elif not want:
                self.bad.append(f'raised {exc!r}, should have returned None')
            elif not self.matches(exc, want[0]):
                self.bad.append(f'raised {exc!r}, should have raised {getattr(want[0][1], '__name__', want[0][1])} of #{want[0][0]}')
            self.events.append(type(exc).__name__)
        for i in range(len(self.aws)):
            f = self.finished.get(i, 'never started')
            if self.aws[i][0] == 'same':
                continue
            if f == 'never started' or f[0] != 'done':
                self.bad.append(f'awaitable #{i} did not run to completion: {f}')
        for e in ends:
            if e != t0 + end:
                self.bad.append(f'produced results at {e}, the last awaitable finishes at {t0 + end}')


def make(spec):
    return GatherProgram(spec)


def groups(prop, tier):
    thorough = tier == 'thorough'
    OUT = ('ret', 'retbase', 'base', 'sub', 'other', 'bonly', 'cancel')
    KINDS = ('coro', 'fut', 'task', 'aw')
    CONT = ('list', 'gen', 'tuple')

    def small():
        for fn in ('gather', 'raise'):
            for only in ONLY:
                for c in CONT:
                    yield (fn, c, only, ())
                for k in KINDS:
                    for d in (None, 0, 1):
                        for o in OUT + ('retnone', 'timeout', 'retbonly', 'retcancel'):
                            yield (fn, 'list', only, ((k, d, o),))
                for k1, k2 in itertools.product(KINDS, KINDS + ('same',)):
                    for o1, o2 in itertools.product(OUT, OUT):
                        if k2 == 'same' and o2 != 'ret':
                            continue
                        for d1, d2 in ((1, 2), (2, 1)):
                            yield (fn, 'list', only, ((k1, d1, o1), (k2, d2, o2)))
                        if k1 == 'coro':
                            for d1, d2 in ((None, None), (0, None), (1, 1), (None, 0)):
                                yield (fn, 'gen', only, ((k1, d1, o1), (k2, d2, o2)))

    def three():
        delays = list(itertools.permutations((0, 1, 2))) + [(1, 1, 1), (None, None, None), (2, None, 0), (1, 1, 0)]
        for fn in ('gather', 'raise'):
            for only in (ONLY if thorough else ('default', 'Exception', 'base', 'bonly')):
                for outs in itertools.product(OUT, repeat=3):
                    for n, ds in enumerate(delays):
                        k = n + len(only)
                        yield (fn, CONT[k % 3], only, tuple(
                            (KINDS[(k + i) % 4], d, o) for i, (d, o) in enumerate(zip(ds, outs))))

    def four():
        for fn in ('gather', 'raise'):
            for only in ('default', 'base'):
                for outs in itertools.product(('ret', 'base', 'sub', 'other'), repeat=4):
                    for n, ds in enumerate(itertools.permutations((0, 1, 2, 3))):
                        yield (fn, CONT[n % 3], only, tuple(
                            (KINDS[(n + i) % 4], d, o) for i, (d, o) in enumerate(zip(ds, outs))))

    def five():
        for fn in ('gather', 'raise'):
            for only in ('default', 'base', 'Exception') if thorough else ('Exception',):
                for outs in itertools.product(('ret', 'base', 'bonly'), repeat=5):
                    for n, ds in enumerate(itertools.permutations((0, 1, 2, 3, 4))):
                        if not thorough and n % 5:
                            continue
                        yield (fn, CONT[n % 3], only, tuple(
                            (KINDS[(n + i) % 4], d, o) for i, (d, o) in enumerate(zip(ds, outs))))
    def special():
        S = ('falsy', 'odd', 'equal', 'key', 'stopasync', 'genexit', 'invalid', 'cfcancel', 'shared', 'timeout')
        for fn in ('gather', 'raise'):
            for only in ('default', 'Exception', 'base', 'other'):
                for o in S:
                    for k in ('coro', 'task', 'fut', 'aw'):
                        yield (fn, 'list', only, ((k, 1, o),))
                        yield (fn, 'list', only, ((k, 1, 'ret' + o),))
                    for o2 in S + ('ret', 'base', 'retfalsy', 'retequal', 'retodd'):
                        for ds in ((1, 2), (2, 1), (None, None)):
                            yield (fn, 'gen', only, (('coro', ds[0], o), ('task', ds[1], o2)))
                            yield (fn, 'list', only, (('aw', ds[0], o2), ('coro', ds[1], o)))

    def odd_awaitables():
        KS = ('eqaw', 'unhash', 'aw', 'coro', 'same')
        for fn in ('gather', 'raise'):
            for only in ('default', 'base'):
                for n in (1, 2, 3):
                    for ks in itertools.product(KS, repeat=n):
                        if ks[0] == 'same' or not {'eqaw', 'unhash'} & set(ks):
                            continue
                        for os in itertools.product(('ret', 'base', 'other', 'cancel'), repeat=n):
                            for ds in (range(n), range(n, 0, -1)):
                                yield (fn, CONT[n % 3], only, tuple(zip(ks, ds, os)))

    def filters():
        S = ('multi', 'oddcls', 'group', 'bgroup', 'oserr', 'other', 'bonly', 'sub', 'ret', 'retgroup', 'retmulti')
        C = ('list', 'gen', 'tuple', 'deque', 'values', 'reversed', 'seq')
        n = 0
        for fn in ('gather', 'raise'):
            for only in FILTERS:
                for o1 in S:
                    for k in KINDS:
                        for c in C:
                            yield (fn, c, only, ((k, 1, o1),))
                    for o2 in S:
                        for ds in ((1, 2), (2, 1), (None, None)):
                            n += 1
                            yield (fn, C[n % 7], only, ((KINDS[n % 4], ds[0], o1), (KINDS[n % 3], ds[1], o2)))

    def far():
        # longer than anybody would think of
        for fn in ('gather', 'raise'):
            for only in ('default', 'base'):
                for d in (11, 61, 700, 4000, 90000, 1000000):
                    for k in KINDS:
                        for o in ('ret', 'base', 'other', 'cancel'):
                            yield (fn, 'list', only, ((k, d, o),))
                            for o2 in ('ret', 'base', 'bonly'):
                                for ds in ((0, d), (d, 1), (d, d / 2), (d, d)):
                                    yield (fn, 'gen', only, ((k, ds[0], o), ('coro', ds[1], o2)))
                                yield (fn, 'tuple', only, ((k, d, o), ('task', None, o2), ('fut', d / 3, 'base')))

    def many():
        for fn in ('gather', 'raise'):
            for n in (17, 64, 150, 1300) if not thorough else (17, 64, 150, 1300, 6000):
                for only in ('default', 'base', 'Exception'):
                    pats = itertools.product(('ret', 'base', 'sub', 'other', 'bonly'), repeat=3)
                    for pat in pats if n < 1000 else itertools.islice(pats, 3, None, 31):
                        for order in (1, -1, 7):
                            yield (fn, CONT[n % 3], only, tuple(
                                (KINDS[i % 4], i * order % n if order else None, pat[i * 3 // n])
                                for i in range(n)))

    return [
        Group('special exceptions', special, chunk=200), Group('unusual awaitables', odd_awaitables, chunk=200),
        Group('filters, exception classes, containers', filters, chunk=200),
        Group('many awaitables', many, chunk=20), Group('long durations', far, chunk=200),
        Group('0..2 awaitables, all kinds/outcomes/filters', small, chunk=300),
        Group('3 awaitables, all outcomes x finishing orders', three, chunk=300),
        Group('4 awaitables', four, chunk=300),
        Group('5 awaitables' + ('' if thorough else ' (every 5th finishing order)'), five, chunk=300),
    ]
