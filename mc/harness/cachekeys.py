"""
C14: cache keys.  Sequential histories of calls on the real decorated
function, checked against a reference dictionary.

spec kinds:
  ('hist', mapping, calls, evict)   calls: tuple of signature ids; evict:
        tuple of (after which call, what): entries of the supplied mapping
        dropped by the user between calls
  ('conc', mapping, calls)          the calls are made concurrently by tasks
        of one loop
  ('waves', mapping, waves, evict, gap)   waves: tuple of tuples of calls; the
        calls of a wave are concurrent, evict happens between waves, gap is the
        time between them
  ('many', mapping, n, shape)   n distinct signatures, each called twice, then
        all of them again (twice) in another order
A signature is (args, kwargs as tuple of pairs in insertion order).
"""
import asyncio as aio
import collections
import dataclasses
import fractions
import itertools
from collections.abc import MutableMapping

from .. import vrt, explore
from ..check import Group

LEVEL = {'C14': 'model_checking'}
ASSUMPTIONS = {'C14': ['arguments are hashable; equality of arguments is Python equality (1 == 1.0 == True)']}


class Eq:
    """Equal-but-distinct objects."""

    def __init__(self, v):
        self.v = v

    def __eq__(self, o):
        return isinstance(o, Eq) and o.v == self.v

    def __hash__(self):
        return hash(('Eq', self.v))

    def __repr__(self):
        return f'Eq({self.v!r})'

    __str__ = __repr__


class Coll:
    """Distinct objects with colliding hash and repr."""

    def __init__(self, v):
        self.v = v

    def __eq__(self, o):
        return isinstance(o, Coll) and o.v == self.v

    def __hash__(self):
        return 7

    def __repr__(self):
        return 'Coll'


class Sub(str):
    pass


@dataclasses.dataclass(frozen=True)
class Point:
    x: int


VAL = {
    '0': lambda: 0, '1': lambda: 1, '2': lambda: 2, 'f1': lambda: 1.0, 'T': lambda: True,
    's1': lambda: '1', 'e': lambda: '', 'N': lambda: None, 'ab': lambda: 'a',
    't': lambda: (1, 2), 't0': lambda: (), 'fs': lambda: frozenset((1,)), 'eq1': lambda: Eq(1), 'eq2': lambda: Eq(2),
    'c1': lambda: Coll(1), 'c2': lambda: Coll(2), 'ta1': lambda: ('a', 1), 'pair': lambda: (('a', 1),),
    'fsp': lambda: frozenset((('a', 1),)), 'm1': lambda: -1, 'm2': lambda: -2, 'big': lambda: 10 ** 30,
    'obj': lambda: object, 'str': lambda: str, 'b1': lambda: b'1', 'ss1': lambda: Sub('1'), 'nz': lambda: -0.0,
    'deep': lambda: ((1,),), 'tt': lambda: (1,), 'tT': lambda: (True,), 'rnd': lambda: int('9' * 40),
    'txt': lambda: ''.join(['x'] * 50), 'txu': lambda: ''.join(['x'] * 49 + ['y']), 'fr': lambda: fractions.Fraction(1),
    'cx': lambda: complex(1, 0), 'half': lambda: 0.5, 'el': lambda: ..., 'rg': lambda: range(2),
    'rg2': lambda: range(0, 2, 1), 'p1': lambda: Point(1), 'p2': lambda: Point(2), 'm61': lambda: 2 ** 61 - 1,
}


def build(sig):
    args, kw = sig
    return tuple(VAL[a]() for a in args), {k: VAL[v]() for k, v in kw}


class Retaining(MutableMapping):
    def __init__(self):
        self.d = {}
        self.log = []

    def __getitem__(self, k):
        return self.d[k]

    def __setitem__(self, k, v):
        self.log.append(('set', k))
        self.d[k] = v

    def __delitem__(self, k):
        self.log.append(('del', k))
        del self.d[k]

    def __iter__(self):
        return iter(list(self.d))

    def __len__(self):
        return len(self.d)


class FalsyMap(Retaining):
    """A supplied mapping is used even while it is empty or claims to be false."""

    def __bool__(self):
        return False


class Bounded(Retaining):
    """LRU-ish bounded mapping of the given size."""

    def __init__(self, size):
        super().__init__()
        self.d = collections.OrderedDict()
        self.size = size

    def __getitem__(self, k):
        v = self.d[k]
        self.d.move_to_end(k)
        return v

    def __setitem__(self, k, v):
        self.log.append(('set', k))
        self.d[k] = v
        self.d.move_to_end(k)
        while len(self.d) > self.size:
            self.d.popitem(last=False)


class Missing(dict):
    """A dict subclass with its own storage hooks (counts)."""
    log = ()


def make_mapping(kind):
    if kind == 'default':
        return None
    if kind == 'dict':
        return {}
    if kind == 'retain':
        return Retaining()
    if kind == 'falsy':
        return FalsyMap()
    if kind.startswith('lru'):
        return Bounded(int(kind[3:]))
    if kind == 'odict':
        return collections.OrderedDict()
    raise AssertionError(kind)


def sig_eq(a, b):
    (aa, ak), (ba, bk) = a, b
    if len(aa) != len(ba) or any(x != y for x, y in zip(aa, ba)):
        return False
    return ak == bk


class KeyProgram(explore.LoopProgram):
    opts = {'lines': False, 'max_steps': 5000000, 'horizon': 1e9}

    def setup(self, s):
        super().setup(s)
        self.invs = []
        self.seen_keys = []

    async def main(self):
        kind, mkind, calls = self.spec[:3]
        self.mapping = mapping = make_mapping(mkind)
        invs = self.invs
        delay = kind in ('conc', 'waves')

        async def func(*args, **kwargs):
            n = len(invs)
            invs.append((args, kwargs))
            if delay:
                await aio.sleep(1)
            return Result(n)
        cached = (self.m.threadsafe_async_cache(func) if mapping is None
                  else self.m.threadsafe_async_cache(func, cache=mapping))
        if kind == 'hist':
            await self.history(cached, mapping, mkind, calls, self.spec[3])
        elif kind == 'waves':
            await self.waves(cached, mapping, *self.spec[2:])
        elif kind == 'many':
            await self.many(cached, mapping, *self.spec[2:])
        else:
            await self.concurrent(cached, mapping, calls)

    async def history(self, cached, mapping, mkind, calls, evict):
        invs = self.invs
        ref = []        # list of (signature, Result) still retained, LRU order
        size = int(mkind[3:]) if mkind.startswith('lru') else None
        for step, sig in enumerate(calls):
            for when, what in evict:
                if when == step and mapping is not None and ref:
                    self.do_evict(mapping, ref, what)
            want_sig = build(sig)
            args, kwargs = build(sig)
            before = len(invs)
            try:
                r = await cached(*args, **kwargs)
            except Exception as e:  # noqa
                self.bad.append(f'call {step} {want_sig!r} raised {e!r}')
                return
            hit = next((i for i, (s, _) in enumerate(ref) if sig_eq(s, want_sig)), None)
            ran = len(invs) - before
            if hit is None:
                if ran != 1:
                    self.bad.append(f'call {step} {want_sig!r}: {ran} invocations, expected a computation')
                elif r.n != before:
                    self.bad.append(f'call {step} {want_sig!r} received the result of {invs[r.n]!r}')
                elif not sig_eq((invs[before][0], invs[before][1]), want_sig):
                    self.bad.append(f'call {step} {want_sig!r} computed {invs[before]!r}')
                ref.append((want_sig, r))
                if size is not None and len(ref) > size:
                    ref.pop(0)
            else:
                if ran:
                    self.bad.append(f'call {step} {want_sig!r}: computed again ({ran} invocations) although cached')
                if r is not ref[hit][1]:
                    self.bad.append(f'call {step} {want_sig!r} received the result of '
                                    f'{invs[r.n]!r} instead of the cached one')
                if size is not None:
                    ref.append(ref.pop(hit))
            if mapping is not None:
                inner = mapping.d if isinstance(mapping, Retaining) else mapping
                if hit is None:
                    r.keys = [k for k in inner if k not in self.seen_keys]
                self.seen_keys = list(inner)
                if len(inner) != len(ref):
                    self.bad.append(f'after call {step} the supplied mapping holds {len(inner)} entries, '
                                    f'expected {len(ref)}')
            if self.bad:
                return
        self.events.append(len(invs))

    def do_evict(self, mapping, ref, what):
        inner = mapping.d if isinstance(mapping, Retaining) else mapping
        if what == 'all':
            inner.clear()
            ref.clear()
            self.seen_keys = []
            return
        v = ref[0 if what == 'first' else -1][1]
        for k in v.keys:
            inner.pop(k, None)
        self.seen_keys = list(inner)
        ref[:] = [(s, r) for s, r in ref if r is not v]

    async def waves(self, cached, mapping, waves, evict, gap):
        ref = []
        added = {}      # wave -> (keys of the mapping, references) it added
        for step, calls in enumerate(waves):
            if step and gap:
                await aio.sleep(gap)
            for when, what in evict:
                if when == step and ref:
                    inner = mapping.d if isinstance(mapping, Retaining) else mapping
                    if what == 'all':
                        inner.clear()
                        ref.clear()
                        added.clear()
                    elif what in added:
                        keys, new = added.pop(what)
                        for k in keys:
                            del inner[k]
                        ref[:] = [x for x in ref if x not in new]
                    self.seen_keys = list(inner)
            before = len(self.invs)
            ts = []
            for sig in calls:
                args, kwargs = build(sig)
                ts.append((build(sig), aio.ensure_future(cached(*args, **kwargs))))
            await aio.wait([t for _, t in ts])
            new = []
            for s, t in ts:
                if t.exception() is not None:
                    self.bad.append(f'call {s!r} raised {t.exception()!r}')
                    return
                r = t.result()
                hit = next((x for k, x in ref + new if sig_eq(k, s)), None)
                if hit is None:
                    if not sig_eq(self.invs[r.n], s):
                        self.bad.append(f'call {s!r} received the result computed for {self.invs[r.n]!r}')
                    if r.n < before:
                        self.bad.append(f'call {s!r} received the result which had been evicted')
                    new.append((s, r))
                elif hit is not r:
                    self.bad.append(f'call {s!r} received another result than an equal call')
            if len(self.invs) - before != len(new):
                self.bad.append(f'{len(self.invs) - before} computations for {len(new)} new signatures')
            ref += new
            if mapping is not None:
                inner = mapping.d if isinstance(mapping, Retaining) else mapping
                added[step] = [k for k in inner if k not in self.seen_keys], new
                self.seen_keys = list(inner)
                if len(inner) != len(ref):
                    self.bad.append(f'after wave {step} the supplied mapping holds {len(inner)} entries, '
                                    f'expected {len(ref)}')
            if self.bad:
                return
        self.events.append(len(self.invs))

    async def many(self, cached, mapping, n, shape):
        seen = []

        def args(i):
            if shape == 'args':
                return (i,), {}
            if shape == 'kw':
                return (), {'a': i}
            if shape == 'wide':
                return (i % 7, i // 7), {'k%d' % (i % 5): i}
            return tuple(range(i % 40)) + (i,), {chr(97 + j): i for j in range(i % 26)}
        for i in range(n):
            for _ in range(2):
                a, k = args(i)
                r = await cached(*a, **k)
                if _ and r is not seen[i]:
                    self.bad.append(f'signature {i}: the second call received another result')
                elif not _:
                    seen.append(r)
                    if r.n != i or self.invs[-1] != (a, k):
                        self.bad.append(f'signature {i}: received the result of {self.invs[r.n]!r}')
            if self.bad:
                return
        for i in list(range(n)) + list(range(n - 1, -1, -1)):
            a, k = args(i)
            if await cached(*a, **k) is not seen[i]:
                self.bad.append(f'signature {i} of {n} received another result later')
                return
        if len(self.invs) != n:
            self.bad.append(f'{len(self.invs)} computations for {n} signatures')
        self.events.append(len(self.invs))

    async def concurrent(self, cached, mapping, calls):
        tasks = []
        for sig in calls:
            args, kwargs = build(sig)
            tasks.append((build(sig), aio.ensure_future(cached(*args, **kwargs))))
        await aio.wait([t for _, t in tasks])
        for s, t in tasks:
            try:
                r = t.result()
            except Exception as e:  # noqa
                self.bad.append(f'call {s!r} raised {e!r}')
                continue
            if not sig_eq(self.invs[r.n], s):
                self.bad.append(f'call {s!r} received the result computed for {self.invs[r.n]!r}')
        distinct = []
        for s, _ in tasks:
            if not any(sig_eq(s, d) for d in distinct):
                distinct.append(s)
        if len(distinct) != len(self.invs) and not isinstance(mapping, Bounded):
            self.bad.append(f'{len(self.invs)} computations for {len(distinct)} distinct signatures')
        self.events.append(len(self.invs))


class Result:
    def __init__(self, n):
        self.n = n

    def __bool__(self):
        return self.n % 2 == 1

    def __eq__(self, o):
        return True     # results are indistinguishable by ==

    def __hash__(self):
        return 0


def make(spec):
    return KeyProgram(spec)


def groups(prop, tier):
    thorough = tier == 'thorough'
    allv = list(VAL)
    sigs1 = []
    # every positional tuple of length 0..1 and kwarg dict of 0..1 names over all values
    for v in allv:
        sigs1.append(((v,), ()))
        sigs1.append(((), (('a', v),)))
    small = ['0', '1', 'N', 's1', 'T']
    sigs2 = [((), ())]
    for p in itertools.product(small, repeat=2):
        sigs2.append((p, ()))
        sigs2.append(((p[0],), (('a', p[1]),)))
        sigs2.append(((), (('a', p[0]), ('b', p[1]))))
        sigs2.append(((), (('b', p[0]), ('a', p[1]))))
    sigs2 += [((v,), ()) for v in small + ['t', 'ta1', 'pair', 'fsp', 'ab', 'e', 't0', 'eq1', 'c1']]
    sigs2 += [((), ((k, v),)) for k in ('a', 'b', 'args', 'kwargs', 'key', 'func', 'cache', 'self') for v in ('1', '2')]
    sigs2 += [(('ab', '1'), ()), (('ta1',), ()), (('pair',), ()), (('ab',), ()), (('ta1', 't0'), ()),
              (('1',), (('b', 'ta1'),)), (('t0', 'fs'), ()), (('1', 'fsp'), ()), (('t0',), (('a', '1'),))]
    sigs3 = []
    for p in itertools.product(('1', '2'), repeat=3):
        sigs3.append((p, ()))
        for perm in itertools.permutations('abc'):
            sigs3.append(((), tuple((k, p['abc'.index(k)]) for k in perm)))
        for perm in itertools.permutations('ab'):
            sigs3.append(((p[2],), tuple((k, p['ab'.index(k)]) for k in perm)))
        sigs3.append((p[:2], (('a', p[2]),)))

    def pairs():
        for pool in (sigs1, sigs2, sigs3):
            for a, b in itertools.product(pool, pool):
                yield ('hist', 'default', (a, b, a), ())
        for a, b in itertools.product(sigs1, sigs2):
            yield ('hist', 'retain', (a, b, a), ())

    def conc():
        for pool in (sigs2, sigs3):
            for a, b in itertools.combinations_with_replacement(pool, 2):
                yield ('conc', 'default', (a, b))
        for a, b, c in itertools.product(sigs3[:14], repeat=3):
            yield ('conc', 'retain', (a, b, c))
            yield ('conc', 'lru1', (a, b, c))
            yield ('conc', 'lru1', (a, b, a, c))

    # many arguments: two signatures which differ in one place or in the order only
    def wide():
        for n in (4, 5, 8, 17, 40):
            base = ('1',) * n
            for i in sorted({0, 1, 2, 3, n // 2, n - 2, n - 1}):
                for v in ('2', 'T', 'N', 's1'):
                    b = base[:i] + (v,) + base[i + 1:]
                    yield ('hist', 'default', ((base, ()), (b, ()), (base, ()), (b, ())), ())
                    names = ['a%d' % j for j in range(n)]
                    ka, kb = tuple(zip(names, base)), tuple(zip(names, b))
                    for x, y in ((ka, kb), (ka, kb[::-1]), (kb, kb[::-1]), (kb, kb[i:] + kb[:i]),
                                 (ka, ka[:i] + ka[i + 1:]), (kb, ka[:i] + (('z', v),) + ka[i + 1:])):
                        yield ('hist', 'default', (((), x), ((), y), ((), x), ((), y)), ())
                        yield ('hist', 'retain', ((('1', '2'), x), (('1', '2'), y), (('2', '1'), y)), ())
                    sw = tuple('1' if j % 2 else '2' for j in range(n))
                    yield ('hist', 'default', ((sw, ()), (sw[i:] + sw[:i], ()), (sw[:-1], ()), (sw, ())), ())
                    yield ('hist', 'default', ((base[:i], tuple(zip(names[i:], base[i:]))), (base, ()), ((), ka)), ())
        odd = ('\ufb01', 'fi', '', 'a b', 'A', 'a', '_cache', '_func', 'events', 'running_loop', 'args', '*', 'class')
        for x, y in itertools.product(odd, odd):
            yield ('hist', 'default', (((), ((x, '1'),)), ((), ((y, '1'),)), ((), ((x, '1'),))), ())
            if x != y:
                yield ('hist', 'default', (((), ((x, '1'), (y, '2'))), ((), ((y, '1'), (x, '2'))),
                                           ((), ((y, '2'), (x, '1')))), ())

    def waves():
        A, B, D = (('1',), ()), ((), (('a', '1'),)), (('2',), ())
        ws = [(A,), (A, A), (A, B), (A, A, B), (B, B, D), (A, B, D, A)]
        for w in itertools.product(ws, repeat=3):
            for m in ('dict', 'retain', 'falsy', 'odict'):
                for gap in (0, 100):
                    yield ('waves', m, w, (), gap)
                    for w1, w2 in itertools.product((None, 0, 1, 'all'), repeat=2):
                        ev = ((1, w1),) * (w1 is not None) + ((2, w2),) * (w2 is not None)
                        if ev:
                            yield ('waves', m, w, ev, gap)
        for gap in (61, 3601, 90000, 10 ** 6):
            for w in ((A,), (A, B, A)):
                for m in ('default', 'retain'):
                    yield ('waves', m, (w,) * 4, (), gap)

    def many():
        for m in ('default', 'dict', 'retain', 'odict', 'lru100000'):
            for shape in ('args', 'kw', 'wide', 'long'):
                yield ('many', m, 2500 if not thorough else 20000, shape)
        yield ('many', 'default', 12000 if not thorough else 150000, 'args')

    core = [(('1',), ()), (('2',), ()), ((), (('a', '1'),)), (('1',), (('a', '1'),)), (('f1',), ()), ((), ())]

    def hists():
        maps = ('dict', 'retain', 'falsy', 'lru1', 'lru2', 'odict', 'default')
        L = 5 if thorough else 4
        for n in range(1, L + 1):
            for calls in itertools.product(core[:4] if n == L else core[:5], repeat=n):
                for m in maps:
                    yield ('hist', m, calls, ())
        whats = ('first', 'last', 'all')
        for calls in itertools.product(core[:3], repeat=5 if thorough else 4):
            for m in ('dict', 'retain', 'falsy', 'lru2'):
                for k in range(1, len(calls)):
                    for w in whats:
                        yield ('hist', m, calls, ((k, w),))
                        for k2 in range(k + 1, len(calls)):
                            for w2 in whats:
                                yield ('hist', m, calls, ((k, w), (k2, w2)))
    return [
        Group('all pairs of signatures (a, b, a)', pairs, chunk=400),
        Group('pairs and triples called concurrently', conc, chunk=400),
        Group('histories with evictions', hists, chunk=400),
        Group('many arguments', wide, chunk=400),
        Group('waves of concurrent calls with evictions and time between', waves, chunk=400),
        Group('many signatures', many, chunk=1),
    ]
