"""
C18: split()/exhaust(): every source shape x condition x consumption order,
executed on the real functions and compared step by step with a reference.

A spec is ('split', srckind, n, condkind, clen, mask, elems) or
('exhaust', srckind, n, elems); for 'split' every sequence of next() calls on
the two results of length n + 2 is run (plus, for n <= 4, every sequence in
which one of the results is dropped at some step).
"""
import collections
import itertools

from .. import vrt, explore
from ..check import Group

LEVEL = {'C18': 'model_checking'}
ASSUMPTIONS = {'C18': [
    'source and condition do not raise; elements are opaque to split()',
    'looking ahead by more than one source element beyond what the two consumers '
    'need is judged as not lazy']}

CALLS = ('call', 'callnb', 'callodd')
TRUTHY = (True, 1, 'x', (0,), 2.5, 'False', -1)
FALSY = (False, 0, '', (), 0.0, None, frozenset())


class Opaque:
    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return f'o{self.n}'


SAME = Opaque('same')


class Odd:
    """Cannot be compared, hashed or asked for its truth value."""
    __hash__ = None

    def __eq__(self, o):
        raise TypeError('elements must not be compared')

    def __bool__(self):
        raise TypeError('elements have no truth value')


class Equal:
    """Claims to be equal to everything."""

    def __eq__(self, o):
        return True

    def __hash__(self):
        return 1


class Cond:
    """A condition which is both called and (never) iterated, and is never true itself."""

    def __init__(self, f):
        self.f = f

    def __call__(self, x):
        return self.f(x)

    def __iter__(self):
        raise TypeError('the condition is callable')

    def __len__(self):
        return 0

    def __bool__(self):
        raise TypeError('the condition has no truth value')

    __eq__ = Odd.__eq__
    __hash__ = None


def elements(kind, n):
    if kind == 'ints':
        return list(range(n))
    if kind == 'falsy':
        return [(0, None, '', False, 0, None, (), [])[i] for i in range(n)]
    if kind == 'dups':
        return [1] * n
    if kind == 'same':
        return [SAME] * n
    if kind == 'mixed':
        return [(0, 1, 1, 0, None, 'a', 'a', 0)[i] for i in range(n)]
    if kind == 'odd':
        return [(Odd, Equal)[i % 2]() for i in range(n)]
    if kind == 'excs':
        return [(StopIteration(), StopIteration, GeneratorExit, ValueError(), KeyError)[i % 5] for i in range(n)]
    raise AssertionError(kind)


class Counted:
    """A (re-)iterable that counts how often each position is produced."""

    def __init__(self, items, oneshot):
        self.items = items
        self.oneshot = oneshot
        self.iters = 0
        self.pulled = 0          # total number of elements handed out
        self.stops = 0
        self.it = self._gen()

    def _gen(self):
        for x in self.items:
            self.pulled += 1
            yield x
        self.stops += 1

    def __iter__(self):
        self.iters += 1
        if self.oneshot:
            return self
        return self._gen()

    def __next__(self):
        if not self.oneshot:
            raise TypeError('not an iterator')
        return next(self.it)


class OddIter(Counted):
    """An iterator which is never true, has no length and equals nothing."""

    def __bool__(self):
        return False

    def __len__(self):
        raise TypeError('no length')

    __eq__ = Odd.__eq__
    __hash__ = None


class CountedIterable:
    """Re-iterable without __next__ (like a list)."""

    def __init__(self, items):
        self.c = Counted(items, False)

    def __iter__(self):
        return iter(self.c)

    @property
    def pulled(self):
        return self.c.pulled


def subclass(base, items):
    """a list (tuple, deque, str, ...) whose own iteration is what counts"""
    class Sub(base):
        def __iter__(self):
            return iter(self.c)
    sub = Sub() if base is not tuple else Sub(['wrong'] * (len(items) + 1))
    sub.c = Counted(items, False)
    return sub, lambda: sub.c.pulled


SUBS = {'sublist': list, 'subtuple': tuple, 'subdeque': collections.deque, 'subdict': dict}


def make_source(kind, items):
    """-> (object, function giving the number of elements pulled, or None)"""
    if kind == 'oneshot':
        c = Counted(items, True)
        return c, lambda: c.pulled
    if kind == 'odditer':
        c = OddIter(items, True)
        return c, lambda: c.pulled
    if kind == 'iterable':
        c = CountedIterable(items)
        return c, lambda: c.pulled
    if kind in SUBS:
        return subclass(SUBS[kind], items)
    if kind == 'list':
        return list(items), None
    if kind == 'deque':
        return collections.deque(items), None
    if kind == 'tuple':
        return tuple(items), None
    if kind == 'range':
        return range(len(items)), None
    if kind == 'gen':
        return (x for x in items), None
    if kind == 'dict':
        return dict.fromkeys(items), None
    raise AssertionError(kind)


class Done(Exception):
    pass


def build(m, spec):
    _, srckind, n, condkind, clen, mask, elems = spec
    items = elements(elems, n)
    src, pulled = make_source(srckind, items)
    calls = []
    if condkind == 'bool':
        truth = [bool(x) for x in items]
        cond, cpulled = bool, None
    elif condkind in CALLS:
        truth = [bool(mask >> i & 1) for i in range(n)]

        def cond(x):
            i = len(calls)
            calls.append(x)
            if i >= n:
                return False
            t = truth[i]
            if condkind == 'callnb':
                return (TRUTHY if t else FALSY)[i % 7]
            return t
        if condkind == 'callodd':
            cond = Cond(cond)
        cpulled = None
    else:
        vals = [bool(mask >> i & 1) for i in range(clen)]
        truth = vals[:n]
        if condkind.endswith('nb'):
            cv = [(TRUTHY if t else FALSY)[i % 7] for i, t in enumerate(vals)]
        else:
            cv = vals
        cond, cpulled = make_source({'lst': 'list', 'one': 'oneshot', 'itr': 'iterable', 'odd': 'odditer', 'sub': 'sublist', 'deq': 'deque'}[condkind[:3]], cv)
    k = min(n, len(truth))
    ref = ([(i, items[i]) for i in range(k) if truth[i]],
           [(i, items[i]) for i in range(k) if not truth[i]])
    return items, src, pulled, cond, cpulled, calls, ref, k


def run_order(m, spec, order, trace=None):
    """Returns a violation message or None."""
    items, src, pulled, cond, cpulled, calls, ref, k = build(m, spec)
    n = spec[2]
    res = m.split(src, cond)
    its = list(res)
    if len(its) != 2:
        return f'split returned {len(its)} iterators'
    if pulled and pulled() > 1:
        return f'{pulled()} source elements consumed before anything was requested'
    if len(calls) > 1:
        return 'condition evaluated before anything was requested'
    its = [its[0], its[1]]
    del res
    got = [0, 0]
    ended = [False, False]
    need = 0
    for step, o in enumerate(order):
        if o in 'xy':
            its['xy'.index(o)] = None
            continue
        w = 'tf'.index(o)
        try:
            v = next(its[w])
        except StopIteration:
            if got[w] != len(ref[w]):
                return (f'iterator {w} stopped after {got[w]} of {len(ref[w])} elements '
                        f'(order {order[:step + 1]})')
            ended[w] = True
            need = n
        else:
            if ended[w] or got[w] >= len(ref[w]):
                return f'iterator {w} yielded {v!r} beyond its {len(ref[w])} elements (order {order[:step + 1]})'
            i, e = ref[w][got[w]]
            if v is not e and not (type(v) is type(e) and v == e):
                return (f'iterator {w} yielded {v!r} instead of {e!r} at position {got[w]} '
                        f'(order {order[:step + 1]})')
            got[w] += 1
            need = max(need, i + 1)
        if pulled and pulled() > min(n, need + 1):
            return (f'{pulled()} source elements consumed while {need} were needed '
                    f'(source of {n}, order {order[:step + 1]})')
        if spec[3] in CALLS:
            if len(calls) > min(n, need + 1):
                return f'condition evaluated {len(calls)} times while {need} elements were needed'
            if n < 20 and any(a is not b and a != b for a, b in zip(calls, items)):
                return f'condition evaluated on {calls!r}, source is {items!r}'
    if spec[3] in CALLS and (ended[0] or ended[1]) and len(calls) != n:
        return f'condition evaluated {len(calls)} times for {n} elements'
    return None


def orders(n):
    if n > 20:
        yield 't' * (n + 2) + 'f' * (n + 2)
        yield 'f' * (n + 2) + 't' * (n + 2)
        yield 'tf' * (n + 2)
        yield 'ttf' * (n // 2) + 'f' * n + 't' * 2
        yield 't' * (n // 2) + 'f' * n + 't' * n
        yield 'x' + 'f' * (n + 2)
        yield 'y' + 't' * (n + 2)
        yield 't' * (n // 3) + 'x' + 'f' * (n + 2)
        yield 'f' * (n // 3) + 'y' + 't' * (n + 2)
        return
    for p in itertools.product('tf', repeat=n + 2):
        yield ''.join(p)
    if n <= 4:
        # abandon one of them at every step, then keep consuming the other
        for drop, keep in (('x', 'f'), ('y', 't')):
            for pre in range(n + 1):
                for p in itertools.product('tf', repeat=pre):
                    yield ''.join(p) + drop + keep * (n + 2)


def check_exhaust(m, spec):
    _, srckind, n, elems = spec
    if n > 10:
        items = list(range(n))
    else:
        items = elements(elems, n)
    src, pulled = make_source(srckind, items)
    r = m.exhaust(src)
    if r is not None:
        return f'exhaust returned {r!r}'
    if pulled and pulled() != n:
        return f'exhaust consumed {pulled()} of {n} elements'
    # a lazily mapped function is applied to each element once, in order
    seen = []
    r = m.exhaust(map(seen.append, items))
    if r is not None or seen != items:
        return f'exhaust(map(f, {n} items)) applied f to {len(seen)} items, returned {r!r}'
    seen.clear()

    def gen():
        for x in items:
            seen.append(x)
            yield x
        seen.append('end')
    r = m.exhaust(gen())
    if r is not None or seen != items + ['end']:
        return f'exhaust(generator of {n}) ran {len(seen)} steps, returned {r!r}'
    return None


def custom_job(prop, specs):
    m = explore.fresh('aiuti.itertools')
    st = explore.Stats()
    for spec in specs:
        if spec[0] == 'exhaust':
            st.executions += 3
            st.steps += 3 * spec[2]
            st.nodes += 3
            st.outcomes.add(explore._h(spec))
            try:
                msg = check_exhaust(m, spec)
            except Exception as e:  # noqa
                msg = f'exhaust raised {e!r}'
            if msg:
                st.violations.append((spec, None, [msg], None))
                break
            continue
        n = spec[2]
        for o in orders(n):
            st.executions += 1
            st.steps += len(o)
            try:
                msg = run_order(m, spec, o)
            except Exception as e:  # noqa
                msg = f'{type(e).__name__}: {e} (order {o})'
            if msg:
                st.violations.append((spec + (o,), None, [msg], None))
                break
        # prefixes of orders are the states of this spec
        st.nodes += 2 ** (n + 3) - 1 if n < 20 else 1
        st.outcomes.add(explore._h(spec))
        if len(st.samples) < 1:
            st.samples.append({'scenario': spec, 'orders': len(list(orders(n)))})
        if st.violations:
            break
    return st, [], False


def replay(spec):
    m = explore.fresh('aiuti.itertools')
    if spec[0] == 'exhaust':
        msg = check_exhaust(m, spec)
    else:
        try:
            msg = run_order(m, spec[:7], spec[7])
        except Exception as e:  # noqa
            msg = f'{type(e).__name__}: {e}'
    return [msg] if msg else []


def groups(prop, tier):
    N = 9 if tier == "thorough" else 7

    def call_specs(top):
        for n in range(0, top + 1):
            for mask in range(2 ** n):
                for src in ('oneshot', 'iterable'):
                    yield ('split', src, n, 'call', 0, mask, 'ints')
                if n <= 4:
                    for src in ('list', 'range', 'gen', 'tuple', 'oneshot', 'odditer', 'deque', *SUBS):
                        yield ('split', src, n, 'callnb', 0, mask, 'ints')
                        yield ('split', src, n, 'callodd', 0, mask, 'ints')
                    for el in ('falsy', 'dups', 'same', 'mixed', 'odd', 'excs'):
                        for src in ('list', 'oneshot'):
                            yield ('split', src, n, 'call', 0, mask, el)
            for el in ('ints', 'falsy', 'mixed', 'dups'):
                for src in ('list', 'oneshot', 'gen'):
                    yield ('split', src, n, 'bool', 0, 0, el)

    def iter_specs(top):
        for n in range(0, top + 1):
            for clen in range(0, n + 3):
                for mask in range(2 ** clen):
                    for src, ck in (('oneshot', 'one'), ('list', 'lst'), ('iterable', 'itr'),
                                    ('oneshot', 'lstnb')):
                        yield ('split', src, n, ck, clen, mask, 'ints')
                    if n <= 3:
                        for src, ck in (('list', 'onenb'), ('gen', 'one'), ('range', 'lst'), ('oneshot', 'itrnb'),
                                        ('oneshot', 'odd'), ('odditer', 'one'), ('sublist', 'sub'), ('subtuple', 'sub'),
                                        ('deque', 'deq')):
                            yield ('split', src, n, ck, clen, mask, 'ints')
                        yield ('split', 'list', n, 'lst', clen, mask, 'falsy')
                        for el in ('same', 'odd', 'excs'):
                            yield ('split', 'list', n, 'lst', clen, mask, el)

    def long_specs():
        for n in (130, 1100) if N == 7 else (65, 130, 1100, 5000):
            ones = 2 ** n - 1
            alt = sum(1 << i for i in range(0, n, 2))
            for mask in (0, ones, alt, ones >> n // 2, ones >> n // 2 << n // 2, 1, 1 << n - 1):
                for src, ck in (('oneshot', 'call'), ('list', 'callnb'), ('oneshot', 'one'), ('iterable', 'lstnb')):
                    for d in (0, 7, -7) if not ck.startswith('call') else (0,):
                        yield ('split', src, n, ck, (n + d) * (not ck.startswith('call')), mask, 'ints')
    ex = [('exhaust', s, n, e) for n in range(0, 8) for s in ('list', 'oneshot', 'iterable', 'gen', 'tuple', 'odditer', 'deque', *SUBS)
          for e in ('ints', 'falsy', 'dups')] + \
         [('exhaust', 'oneshot', n, 'ints') for n in (100, 1000, 1023, 1024, 1025, 5000)]
    return [
        Group('exhaust', ex, 'custom', chunk=20),
        Group('long sources', long_specs, 'custom', chunk=1),
        Group('split by callable, every consumption order', lambda: call_specs(N), 'custom', chunk=24),
        Group('split by iterable, every consumption order', lambda: iter_specs(N - 2 if N > 7 else 6), 'custom', chunk=40),
    ]
