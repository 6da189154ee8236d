"""
C04 / C09 / C10 / C11: AsyncBackgroundBatcher, exhaustive timed programs on the
real class in virtual time.

spec: (prop, cfg, calls, behav[, scale])
  scale: factor applied to all times including the batch timeout
  cfg:   (max_batch_size, max_concurrent_batches, retention, muts[, 'dec'])
         'dec': through async_background_batcher instead of the class
         batch_timeout is always BT; muts: ((time, new max_batch_size), ...)
         'twin': a second batcher gets the same calls a little later
  calls: ((at, key, how, action), ...) sorted by time; how: 'd' default key
         str(arg), 'x' explicit key (arg differs), 'p' explicit key and an odd
         argument, 's' default key of an odd argument; at may be ('after', i):
         immediately after call i was answered, in the task of call i
         action: None | ('cancel', dt) | ('timeout', dt) relative to the call
  behav: (codes, order, d_start, d_item, d_end)
         codes: tuple of (key, code-per-batch-occurrence string)
         code: v value, e exception value, o omitted, r raise, d twice,
               l z f w X values: [] 0 False, an object with an odd __eq__, an exception class
               B G values: instances of BaseException which are no Exception
               U A values which can be awaited
               k T F exceptions: KeyError, TimeoutError, a falsy one
               S the batch function raises StopIteration before returning an iterator
               u unknown key first, b raise BaseException, c raise CancelledError,
               R the batch function raises before returning an iterator,
               s StopIteration yielded, n None value, t Exception subclass yielded
         order: 'f' as given, 'r' reversed, 'o' rotated by one
"""
import asyncio as aio
import itertools

from .. import vrt, explore
from ..check import Group

BT = 1.0
SCALES = (1 / 64, 1 / 8, 4, 64, 4096)
EPS = 1e-6

LEVEL = {p: 'model_checking' for p in ('C04', 'C09', 'C10', 'C11')}
ASSUMPTIONS = {
    'C04': ['after the batch function yields an unknown or already answered key, callers of that '
            'batch which are still unanswered may get their own outcome or an error'],
    'C10': ['exact ties (an arrival exactly batch_timeout after another, an arrival exactly at a '
            'batch end) are not judged', 'while max_batch_size is mutated, a batch is judged by the '
            'extreme values in effect between its first arrival and its start'],
    'C11': ['calls at exactly the completion instant or the end of the window are not judged, '
            'except calls made by a task that was just answered'],
}


class Yielded(Exception):
    pass


class YieldedSub(Yielded):
    pass


class Raised(Exception):
    pass


class RaisedBase(BaseException):
    pass


class Falsy(Exception):
    def __bool__(self):
        return False

    def __eq__(self, other):
        raise AssertionError('exceptions are compared')

    __hash__ = Exception.__hash__


class Odd:
    def __eq__(self, other):
        raise AssertionError('results are compared')

    __hash__ = None

    def __bool__(self):
        raise AssertionError('the truth of a result is used')


class Strd(Odd):
    """an argument with a text"""

    def __init__(self, text):
        self.text = text

    def __str__(self):
        return self.text

    def __repr__(self):
        raise AssertionError('the repr of an argument is used')

    def __iter__(self):
        raise AssertionError('an argument is iterated')

    def __call__(self):
        raise AssertionError('an argument is called')


class CanAwait:
    def __await__(self):
        raise AssertionError('a result is awaited')
        yield

    def __iter__(self):
        raise AssertionError('a result is iterated')

    def __call__(self):
        raise AssertionError('a result is called')


def done_future(tok):
    f = aio.get_running_loop().create_future()
    f.set_result(tok)
    return f


ODD_ARGS = (lambda: [], lambda: None, lambda: 0, Odd, ValueError, CanAwait, lambda: '', object, dict, lambda: StopIteration,
            lambda: (), lambda: False, BaseException, lambda: float('nan'), lambda: ('1', 2))
SPECIAL = {
    'U': done_future, 'A': lambda tok: CanAwait(),
    'l': lambda tok: [], 'z': lambda tok: 0, 'f': lambda tok: False, 'w': lambda tok: Odd(),
    'X': lambda tok: ValueError, 'B': RaisedBase, 'G': aio.CancelledError,
    'k': KeyError, 'T': lambda tok: aio.TimeoutError(tok), 'F': Falsy,
    'q': lambda tok: (None, ValueError(tok)), 'Q': lambda tok: [KeyError(tok)], 'y': lambda tok: (KeyError(tok), tok),
    'Y': lambda tok: {'error': KeyError(tok), 'exception': KeyError(tok)}, 'i': lambda tok: Special(tok, 1),
    'I': lambda tok: iter([ValueError(tok)]), 'W': lambda tok: WrongArgs(tok),
}


class Special(Exception):
    def __init__(self, a, b):
        super().__init__('a message')
        self.a, self.b = a, b

    def __eq__(self, other):
        raise AssertionError('exceptions are compared')

    __hash__ = None


class WrongArgs(ValueError):
    @property
    def args(self):
        raise AssertionError('the args of an exception are used')


# exceptions which the batch function raises
RAISES = {'1': lambda tok: Special(tok, 1), '2': KeyError, '3': ValueError, '4': aio.TimeoutError, '5': Falsy,
          '6': WrongArgs, '7': lambda tok: OSError(2, 'x'), '8': RuntimeError, '9': aio.QueueEmpty,
          '0': lambda tok: aio.InvalidStateError()}


class Batch:
    __slots__ = ('n', 'items', 'start', 'end', 'script', 'active', 'when')

    def answered(self, key):
        return self.when.get(key, self.end)


class Call:
    __slots__ = ('n', 'key', 'start', 'end', 'out', 'val', 'task', 'work', 'batch', 'action', 'arg', 'arr', 'prev', 'obj')


class BatcherProgram(explore.LoopProgram):
    def setup(self, s):
        super().setup(s)
        self.prop, self.cfg, self.calls_spec, self.behav = self.spec[:4]
        self.scale = x = self.spec[4] if len(self.spec) > 4 else 1
        self.BT = BT * x
        if x != 1:
            mbs, mcb, ret, muts = self.cfg[:4]
            self.cfg = (mbs, mcb, ret * x, tuple((t * x, n) for t, n in muts)) + self.cfg[4:]
            self.calls_spec = tuple((at if isinstance(at, tuple) else at * x, k, h, a and (a[0], a[1] * x) + a[2:])
                                    for at, k, h, a in self.calls_spec)
            self.behav = self.behav[:2] + tuple(d * x for d in self.behav[2:])
        self.after = {}
        for i, (at, key, how, action) in enumerate(self.calls_spec):
            if isinstance(at, tuple):
                self.after.setdefault(at[1], []).append((i, key, how, action))
        self.batches = []
        self.calls = []
        self.active = 0
        self.codes = dict(self.behav[0])
        self.keyed = {}
        self.counter = {}
        self.mbs_log = []
        self.arrivals = []
        self.twin = None
        self.twins = []
        self.twin_active = 0
        self.made = {}       # id of a result -> (result, batch)

    # -- the batch function -----------------------------------------------
    async def bf(self, batch):
        b = Batch()
        b.n = len(self.batches)
        b.items = list(batch)
        b.start = self.s.now
        b.end = None
        b.script = []
        b.when = {}
        self.batches.append(b)
        self.active += 1
        b.active = self.active
        codes, order, d_start, d_item, d_end = self.behav
        try:
            if d_start:
                await aio.sleep(d_start)
            items = list(b.items)
            if order == 'r':
                items.reverse()
            elif order == 'o':
                items = items[1:] + items[:1]
            for key, arg in items:
                if not any(c.key == key and c.obj is arg for c in self.calls):
                    self.bad.append(f'batch {b.n} received the argument {type(arg).__name__} for key {key!r}, which no '
                                    f'call had given')
                cs = self.codes.get(key, 'v')
                k = self.counter.get(key, 0)
                self.counter[key] = k + 1
                code = cs[min(k, len(cs) - 1)]
                if d_item:
                    await aio.sleep(d_item)
                tok = (b.n, key)
                if code == 'o':
                    continue
                if code == 'r':
                    e = Raised(tok)
                    b.script.append(('raise', e))
                    raise e
                if code in RAISES:
                    e = RAISES[code](tok)
                    b.script.append(('raise', e))
                    self.made[id(e)] = (e, b.n)
                    raise e
                if code == 'b':
                    e = RaisedBase(tok)
                    b.script.append(('raise', e))
                    raise e
                if code == 'c':
                    e = aio.CancelledError(tok)
                    b.script.append(('raise', e))
                    raise e
                if code == 'u':
                    u = 'zz' + key
                    b.script.append(('yield', u, ('v', tok)))
                    yield u, ('val', tok)
                if code == 'e':
                    r = Yielded(tok)
                elif code == 't':
                    r = YieldedSub(tok)
                elif code == 's':
                    r = StopIteration(tok)
                elif code == 'n':
                    r = None
                elif code in SPECIAL:
                    r = SPECIAL[code](tok)
                    if code not in 'zfX':
                        self.made[id(r)] = (r, b.n)
                else:
                    r = ('val', tok)
                b.script.append(('yield', key, r))
                b.when.setdefault(key, self.s.now)
                yield key, r
                if code == 'd':
                    r = ('val2', tok)
                    b.script.append(('yield', key, r))
                    yield key, r
            if d_end:
                await aio.sleep(d_end)
        finally:
            self.active -= 1
            b.end = self.s.now

    def bf_sync(self, batch):
        # a plain function returning the async iterator, or raising right away
        batch = list(batch)
        how = ''.join(self.codes.get(k, 'v') for k, _ in batch)
        if 'R' in how or 'S' in how:
            b = Batch()
            b.n = len(self.batches)
            b.items = batch
            b.start = b.end = self.s.now
            b.active = self.active
            e = (Raised if 'R' in how else StopIteration)((b.n, batch[0][0]))
            b.script = [('raise', e)]
            self.batches.append(b)
            raise e
        return self.bf(batch)

    # -- callers -------------------------------------------------------------
    async def one(self, c):
        s = self.s
        c.start = s.now
        c.arr = len(self.arrivals)
        self.arrivals.append(c)
        kw = {}
        if c.arg != c.key:
            kw['key'] = c.key
        arg = c.obj
        try:
            if c.action and c.action[0] == 'timeout':
                v = await aio.wait_for(self.b(arg, **kw), c.action[1])
            else:
                v = await self.b(arg, **kw)
            c.out, c.val = 'ok', v
        except BaseException as e:  # noqa
            c.out, c.val = 'exc', e
        c.end = s.now
        for i, key, how, action in self.after.get(c.n, ()):
            d = self.new_call(i, key, how, action)
            d.prev = c
            await self.one(d)
        if isinstance(c.val, (vrt.Abort, GeneratorExit, aio.CancelledError)):
            raise c.val   # the task ends as cancelled, like that of any caller

    def new_call(self, i, key, how, action):
        c = Call()
        c.n = i
        c.key = key
        c.arg = key if how == 'd' else 'arg' + str(i)
        c.start = c.end = c.out = c.val = c.task = c.work = c.batch = c.arr = c.prev = None
        c.action = action
        c.obj = int(c.arg) if c.arg.isdigit() and len(c.arg) < 9 and str(int(c.arg)) == c.arg else c.arg
        if how == 'p':
            c.obj = ODD_ARGS[(i + len(key)) % len(ODD_ARGS)]()
        elif how == 's':
            c.arg = key
            c.obj = Strd(key)
        self.calls.append(c)
        if self.twin:
            self.twins.append(aio.get_running_loop().create_task(self.twin_call(key, len(self.twins))))
        return c

    # -- another batcher ------------------------------------------------------
    async def twin_bf(self, batch):
        batch = list(batch)
        self.twin_active += 1
        if not 0 < len(batch) <= self.cfg[0] or self.twin_active > self.cfg[1]:
            self.bad.append(f'the other batcher: {len(batch)} items, {self.twin_active} batches in progress')
        for key, (k, n) in reversed(batch):
            if k != key:
                self.bad.append(f'the other batcher received the argument of {k!r} for key {key!r}')
            await aio.sleep(self.BT / 3)
            if n % 3 == 1:
                yield key, Yielded('twin', key)
            elif n % 7 != 5:
                yield key, ('twin', key)
        self.twin_active -= 1

    async def twin_call(self, key, n):
        await aio.sleep(self.BT / 32)
        try:
            r = await aio.wait_for(self.twin((key, n), key=key), self.BT * (100 + len(self.calls_spec)))
            if r != ('twin', key):
                self.bad.append(f'the other batcher answered {r!r} for key {key!r}')
        except Yielded as e:
            if e.args != ('twin', key):
                self.bad.append(f'the other batcher raised {e!r} for key {key!r}')
        except aio.TimeoutError:
            self.bad.append(f'the other batcher did not answer {key!r}')
        except Exception:
            pass        # not yielded

    async def main(self):
        s = self.s
        loop = aio.get_running_loop()
        mbs, mcb, ret, muts = self.cfg[:4]
        make = self.m.async_background_batcher if 'dec' in self.cfg[4:] else self.m.AsyncBackgroundBatcher
        self.b = make(
            self.bf_sync if any('R' in c or 'S' in c for c in self.codes.values()) else self.bf,
            max_batch_size=mbs, max_concurrent_batches=mcb,
            batch_timeout=self.BT, retention_timeout=ret)
        if 'twin' in self.cfg[4:]:
            self.twin = make(self.twin_bf, max_batch_size=mbs, max_concurrent_batches=mcb,
                             batch_timeout=self.BT, retention_timeout=ret)
        self.mbs_log.append((0.0, mbs))
        t0 = s.now
        for at, new in muts:
            def mut(new=new):
                self.b.max_batch_size = new
                self.mbs_log.append((s.now, new))
            loop.call_at(t0 + at, mut)
        tasks = []
        for i, (at, key, how, action) in enumerate(self.calls_spec):
            if isinstance(at, tuple):
                continue
            if t0 + at > s.now:
                await aio.sleep(t0 + at - s.now)
            c = self.new_call(i, key, how, action)
            c.task = loop.create_task(self.one(c))
            if action and action[0] == 'cancel':
                if len(action) > 2:
                    # some steps of the loop later, in the same instant
                    def hop(n, t=c.task):
                        if n:
                            loop.call_soon(hop, n - 1, t)
                        else:
                            t.cancel()
                    loop.call_later(action[1], hop, action[2])
                elif action[1]:
                    loop.call_later(action[1], c.task.cancel)
                else:
                    def soon(t=c.task):
                        loop.call_soon(t.cancel)
                    loop.call_soon(soon)
            tasks.append(c.task)
        if tasks:
            await aio.wait(tasks)
        if self.twins:
            await aio.wait(self.twins)
        # let retention windows and batches finish before looking back
        await aio.sleep(20 * self.scale if any(c.action for c in self.calls) else 0)

    # -- oracles -------------------------------------------------------------
    def hang(self, what):
        un = [(c.n, c.key) for c in self.calls if c.start is not None and c.end is None]
        if un:
            return [f'{what}; unanswered calls (number, key): {un}']
        return [what]

    def check(self, s):
        bad = super().check(s)
        if s.status != 'ok':
            if self.prop in ('C04', 'C09'):
                return bad
            if self.prop == 'C11':
                # an answer that never comes is C04's subject
                return self.bad
            return self.check_c10() + self.bad
        if self.prop in ('C04', 'C09'):
            self.check_outcomes()
        elif self.prop == 'C10':
            self.bad += self.check_c10()
        elif self.prop == 'C11':
            self.check_c11()
        return self.bad

    def allowed(self, b, key):
        """-> list of exact outcomes, and whether any Exception is acceptable too"""
        if b.n in self.keyed and self.keyed[b.n][1] == len(b.script):
            ent = self.keyed[b.n][0].get(key)
            if ent:
                return ent
        elif len(b.items) > 8:
            # an entry per key as long as nothing unusual happens
            d = {}
            self.keyed[b.n] = d, len(b.script)
            ks = [k for k, _ in b.items]
            if len(set(ks)) == len(ks):
                kset, seen = set(ks), set()
                for ev in b.script:
                    if ev[0] == 'raise' or ev[1] not in kset or ev[1] in seen:
                        break
                    seen.add(ev[1])
                    if isinstance(ev[2], StopIteration):
                        break
                    d[ev[1]] = ([('exc' if isinstance(ev[2], Exception) else 'ok', ev[2])], False)
        keys = [k for k, _ in b.items]
        answered = set()
        dist = keys.count(key) > 1
        for ev in b.script:
            if ev[0] == 'raise':
                return [('exc', ev[1])], dist or not isinstance(ev[1], Exception) or isinstance(ev[1], StopIteration)
            _, k, r = ev
            if k == key:
                if isinstance(r, StopIteration):
                    return [('exc', r)], True
                if isinstance(r, Exception):
                    return [('exc', r)], dist
                return [('ok', r)], dist
            if k not in keys or k in answered:
                dist = True
            answered.add(k)
        return [], True

    def same(self, out, val, want):
        if out != want[0]:
            return False
        if out == 'ok':
            return val is want[1] or type(val) is type(want[1]) is not Odd and val == want[1]
        return val is want[1]

    def check_outcomes(self):
        carry = {}
        for b in self.batches:
            for k in dict.fromkeys(k for k, _ in b.items):
                carry.setdefault(k, []).append(b)
        cancels = any(x.action for x in self.calls)
        for c in self.calls:
            if c.start is None:
                continue
            if c.end is None:
                self.bad.append(f'call {c.n} (key {c.key}) never completed')
                continue
            if c.action is not None:
                # judged only if it was answered before its cancellation
                if c.out == 'exc' and isinstance(c.val, (aio.CancelledError, TimeoutError)):
                    continue
            cand = carry.get(c.key, [])
            ok = False
            desc = []
            for b in cand:
                exact, anyexc = self.allowed(b, c.key)
                desc.append((b.n, exact, anyexc))
                if any(self.same(c.out, c.val, w) for w in exact):
                    ok = True
                if anyexc and c.out == 'exc' and isinstance(c.val, Exception):
                    ok = True
            if not ok:
                self.bad.append(f'call {c.n} (key {c.key}, {c.start}..{c.end}) ended with {c.out} {c.val!r}; '
                                f'the batch function produced for that key: {desc!r}')
                continue
            if c.action is None and not cancels:
                # the computation must be one that was pending or made for it
                late = [b for b in cand if b.start <= c.end + EPS]
                if not late:
                    self.bad.append(f'call {c.n} was answered before its key was computed')
        self.events.append(tuple((c.n, c.out, repr(c.val) if not isinstance(c.val, (Odd, CanAwait, aio.Future)) else type(c.val).__name__, c.end) for c in self.calls))

    def check_c10(self):
        bad = []
        mbs, mcb, ret, muts = self.cfg[:4]
        bs = self.batches
        BT = self.BT
        # which arrivals became work: distinct keys are used, so all of them
        order = [c.key for c in self.arrivals]
        seen = [k for b in bs for k, _ in b.items]
        if seen != order[:len(seen)]:
            bad.append(f'items reached the batch function in order {seen}, calls arrived in order {order}')
            return bad
        arr = {c.key: c.start for c in self.arrivals}
        for b in bs:
            if not b.items:
                bad.append(f'batch {b.n} at {b.start} is empty')
                return bad
            if b.active > mcb:
                bad.append(f'{b.active} batches in progress at {b.start}, limit {mcb}')
            lo, hi = self.limits(arr[b.items[0][0]], b.start)
            if len(b.items) > hi:
                bad.append(f'batch {b.n} has {len(b.items)} items, limit {hi}')
        # sharing
        where = {k: b for b in bs for k, _ in b.items}
        for a, c in zip(self.arrivals, self.arrivals[1:]):
            if c.start - a.start < BT - EPS:
                ba, bc = where.get(a.key), where.get(c.key)
                if ba is None or bc is None or ba is bc:
                    continue
                lo, hi = self.limits(arr[ba.items[0][0]], c.start)
                if len(ba.items) < lo:
                    bad.append(f'calls {a.key} and {c.key} arrived {c.start - a.start} apart but batch '
                               f'{ba.n} was closed with {len(ba.items)} of {lo} items')
        # deadlines
        for b in bs:
            d = max(arr[k] for k, _ in b.items) + BT
            if b.start > d + EPS and not self.slots_full(d, b.start, mcb):
                bad.append(f'batch {b.n} started at {b.start}, its last call arrived at {d - BT}, '
                           f'batch_timeout {BT}, a slot was free')
        for c in self.arrivals:
            if c.key not in where:
                bad.append(f'call {c.key} never reached the batch function')
        self.events.append(tuple((b.start, len(b.items), b.active) for b in bs))
        return bad

    def limits(self, t0, t1):
        vals = []
        cur = None
        for t, v in self.mbs_log:
            if t <= t0 - EPS:
                cur = v
            elif t <= t1 + EPS:
                vals.append(v)
        if cur is not None:
            vals.append(cur)
        return min(vals), max(vals)

    def slots_full(self, a, z, mcb):
        ts = sorted({a, z} | {t for b in self.batches for t in (b.start, b.end)
                              if t is not None and a < t < z})
        for x, y in zip(ts, ts[1:]):
            if y - x < EPS:
                continue
            mid = (x + y) / 2
            n = sum(1 for b in self.batches if b.start <= mid and (b.end is None or b.end > mid))
            if n < mcb:
                return False
        return True

    def check_c11(self):
        mbs, mcb, ret, muts = self.cfg[:4]
        for b in self.batches:
            ks = [k for k, _ in b.items]
            if len(set(ks)) != len(ks):
                self.bad.append(f'batch {b.n} carries a key twice: {ks}')
        # per key: replay the arrivals against the reference window
        byk = {}
        for c in self.arrivals:
            byk.setdefault(c.key, []).append(c)
        for k, cs in byk.items():
            works = [b for b in self.batches for kk, _ in b.items if kk == k]
            owner = None      # call that caused the current computation
            end = None        # when that request was answered
            obn = None        # batch that answered it
            nwork = 0
            for c in cs:
                fresh = None      # None: tie, either is fine
                if owner is None:
                    fresh = True
                elif end is None or c.start < end - EPS:
                    fresh = False
                elif self.follows(c, owner):
                    fresh = ret <= 0
                elif abs(c.start - end) <= EPS:
                    fresh = None
                elif c.start < end + ret - EPS:
                    fresh = False
                elif c.start > end + ret + EPS:
                    fresh = True
                bn = self.token(c)
                anon = bn is None and not self.was_cancelled(c)
                if anon:
                    # an exception made by the batcher
                    if fresh is None or c.end is None or c.out != 'exc':
                        break       # C04's subject
                    if not fresh:
                        bn = obn
                    elif nwork < len(works) and works[nwork].start <= c.end + EPS:
                        bn = works[nwork].n
                    else:
                        bn = -1
                if fresh is None:
                    if bn is None:
                        break   # cannot tell what the cancelled call did
                    fresh = owner is None or bn != obn
                if fresh:
                    if nwork >= len(works) or bn is not None and works[nwork].n != bn:
                        self.bad.append(
                            f'call {c.n} (key {k}) at {c.start} needs a fresh computation '
                            f'(previous answered at {end}, retention {ret}) but got the '
                            f'result of batch {bn}; batches with the key: {[w.n for w in works]}')
                        break
                    obn = works[nwork].n
                    end = c.end if bn is not None else works[nwork].answered(k)
                    owner = c
                    nwork += 1
                elif anon:
                    if owner.out == 'exc' and not self.was_cancelled(owner) and (
                            type(c.val) is not type(owner.val) or abs(c.end - max(end, c.start)) > EPS):
                        self.bad.append(
                            f'call {c.n} (key {k}) at {c.start} must share the outcome of call {owner.n} '
                            f'({owner.start}..{end}, retention {ret}) but got {c.val!r} at {c.end}')
                        break
                elif bn is not None:
                    if bn != obn or not any(self.same(c.out, c.val, w)
                                            for w in self.allowed(works[nwork - 1], k)[0]):
                        self.bad.append(
                            f'call {c.n} (key {k}) at {c.start} must share the outcome of call {owner.n} '
                            f'({owner.start}..{end}, retention {ret}) but got {c.val!r} of batch {bn}')
                        break
            else:
                if nwork != len(works):
                    self.bad.append(f'key {k} was computed {len(works)} times, expected {nwork}')
        self.events.append(tuple((c.n, self.token(c), c.end) for c in self.arrivals))

    def was_cancelled(self, c):
        return c.action is not None and c.out == 'exc' and isinstance(
            c.val, (aio.CancelledError, TimeoutError))

    def follows(self, c, owner):
        p = c.prev
        return p is not None and p is owner

    def token(self, c):
        """number of the batch that produced this call's outcome"""
        if id(c.val) in self.made:
            return self.made[id(c.val)][1]
        if c.out == 'ok' and isinstance(c.val, tuple):
            return c.val[1][0]
        if c.out == 'exc' and isinstance(c.val, (Yielded, Raised)):
            return c.val.args[0][0]
        return None


def make(spec):
    p = BatcherProgram(spec)
    if len(spec) > 4 or len(spec[2]) > 500:
        p.opts = dict(p.opts, horizon=1e5 * max(1, *spec[4:], 1), max_steps=3000000)
    return p


# ---------------------------------------------------------------------------

def normal_keys(n, alphabet):
    """key strings of length n, up to renaming (first occurrences in order)"""
    def rec(pre, used):
        if len(pre) == n:
            yield tuple(pre)
            return
        for i in range(min(used + 1, len(alphabet))):
            yield from rec(pre + [alphabet[i]], max(used, i + 1))
    return rec([], 0)


#: keys which are different, however similar
LONG = 'k' * 70000
SIMILAR = (('a', 'a ', ' a'), ('a', 'A', '\u00e4'), ('\u00e9', 'e\u0301', 'e'), ('1', '01', '1.0'), ('0', '', '00'),
           ('a', 'a\n', 'a\0'), ('None', 'none', "'None'"), ('1', "'1'", '"1"'), ('a.b', 'a', 'a/b'), ('ss', '\u00df', 'SS'),
           ('a b', 'a  b', 'a\tb'), ('True', '1', 'true'), ('\ud800', '?', '\ufffd'), ('k' * 40 + '1', 'k' * 40 + '2', 'k' * 40),
           ('k' * 300 + '1', 'k' * 300 + '2', 'k' * 300), (LONG + '1', LONG + '2', LONG), ('1' + LONG, '2' + LONG, LONG),
           (LONG + '1' + LONG, LONG + '2' + LONG, LONG + LONG), ('ab', 'ba', 'aabb'), ('1', '-1', '+1'), ('1e2', '100', '1E2'))


def timeline(gaps, start=0.0):
    t = start
    out = [t]
    for g in gaps:
        t += g
        out.append(t)
    return out


def groups(prop, tier):
    th = tier == 'thorough'
    if prop == 'C04':
        def one_batch():
            # every behaviour combination for the keys of one batch
            codes = 'veordubcsntR'
            for n in (1, 2, 3):
                keys = [str(i + 1) for i in range(n)]
                for cs in itertools.product(codes if n < 3 or th else 'veordus', repeat=n):
                    for order in 'fro'[:n]:
                        for ds in ((0, 0, 0), (0, 0.5, 0), (0.5, 0, 0.5)):
                            if n == 3 and not th and ds[0]:
                                continue
                            for dup in (False, True):
                                calls = tuple((0.0, k, 'd', None) for k in keys)
                                if dup:
                                    calls += ((0.0, '1', 'x', None), (1.75, keys[-1], 'd', None))
                                yield (prop, (5, 2, 0, ()), calls,
                                       (tuple(zip(keys, cs)), order) + ds)

        def special():
            codes = 'lzfwXBGkTFSUA' + 'qQyYiIW' + '1234567890'
            for n in (1, 2, 3):
                keys = [str(i + 1) for i in range(n)]
                for cs in itertools.product(codes + 'vor' if n < 3 else codes[:13] if th else 'lzBkS', repeat=n):
                    if n > 1 and not any(c in codes for c in cs):
                        continue
                    for order in 'fro'[:n]:
                        for ds in ((0, 0, 0), (0.5, 0.5, 0)):
                            for ret in (0, 2):
                                calls = tuple((0.0, k, 'd', None) for k in keys)
                                calls += ((0.0, '1', 'x', None), (3.75, keys[-1], 'd', None))
                                yield (prop, (5, 2, ret, ()), calls,
                                       (tuple(zip(keys, cs)), order) + ds)

        def timed():
            L = 4 if th else 3
            for n in range(1, L + 1):
                for keys in normal_keys(n, '123'):
                    for gaps in itertools.product((0, 0.5, 1.5), repeat=n - 1):
                        ts = timeline(gaps)
                        for mbs, mcb in ((1, 1), (1, 2), (2, 1), (2, 3), (3, 2), (5, 1)):
                            for ret in (0, 2):
                                for c1 in ('v', 'e', 'o', 'r', 'd', 'u', 'ev', 'ov', 'rv', 'b'):
                                    for c2 in ('v', 'r'):
                                        for order, d in (('f', 0), ('r', 0.5), ('f', 2)):
                                            yield (prop, (mbs, mcb, ret, ()),
                                                   tuple((t, k, 'd', None) for t, k in zip(ts, keys)),
                                                   ((('1', c1), ('2', c2)), order, 0, d, 0))

        def longer():
            for n in (5, 6, 8, 10) if th else (5, 6):
                for keys in (tuple('123123123123'[:n]), tuple('1212123434'[:n]), tuple('1234567890'[:n])):
                    for gaps in itertools.product((0, 0.75), repeat=n - 1):
                        if n > 6 and sum(g > 0 for g in gaps) > 3:
                            continue
                        ts = timeline(gaps)
                        for mbs, mcb in ((2, 1), (3, 2), (4, 1)):
                            for c1, c2 in (('v', 'v'), ('r', 'v'), ('o', 'e'), ('dv', 'u')):
                                yield (prop, (mbs, mcb, 0, ()),
                                       tuple((t, k, 'x' if i % 3 == 2 else 'd', None)
                                             for i, (t, k) in enumerate(zip(ts, keys))),
                                       ((('1', c1), ('3', c2)), 'r', 0, 0.5, 0))
        def mutated():
            # max_batch_size is changed between and while batches are collected
            for keys in ('1234', '1213', '123456'):
                for gaps in itertools.product((0, 0.75), repeat=len(keys) - 1):
                    ts = timeline(gaps)
                    for m0, mcb in ((1, 1), (2, 2), (4, 1)):
                        for muts in (((0.25, 1),), ((0.25, 5),), ((0.0, 3), (0.75, 1)), ((0.75, 2), (1.5, 6), (1.75, 1))):
                            for c1, c2 in (('v', 'v'), ('r', 'v'), ('o', 'e')):
                                yield (prop, (m0, mcb, 0, muts),
                                       tuple((t, k, 'd', None) for t, k in zip(ts, keys)),
                                       ((('1', c1), ('3', c2)), 'r', 0.25, 0.5, 0))

        def decorated():
            for p in one_batch():
                if len(p[3][0]) < 3:
                    yield (p[0], p[1] + ('dec',)) + p[2:]
            for n in (1, 2, 3):
                for keys in normal_keys(n, '123'):
                    for gaps in itertools.product((0, 1.5), repeat=n - 1):
                        ts = timeline(gaps)
                        for mbs, mcb in ((1, 2), (2, 1)):
                            for ret in (0, 2):
                                for c1 in ('v', 'e', 'o', 'r'):
                                    yield (prop, (mbs, mcb, ret, (), 'dec'),
                                           tuple((t, k, 'd', None) for t, k in zip(ts, keys)),
                                           ((('1', c1),), 'r', 0, 0.5, 0))

        def large():
            # many keys, many callers of one key
            for n in (40, 300, 1100) + ((4000,) if th else ()):
                for mbs, mcb in ((1, 1), (1, 40), (7, 3), (256, 5), (n, 1), (3 * n, 2)):
                    for ret in (0, 2):
                        for codes in ('v', 'veov', 'ver', 'vovevnt'):
                            if 'r' in codes and mbs < 7:
                                continue
                            cs = tuple((str(i), codes[i % len(codes)]) for i in range(n))
                            for gap in (0, 0.01):
                                yield (prop, (mbs, mcb, ret, ()), tuple((i * gap, str(i), 'd', None) for i in range(n)),
                                       (cs, 'r' if mbs > 7 else 'f', 0, 0, 0.25))
                        yield (prop, (mbs, mcb, ret, ()),
                               tuple((i * 0.01, str(i % 3), 'dx'[i % 2], None) for i in range(n)),
                               ((('1', 'ev'), ('2', 'rv')), 'f', 0, 0.5, 0))

        def scaled():
            for n in (1, 2):
                for keys in normal_keys(n, '12'):
                    for gaps in itertools.product((0, 0.5, 1.5), repeat=n - 1):
                        ts = timeline(gaps)
                        for mbs, mcb in ((1, 1), (2, 3), (5, 1)):
                            for ret in (0, 2):
                                for c1 in ('v', 'e', 'o', 'r', 'd', 'ev', 'b'):
                                    for order, d in (('f', 0), ('r', 0.5), ('f', 2)):
                                        for x in SCALES:
                                            yield (prop, (mbs, mcb, ret, ()),
                                                   tuple((t, k, 'd', None) for t, k in zip(ts, keys)),
                                                   ((('1', c1),), order, 0, d, 0), x)

        def odd_args():
            for n in (1, 2, 3):
                for keys in normal_keys(n, '123'):
                    for hows in itertools.product('psx', repeat=n):
                        for gap in (0, 0.5, 1.5):
                            for mbs in (1, 5):
                                for ret in (0, 2):
                                    for c1 in ('v', 'e', 'o'):
                                        for base in (0, 5, 10):
                                            # (the odd argument depends on the number of the call)
                                            pre = tuple((0.0, 'p', 'x', None) for _ in range(base))
                                            yield (prop, (mbs, 2, ret, ()) + ('dec',) * (base == 5),
                                                   pre + tuple((i * gap, k, h, None)
                                                               for i, (k, h) in enumerate(zip(keys, hows))),
                                                   ((('1', c1),), 'r', 0, 0.5, 0))

        def twin():
            for n in (1, 2, 3):
                for keys in normal_keys(n, '123'):
                    for gaps in itertools.product((0, 0.5, 1.5), repeat=n - 1):
                        ts = timeline(gaps)
                        for mbs, mcb in ((1, 1), (2, 1), (5, 2)):
                            for ret in (0, 2):
                                for c1 in ('v', 'e', 'o', 'r', 'u', 'ev', 'b'):
                                    for order, d in (('f', 0), ('r', 0.5)):
                                        yield (prop, (mbs, mcb, ret, (), 'twin') + ('dec',) * (d == 0),
                                               tuple((t, k, 'd', None) for t, k in zip(ts, keys)),
                                               ((('1', c1),), order, 0, d, 0))

        def similar():
            for ks in SIMILAR:
                for keys in itertools.permutations(ks):
                    for gap in (0, 0.5, 1.5):
                        for mbs in (1, 5):
                            for ret in (0, 8):
                                for cs in ('vve', 'vov', 'vvr'):
                                    for how in 'dx':
                                        yield (prop, (mbs, 2, ret, ()) + ('dec',) * (how == 'x'),
                                               tuple((i * gap, k, how, None) for i, k in enumerate(keys + keys[:1])),
                                               (tuple(zip(keys, cs)), 'f' if how == 'd' else 'r', 0, 0.125, 0))

        return [Group('other batch timeouts', scaled), Group('many keys and callers', large, chunk=4),
                Group('odd arguments', odd_args), Group('two batchers', twin), Group('similar keys', similar),
                Group('one batch, every behaviour per key', one_batch),
                Group('special results', special),
                Group('decorated function', decorated), Group('max_batch_size mutated', mutated),
                Group('timed programs', timed), Group('longer programs', longer)]

    if prop == 'C09':
        acts = [None, ('cancel', 0), ('cancel', 0.5), ('cancel', 1.25), ('cancel', 1.5), ('cancel', 1.75),
                ('cancel', 2.25), ('timeout', 0.5), ('timeout', 1.25), ('timeout', 1.5), ('timeout', 2.25)]

        def fresh_tail(t):
            return ((t, '1', 'd', None), (t, '9', 'd', None))

        def progs():
            # batches start 1.0 after the last arrival; item durations .5
            shapes = []
            for n in (1, 2, 3):
                for keys in normal_keys(n, '123'):
                    for gaps in itertools.product((0, 0.25), repeat=n - 1):
                        shapes.append((keys, timeline(gaps)))
            for keys, ts in shapes:
                n = len(keys)
                sub = acts if n < 3 else (acts if th else [acts[i] for i in (0, 1, 2, 3, 4, 8)])
                for a in itertools.product(sub, repeat=n):
                    if not any(a):
                        continue
                    for ret in (0, 2):
                        for order, codes, dd in (('f', (('1', 'v'), ('2', 'e')), (0, 0.5, 0)),
                                                 ('r', (('1', 'e'), ('2', 'v')), (0, 0.5, 0)),
                                                 ('f', (('1', 'v'), ('3', 'r')), (0.5, 0, 0.5))):
                            if n == 3 and not th and codes[-1][0] == '3':
                                continue
                            calls = tuple((t, k, 'd', x) for t, k, x in zip(ts, keys, a))
                            yield (prop, (5, 1, ret, ()), calls + fresh_tail(30.0),
                                   (codes, order) + dd)

        def interleaved():
            # later calls with the cancelled caller's key while its work is
            # queued / running / done / retained
            tt = (0.25, 0.75, 1.25, 1.5, 1.75, 2.25, 3.25)
            for a in acts[1:]:
                for t1 in tt:
                    for t2 in tt:
                        if t2 < t1:
                            continue
                        for ret in (0, 1, 4):
                            for mbs in (1, 2, 5):
                                for codes in ((('1', 'v'),), (('1', 'ev'),), (('1', 'rv'),)):
                                    calls = ((0.0, '1', 'd', a), (t1, '1', 'd', None), (t2, '1', 'd', None),
                                             (t2, '2', 'd', None)) + fresh_tail(30.0)
                                    yield (prop, (mbs, 2, ret, ()), calls, (codes, 'f', 0, 0.5, 0))

        def several():
            # shared keys: the original is cancelled, sharers too
            for a in itertools.product((None, ('cancel', 0.5), ('cancel', 1.25), ('timeout', 1.5)), repeat=4):
                if not any(a):
                    continue
                for keys in (tuple('1111'), tuple('1121'), tuple('1212'), tuple('1221')):
                    for ret in (0, 2):
                        for mbs in (2, 5):
                            for order in 'fr':
                                calls = tuple((0.0, k, 'd', x) for k, x in zip(keys, a))
                                yield (prop, (mbs, 1, ret, ()), calls + fresh_tail(30.0),
                                       ((('1', 'v'), ('2', 'e')), order, 0, 0.5, 0))
        def special():
            for a in acts[1:]:
                for c1, c2 in itertools.product('lzwBGkTFS', 'vlBk'):
                    for keys in (('1', '1', '2'), ('1', '2', '1'), ('2', '1', '1')):
                        for ret in (0, 2):
                            for which in (0, 1, 2):
                                calls = tuple((0.0, k, 'd', a if i == which else None) for i, k in enumerate(keys))
                                yield (prop, (5, 1, ret, ()), calls + fresh_tail(30.0),
                                       ((('1', c1), ('2', c2)), 'f', 0, 0.5, 0))
        def large():
            # many calls at once, some of them cancelled at once or later
            for n in (12, 34, 140, 1100) + ((2600, 5200) if th else ()):
                for mbs, mcb in ((1, 3), (2, 1), (7, 2), (256, 5)):
                    if n > 1000 and mbs < 7 and not th:
                        continue
                    for a in (('cancel', 0), ('cancel', 0.5), ('timeout', 0.25), ('timeout', 1.25)):
                        for which in ((0,), (n - 1,), (n // 2,), range(1, n, 2), range(n - 9, n), range(n)):
                            calls = tuple((0.0, str(i), 'd', a if i in which else None) for i in range(n))
                            late = [i for i in {0, 1, n // 2, n - 2, n - 1}]
                            calls += tuple((0.125, str(i), 'd', None) for i in late)
                            calls += tuple((n + 30.0, str(i), 'd', None) for i in late)
                            yield (prop, (mbs, mcb, 0, ()), calls, ((), 'f', 0, 0, 0.25))
                            if n < 100:
                                one = tuple((0.0, str(i % 2), 'd', a if i in which else None) for i in range(n))
                                yield (prop, (mbs, mcb, 2, ()), one + tuple((n + 30.0, str(i), 'd', None) for i in range(3)),
                                       ((), 'f', 0, 0.5, 0))

        def scaled():
            for n in (1, 2):
                for keys in normal_keys(n, '12'):
                    for a in itertools.product(acts, repeat=n):
                        if any(a):
                            for ret in (0, 2):
                                for x in SCALES:
                                    yield (prop, (5, 1, ret, ()),
                                           tuple((0.25 * i, k, 'd', y) for i, (k, y) in enumerate(zip(keys, a))) +
                                           fresh_tail(30.0), ((('1', 'v'), ('2', 'e')), 'f', 0, 0.5, 0), x)
        def twin():
            for n in (1, 2, 3):
                for keys in normal_keys(n, '12'):
                    for a in itertools.product(acts if n < 3 else acts[:4], repeat=n):
                        if any(a):
                            for ret in (0, 2):
                                for mbs, mcb in ((1, 1), (5, 1)):
                                    yield (prop, (mbs, mcb, ret, (), 'twin'),
                                           tuple((0.25 * i, k, 'd', y) for i, (k, y) in enumerate(zip(keys, a))) +
                                           fresh_tail(30.0), ((('1', 'v'), ('2', 'e')), 'f', 0, 0.5, 0))
        def ties():
            # cancelled in the instant in which others call, the batch starts,
            # answers or is forgotten, some steps earlier or later
            for t in (0.25, 0.5, 1.0, 1.25, 1.5, 1.75, 2.0, 3.5):
                for hops in range(8):
                    for keys in ('12', '11', '21'):
                        for mbs, mcb in ((1, 1), (1, 2), (2, 1), (5, 2)):
                            for ret in (0, 2):
                                for code in ('v', 'e', 'rv'):
                                    for pre in ((), ((0.0, '3', 'd', None),)):
                                        calls = pre + ((0.0, '1', 'd', ('cancel', t, hops)),) + tuple(
                                            (t, k, 'd', None) for k in keys)
                                        yield (prop, (mbs, mcb, ret, ()), calls + ((t + 0.25, '3', 'd', None),) +
                                               fresh_tail(30.0), ((('1', code),), 'f', 0, 0.5, 0))

        def similar():
            for ks in SIMILAR:
                for keys in itertools.permutations(ks):
                    for a in (('cancel', 0), ('cancel', 0.5), ('cancel', 1.25), ('timeout', 1.5)):
                        for ret in (0, 2):
                            for t in (0.0, 0.75, 1.25):
                                yield (prop, (5, 1, ret, ()), ((0.0, keys[0], 'd', a), (t, keys[1], 'd', None),
                                                               (t, keys[2], 'x', None)) + fresh_tail(30.0),
                                       (((keys[1], 'e'),), 'f', 0, 0.5, 0))

        return [Group('similar keys', similar), Group('cancelled in the instant of something else', ties),
                Group('other batch timeouts', scaled), Group('many calls at once', large, chunk=2),
                Group('two batchers', twin),
                Group('1..3 callers, every subset cancelled at every instant', progs),
                Group('special results', special),
                Group('later callers of a cancelled key', interleaved),
                Group('four callers sharing keys', several)]

    if prop == 'C10':
        def arrivals():
            G5 = (0, 0.5, 0.75, 1.5)
            for n in range(1, 6):
                for gaps in itertools.product(G5 if n < 5 else G5[1:], repeat=n - 1):
                    ts = timeline(gaps)
                    for mbs in (1, 2, 3, 5):
                        if mbs > n and mbs != 5:
                            continue
                        for mcb, d in ((1, 0), (1, 2.25), (2, 2.25), (3, 4.25), (1, 0.25)):
                            yield (prop, (mbs, mcb, 0, ()),
                                   tuple((t, str(i), 'd', None) for i, t in enumerate(ts)),
                                   ((), 'f', d, 0, 0))

        def many():
            L = 12 if th else 9
            for n in range(6, L + 1):
                for gaps in itertools.product((0, 0.75, 1.5) if n <= (9 if th else 7) else (0, 0.75), repeat=n - 1):
                    if sum(g > 0 for g in gaps) > (4 if th else 3):
                        continue
                    ts = timeline(gaps)
                    for mbs, mcb, d in ((2, 1, 2.25), (3, 2, 3.25), (1, 3, 3.25), (4, 1, 0.25)):
                        yield (prop, (mbs, mcb, 0, ()),
                               tuple((t, str(i), 'd', None) for i, t in enumerate(ts)),
                               ((), 'f', d, 0, 0))

        def chains():
            # calls less than batch_timeout apart share a batch until it is full,
            # however long that takes
            for mbs in (2, 7, 12, 40, 256, 1000):
                for n in (13, 41, 90) + ((300,) if th else ()):
                    for gap in (0.25, 0.6, 0.9, 0.99):
                        for mcb, d in ((1, 0), (2, 2.25), (1, 30.25)):
                            for br in (None, n // 2):
                                gaps = [gap] * (n - 1)
                                if br:
                                    gaps[br] = 1.75
                                yield (prop, (mbs, mcb, 0, ()),
                                       tuple((t, str(i), 'd', None) for i, t in enumerate(timeline(gaps))),
                                       ((), 'f', d, 0, 0))
            for mbs in (7, 255, 256, 1000):
                for n in (255, 256, 257, 520):
                    for k in (1, 2, 64, 256):
                        yield (prop, (mbs, 1, 0, ()),
                               tuple((0.5 * (i // k) if k > 1 else 0.0, str(i), 'd', None) for i in range(n)),
                               ((), 'f', 0, 0, 0))

        def burst():
            # the queue is full of items while the loop task is kept busy
            for n in range(1, 13):
                for mbs in (1, 2, 3, 4, 5):
                    for mcb in (1, 2, 3):
                        for d, di in ((0, 0), (1.25, 0), (0, 0.25), (0.25, 1.25)):
                            for t in (0.0, 0.5):
                                calls = tuple((0.0 if i < n // 2 else t, str(i), 'd', None) for i in range(n))
                                yield (prop, (mbs, mcb, 0, ()), calls, ((), 'f', d, di, 0))

        def failing():
            # a failed batch gives its slot back
            for n in range(2, 6):
                for mbs in (1, 2):
                    for mcb in (1, 2):
                        for codes in ('r', 'o', 'e', 'b', 'c'):
                            for d in (0, 1.25):
                                calls = tuple((0.25 * i, str(i), 'd', None) for i in range(n))
                                yield (prop, (mbs, mcb, 0, ()), calls,
                                       ((('0', codes), ('2', codes)), 'f', d, 0, 0))

        def cancelled():
            for n in (3, 4, 5):
                for k in range(n):
                    for a in (('cancel', 0.5), ('cancel', 1.5), ('timeout', 2.5)):
                        for mbs, mcb in ((1, 1), (2, 1), (2, 2), (5, 1)):
                            calls = tuple((0.25 * i, str(i), 'd', a if i == k else None) for i in range(n))
                            calls += ((20.0, 'p', 'd', None), (20.5, 'q', 'd', None))
                            yield (prop, (mbs, mcb, 0, ()), calls, ((), 'f', 0.75, 0.5, 0))

        def mutated():
            for n in (3, 4, 5, 6):
                for gaps in itertools.product((0, 0.5), repeat=n - 1):
                    ts = timeline(gaps)
                    for m0 in (1, 2, 4):
                        for m1 in (1, 2, 3, 5):
                            for tm in (0.0, 0.25, 0.75, 1.75):
                                yield (prop, (m0, 2, 0, ((tm, m1),)),
                                       tuple((t, str(i), 'd', None) for i, t in enumerate(ts)),
                                       ((), 'f', 1.25, 0, 0))
        def scaled():
            for n in (1, 2, 3, 4):
                for gaps in itertools.product((0, 0.5, 0.75, 1.5), repeat=n - 1):
                    ts = timeline(gaps)
                    for mbs in (1, 2, 5):
                        for mcb, d in ((1, 0), (1, 2.25), (2, 2.25)):
                            for x in SCALES:
                                yield (prop, (mbs, mcb, 0, ()),
                                       tuple((t, str(i), 'd', None) for i, t in enumerate(ts)), ((), 'f', d, 0, 0), x)

        def wide():
            # large limits on concurrent executions
            for mcb in (4, 5, 6, 17, 64, 130):
                for n in (mcb - 1, mcb, mcb + 1, 2 * mcb + 3):
                    for mbs in (1, 2, 3):
                        for gap in (0, 0.125, 1.25):
                            for d in (0.5, 30.25, 400.25):
                                yield (prop, (mbs, mcb, 0, ()),
                                       tuple((gap * i, str(i), 'd', None) for i in range(n)), ((), 'f', d, 0, 0))
        def twin():
            for n in (1, 2, 3, 4):
                for gaps in itertools.product((0, 0.5, 0.75, 1.5), repeat=n - 1):
                    ts = timeline(gaps)
                    for mbs in (1, 2, 5):
                        for mcb, d in ((1, 0), (1, 2.25), (2, 2.25)):
                            yield (prop, (mbs, mcb, 0, (), 'twin'),
                                   tuple((t, str(i), 'd', None) for i, t in enumerate(ts)), ((), 'f', d, 0, 0))
        return [Group('other batch timeouts', scaled), Group('many concurrent batches', wide, chunk=20),
                Group('two batchers', twin),
                Group('arrival sequences of 1..5 calls', arrivals), Group('bursts', burst),
                Group('long chains and large batches', chains, chunk=4),
                Group('6..%d calls' % (12 if th else 9), many), Group('failing batches', failing),
                Group('cancelled callers', cancelled), Group('max_batch_size mutated', mutated)]

    if prop == 'C11':
        def seqs():
            # one key: batch starts BT after arrival, lasts .5 => answered 1.5 after
            ALL = ('o', 'ov', 'b', 'c', 'n', 's', 'd', 'u', 'R', 'S') + tuple('zfwXGTUA' + 'qQyYiIW' + '1234567890')
            for ret in (0, 2, 64):
                g = (0.25, 1.25, 1.75, 3.25, 3.75) if ret == 2 else (0.25, 1.25, 1.75, 3.25)
                for n in (1, 2, 3, 4) + ((5,) if th else ()):
                    for gaps in itertools.product(g, repeat=n - 1):
                        ts = timeline(gaps)
                        for code in ('v', 'e', 'r', 'ev', 've', 'l', 'k', 'B', 'F') + (
                                ALL if n <= 3 and ret != 64 else ()):
                            for mbs in (1, 5):
                                yield (prop, (mbs, 2, ret, ()),
                                       tuple((t, '1', 'd' if i % 2 == 0 else 'x', None) for i, t in enumerate(ts)),
                                       ((('1', code),), 'f', 0, 0.5, 0))

        def windows():
            # windows shorter and longer than the timeout and the batch
            for ret in (0.03125, 0.25, 0.5, 0.75, 1, 1.25, 1.5, 3):
                for code in ('v', 'e', 'o', 'r', '3', 'l', 've'):
                    for d in (0, 0.5, 3):
                        end = 1 + d
                        for t in (end + ret / 2, end + ret + 1 / 64, end + ret + 0.125, end + ret + 0.75, end + ret + 1.25):
                            for t2 in (0.0625, 0.5, 2, 6):
                                for first in (0.0, 0.25):
                                    yield (prop, (5, 2, ret, ()), ((0.0, '1', 'd', None), (first, '1', 'x', None),
                                                                   (t, '1', 'd', None), (t + t2, '1', 'd', None)),
                                           ((('1', code),), 'f', 0, d, 0))

        def multi():
            for ret in (0, 1.75):
                for n in (3, 4) + ((5,) if th else ()):
                    for keys in normal_keys(n, '12' if not th else '123'):
                        for gaps in itertools.product((0, 0.75, 2.25, 4.25), repeat=n - 1):
                            ts = timeline(gaps)
                            for mbs, mcb, order in ((5, 1, 'r'), (2, 2, 'f'), (1, 1, 'f')):
                                yield (prop, (mbs, mcb, ret, ()),
                                       tuple((t, k, 'd', None) for t, k in zip(ts, keys)),
                                       ((('1', 'v'), ('2', 'e')), order, 0, 0.5, 0.25))

        def chains():
            # a caller that has just been answered calls again
            for ret in (0, 2):
                for code in ('v', 'e', 'r', 'l', 'B', 'T'):
                    for pre in ((), ((0.25, '1', 'd', None),), ((0.0, '1', 'd', None), (1.25, '1', 'x', None))):
                        base = ((0.0, '1', 'd', None),) + pre
                        for k in (1, 2, 3):
                            ch = []
                            src = 0
                            for j in range(k):
                                ch.append((('after', src), '1', 'd', None))
                                src = len(base) + j
                            for late in ((), ((5.25, '1', 'd', None),), ((3.25, '1', 'd', None), (9.75, '1', 'd', None))):
                                for mbs in (1, 5):
                                    yield (prop, (mbs, 2, ret, ()), base + tuple(ch) + late,
                                           ((('1', code),), 'f', 0, 0.5, 0))

        def cancelled():
            # the request outlives the caller that made it
            acts = [('cancel', 0), ('cancel', 0.5), ('cancel', 1.25), ('timeout', 0.75), ('timeout', 1.25)]
            for a in acts:
                for ret in (0, 2):
                    for n in (1, 2, 3) if th else (1, 2):
                        for gaps in itertools.product((0.25, 0.75, 1.3, 3.25, 3.75), repeat=n):
                            ts = timeline(gaps[1:], gaps[0])
                            for code in ('v', 'e', 'r'):
                                for mbs in (1, 5):
                                    yield (prop, (mbs, 2, ret, ()),
                                           ((0.0, '1', 'd', a),) + tuple((t, '1', 'd', None) for t in ts),
                                           ((('1', code),), 'f', 0, 0.5, 0))
            for a in acts:
                for ret in (0, 2):
                    for gaps in itertools.product((0.25, 0.75, 1.3, 3.75), repeat=2):
                        ts = timeline(gaps, 0.0)
                        for which in (1, 2):
                            yield (prop, (5, 2, ret, ()),
                                   tuple((t, '1', 'd', a if i == which else None) for i, t in enumerate(ts)),
                                   ((('1', 'v'),), 'f', 0, 0.5, 0))

        def keyforms():
            # default keys are str(arg); explicit keys share with them
            for ret in (0, 2):
                for k1, k2 in itertools.product(('1', '2', 'None', 'a b', ''), repeat=2):
                    for h1, h2 in itertools.product('dx', repeat=2):
                        for g in (0, 0.5, 2.5, 9.25):
                            yield (prop, (5, 1, ret, ()), ((0.0, k1, h1, None), (g, k2, h2, None)),
                                   ((('1', 'v'),), 'f', 0, 0.5, 0))

        def longer():
            for ret in (0, 2, 6.25):
                for n in (6, 8, 10) if th else (6, 7):
                    for gaps in itertools.product((0.75, 3.75), repeat=n - 1):
                        ts = timeline(gaps)
                        for keys in ('1' * n, ('12' * n)[:n], ('112' * n)[:n]):
                            yield (prop, (2, 2, ret, ()),
                                   tuple((t, k, 'd', None) for t, k in zip(ts, keys)),
                                   ((('1', 've'), ('2', 'v')), 'f', 0, 0.5, 0))
        def scaled():
            for ret in (0, 0.5, 2, 64):
                for n in (1, 2, 3):
                    for gaps in itertools.product((0.25, 1.25, 1.75, 3.25, 66), repeat=n - 1):
                        for code in ('v', 'e', 'r', 've'):
                            for x in SCALES:
                                yield (prop, (5, 2, ret, ()),
                                       tuple((t, '1', 'd', None) for t in timeline(gaps)),
                                       ((('1', code),), 'f', 0, 0.5, 0), x)

        def large():
            # many keys remembered at once, many calls of one key
            for n in (20, 140, 1100) + ((5000,) if th else ()):
                for mbs, mcb in ((1, 9), (7, 2), (2 * n, 1)):
                    if n > 1000 and mbs == 1:
                        continue
                    for ret in (0, 2, 50, 3000):
                        ks = [str(i) for i in range(n)]
                        first = tuple((0.0, k, 'd', None) for k in ks)
                        for code in ('v', 'e'):
                            cs = tuple((k, code) for k in ks[::3])
                            for t in (0.25, 2.25, 40.25, 2000.25, 4000.25):
                                yield (prop, (mbs, mcb, ret, ()),
                                       first + tuple((t, k, 'd', None) for k in ks[:9] + ks[9:-9:7] + ks[-9:]),
                                       (cs, 'f', 0, 0, 0.125))
                        yield (prop, (mbs, mcb, ret, ()),
                               tuple((i * 0.25, '12'[i % 5 == 4], 'd', None) for i in range(n)),
                               ((('1', 've'),), 'f', 0, 0.5, 0))
        def twin():
            for ret in (0, 2, 64):
                for n in (1, 2, 3, 4):
                    for gaps in itertools.product((0.25, 1.25, 1.75, 3.25), repeat=n - 1):
                        for code in ('v', 'e', 've'):
                            for keys in ('1111', '1212'):
                                yield (prop, (5, 2, ret, (), 'twin'),
                                       tuple((t, k, 'd', None) for t, k in zip(timeline(gaps), keys)),
                                       ((('1', code),), 'f', 0, 0.5, 0))

        def odd_args():
            for ret in (0, 2):
                for n in (2, 3):
                    for hows in itertools.product('dxps', repeat=n):
                        for gaps in itertools.product((0, 0.25, 1.75, 4.25), repeat=n - 1):
                            for skip in (0, 6, 12):
                                pre = tuple((0.0, 'q', 'p', None) for _ in range(skip))
                                yield (prop, (5, 2, ret, ()), pre + tuple(
                                    (t, '1', h, None) for t, h in zip(timeline(gaps), hows)),
                                    ((('1', 'v'),), 'f', 0, 0.5, 0))
        def similar():
            for ks in SIMILAR:
                for keys in itertools.permutations(ks):
                    for gap in (0, 0.5, 1.25, 2.5):
                        for mbs in (1, 5):
                            for ret in (0, 8):
                                for code in ('v', 'e'):
                                    for how in 'dx':
                                        yield (prop, (mbs, 2, ret, ()),
                                               tuple((i * gap, k, how, None) for i, k in enumerate(keys + keys)),
                                               (((keys[0], code),), 'f', 0, 0.5, 0))

        return [Group('similar keys', similar),
                Group('other batch timeouts and retentions', scaled), Group('many keys and calls', large, chunk=4),
                Group('two batchers', twin), Group('odd arguments', odd_args),
                Group('one key, all gap sequences', seqs), Group('several keys', multi),
                Group('windows of any length', windows),
                Group('chained calls', chains), Group('cancelled callers', cancelled), Group('key forms', keyforms),
                Group('longer sequences', longer)]
    raise AssertionError(prop)
