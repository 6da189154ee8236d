"""
C15: decorators with options against the direct forms, and decorated batchers
used from several loops (virtual time, real code).

* ('o', deco, opts, prog): the same timed program against every way of applying
  the decorator; all traces must be identical, and equal to the documented
  effect of the options where the program is a witness for it.
* ('s', opts, progs, how): one decorated batcher used from loops one after
  another; every loop must see what a fresh decorated function would show.
* ('a', opts, steps, dur): one decorated batcher, loops used in turns: a loop is
  run for a while, left, and continued after the others had theirs.
* ('t', opts, threads, o): loops in several threads at once, interleaved.
"""
import asyncio as aio
import functools
import itertools
import threading
import time

from .. import vrt, explore
from ..check import Group

LEVEL = {'C15': 'model_checking'}
ASSUMPTIONS = {'C15': ['one decorated buffer function belongs to one event loop (documented)']}

DEFAULTS = {
    'batcher': {'max_batch_size': 256, 'max_concurrent_batches': 5, 'batch_timeout': 0.05, 'retention_timeout': 0.},
    'buffer': {'timeout': 1},
    'cache': {'cache': None},
}


class Falsy(dict):
    """a mapping which is never true"""

    def __bool__(self):
        return False


class Last(dict):
    """remembers one entry only"""

    def __setitem__(self, k, v):
        self.clear()
        dict.__setitem__(self, k, v)


class Strict:
    """only the abstract mapping interface"""

    def __init__(self):
        self.d = {}

    def __getitem__(self, k):
        return self.d[k]

    def __setitem__(self, k, v):
        self.d[k] = v

    def __delitem__(self, k):
        del self.d[k]

    def __iter__(self):
        return iter(self.d)

    def __len__(self):
        return len(self.d)

    def __contains__(self, k):
        return k in self.d


MAPS = {'dict': dict, 'falsy': Falsy, 'last': Last, 'strict': Strict}


def build(opts):
    """options of the spec -> fresh keyword arguments"""
    return {k: MAPS[v]() if k == 'cache' and v is not None else v for k, v in opts}


# ---------------------------------------------------------------------------
# programs: run(deco'd function, trace, clock)

class Trace:
    def __init__(self, s):
        self.s = s
        self.t0 = s.now
        self.ev = []

    def add(self, *what):
        self.ev.append((round(self.s.now - self.t0, 6),) + what)


class Callable_:
    '''callable object / owner of a method'''

    def __init__(self, f):
        self.f = f

    def __call__(self, *a, **k):
        return self.f(*a, **k)

    meth = __call__


def shape(kind, f):
    '''the function to decorate, as another kind of callable'''
    if kind == 'plain':
        f.__name__ = f.__qualname__ = 'the_name'
        f.__doc__ = 'the doc'
        f.extra = 'attribute'
        return f
    if kind == 'partial':
        return functools.partial(f)
    if kind == 'object':
        return Callable_(f)
    if kind == 'method':
        return Callable_(f).meth
    if kind == 'sync':
        return lambda *a, **k: f(*a, **k)
    if kind == 'odd':
        class Odd(Callable_):
            def __bool__(self):
                return False

            def __len__(self):
                return 0

            __hash__ = None

        return Odd(f)
    return f


def meta(f):
    return tuple(repr(getattr(f, a, '-')) for a in ('__name__', '__qualname__', '__doc__', '__module__', 'extra'))


def batch_func(tr, dur, mode='ok', monitor=None):
    async def func(batch):
        batch = list(batch)
        n = sum(1 for e in tr.ev if e[1] == 'batch')
        tr.add('batch', tuple(batch))
        if monitor is not None:
            monitor(batch)
        if dur:
            await aio.sleep(dur + n * 0.001)
        for i, (k, v) in enumerate(batch):
            if mode == 'err' and i == 0:
                yield k, ValueError(k)
            elif mode == 'raise' and n == 0:
                raise LookupError(n)
            else:
                yield k, ('r', k, v)
        tr.add('end', n)
    return func


GAP = 0.05          # between the uses of two functions
OFF = 0.00013       # no submission coincides with a deadline of an earlier one


async def drive(prog, one):
    """one(i, *rest) of every (time, *rest), in order of time; equal times in
    order of the program without a timer in between. Timers which are due at the
    same time have no defined order, so none of the traces may depend on it."""
    tasks = []
    now = 0
    groups = itertools.groupby(sorted(enumerate(prog), key=lambda c: c[1][0]), key=lambda c: c[1][0])
    for k, (t, calls) in enumerate(groups):
        t = t + k * OFF
        if t > now:
            await aio.sleep(t - now)
            now = t
        for i, c in calls:
            r = one(i, *c[1:])
            if r is not None:
                tasks.append(aio.ensure_future(r))
    await aio.gather(*tasks)


async def run_batcher(f, prog, tr):
    """prog: tuple of (time, arg, key)"""
    async def one(i, arg, key):
        try:
            r = await (f(arg) if key is None else f(arg, key=key))
        except Exception as e:  # noqa
            r = repr(e)
        tr.add('got', i, r)
    await drive(prog, one)


class Opt(explore.LoopProgram):
    """kind 'o'"""
    opts = dict(explore.LoopProgram.opts, horizon=1e6)


    def root(self):
        _, self.deco, self.opts_, self.prog = self.spec[:4]
        self.traces = {}
        self.meta = {}
        name = self.spec[4] if len(self.spec) > 4 else None
        self.shape = name[6:] if name and name.startswith('shape:') else None
        forms = ['direct', 'option', 'late', 'twice', 'again', 'explicit', 'optexpl']
        if not self.opts_:
            forms += ['bare', 'none']
        if self.deco == 'batcher':
            forms.append('class')
        for f in forms:
            time.sleep(10)
            try:
                getattr(self, 'run_' + self.deco)(f)
            except vrt.Abort:
                raise
            except Exception as e:  # noqa
                self.bad.append(f'{self.deco} with {self.opts_} as {f}: {e!r}')
        ref = self.traces.get('direct')
        for f, t in self.traces.items():
            if t != ref:
                self.bad.append(f'{self.deco} with {self.opts_}: form {f} behaves differently\n'
                                f'      {f}: {self.short(t)}\n      direct: {self.short(ref)}')
        if self.shape == 'plain':
            for f, t in self.meta.items():
                if t != self.meta.get('direct'):
                    self.bad.append(f'{self.deco} with {self.opts_}: form {f} is described as {t}, '
                                    f'direct: {self.meta.get("direct")}')
        if ref is not None:
            self.witness(ref)
            self.events = [ref]

    @staticmethod
    def short(t):
        return str(t)[:900]

    def apply(self, form, deco, opts, func, cls=None):
        """-> decorated function"""
        if form in ('explicit', 'optexpl'):
            opts = {**DEFAULTS[self.deco], **opts}
        if form in ('direct', 'explicit'):
            return deco(func, **opts)
        if form in ('option', 'optexpl'):
            return deco(**opts)(func)
        if form == 'bare':
            return deco(func)
        if form == 'none':
            return deco()(func)
        if form == 'class':
            return cls(func, **opts)
        raise AssertionError(form)

    def factory(self, form, deco, opts):
        """for forms whose options are given before there is any loop"""
        if form not in ('late', 'twice', 'again'):
            return None
        out = []
        t = threading.Thread(target=lambda: out.append(deco(**opts)))
        t.start()
        t.join()
        if not out:
            raise TypeError('the decorator cannot be called with options outside of an event loop')
        return out[0]

    # -- batcher ---------------------------------------------------------
    def run_batcher(self, form):
        calls, dur, mode = self.prog
        opts = build(self.opts_)
        m = self.m
        fac = self.factory(form, m.async_background_batcher, opts)

        async def main():
            tr = Trace(self.s)
            if fac is not None:
                f = fac(shape(self.shape, batch_func(tr, dur, mode)))
                self.meta[form] = meta(f)
                if form == 'twice':
                    tr2 = Trace(self.s)
                    g = fac(batch_func(tr2, dur, mode))
                    await aio.gather(run_batcher(f, calls, tr), run_batcher(g, calls, tr2))
                    self.traces['twice2'] = tr2.ev
                    self.traces['twice'] = tr.ev
                    return
                if form == 'again':
                    # a second function decorated by the same object, used once the first one was
                    await run_batcher(f, calls, tr)
                    self.traces['again'] = tr.ev
                    await aio.sleep(GAP)
                    tr2 = Trace(self.s)
                    await run_batcher(fac(batch_func(tr2, dur, mode)), calls, tr2)
                    self.traces['again2'] = tr2.ev
                    return
            else:
                f = self.apply(form, m.async_background_batcher, opts, shape(self.shape, batch_func(tr, dur, mode)),
                               m.AsyncBackgroundBatcher)
                if form != 'class':
                    self.meta[form] = meta(f)
            await run_batcher(f, calls, tr)
            self.traces[form] = tr.ev
        aio.run(main())

    # -- buffer -----------------------------------------------------------
    def run_buffer(self, form):
        subs, end, fail = self.prog
        opts = build(self.opts_)
        m = self.m
        fac = self.factory(form, m.buffer_until_timeout, opts)

        async def main():
            tr = Trace(self.s)

            def func(tr):
                n = 0

                async def f(args):
                    nonlocal n
                    n += 1
                    tr.add('call', tuple(sorted(args)))
                    if n <= fail:
                        raise ValueError(n)
                return shape(self.shape, f)
            trs = [tr]
            if fac is not None:
                fs = [fac(func(tr))]
                if form == 'twice':
                    trs.append(Trace(self.s))
                    fs.append(fac(func(trs[1])))
            else:
                fs = [self.apply(form, m.buffer_until_timeout, opts, func(tr))]

            self.meta[form] = meta(fs[0])
            await aio.gather(*(drive(subs, lambda i, x, f=f: f(x) and None) for f in fs))
            await aio.sleep(end)
            if form == 'again':
                trs.append(Trace(self.s))
                g = fac(func(trs[1]))
                await drive(subs, lambda i, x: g(x) and None)
                await aio.sleep(end)
            for i, t in enumerate(trs):
                self.traces[form + str(i)*bool(i)] = t.ev
        aio.run(main())

    # -- cache --------------------------------------------------------------
    def run_cache(self, form):
        calls = self.prog
        opts = build(self.opts_)
        m = self.m
        fac = self.factory(form, m.threadsafe_async_cache, opts)
        mapping = opts.get('cache')

        async def main():
            def func(tr):
                n = 0

                async def f(*a, **k):
                    nonlocal n
                    n += 1
                    me = n
                    tr.add('run', a, tuple(sorted(k.items())))
                    await aio.sleep(0.1 + me * 0.001)
                    if a and a[0] == 'fail' and me == 1:
                        raise ValueError(me)
                    return ('v', a, tuple(sorted(k.items())), me)
                return shape(self.shape, f)
            trs = [Trace(self.s)]
            if fac is not None:
                fs = [fac(func(trs[0]))]
                if form == 'twice' and mapping is None:
                    trs.append(Trace(self.s))
                    fs.append(fac(func(trs[1])))
            else:
                fs = [self.apply(form, m.threadsafe_async_cache, opts, func(trs[0]))]

            self.meta[form] = meta(fs[0])

            async def one(f, tr, i, a, k):
                if a == 'clear':
                    if mapping is not None:
                        for key in list(mapping):
                            del mapping[key]
                    return
                try:
                    r = await f(*a, **dict(k))
                except Exception as e:  # noqa
                    r = repr(e)
                tr.add('got', i, r, len(mapping) if mapping is not None else None)
            await aio.gather(*(drive(calls, functools.partial(one, f, tr)) for f, tr in zip(fs, trs)))
            if form == 'again' and mapping is None:
                trs.append(Trace(self.s))
                g = fac(func(trs[1]))
                await drive(calls, functools.partial(one, g, trs[1]))
            if mapping is not None and form in ('direct', 'option'):
                # a second function with the same cache finds the values there
                before = len(mapping)
                t2 = Trace(self.s)
                g = self.apply(form, m.threadsafe_async_cache, opts, func(t2))
                for c in calls:
                    if c[1] != 'clear':
                        try:
                            await g(*c[1], **dict(c[2]))
                        except Exception:  # noqa
                            pass
                self.second = getattr(self, 'second', {})
                self.second[form] = (before, t2.ev)
            for i, t in enumerate(trs):
                self.traces[form + str(i)*bool(i)] = t.ev
        aio.run(main())

    # -- documented effects --------------------------------------------------
    def witness(self, tr):
        o = {**DEFAULTS[self.deco], **dict(self.opts_)}
        name = self.spec[4] if len(self.spec) > 4 else None
        say = self.bad.append
        if self.deco == 'cache':
            sec = getattr(self, 'second', None)
            if sec:
                if sec['direct'] != sec['option']:
                    say(f'a second function with the same cache behaves differently: {sec}')
                kinds = dict(self.opts_)['cache']
                distinct = {(c[1], c[2]) for c in self.prog if c[1] != 'clear'}
                if not any(c[1] == 'clear' for c in self.prog) and ('fail',) not in {c[0] for c in distinct}:
                    want = 1 if kinds == 'last' else len(distinct)
                    if sec['option'][0] != want:
                        say(f'the cache given as option holds {sec["option"][0]} entries, not {want}')
                    if kinds != 'last' and any(e[1] == 'run' for e in sec['option'][1]):
                        say('values in the cache given as option are not used')
        elif name == 'delay':
            # one submission: called after exactly `timeout`
            want = [(round(self.prog[0][0][0] + o['timeout'], 6), 'call', (self.prog[0][0][1],))]
            if tr != want:
                say(f'timeout={o["timeout"]}: calls {tr}, expected {want}')
        elif name == 'size':
            sizes = [len(e[2]) for e in tr if e[1] == 'batch']
            n, mx = len(self.prog[0]), o['max_batch_size']
            want = [mx] * (n // mx) + ([n % mx] if n % mx else [])
            if sizes != want:
                say(f'max_batch_size={mx}: batches of {sizes}, expected {want}')
        elif name == 'dispatch':
            first = next(e[0] for e in tr if e[1] == 'batch')
            if abs(first - o['batch_timeout']) > 1e-5:
                say(f'batch_timeout={o["batch_timeout"]}: an incomplete batch starts after {first}')
        elif name == 'concurrent':
            run = top = 0
            for e in tr:
                if e[1] == 'batch':
                    run += 1
                    top = max(top, run)
                elif e[1] == 'end':
                    run -= 1
            n = sum(e[1] == 'batch' for e in tr)
            want = min(n, o['max_concurrent_batches'])
            if top != want:
                say(f'max_concurrent_batches={o["max_concurrent_batches"]}: {top} of {n} ran at once, expected {want}')
        elif name == 'retain':
            # the same key at 0 and at every further time of the program
            done = next(e[0] for e in tr if e[1] == 'end')
            n = sum(e[1] == 'batch' for e in tr)
            t2 = self.prog[0][1][0] + OFF
            inside = t2 < done or t2 < done + o['retention_timeout']
            if n != (1 if inside else 2):
                say(f'retention_timeout={o["retention_timeout"]}: {n} batches for one key at 0 and {t2} '
                    f'(first one done at {done})')


# ---------------------------------------------------------------------------
# several loops

class Seq(explore.LoopProgram):
    """kind 's': loops one after another"""

    def root(self):
        _, opts, progs, how, dur = self.spec
        m = self.m
        cur = [None]
        where = []

        def monitor(batch):
            where.append(aio.get_running_loop())

        def func_of(tr):
            return batch_func(tr, dur, 'ok', monitor)

        async def shared(batch):
            async for x in func_of(cur[0])(batch):
                yield x

        kw = build(opts)

        def solo(prog, cut):
            tr = Trace(self.s)
            f = m.async_background_batcher(func_of(tr), **kw)
            self.session(f, prog, tr, cut, None)
            return tr.ev
        want = []
        for i, p in enumerate(progs):
            want.append(solo(p, 'cut' in how and i == 0))
            time.sleep(3)
        f = m.async_background_batcher(**kw)(shared)
        got = []
        for i, p in enumerate(progs):
            tr = cur[0] = Trace(self.s)
            where.clear()
            lp = []
            self.session(f, p, tr, 'cut' in how and i == 0, lp, keep='keep' in how, drop='drop' in how)
            got.append(tr.ev)
            if any(x is not lp[0] for x in where):
                self.bad.append(f'a batch of loop {i} ran on another loop')
            where.clear()
            lp.clear()
            if 'nowait' not in how:
                time.sleep(3)
        if got != want:
            k = next(i for i in range(len(got)) if got[i] != want[i])
            self.bad.append(f'loop {k} does not get its own independent batching ({self.spec[1:]}):\n'
                            f'      {got[k]}\n      alone: {want[k]}')
        self.events = [got]

    def session(self, f, prog, tr, cut, lp, keep=False, drop=False):
        async def main():
            if lp is not None:
                lp.append(aio.get_running_loop())
            if cut:
                try:
                    await aio.wait_for(run_batcher(f, prog, tr), 0.08)
                except aio.TimeoutError:
                    pass
                return
            await run_batcher(f, prog, tr)
        if not keep and not drop:
            aio.run(main())
            return
        loop = aio.new_event_loop()
        if keep:
            self.kept = getattr(self, 'kept', [])
            self.kept.append(loop)     # neither closed nor collected
        loop.run_until_complete(main())
        if drop:
            loop.close()

    def cleanup(self, s):
        self.kept = None


class Turns(explore.LoopProgram):
    """kind 'a': steps ((loop, seconds, ((at, arg), ...)), ...), then every loop is
    run to the end. Every loop must see what it would with a function of its own
    while nobody uses the other loops."""
    opts = dict(explore.LoopProgram.opts, horizon=1e5)

    def root(self):
        _, opts, steps, dur = self.spec
        m = self.m
        kw = build(opts)
        steps = steps + tuple((i, 7.77, ()) for i in sorted({st[0] for st in steps}))
        names = sorted({st[0] for st in steps})
        want = {}
        for k in names:
            # no state at all shared with the others
            tr = {k: Trace(self.s)}
            f = m.async_background_batcher(batch_func(tr[k], dur), **kw)
            self.turns(f, steps, tr, k)
            want[k] = tr[k].ev
            time.sleep(3)
        loops = {}
        got = {k: Trace(self.s) for k in names}

        async def shared(batch):
            here = aio.get_running_loop()
            k = next((k for k, lp in loops.items() if lp is here), None)
            if k is None:
                self.bad.append('a batch runs on a loop nobody called from')
                return
            async for x in batch_func(got[k], dur)(batch):
                yield x
        self.turns(m.async_background_batcher(**kw)(shared), steps, got, None, loops)
        for k in names:
            if got[k].ev != want[k]:
                self.bad.append(f'loop {k} does not get its own independent batching ({self.spec[1:]}):\n'
                                f'      {got[k].ev}\n      alone: {want[k]}')
        self.events = [want]

    def turns(self, f, steps, trs, only, loops=None):
        loops = {} if loops is None else loops
        tasks = []

        async def call(k, tr, n, at, arg):
            if at:
                await aio.sleep(at)
            try:
                r = await f(f'{k}.{arg}')
            except Exception as e:  # noqa
                r = repr(e)
            tr.add('got', n, r)

        async def piece(k, n, d, calls):
            for i, (at, arg) in enumerate(calls):
                tasks.append(aio.ensure_future(call(k, trs[k], (n, i), at, arg)))
            await aio.sleep(d)
        for n, (k, d, calls) in enumerate(steps):
            if only is not None and k != only:
                time.sleep(d)
                continue
            if k not in loops:
                loops[k] = aio.new_event_loop()
            aio.set_event_loop(loops[k])
            loops[k].run_until_complete(piece(k, n, d, calls))
        left = [t for t in tasks if not t.done()]
        if left:
            self.bad.append(f'{len(left)} calls have not been answered ({self.spec[1:]})')
        self.kept = getattr(self, 'kept', [])
        self.kept += [loops, tasks, f]

    def cleanup(self, s):
        self.kept = None


class Par(explore.Scenario):
    """kind 't': loops in several threads at once"""

    def __init__(self, spec):
        self.spec = spec
        o = dict(spec[3])
        self.dur = o.get('dur', 0)
        self.opts = {'max_steps': 40000, 'horizon': 200.0, 'instr': o.get('instr', False)}

    def __repr__(self):
        return f'Par({self.spec!r})'

    def setup(self, s):
        self.s = s
        self.bad = []
        self.got = {}
        m = explore.fresh('aiuti.asyncio')
        kw = build(self.spec[1])
        self.want = []
        self.m, self.kw = m, kw
        self.here = {}

        async def shared(batch):
            loop = aio.get_running_loop()
            k = self.here.get(loop)
            if k is None:
                self.bad.append('a batch runs on a loop nobody called from')
                return
            batch = list(batch)
            if any(not str(a[0]).startswith(f'{k}.') for a in batch):
                self.bad.append(f'a batch on loop {k} contains {batch}')
            async for x in batch_func(self.tr[k], self.dur)(batch):
                yield x
        self.tr = {}
        self.f = m.async_background_batcher(**kw)(shared)

    def root(self):
        s = self.s
        ts = []
        # alone first, without interleavings
        s.atomic += 1
        for k, prog in enumerate(self.spec[2]):
            tr = Trace(s)
            f = self.m.async_background_batcher(batch_func(tr, self.dur), **self.kw)
            aio.run(self.main(f, k, prog, tr, False))
            self.want.append(tr.ev)
        s.atomic -= 1
        time.sleep(5.25 - s.now % 1)
        for k, prog in enumerate(self.spec[2]):
            ts.append(threading.Thread(target=self.thread, args=(k, prog), name=f'loop{k}'))
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        for k, w in enumerate(self.want):
            if self.got.get(k) != w:
                self.bad.append(f'loop {k} does not get its own independent batching:\n'
                                f'      {self.got.get(k)}\n      alone: {w}')

    def thread(self, k, prog):
        self.tr[k] = Trace(self.s)
        try:
            aio.run(self.main(self.f, k, prog, self.tr[k], True))
        except vrt.Abort:
            raise
        except BaseException as e:  # noqa
            self.bad.append(f'loop {k} ended with {e!r}')
        self.got[k] = self.tr[k].ev

    async def main(self, f, k, prog, tr, reg):
        if reg:
            self.here[aio.get_running_loop()] = k
        await run_batcher(f, tuple((t, f'{k}.{a}', None) for t, a in prog), tr)

    def check(self, s):
        bad = list(self.bad)
        if s.status != 'ok':
            bad.append(f'{s.status}: calls of a decorated batcher never complete')
        return bad

    def outcome(self, s):
        return tuple(sorted((k, str(v)) for k, v in self.got.items()))

    def cleanup(self, s):
        self.here.clear()
        self.f = None


def make(spec):
    if spec[0] == 'o':
        return Opt(spec)
    if spec[0] == 'a':
        return Turns(spec)
    return Seq(spec) if spec[0] == 's' else Par(spec)


def custom(*a):
    raise NotImplementedError


def opts_of(d):
    return tuple(sorted(d.items()))


def groups(prop, tier):
    th = tier == 'thorough'
    BO = {'max_batch_size': (1, 2, 3), 'max_concurrent_batches': (1, 2, 7), 'batch_timeout': (0, 0.02, 0.3),
          'retention_timeout': (0.1, 0.5)}

    def grid(domains, upto):
        names = sorted(domains)
        for r in range(upto + 1):
            for sel in itertools.combinations(names, r):
                for vals in itertools.product(*(domains[n] for n in sel)):
                    yield opts_of(dict(zip(sel, vals)))

    def batchers():
        progs = []
        args = lambda *ts: tuple((t, i, None) for i, t in enumerate(ts))   # noqa
        progs += [args(0), args(0, 0, 0), args(0, 0.01, 0.03, 0.1), args(*[0] * 7), args(0, 0, 0.2, 0.2, 0.4)]
        # repeated keys
        progs += [((0, 'a', None), (0, 'a', None), (0.15, 'a', None), (0.6, 'a', None)),
                  ((0, 'a', 'k'), (0, 'b', 'k'), (0.3, 'c', 'k'), (0.3, 'k', None)),
                  ((0, 1, None), (0, '1', None), (0.02, 2, '1'), (1, 1, None))]
        for o in grid(BO, 4):
            for p in progs:
                for dur, mode in ((0, 'ok'), (0.12, 'ok'), (0.12, 'err'), (0, 'raise')):
                    if mode != 'ok' and not th and len(o) not in (1, 4):
                        continue
                    yield ('o', 'batcher', o, (p, dur, mode))

    def witnesses():
        for o in grid(BO, 4):
            d = dict(o)
            burst = tuple((0, i, None) for i in range(7))
            yield ('o', 'batcher', o, (burst, 0, 'ok'), 'size')
            yield ('o', 'batcher', opts_of({'max_batch_size': 1, **d}), (burst, 1, 'ok'), 'concurrent')
            if d.get('max_batch_size') != 1:
                yield ('o', 'batcher', o, (((0, 'x', None),), 0, 'ok'), 'dispatch')
            for t2 in (0.01, 0.2, 0.45, 0.7, 1.2):
                yield ('o', 'batcher', o, (((0, 'x', None), (t2, 'x', None)), 0.015, 'ok'), 'retain')
        # unusually small and large values, one or two at a time
        for b in (4, 40, 255, 257, 300, 1000):
            for n in (b - 1, b, b + 1, 2 * b + 3):
                yield ('o', 'batcher', (('max_batch_size', b),), (tuple((0, i, None) for i in range(n)), 0, 'ok'),
                       'size')
        for c in (4, 6, 12, 40, 130):
            for n in (c, c + 1, 2 * c):
                yield ('o', 'batcher', opts_of({'max_batch_size': 1, 'max_concurrent_batches': c}),
                       (tuple((0, i, None) for i in range(n)), 1, 'ok'), 'concurrent')
        for bt in (0.001, 0.04, 0.06, 1, 7.5, 35, 90, 700.25, 4000):
            yield ('o', 'batcher', (('batch_timeout', bt),), (((0, 'x', None),), 0, 'ok'), 'dispatch')
            yield ('o', 'batcher', opts_of({'batch_timeout': bt, 'retention_timeout': 2 * bt}),
                   (((0, 'x', None),), 0, 'ok'), 'dispatch')
        for rt in (0.001, 0.04, 1, 7.5, 35, 90, 700.25, 4000):
            for f in (0.5, 0.9, 1.25, 3):
                yield ('o', 'batcher', (('retention_timeout', rt),),
                       (((0, 'x', None), (0.065 + rt * f, 'x', None)), 0.015, 'ok'), 'retain')
        yield ('o', 'batcher', (), (tuple((0, i, None) for i in range(256 * 7 + 1)), 0.5, 'ok'), 'size')
        yield ('o', 'batcher', (), (tuple((0, i, None) for i in range(256 * 7 + 1)), 0.5, 'ok'), 'concurrent')
        for n in (255, 256, 257):
            yield ('o', 'batcher', (), (tuple((0, i, None) for i in range(n)), 0, 'ok'), 'size')

    def buffers():
        for to in (None, 0, 0.0, 0.05, 0.25, 1, 1.0, 1.5, 3):
            o = () if to is None else (('timeout', to),)
            for t in (0, 0.3):
                yield ('o', 'buffer', o, (((t, 'x'),), 8, 0), 'delay')
            if to == 3:
                for big in (0.001, 7, 35, 90, 700.25, 4000):
                    yield ('o', 'buffer', (('timeout', big),), (((0.3, 'x'),), 2 * big, 0), 'delay')
            for gaps in itertools.product((0, 0.04, 0.2, 0.9, 1.2), repeat=2 + th):
                ts = tuple(itertools.accumulate((0,) + gaps))
                for fail in (0, 1):
                    yield ('o', 'buffer', o, (tuple((t, f'x{i}') for i, t in enumerate(ts)), 8, fail))

    def caches():
        calls = [(0, (1,), ()), (0, (1,), ()), (0, (2,), ()), (0, (), (('a', 1),)), (0, ('fail',), ()),
                 (0, 'clear', ())]
        for mp in (None, 'dict', 'falsy', 'last', 'strict', 0):
            o = () if mp == 0 else (('cache', mp),)
            for n in (1, 2, 3) if not th else (1, 2, 3, 4):
                for sel in itertools.product(calls, repeat=n):
                    for gap in (0, 0.06, 0.3):
                        yield ('o', 'cache', o, tuple((i * gap,) + c[1:] for i, c in enumerate(sel)))

    P0 = ((0, 'a', None),)
    P1 = ((0, 'a', None), (0, 'b', None), (0.1, 'a', None))
    P2 = ((0, 'a', None), (0.01, 'a', None), (0.2, 'b', None), (0.3, 'c', 'a'))

    def successive():
        for o in ((), (('max_batch_size', 2),), (('retention_timeout', 5),), (('batch_timeout', 0.3),),
                  (('batch_timeout', 0.1), ('max_batch_size', 2), ('max_concurrent_batches', 1),
                   ('retention_timeout', 1))):
            for n in (1, 2, 3):
                for ps in itertools.product((P0, P1, P2), repeat=n):
                    for how in ((), ('nowait',), ('cut',), ('cut', 'nowait'), ('keep',), ('keep', 'nowait', 'cut'),
                                ('drop',), ('drop', 'nowait', 'cut')):
                        for dur in (0, 0.12):
                            yield ('s', o, ps, how, dur)

        for o in ((), (('max_batch_size', 2), ('retention_timeout', 5))):
            for how in ((), ('cut', 'nowait'), ('keep',), ('drop',)):
                for n in (10, 40):
                    yield ('s', o, (P1,) * n, how, 0.12)

    def turns():
        A, B, D = ((0, 'a'),), ((0, 'a'), (0, 'b')), ((0, 'a'), (0.0113, 'b'), (0.0291, 'a'))
        O = ((), (('retention_timeout', 5),), (('max_batch_size', 2),), (('batch_timeout', 0.3),),
             (('max_batch_size', 1), ('max_concurrent_batches', 1)),
             (('batch_timeout', 0.1), ('max_concurrent_batches', 1), ('max_batch_size', 2), ('retention_timeout', 1)))
        ds = (0.0137, 0.0713, 0.4171)
        for o in O:
            for dur in (0, 0.12):
                # one loop continued, with and without another one in between
                for c0, c1, c2 in itertools.product((A, B, D), ((), A, B), ((), A, D)):
                    for d0, d1 in itertools.product(ds, ds[1:]):
                        yield ('a', o, ((0, d0, c0), (1, d1, c1), (0, 0.2371, c2)), dur)
                for c1, c2 in itertools.product((A, D), (A, ())):
                    for d0, d1 in itertools.product(ds, ds[:2]):
                        yield ('a', o, ((0, d0, B), (1, d1, c1), (2, 0.0713, A), (1, 0.1371, c2), (0, 0.0913, c2),
                                        (2, d0, c1), (1, d1, A)), dur)
                for d in ds:
                    for n in (2, 3, 9) if not th else (2, 3, 9, 40):
                        yield ('a', o, tuple((i, d, D) for i in range(n)) * 3, dur)

    def concurrent(n, opt):
        def specs():
            A, B, C = ((0, 'a'),), ((0, 'a'), (0, 'b')), ((0, 'a'), (0.1, 'a'))
            for o in ((), (('max_batch_size', 2),), (('retention_timeout', 1),), (('max_concurrent_batches', 1),
                                                                              ('max_batch_size', 1))):
                for ps in itertools.combinations_with_replacement((A, B, C), n):
                    for dur in (0, 0.1):
                        yield ('t', o, ps, (('dur', dur),) + opt)
        return specs

    def shapes():
        # other callables than functions, and what describes the decorated function
        for sh in ('plain', 'partial', 'object', 'method', 'sync', 'odd'):
            sh = 'shape:' + sh
            for o in ((), (('max_batch_size', 2),), (('batch_timeout', 0.2), ('retention_timeout', 1.0)),
                      (('max_concurrent_batches', 1), ('max_batch_size', 1))):
                for mode in ('ok', 'err', 'raise'):
                    yield ('o', 'batcher', o, (((0, 'x', None), (0.01, 'y', 'k'), (0.3, 'x', None)), 0.05, mode), sh)
            for o in ((), (('timeout', 0.4),), (('timeout', 3),)):
                for fail in (0, 1):
                    yield ('o', 'buffer', o, (((0, 'x'), (0.2, 'y'), (2.5, 'z')), 9, fail), sh)
            for o in ((), (('cache', None),), (('cache', 'dict'),), (('cache', 'falsy'),), (('cache', 'last'),)):
                yield ('o', 'cache', o, ((0, (1,), ()), (0.05, (1,), ()), (0.4, (2,), (('a', 1),)), (0.8, (1,), ())), sh)
                yield ('o', 'cache', o, ((0, ('fail',), ()), (0.05, ('fail',), ()), (0.4, ('fail',), ())), sh)

    return [Group('kinds of callables and what describes them', shapes, 'program', chunk=20),
            Group('batcher options, every form', batchers, 'program', chunk=40),
            Group('effects of batcher options', witnesses, 'program', chunk=20),
            Group('buffer options, every form', buffers, 'program', chunk=20),
            Group('cache options, every form', caches, 'program', chunk=40),
            Group('loops one after another', successive, 'program', chunk=40),
            Group('loops used in turns', turns, 'program', chunk=40),
            Group('two loops at once', concurrent(2, ()), 'explore', bounds=(1, 2) if th else (1,)),
            Group('three loops at once', concurrent(3, ()), 'explore', bounds=(1,) if th else (1,)),
            Group('two loops at once, bytecode granularity', concurrent(2, (('instr', True),)) if th else
                  lambda: itertools.islice(concurrent(2, (('instr', True),))(), 2), 'explore', bounds=(1,))]
