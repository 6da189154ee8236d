"""
C19: parse_to_dict over every item list built from a grammar of fragments whose
denotation is written down by hand below (independent of ast.literal_eval), in
every container form, separator and option; tripwires detect any evaluation.

spec: (form, sep, parse_keys, parser, pairs) with pairs a tuple of
(key fragment, value fragment); fragments are texts or ('obj', name).
"""
import builtins
import collections
import itertools
import types

from .. import explore
from ..check import Group

LEVEL = {'C19': 'model_checking'}
ASSUMPTIONS = {'C19': [
    'an unhashable literal as a key (e.g. "[1]") has no dictionary to return; both a '
    'TypeError and leaving the key text unchanged are accepted']}

# text -> value; everything listed in NOT below stays unchanged
LIT = {
    '1': 1, '0': 0, '-1': -1, '+7': 7, '1_000': 1000, '0x1f': 31, '0b11': 3, '007.5': 7.5,
    '1.5': 1.5, '-2.5': -2.5, '1e3': 1000.0, '.5': 0.5,
    'None': None, 'True': True, 'False': False,
    "'a'": 'a', '"a"': 'a', '"b"': 'b', '""': '', '"1"': '1', '"\'q\'"': "'q'", '"True"': 'True',
    '"a b"': 'a b', '"x=y"': 'x=y', "'x:y'": 'x:y', '"x->y"': 'x->y', '"x==y"': 'x==y',
    "b'x'": b'x', "r'\\d'": '\\d', '"\\n"': '\n', "'a' 'b'": 'ab', "u'z'": 'z',
    '()': (), '(1, 2)': (1, 2), '(1,)': (1,), '1, 2': (1, 2), '1,': (1,), '(1)': 1,
    '[]': [], '[1, "x"]': [1, 'x'], '[[1], (None,)]': [[1], (None,)],
    '{}': {}, "{'k': 1}": {'k': 1}, '{1: [2]}': {1: [2]}, '{1, 2}': {1, 2},
    ' 1': 1, '1 ': 1, '  "s"': 's', '\t2': 2,
    '"TRIP()"': 'TRIP()', '["TRIP", -1]': ['TRIP', -1],
    '2j': 2j, '(1,2,)': (1, 2), '[1,]': [1], '"a""b"': 'ab', "rb'x'": b'x', '- 1': -1, '1e400': float('inf'),
    '"a\\tb"': 'a\tb', '"A"': 'A', "'|'": '|', '"a.b"': 'a.b', '"%s"': '%s', '"é"': 'é', 'b"\\xff"': b'\xff',
    '[' + '1, '*2000 + ']': [1]*2000, '"' + 'x'*9999 + '"': 'x'*9999, '12345678901234567890': 12345678901234567890,
    '{"a": {"b": [1, (2, {3})]}}': {'a': {'b': [1, (2, {3})]}}, '"""a"""': 'a', '{"a": 1, "b": 2}': {'a': 1, 'b': 2},
    '1 # c': 1, '1\n': 1, '\n1': 1, '(1,\n2)': (1, 2), '...': ..., '1+2j': 1+2j, '-1+2j': -1+2j, '+1j': 1j, '0o17': 15,
    '00': 0, '0_0': 0, '1.': 1.0, '1J': 1j, '1E5': 1e5, '(\n1\n)': 1, '-0': 0, '-(1)': -1, '{1: 1, 1: 2}': {1: 2},
    'None,': (None,), '(None)': None, '[...]': [...], "'\\x41'": 'A', 'B"x"': b'x', '"a" # x': 'a', '1\r\n': 1,
}
NOT = [
    '', ' ', 'abc', 'a b', 'a.b', 'x', 'f()', '1 + 1', '1+1', '2 * 3', '-x', 'not True', '1 == 1',
    'nan', 'inf', 'null', 'true', 'none', '01', '1 2', '"open', "it's", '(', ')', '[1', '{', '}{',
    '-"a"', '"a" + "b"', '"%s" % 1', '"a".upper()', '(1).real', '1 if 1 else 2', 'lambda: 1',
    'f"{1}"', '[*(1, 2)]', '{**{}}', '[i for i in (1, 2)]', '1 or 2', '1 < 2', '~1', '[1][0]',
    'a=b', 'b=c=d', '=', '==', 'a:', ':', '->', '-', '>', ',', '#', '# c', 'é', '1é', '\ud800',
    'a\0b', '1;2', 'pass', 'import os', 'x = 1', '(yield)', '[' * 300, 'del x', 'datetime.date(2020, 1, 1)',
    'dict()', 'list()', 'int("1")', 'frozenset()', '(1 + 2)', '[1 + 2]', '{"a": x}', '{x}', '(x,)', '%s', '$x', '1a',
    # tripwires: TRIP is a builtin whose every use is recorded
    'TRIP', 'TRIP()', 'TRIP.a', 'TRIP + 1', '1 + TRIP', '-TRIP', 'not TRIP', 'TRIP[0]', '[TRIP]', '(TRIP, 1)',
    '{TRIP}', '{1: TRIP}', '{TRIP: 1}', '[TRIP()]', 'f"{TRIP}"', 'f"{TRIP()}"', '[TRIP() for _ in (1,)]',
    '(lambda: TRIP())()', 'TRIP if 1 else 0', 'TRIP and 1', '(T := TRIP)', '"%s" % TRIP', '*TRIP', '[*TRIP]',
    '{**TRIP}', 'TRIP == 1', 'TRIP @ 1', '1 in TRIP', 'getattr(TRIP, "x")', 'str(TRIP)', 'TRIP.a.b()',
    '__import__("TRIP_module")', '"{0.a}".format(TRIP)', 'await TRIP', 'TRIP(1)(2)', '(1).__class__', '().__class__.__base__',
    'True.real', '"".join([])', 'set([1])',
    '-'*5000 + '1', '1+'*3000 + '1', '('*5000, 'x'*9999, '\uff11', '1_', '1__0', '-True', '- -1', 'b"é"', '"\\x"',
    '"\\N{NOSUCH}"', '__debug__', '{1, *()}', 'b"a" "b"', 'a|b', 'a||b', '1|2', 'a+b', 'a*b', '.', '*', '+', '|',
    '\\', '^', '$', 'A=1', 'NONE', 'TRUE', '9'*5000, '{}{}', '%', '1:2', 'a->b->c', '=1', '1=', 'a\tb', 'a\nb', '\n',
    '1;', '--1', '1if 1else 2', '1\\\n', '\ufeff1', '\xa01', '1\xa0', '\u20031', 'Ellipsis', '+"a"', '1+1j+1', 'ur"x"',
    '"a"f"b"', '0777', '1e', '{1: 1, **{}}', '1 1', '"a" 1', '(1', '1)', 'None None', '0xg', '1__', 'TRIP # 1', '1 # c\nTRIP',
    'True+1j', 'a\r\n', 'print(TRIP)', '@TRIP', 'TRIP: 1', 'global TRIP', 'from TRIP import x',
]
# texts arising from splitting inside a fragment
SPLITS = {'b', 'a', 'c', 'd', '"x', 'y"', '"', "'", '"a', 'x ', 'TRIP ', "'x", '(T :', '{1'}


class Obj:
    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return f'<{self.n}>'


OBJS = {'int': 5, 'none': None, 'bytes': b'1', 'list': ['1', 2], 'tuple': ('1', '2'), 'float': 2.5,
        'dict': {'1': '2'}, 'obj': Obj('o'), 'true': True, 'bytearray': bytearray(b'2')}
HASHABLE = ('int', 'none', 'bytes', 'tuple', 'float', 'obj', 'true')

trips = []


class Trip:
    def _t(self, what):
        trips.append(what)

    def __call__(self, *a, **k):
        self._t('called')
        return 1

    def __getattr__(self, n):
        if n.startswith('__') and n.endswith('__'):
            raise AttributeError(n)
        self._t('getattr ' + n)
        return self

    def __getitem__(self, i):
        self._t('getitem')
        raise IndexError

    def __iter__(self):
        self._t('iter')
        return iter(())

    def __contains__(self, x):
        self._t('contains')
        return True

    def keys(self):
        self._t('keys')
        return []

    def __bool__(self):
        self._t('bool')
        return True

    def __eq__(self, o):
        self._t('eq')
        return True

    def __hash__(self):
        self._t('hash')
        return 1

    def __str__(self):
        self._t('str')
        return 'trip'

    __repr__ = __str__

    def __format__(self, f):
        self._t('format')
        return 'trip'

    def _op(self, *a):
        self._t('operator')
        return 1

    __add__ = __radd__ = __neg__ = __mod__ = __rmod__ = __matmul__ = __or__ = _op


class Boom(Exception):
    pass


PARSE_CALLS = []


def p_tag(x):
    PARSE_CALLS.append(x)
    return ('P', x)


def p_boom(x):
    PARSE_CALLS.append(x)
    raise Boom(x)


def p_value(x):
    PARSE_CALLS.append(x)
    raise ValueError(x)


def p_key(x):
    PARSE_CALLS.append(x)
    raise KeyError(x)


def p_int(x):
    PARSE_CALLS.append(x)
    return int(x)


def p_attr(x):
    PARSE_CALLS.append(x)
    raise AttributeError('items')


def p_none(x):
    PARSE_CALLS.append(x)
    return None


PARSERS = {'default': None, 'tag': p_tag, 'boom': p_boom, 'valueerror': p_value, 'keyerror': p_key,
           'int': p_int, 'attr': p_attr, 'none': p_none}


def denote(x, parser):
    if not isinstance(x, str):
        return x
    if parser == 'default':
        if x in LIT:
            return LIT[x]
        return x
    if parser == 'tag':
        return ('P', x)
    if parser == 'none':
        return None
    if parser == 'int':
        t = x.strip()
        sign = t[1:] if t[:1] in ('-', '+') else t
        if sign and all(c in '0123456789_' for c in sign) and '__' not in sign \
                and not sign.startswith('_') and not sign.endswith('_'):
            v = 0
            for c in sign:
                if c != '_':
                    v = v * 10 + ord(c) - 48
            return -v if t[0] == '-' else v
        return x
    return x


def frag(f):
    if isinstance(f, tuple):
        return OBJS[f[1]]
    return f


class OwnMap(collections.abc.Mapping):
    def __init__(self, d):
        self.d = d

    def __getitem__(self, k):
        return self.d[k]

    def __iter__(self):
        return iter(self.d)

    def __len__(self):
        return len(self.d)


class DuckMap:
    """a mapping by its methods only (like email.message.Message)"""

    def __init__(self, d):
        self.d = d

    def __getitem__(self, k):
        return self.d[k]

    def __iter__(self):
        return iter(self.d)

    def __len__(self):
        return len(self.d)

    def __contains__(self, k):
        return k in self.d

    def keys(self):
        return self.d.keys()

    def values(self):
        return self.d.values()

    def items(self):
        return list(self.d.items())

    def get(self, k, default=None):
        return self.d.get(k, default)


class Str(str):
    """a text of a user's own type"""


def own(x):
    return Str(x) if type(x) is str else x


SUBFORMS = {'subpairs': 'pairs', 'subdict': 'dict', 'subgen': 'gen'}


def build(form, sep, pairs):
    """-> (items object, list of raw pairs the items describe)"""
    ps = [(frag(k), frag(v)) for k, v in pairs]
    if form == 'subjoined':
        out, raw = build('joined', sep, pairs)
        return [Str(x) for x in out], raw
    if form in SUBFORMS:
        form = SUBFORMS[form]
        ps = [(own(k), own(v)) for k, v in ps]
    if form == 'pairs':
        return ps, ps
    if form == 'lists':
        return [list(p) for p in ps], ps
    if form == 'gen':
        return (p for p in ps), ps
    if form == 'tuple':
        return tuple(ps), ps
    if form == 'items':
        return dict(ps).items(), list(dict(ps).items())
    if form == 'dict':
        d = dict(ps)
        return d, list(d.items())
    if form == 'odict':
        d = collections.OrderedDict(ps)
        return d, list(d.items())
    if form == 'proxy':
        d = dict(ps)
        return types.MappingProxyType(d), list(d.items())
    if form == 'ownmap':
        d = dict(ps)
        return OwnMap(d), list(d.items())
    if form == 'duckmap':
        d = dict(ps)
        return DuckMap(d), list(d.items())
    if form in ('joined', 'joinedgen', 'mixed'):
        out, raw = [], []
        for i, (k, v) in enumerate(ps):
            if form == 'mixed' and i % 2:
                out.append((k, v))
                raw.append((k, v))
                continue
            text = k + sep + v
            p = 0
            while text[p:p + len(sep)] != sep:
                p += 1
            out.append(text)
            raw.append((text[:p], text[p + len(sep):]))
        if form == 'joinedgen':
            return iter(out), raw
        return out, raw
    raise AssertionError(form)


def same(a, b):
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        # the order of the entries is not judged
        keys = {k: k for k in b}
        return len(a) == len(b) and all(
            k in keys and same(k, keys[k]) and same(v, b[k]) for k, v in a.items())
    return a == b


KNOWN = None


def known(text):
    """Is the denotation of this text written down?"""
    global KNOWN
    if KNOWN is None:
        KNOWN = set(LIT) | set(NOT) | SPLITS
    return text in KNOWN


def bare_rest(t, sep):
    # 'b<sep>...', '=...' etc.: an assignment/comparison/juxtaposition with the bare word b
    return t.startswith('b' + sep)


def run(m, spec):
    form, sep, parse_keys, parser, pairs = spec
    items, raw = build(form, sep, pairs)
    want = {}
    unhashable = False
    expect_err = None
    for k, v in raw:
        if parser == 'default':
            for x in (k, v):
                if isinstance(x, str) and not known(x) and not bare_rest(x, sep):
                    return 'skip', None
        kk = denote(k, parser) if parse_keys else k
        try:
            hash(kk)
        except TypeError:
            unhashable = True
            kk = k
        want[kk] = denote(v, parser)
    del trips[:]
    del PARSE_CALLS[:]
    kw = {}
    if sep != '=' or len(pairs) % 2:
        kw['sep'] = sep
    if parser != 'default':
        kw['parse'] = PARSERS[parser]
    if not parse_keys or len(pairs) % 2:
        kw['parse_keys'] = parse_keys
    try:
        got = m.parse_to_dict(items, **kw)
    except TypeError as e:
        if unhashable:
            return 'unhashable', None
        return 'bad', f'raised {e!r}'
    except BaseException as e:  # noqa
        return 'bad', f'raised {e!r}'
    if trips:
        return 'bad', f'input was evaluated: {trips[:5]}'
    if type(got) is not dict or not same(got, want):
        return 'bad', f'returned {got!r}, expected {want!r}'
    if parser != 'default':
        n = sum(isinstance(v, str) for _, v in raw)
        if parse_keys:
            n += sum(isinstance(k, str) for k, _ in raw)
        if len(PARSE_CALLS) != n:
            return 'bad', f'parser called {len(PARSE_CALLS)} times for {n} strings: {PARSE_CALLS!r}'
    return 'ok', None


def run_nosep(m, spec):
    _, sep, items, kind = spec
    src = {'list': list, 'tuple': tuple, 'gen': lambda x: (i for i in x)}[kind](items)
    try:
        got = m.parse_to_dict(src, sep=sep)
    except ValueError:
        return None
    except BaseException as e:  # noqa
        return f'raised {e!r} instead of ValueError'
    return f'returned {got!r} instead of raising ValueError'


def custom_job(prop, specs):
    builtins.TRIP = Trip()
    m = explore.fresh('aiuti.parsing')
    st = explore.Stats()
    try:
        for spec in specs:
            st.executions += 1
            st.nodes += 1
            if spec[0] == 'nosep':
                st.steps += len(spec[2])
                msg = run_nosep(m, spec)
                st.extra['nosep'] = st.extra.get('nosep', 0) + 1
            else:
                st.steps += max(1, len(spec[4]))
                how, msg = run(m, spec)
                st.extra[how] = st.extra.get(how, 0) + 1
            if len(st.outcomes) < 3000:
                st.outcomes.add(explore._h((spec[0], spec[-1])))
            if msg:
                st.violations.append((spec, None, [msg], None))
                if len(st.violations) > 3:
                    break
        st.samples.append({'scenario': specs[0]})
    finally:
        del builtins.TRIP
    return st, [], False


def replay(spec):
    builtins.TRIP = Trip()
    m = explore.fresh('aiuti.parsing')
    msg = run_nosep(m, spec) if spec[0] == 'nosep' else run(m, spec)[1]
    return [msg] if msg else []


SEPS = ('=', ':', '==', '->', ' ', 'x', 'é=', '|', '.', '+', '*', '||', '\\', '[', '^', '$', '=>', '\t', '\n', 'A', '%s', '{}')
ALLFORMS = ('pairs', 'lists', 'gen', 'tuple', 'items', 'dict', 'odict', 'proxy', 'ownmap', 'duckmap', 'subpairs', 'subdict', 'subgen')
STRFORMS = ('joined', 'joinedgen', 'subjoined')


def joinable(pairs, form='joined'):
    for i, (k, v) in enumerate(pairs):
        if form == 'mixed' and i % 2:
            continue
        if not isinstance(k, str) or not isinstance(v, str):
            return False
    return True


def groups(prop, tier):
    thorough = tier == 'thorough'
    texts = list(LIT) + NOT

    def single():
        for k in texts:
            for v in texts:
                yield ('pairs', '=', True, 'default', ((k, v),))
                yield ('joined', '=', True, 'default', ((k, v),))
        for pk in (True, False):
            for k in ('a', '1', '"b"', 'TRIP', ' 1', '', 'a=b', '"x=y"', "'x:y'"):
                for v in texts:
                    for form in ALLFORMS:
                        yield (form, '=', pk, 'default', ((k, v),))
                    for sep in SEPS:
                        for form in STRFORMS:
                            yield (form, sep, pk, 'default', ((k, v),))
                            yield (form, sep, pk, 'default', ((v, k),))
        for pk in (True, False):
            for o in OBJS:
                for v in ('1', 'a', '"b"', '1+1', 'TRIP()'):
                    for form in ALLFORMS:
                        if o in HASHABLE:
                            yield (form, '=', pk, 'default', ((('obj', o), v),))
                        yield (form, '=', pk, 'default', ((v, ('obj', o)),))

    def parsers():
        fr = ['1', 'a', '', '"b"', '-12', 'a=b', ' 7 ', '1.5']
        for p in PARSERS:
            if p == 'default':
                continue
            for pk in (True, False):
                for k1, v1 in itertools.product(fr, fr):
                    for form in ('pairs', 'dict', 'joined', 'gen', 'subpairs', 'subjoined'):
                        yield (form, '=', pk, p, ((k1, v1),))
                    for k2, v2 in (('1', '2'), ('z', 'q'), (k1, '5')):
                        yield ('pairs', '=', pk, p, ((k1, v1), (k2, v2)))
                        yield ('mixed', '=', pk, p, ((k1, v1), (k2, v2)))
                for o in OBJS:
                    yield ('pairs', '=', pk, p, (('k', ('obj', o)),))
                    yield ('dict', '=', pk, p, (('k', ('obj', o)), ('j', '1')))

    def multi():
        f2 = ['1', 'a', '"a"', '"1"', ' 1', 'True', 'a=b', '', '(1, 2)', 'TRIP()', '1.5', '[1, "x"]']
        forms2 = ('pairs', 'dict', 'joined', 'mixed')
        for a in itertools.product(f2, repeat=4):
            ps = ((a[0], a[1]), (a[2], a[3]))
            for form in forms2:
                yield (form, '=', True, 'default', ps)
            yield ('joined', '->', False, 'default', ps)
            yield ('dict', '=', False, 'default', ps)
        f3 = ['1', 'a', '"1"', '"a=b"' if False else 'a=b', 'None']
        for a in itertools.product(f3, repeat=6):
            ps = (a[0:2], a[2:4], a[4:6])
            for form in ('pairs', 'joined', 'dict', 'mixed'):
                yield (form, '=', True, 'default', ps)
            if thorough:
                for form in ('gen', 'lists', 'ownmap', 'joinedgen'):
                    yield (form, ':', False, 'default', ps)
        f4 = ['1', 'a', '"1"']
        for a in itertools.product(f4, repeat=8):
            ps = (a[0:2], a[2:4], a[4:6], a[6:8])
            for form in ('pairs', 'joined', 'dict', 'mixed') if thorough else ('joined', 'dict'):
                yield (form, '=', True, 'default', ps)
        for form in ALLFORMS + STRFORMS:
            for sep in SEPS:
                for pk in (True, False):
                    yield (form, sep, pk, 'default', ())

    def ok(spec):
        form, sep, pk, p, ps = spec
        if form in STRFORMS + ('mixed',):
            return joinable(ps, form)
        if form in ('dict', 'odict', 'proxy', 'ownmap', 'duckmap', 'items', 'subdict'):
            for k, _ in ps:
                if isinstance(k, tuple) and k[1] not in HASHABLE:
                    return False
        return True

    def nosep():
        good = {s: 'k' + s + '1' for s in SEPS}
        for sep in SEPS:
            bads = [t for t in texts if sep not in t]
            for b in bads:
                for kind in ('list', 'tuple', 'gen'):
                    yield ('nosep', sep, (b,), kind)
                yield ('nosep', sep, (good[sep], b), 'list')
                yield ('nosep', sep, (b, good[sep]), 'list')
                yield ('nosep', sep, (good[sep], b, good[sep]), 'list')

    def flt(g):
        return lambda: (s for s in g() if ok(s))
    return [
        Group('one pair, every fragment x form x separator', flt(single), 'custom', chunk=2000),
        Group('custom parsers', flt(parsers), 'custom', chunk=1000),
        Group('lists of 0..4 pairs', flt(multi), 'custom', chunk=2000),
        Group('items without separator', nosep, 'custom', chunk=1000),
    ]
