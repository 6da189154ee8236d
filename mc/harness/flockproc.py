"""
C13 (and the fork group of C02): FileLock in real processes that are killed
with SIGKILL at every line (thorough: every bytecode) they execute inside
FileLock.

A fresh interpreter without the virtual runtime acts as a fork server
(flockserver.py); every scenario is a small script over real processes.

  spec: ('c', objs-kwargs, program, mode, granularity, presetup)
  spec: ('f', kw, depth, how, childops)        C02, fork while holding
  spec: ('g', kw, depth, how, nchildren, mode, pre)     C13, holder dies, forked child lives
  spec: ('h', kw, pre, n, first, names)        C02, sequences of a process and its child
  spec: ('x', kw, depth, how, start, when, mode)        C13, holder dies, a program it started lives
  spec: ('p', kw, program, gran, second, k, step)       C13, two crashes
"""
import itertools
import json
import os
import select
import subprocess
import sys

from .. import explore
from ..check import Group

LEVEL = {'C13': 'fault_enumeration'}
RULE = {'C13': 'one evaluation per (victim program, crash point, contenders): the victim process is killed with '
               'SIGKILL at that line/bytecode of FileLock; crash points are all line events of the program'}
ASSUMPTIONS = {'C13': ['processes die as a whole (SIGKILL); the kernel and the file system survive',
                       '"promptly" is judged with a 20 s limit of real time',
                       'a process is not forked while another of its threads is inside acquire()']}

_server = None


def _start():
    global _server
    if _server is not None and _server[0] == os.getpid() and _server[1].poll() is None:
        return _server[1]
    env = dict(os.environ)
    verif = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    env['PYTHONPATH'] = verif
    p = subprocess.Popen([sys.executable, '-m', 'mc.harness.flockserver'], stdin=subprocess.PIPE,
                         stdout=subprocess.PIPE, env=env, cwd=verif, bufsize=0)
    _server = (os.getpid(), p)
    return p


def ask(spec):
    p = _start()
    p.stdin.write((json.dumps(spec) + '\n').encode())
    buf = b''
    while not buf.endswith(b'\n'):
        r, _, _ = select.select([p.stdout], [], [], 230)
        if not r:
            p.kill()
            raise explore.vrt.EngineError(f'fork server does not answer: {spec}')
        c = os.read(p.stdout.fileno(), 1 << 16)
        if not c:
            raise explore.vrt.EngineError(f'fork server died: {spec}')
        buf += c
    return json.loads(buf)


def job(specs):
    st = explore.Stats()
    for spec in specs:
        res = ask(spec)
        if res.get('error'):
            raise explore.vrt.EngineError(res['error'])
        if res['bad']:
            again = ask(spec)
            if not again['bad']:
                st.unreproduced.append((spec, b'', res['bad'], []))
            else:
                st.violations.append((spec, None, again['bad'], None))
        st.executions += res['runs']
        st.nodes += res['points']
        st.steps += res['ops']
        st.extra['processes killed'] = st.extra.get('processes killed', 0) + res['kills']
        st.extra['crash points'] = st.extra.get('crash points', 0) + res['points']
        st.extra.setdefault('nontrivial', set()).update(res['nontrivial'])
        st.outcomes.update(explore._h((spec, o)) for o in res['outcomes'])
        st.samples.append({'scenario': spec, 'crash points': res['points'],
                           'outcomes': res['outcomes'][:4]})
        if st.violations:
            break
    return st, [], False


def custom_job(prop, specs):
    return job(specs)


def replay(spec):
    return ask(spec)['bad']


def prepare():
    import tempfile
    os.environ['MC_SCRATCH'] = tempfile.mkdtemp(
        prefix='mc-flock-', dir='/dev/shm' if os.access('/dev/shm', os.W_OK) else None)


def finish():
    import shutil
    root = os.environ.get('MC_SCRATCH')
    if root and 'mc-flock-' in root:
        shutil.rmtree(root, ignore_errors=True)


# programs: sequences of operations of the victim on its objects 0, 1
PROGRAMS = {
    'bl-rl': (('bl', 0), ('rl', 0)),
    'nb-rl': (('nb', 0), ('rl', 0)),
    'tm-rl': (('tm', 0), ('rl', 0)),
    'with': (('wi', 0), ('xc', 0)),
    'ctx': (('cx', 0), ('xc', 0)),
    'force': (('bl', 0), ('rf', 0)),
    'again': (('bl', 0), ('rl', 0), ('tm', 0), ('rl', 0)),
    'fail': (('bl', 0), ('nb', 1), ('tm', 1), ('rl', 0), ('bl', 1), ('rl', 1)),
    'del': (('bl', 0), ('dl', 0)),
}
NESTED = {
    'nested': (('bl', 0), ('nb', 0), ('rl', 0), ('rl', 0)),
    'nested-with': (('wi', 0), ('wi', 0), ('xc', 0), ('xc', 0)),
    'nested-force': (('bl', 0), ('bl', 0), ('rf', 0)),
}
MODES = ('fresh', 'wait-b', 'wait-t', 'wait-2')


def fork_specs(th):
    def specs():
        ops = ('rl', 'rf', 'nb', 'bt', 'new', 'dl', 'wx')
        for kw in ({}, {'reentrant': True}):
            for depth in (1, 2) if kw else (1,):
                for how in ('bl', 'wi', 'cx'):
                    for n in (0, 1, 2, 3) if th else (0, 1, 2):
                        for seq in itertools.product(ops, repeat=n):
                            for end in ('exit', '_exit', 'late'):
                                if n == 2 and not th and end == 'exit':
                                    continue
                                yield ['f', kw, depth, how, list(seq) + [end]]
    return specs


def pause_specs(th):
    def specs():
        for kw in ({}, {'reentrant': True}, {'timeout': 0.03}):
            progs = dict(PROGRAMS)
            if kw.get('reentrant'):
                progs.update(NESTED)
            for name, prog in progs.items():
                for idx in range(len(prog)):
                    for gran in ('line', 'instr') if th else ('line',):
                        yield ['m', kw, [list(p) for p in prog], idx, gran]
    return specs


def seq_specs(th):
    def specs():
        n, r = {}, {'reentrant': True}
        names = ['nb', 'cx', 'rl', 'rf', 'xc', 'dl'] + ['tm'] * th
        for kws, d in (([n, n], 4), ([r, n], 4), ([r, r], 4), ([n, n, n], 3 if not th else 4)):
            for first in range(len(names) * len(kws)):
                yield ['s', kws, d + (th and len(kws) == 2), first, names]
        for kws, d in (([n, n], 4), ([r, r], 3), ([r, n], 3)):
            for first in range(len(names) * len(kws)):
                yield ['s', kws, d, first, names + ['age']]
    return specs


def family_specs(th):
    def specs():
        names = ['nb', 'cx', 'rl', 'rf', 'xc', 'dl']
        for kw in ({}, {'reentrant': True}):
            for pre in (['nb', 'rl'], ['cx', 'xc'], ['nb', 'rf'], ['nb', 'nb', 'rl'], ['nb'], []):
                for first in range(2 * len(names)):
                    yield ['h', kw, pre, 5 if th else 4, first, names]
    return specs


def groups(prop, tier):
    th = tier == 'thorough'

    def crashes(gran):
        def specs():
            for kw in ({}, {'reentrant': True}, {'timeout': 5}):
                progs = dict(PROGRAMS)
                if kw.get('reentrant'):
                    progs.update(NESTED)
                for name, prog in progs.items():
                    for mode in MODES:
                        if kw.get('timeout') and mode != 'fresh':
                            continue
                        for pre in (('none', 'held') if mode == 'fresh' else ('none',)):
                            yield ['c', kw, [list(p) for p in prog], mode, gran, pre]
        return specs

    def double():
        for kw in ({}, {'reentrant': True}):
            for name in ('bl-rl', 'with', 'again') if th else ('with',):
                for second in ('hold', 'acq', 'rel'):
                    for k in range(8):
                        yield ['p', kw, [list(p) for p in PROGRAMS[name]], 'line', second, k, 8]

    def orphans():
        for kw in ({}, {'reentrant': True}):
            for depth in (1, 2) if kw else (1,):
                for how in ('bl', 'wi', 'tm', 'nb'):
                    for n in (1, 2):
                        for mode in ('fresh', 'wait-b', 'wait-t'):
                            for pre in ([], ['nb', 'rl'], ['cx', 'xc'], ['nb', 'rf']):
                                if pre and (n > 1 or depth > 1):
                                    continue
                                yield ['g', kw, depth, how, n, mode, pre]

    def programs():
        for kw in ({}, {'reentrant': True}):
            for depth in (1, 2) if kw else (1,):
                for how in ('bl', 'wi', 'tm', 'nb'):
                    for start in ('popen', 'spawnv', 'posix'):
                        for when in ('after', 'between', 'release'):
                            for mode in ('fresh', 'wait-b') if how == 'bl' else ('fresh',):
                                yield ['x', kw, depth, how, start, when, mode]

    def blocked():
        for kw in ({}, {'reentrant': True}):
            for op in ('bl', 'tm', 'wi'):
                for n in (1, 2, 3):
                    yield ['b', kw, op, n]
    out = [Group('holder killed, forked children alive', orphans, 'custom', chunk=2),
           Group('holder killed, programs it has started alive', programs, 'custom', chunk=4),
           Group('waiter killed while blocked', blocked, 'custom', chunk=2),
           Group('victim killed at every line', crashes('line'), 'custom', chunk=1),
           Group('two victims', double, 'custom', chunk=1)]
    if th:
        out.append(Group('victim killed at every bytecode', crashes('instr'), 'custom', chunk=1))
    return out
