#!/usr/bin/env python3
"""Mutation testing of the checks (development only): every small edit of the
sources which the existing tests accept is given to the checks of the
properties its function belongs to.

usage: mutate.py gen|tests|checks [-j N] [--only REGEX]   (state in $MUT, /tmp/mut)"""
import argparse
import ast
import concurrent.futures as cf
import json
import os
import re
import shutil
import subprocess
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MUT = os.environ.get('MUT', '/tmp/mut')
FILES = ['aiuti/asyncio.py', 'aiuti/filelock.py', 'aiuti/itertools.py', 'aiuti/parsing.py']

PROPS = [
    (r'asyncio:threadsafe_async_cache', 'C01 C05 C06 C14 C15'),
    (r'asyncio:(buffer_until_timeout|BufferAsyncCalls|_obj_to_aiter|_awaitable_to_aiter)', 'C03 C07 C08 C15'),
    (r'asyncio:(async_background_batcher|AsyncBackgroundBatcher|_wrap_stop)', 'C04 C09 C10 C11 C15'),
    (r'asyncio:(ensure_aw|loop_in_thread|_get_loop_lock|run_aw_threadsafe|_aw_to_outcome|_get_outcome)', 'C17 C05 C07'),
    (r'asyncio:(to_async_iter|to_sync_iter|_raise_exc_of)', 'C16'),
    (r'asyncio:(gather_excs|raise_first_exc)', 'C20'),
    (r'asyncio:DaemonTask', 'C04'),
    (r'asyncio:', 'C17 C03 C04 C16 C01'),
    (r'filelock:', 'C12 C02 C13'), (r'itertools:', 'C18'), (r'parsing:', 'C19'),
]


def seg(src, lines, n):
    return offs(lines, n.lineno, n.col_offset), offs(lines, n.end_lineno, n.end_col_offset)


def offs(lines, l, c):
    # col offsets are in utf8 bytes
    return sum(len(x) for x in lines[:l - 1]) + len(lines[l - 1].encode()[:c].decode())


CMP = {ast.Lt: ['<=', '>'], ast.LtE: ['<'], ast.Gt: ['>=', '<'], ast.GtE: ['>'], ast.Eq: ['!='], ast.NotEq: ['=='],
       ast.Is: ['is not'], ast.IsNot: ['is'], ast.In: ['not in'], ast.NotIn: ['in']}
CALLS = {'notify_all': ['notify'], 'call_soon_threadsafe': ['call_soon'], 'shield': [], 'set': ['clear'],
         'clear': ['set'], 'put_nowait': [], 'acquire': [], 'release': [], 'cancel': [], 'done': ['cancelled'],
         'cancelled': ['done'], 'is_closed': ['is_running'], 'is_running': ['is_closed'], 'append': [], 'pop': [],
         'islice': [], 'wait': []}


def mutants(file):
    src = open(os.path.join('/repo', file)).read()
    lines = src.splitlines(keepends=True)
    tree = ast.parse(src)
    mod = os.path.basename(file)[:-3]
    out = []

    def text(n):
        a, z = seg(src, lines, n)
        return src[a:z]

    def rep(n, new, what, where):
        a, z = seg(src, lines, n)
        if src[a:z] != new:
            out.append((file, mod + ':' + where, n.lineno, what, a, z, new))

    def body_indent(n):
        return ' ' * n.col_offset

    def reindent(stmts, col):
        """source of the statements, moved to the column"""
        a = offs(lines, stmts[0].lineno, 0)
        z = offs(lines, stmts[-1].end_lineno, stmts[-1].end_col_offset)
        t = src[a:z]
        d = stmts[0].col_offset
        ls = [(' ' * col + l[d:]) if l.strip() else l for l in t.split('\n')]
        return '\n'.join(ls)[col:]

    def visit(n, where, infunc):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            if any('overload' in ast.dump(d) for d in n.decorator_list):
                return
            w = (where + '.' if where else '') + n.name
            bases = [text(b) for b in n.bases] if isinstance(n, ast.ClassDef) else []
            if any('Protocol' in b for b in bases):
                return
            for c in n.body:
                visit(c, w, infunc or not isinstance(n, ast.ClassDef))
            blocks(n, w)
            return
        if isinstance(n, ast.AnnAssign):
            if n.value is not None:
                visit(n.value, where, infunc)
            return
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            return
        if isinstance(n, ast.If) and 'TYPE_CHECKING' in ast.dump(n.test):
            return
        # statements
        if infunc or where:
            if isinstance(n, ast.Expr) and not isinstance(n.value, ast.Constant):
                t = text(n)
                if not t.startswith('logger.'):
                    v = n.value
                    if isinstance(v, (ast.Yield, ast.YieldFrom)):
                        pass
                    else:
                        rep(n, 'pass', 'delete statement', where)
                else:
                    return
            if isinstance(n, (ast.AugAssign, ast.Delete, ast.Raise)):
                rep(n, 'pass', 'delete statement', where)
            if isinstance(n, ast.Assign) and not isinstance(n.targets[0], ast.Name):
                rep(n, 'pass', 'delete assignment', where)
            if isinstance(n, ast.Return) and n.value is not None:
                rep(n, 'return', 'return None', where)
                rep(n, text(n.value), 'no return', where)
            if isinstance(n, ast.Return) and n.value is None:
                rep(n, 'pass', 'no return', where)
            if isinstance(n, ast.Continue):
                rep(n, 'break', 'break', where)
                rep(n, 'pass', 'no continue', where)
            if isinstance(n, ast.Break):
                rep(n, 'continue', 'continue', where)
                rep(n, 'pass', 'no break', where)
            if isinstance(n, (ast.If, ast.While)):
                if not (isinstance(n.test, ast.Constant)):
                    rep(n.test, 'True', 'condition true', where)
                    rep(n.test, 'False', 'condition false', where)
            if isinstance(n, (ast.With, ast.AsyncWith)):
                rep(n, reindent(n.body, n.col_offset), 'without with', where)
            if isinstance(n, ast.Try) and not isinstance(n, getattr(ast, 'TryStar', ())):
                for h in n.handlers:
                    if h.type is not None:
                        t = text(h.type)
                        for new in {'BaseException': ['Exception'], 'Exception': ['BaseException', 'OSError']}.get(
                                t, ['BaseException', 'ZeroDivisionError']):
                            rep(h.type, new, 'except ' + new, where)
                if n.finalbody:
                    base = reindent(n.body, n.col_offset)
                    fin = reindent(n.finalbody, n.col_offset)
                    if not n.handlers and not n.orelse:
                        rep(n, base + '\n' + ' ' * n.col_offset + fin, 'finally only on success', where)
                    rep(n.finalbody[0], 'pass', 'first of finally', where) if len(n.finalbody) == 1 else None
        if isinstance(n, ast.Compare):
            for op in CMP[type(n.ops[0])]:
                if len(n.ops) == 1:
                    rep(n, f'{text(n.left)} {op} {text(n.comparators[0])}', 'compare ' + op, where)
        if isinstance(n, ast.BoolOp):
            for i, v in enumerate(n.values):
                rest = [('(' + text(x) + ')') for j, x in enumerate(n.values) if j != i]
                op = ' and ' if isinstance(n.op, ast.And) else ' or '
                rep(n, '(' + op.join(rest) + ')', f'drop operand {i}', where)
            o2 = ' or ' if isinstance(n.op, ast.And) else ' and '
            rep(n, '(' + o2.join('(' + text(x) + ')' for x in n.values) + ')', 'and/or', where)
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            rep(n, '(' + text(n.operand) + ')', 'drop not', where)
        if isinstance(n, ast.Constant) and not isinstance(n.value, (str, bytes)) and n.value is not None and n.value is not ...:
            if isinstance(n.value, bool):
                rep(n, str(not n.value), 'constant', where)
            else:
                for new in {0: ('1',), 1: ('0', '2')}.get(n.value, ('0', '1', repr(n.value * 2))):
                    rep(n, new, 'constant ' + new, where)
        if isinstance(n, ast.BinOp):
            for o, new in ((ast.Add, '-'), (ast.Sub, '+'), (ast.Mult, '+')):
                if isinstance(n.op, o):
                    rep(n, f'{text(n.left)} {new} {text(n.right)}', 'arithmetic', where)
        if isinstance(n, ast.IfExp):
            rep(n, '(' + text(n.body) + ')', 'ifexp', where)
            rep(n, '(' + text(n.orelse) + ')', 'ifexp', where)
        if isinstance(n, ast.Call):
            f = n.func.attr if isinstance(n.func, ast.Attribute) else getattr(n.func, 'id', '')
            if f in ('cast', 'TypeVar', 'overload', 'getLogger'):
                return
            for k in n.keywords:
                if k.arg:
                    a, z = seg(src, lines, k)
                    # drop the keyword argument
                    s = src[:a].rstrip()
                    if s.endswith(','):
                        out.append((file, mod + ':' + where, k.lineno, 'drop ' + k.arg, len(s) - 1, z, ''))
                    elif s.endswith('('):
                        out.append((file, mod + ':' + where, k.lineno, 'drop ' + k.arg, a, z, ''))
            for new in CALLS.get(f, []):
                if isinstance(n.func, ast.Attribute):
                    rep(n.func, text(n.func.value) + '.' + new, 'call ' + new, where)
            if len(n.args) >= 1 and not isinstance(n.args[0], ast.Starred) and f in (
                    'shield', 'list', 'tuple', 'set', 'dict', 'frozenset', 'iter', 'ensure_future', 'wrap_future', 'str',
                    'max', 'min', 'sorted', 'reversed', 'wait_for', 'abs', 'bool'):
                rep(n, '(' + text(n.args[0]) + ')', f'{f}(x) -> x', where)
            if len(n.args) >= 2:
                a0, a1 = n.args[0], n.args[1]
                if not isinstance(a0, ast.Starred) and not isinstance(a1, ast.Starred):
                    (a, z), (b, y) = seg(src, lines, a0), seg(src, lines, a1)
                    out.append((file, mod + ':' + where, n.lineno, 'swap arguments', a, y, src[b:y] + src[z:b] + src[a:z]))
        if isinstance(n, ast.Await):
            pass
        for c in ast.iter_child_nodes(n):
            visit(c, where, infunc)
        blocks(n, where)

    def blocks(n, where):
        for name in ('body', 'orelse', 'finalbody'):
            b = getattr(n, name, None)
            if isinstance(n, (ast.Module, ast.ClassDef)) or not isinstance(b, list):
                continue
            for x, y in zip(b, b[1:]):
                if any(isinstance(s, (ast.Return, ast.Raise, ast.FunctionDef, ast.AsyncFunctionDef, ast.Break,
                                      ast.Continue, ast.AnnAssign)) for s in (x, y)):
                    continue
                if isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant):
                    continue
                if x.lineno == y.lineno or any('logger.' in text(s)[:8] for s in (x, y)):
                    continue
                a, z = seg(src, lines, x)
                c, d = seg(src, lines, y)
                out.append((file, mod + ':' + where, x.lineno, 'swap statements', a, d, src[c:d] + src[z:c] + src[a:z]))

    for c in tree.body:
        visit(c, '', False)
    return src, out


def gen():
    res = []
    seen = set()
    for f in FILES:
        src, ms = mutants(f)
        for (file, where, line, what, a, z, new) in ms:
            t = src[:a] + new + src[z:]
            if t in seen or t == src:
                continue
            seen.add(t)
            try:
                if ast.dump(ast.parse(t)) == ast.dump(ast.parse(src)):
                    continue
                compile(t, file, 'exec')
            except SyntaxError:
                continue
            props = next(p for r, p in PROPS if re.match(r, where))
            res.append({'id': f'm{len(res):04}', 'file': file, 'where': where, 'line': line, 'what': what,
                        'old': src[a:z][:200], 'new': new[:200], 'a': a, 'z': z, 'full': new, 'props': props})
    json.dump(res, open(MUT + '/mutants.json', 'w'), indent=1)
    print(len(res))


def state():
    try:
        return json.load(open(MUT + '/state.json'))
    except FileNotFoundError:
        return {}


def write_copy(m, base):
    shutil.copytree(MUT + '/repo', base, symlinks=True, ignore=shutil.ignore_patterns('.git', '__pycache__'))
    p = os.path.join(base, m['file'])
    s = open(p).read()
    assert s[m['a']:m['z']].startswith(m['old'][:200])
    open(p, 'w').write(s[:m['a']] + m['full'] + s[m['z']:])


def run_group(cmd, cwd, env, t):
    p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                         start_new_session=True)
    try:
        out, _ = p.communicate(timeout=t)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        return 'timeout', ''
    finally:
        try:
            os.killpg(p.pid, 9)
        except ProcessLookupError:
            pass


def tests(m):
    base = f'{MUT}/t-{m["id"]}'
    write_copy(m, base)
    try:
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
        env.pop('PYTHONPATH', None)
        stable = json.load(open('/opt/vp/BASELINE.json'))['stable']
        rc, o = run_group(['/opt/venv/bin/python', '-m', 'pytest', '-v', '-p', 'no:cacheprovider',
                           '--timeout=30', '--timeout-method=thread', '-n', '1', '--max-worker-restart=0',
                           '--continue-on-collection-errors', f'--basetemp={base}-t'], base, env, 90)
        if rc == 'timeout':
            return 'killed timeout'
        mm = re.search(r'(\d+) passed', o)
        n = int(mm.group(1)) if mm else 0
        return 'survived' if n >= 42 else f'killed {n}'
    finally:
        shutil.rmtree(base, ignore_errors=True)
        shutil.rmtree(base + '-t', ignore_errors=True)


def checks(m):
    base = f'{MUT}/c-{m["id"]}'
    os.makedirs(base)
    write_copy(m, base + '/r')
    shutil.copytree(MUT + '/verif', base + '/v', symlinks=True,
                    ignore=shutil.ignore_patterns('.git', 'seeded', 'evidence', 'replays', '__pycache__'))
    res = []
    try:
        for p in m['props'].split():
            t = time.time()
            env = dict(os.environ, VERIF_REPO=base + '/r', VERIF_SEED='1', VERIF_TIER='quick')
            rc, o = run_group(['./check', p, '--tier', 'quick'], base + '/v', env, 900)
            res.append((p, rc, round(time.time() - t)))
            if rc == 1 and 'VIOLATION' in o:
                return f'caught {p} {res[-1][2]}s'
        return 'MISSED ' + str(res)
    finally:
        shutil.rmtree(base, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('what')
    ap.add_argument('-j', type=int, default=3)
    ap.add_argument('--only', default='')
    a = ap.parse_args()
    if a.what == 'gen':
        for n, s in (('repo', '/repo'), ('verif', HERE)):
            shutil.rmtree(f'{MUT}/{n}', ignore_errors=True)
            shutil.copytree(s, f'{MUT}/{n}', symlinks=True, ignore=shutil.ignore_patterns('.git', 'seeded'))
        return gen()
    ms = [m for m in json.load(open(MUT + '/mutants.json')) if re.search(a.only, m['where'] + ' ' + m['id'])]
    st = state()
    f = {'tests': tests, 'checks': checks}[a.what]
    if a.what == 'tests':
        ms = [m for m in ms if m['id'] not in st]
    else:
        ms = [m for m in ms if st.get(m['id'], {}).get('tests') == 'survived' and 'checks' not in st[m['id']]]
    print(len(ms), flush=True)
    with cf.ThreadPoolExecutor(a.j) as ex:
        futs = {ex.submit(f, m): m for m in ms}
        for x in cf.as_completed(futs):
            m = futs[x]
            try:
                r = x.result()
            except Exception as e:  # noqa
                r = 'error ' + repr(e)
            st.setdefault(m['id'], {})[a.what] = r
            tmp = MUT + '/state.json.tmp'
            json.dump(st, open(tmp, 'w'))
            os.replace(tmp, MUT + '/state.json')
            print(m['id'], m['where'], m['line'], m['what'], repr(m['old'][:60]), '->', repr(m['new'][:60]), r, flush=True)


if __name__ == '__main__':
    main()
