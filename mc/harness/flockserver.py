"""
Fork server for flockproc: real processes on the real FileLock, no virtual
runtime.  Reads one JSON scenario per line, answers one JSON line.
"""
import errno
import gc
import json
import os
import select
import signal
import sys
import tempfile
import time
import traceback

from .. import explore

LIMIT = 20.0
TOOL = 3


# seconds after which a process that was left behind ends
LIFE = 280


class Dead(Exception):
    pass


def load():
    sys.dont_write_bytecode = True
    f = explore._Finder()
    codes = []
    f.on_code = lambda code, fn: codes.append((code, fn))
    sys.meta_path.insert(0, f)
    try:
        import aiuti.filelock as m
    except Exception:  # noqa
        import types
        p = types.ModuleType('aiuti')
        p.__path__ = [os.path.join(explore.REPO, 'aiuti')]
        sys.modules['aiuti'] = p
        import aiuti.filelock as m
    if not m.__file__.startswith(explore.REPO):
        raise RuntimeError(m.__file__)
    import logging
    logging.disable(logging.CRITICAL)
    mon = sys.monitoring
    mon.use_tool_id(TOOL, 'crash')
    for code, fn in codes:
        if fn.endswith('filelock.py'):
            for c in explore.vrt._walk(code):
                if c.co_flags & 2:
                    CODES.append(c)
    return m


def die_with_parent(adopt=False):
    try:
        import ctypes
        ctypes.CDLL(None).prctl(1, signal.SIGKILL)
        if adopt:      # orphans become children of this process
            ctypes.CDLL(None).prctl(36, 1, 0, 0, 0)
    except Exception:  # noqa
        pass


CODES = []
M = None
DIR = None
NPATH = 0
STAT = {}


class Actor:
    """A process executing commands; the class runs on the server side."""

    def __init__(self, path, pre=None):
        """pre: pipes made in advance for a grandchild"""
        self.path = path
        self.dead = False
        STAT['procs'] = STAT.get('procs', 0) + 1
        if pre is None:
            cr, cw = os.pipe()
            rr, rw = os.pipe()
            pid = os.fork()
            if not pid:
                code = 0
                try:
                    die_with_parent()
                    signal.alarm(LIFE)
                    for a in LIVE:
                        a.shut()
                    os.close(cw)
                    os.close(rr)
                    child(cr, rw, path)
                except SystemExit:
                    pass
                except BaseException:  # noqa
                    traceback.print_exc()
                    code = 3
                finally:
                    os._exit(code)
            os.close(cr)
            os.close(rw)
            self.mine = True
            self.pid = pid
        else:
            cw, rr, pid = pre
            self.mine = False
            self.pid = pid
        self.cw, self.rr = cw, rr
        self.buf = b''
        LIVE.append(self)

    def shut(self):
        for fd in (self.cw, self.rr):
            try:
                os.close(fd)
            except OSError:
                pass

    def send(self, *cmd):
        STAT['ops'] += 1
        os.write(self.cw, (json.dumps(cmd) + '\n').encode())

    def recv(self, timeout=LIMIT):
        """-> answer, or None if there is none within the timeout"""
        end = time.monotonic() + timeout
        while b'\n' not in self.buf:
            left = end - time.monotonic()
            r, _, _ = select.select([self.rr], [], [], max(0, left))
            if not r:
                return None
            c = os.read(self.rr, 65536)
            if not c:
                self.dead = True
                raise Dead
            self.buf += c
        line, self.buf = self.buf.split(b'\n', 1)
        return json.loads(line)

    def do(self, *cmd):
        self.send(*cmd)
        r = self.recv()
        if r is None:
            raise TimeoutError(f'no answer to {cmd} within {LIMIT} s')
        return r

    def kill(self):
        STAT['kills'] += 1
        try:
            os.kill(self.pid, signal.SIGKILL)
        except OSError:
            pass
        if self.mine:
            os.waitpid(self.pid, 0)
        else:
            # not our child: gone when its end of the pipe is closed
            try:
                while self.recv() is not None:
                    pass
            except Dead:
                pass
            try:
                os.waitpid(self.pid, 0)      # inherited, if its parent has died
            except OSError:
                pass
        self.gone()

    def quit(self):
        """end by itself (os._exit)"""
        try:
            self.send('quit')
        except OSError:
            pass
        if self.mine:
            os.waitpid(self.pid, 0)
        self.gone()

    def gone(self):
        self.shut()
        if self in LIVE:
            LIVE.remove(self)


LIVE = []


# ---------------------------------------------------------------------------
# inside an actor

class Proc:
    def __init__(self, cr, rw, path):
        self.cr, self.rw, self.path = cr, rw, path
        self.objs = {}
        self.cms = []
        self.holding = 0
        self.count = 0
        self.stop_at = None
        self.buf = b''

    def say(self, x):
        os.write(self.rw, (json.dumps(x) + '\n').encode())

    def next(self):
        while b'\n' not in self.buf:
            c = os.read(self.cr, 65536)
            if not c:
                os._exit(0)
            self.buf += c
        line, self.buf = self.buf.split(b'\n', 1)
        return json.loads(line)

    def event(self, code, where):
        k = self.count
        self.count += 1
        if k == self.stop_at:
            self.say(['paused', k, self.holding, f'{code.co_name}:{where}'])
            while self.next()[0] != 'go':       # wait to be killed or continued
                pass

    def arm(self, k, gran):
        mon = sys.monitoring
        ev = mon.events.LINE if gran == 'line' else mon.events.INSTRUCTION
        self.stop_at = k
        self.count = 0
        mon.register_callback(TOOL, ev, self.event)
        for c in CODES:
            mon.set_local_events(TOOL, c, ev)

    def get(self, i, kw=None):
        o = self.objs.get(i)
        if o is None:
            o = self.objs[i] = M.FileLock(self.path, **(kw or {}))
        return o

    def op(self, name, i, kw):
        o = self.get(i, kw)
        r = None
        try:
            if name == 'bl':
                r = o.acquire()
            elif name == 'nb':
                r = o.acquire(blocking=False)
            elif name == 'tm':
                r = o.acquire(timeout=0.02, poll_interval=0.01)
            elif name == 'tl':
                r = o.acquire(timeout=LIMIT, poll_interval=0.01)
            elif name == 'wi':
                o.__enter__()
                self.cms.append(o)
                r = True
            elif name == 'cx':
                cm = o.acquire_ctx(blocking=False)
                cm.__enter__()
                self.cms.append(cm)
                r = True
            elif name == 'xc':
                self.holding = max(0, self.holding - 1)
                if self.cms:
                    self.cms.pop().__exit__(None, None, None)
                return 'done'
            elif name == 'rl':
                self.holding = max(0, self.holding - 1)
                o.release()
                return 'done'
            elif name == 'rf':
                self.holding = 0
                o.release(force=True)
                return 'done'
            elif name == 'dl':
                self.holding = 0
                del self.objs[i], o
                self.cms.clear()
                gc.collect()
                return 'done'
        except (OSError, RuntimeError) as e:
            return repr(e)
        if r is True:
            self.holding += 1
        return r


def child(cr, rw, path):
    p = Proc(cr, rw, path)
    serve(p)


def serve(p):
    while True:
        cmd = p.next()
        what = cmd[0]
        if what == 'quit':
            os._exit(0)
        elif what == 'sysexit':
            sys.exit(0)
        elif what == 'op':
            p.say(p.op(*cmd[1:]))
        elif what == 'path':
            p.cms.clear()
            p.objs.clear()
            p.holding = 0
            p.path = cmd[1]
            p.say('ok')
        elif what == 'arm':
            p.arm(cmd[1], cmd[2])
            p.say('ok')
        elif what == 'prog':
            for name, i in cmd[1]:
                p.op(name, i, cmd[2])
            p.say(['end', p.count, p.holding])
        elif what == 'fork':
            fork_child(p, cmd[1])
        elif what == 'spawn':
            p.say(spawn(cmd[1]))
        elif what == 'held-exit':
            # acquire in a with statement, fork inside it; the child leaves
            # the with statement normally
            with p.get(0, cmd[1]):
                if not fork_child(p, cmd[2], inner=True):
                    serve(p)
        else:
            raise RuntimeError(what)


def spawn(how):
    """Start another program which inherits whatever is inheritable."""
    argv = ['sleep', '60']
    if how == 'popen':
        import subprocess
        return subprocess.Popen(argv, close_fds=False).pid
    if how == 'spawnv':
        return os.spawnvp(os.P_NOWAIT, argv[0], argv)
    return os.posix_spawnp(argv[0], argv, os.environ)


def fork_child(p, ppath, inner=False):
    """Fork; the child serves commands from fifos at `ppath`."""
    pid = os.fork()
    if pid:
        p.say(pid)
        return False
    signal.alarm(LIFE)
    os.close(p.cr)
    os.close(p.rw)
    p.cr = os.open(ppath + '.c', os.O_RDONLY)
    p.rw = os.open(ppath + '.r', os.O_WRONLY)
    p.buf = b''
    p.holding = 0
    if inner:
        # serve until told to leave the with statement
        while True:
            cmd = p.next()
            if cmd[0] == 'leave':
                p.cms.clear()
                return True
            if cmd[0] == 'quit':
                os._exit(0)
            if cmd[0] == 'sysexit':
                sys.exit(0)
            p.say(p.op(*cmd[1:]))
    try:
        serve(p)
    finally:
        pass


# ---------------------------------------------------------------------------
# scenarios, on the server

def newpath():
    global NPATH
    NPATH += 1
    return os.path.join(DIR, f'k{NPATH}')


def cleanup():
    for a in list(LIVE):
        a.kill()
    try:
        while os.waitpid(-1, os.WNOHANG)[0]:
            pass
    except OSError:
        pass
    try:
        names = os.listdir(DIR)
    except FileNotFoundError:
        os._exit(0)       # the check is over
    for f in names:
        try:
            os.unlink(os.path.join(DIR, f))
        except OSError:
            pass


def age(path):
    """make the lock file look very old: that does not make the lock free"""
    try:
        os.utime(path, (0, 0))
    except OSError:
        pass


def probe(path, kw=None):
    """a fresh process tries once"""
    a = Actor(path)
    r = a.do('op', 'nb', 0, kw or {})
    a.quit()
    return r


def contend(path, mode, kw):
    """contenders that are already waiting -> list of actors"""
    out = []
    if mode == 'fresh':
        return out
    n = 2 if mode == 'wait-2' else 1
    for _ in range(n):
        a = Actor(path)
        a.first = a.do('op', 'nb', 0, kw)
        a.got = a.first is True
        if not a.got:
            a.send('op', 'tl' if mode == 'wait-t' else 'bl', 0, kw)
        out.append(a)
    return out


def survivors(path, cont, kw, bad, what):
    """after the death: everybody gets the lock, one at a time"""
    wait = list(cont)
    order = []
    while wait:
        got = [a for a in wait if a.got]
        if not got:
            r, _, _ = select.select([a.rr for a in wait], [], [], LIMIT)
            if not r:
                bad.append(f'{what}: no waiting process acquired the lock within {LIMIT} s')
                return
            a = next(a for a in wait if a.rr in r)
            res = a.recv()
            if res is not True:
                bad.append(f'{what}: a waiting process got {res!r}')
                return
            a.got = True
            got = [a]
        if len(got) > 1:
            bad.append(f'{what}: {len(got)} survivors hold the lock')
            return
        a = got[0]
        others = [b for b in wait if b is not a]
        if len(wait) % 2:
            age(path)
        if probe(path, kw) is not False:
            bad.append(f'{what}: a fresh process acquired the lock which a survivor holds')
        if others:
            r, _, _ = select.select([b.rr for b in others], [], [], 0.01)
            if r:
                bad.append(f'{what}: two survivors hold the lock')
                return
        a.do('op', 'rl', 0, kw)
        order.append(cont.index(a))
        wait.remove(a)
    f = Actor(path)
    t0 = time.monotonic()
    r = f.do('op', 'tl', 0, kw)
    if r is not True:
        bad.append(f'{what}: a fresh process cannot acquire the lock ({r!r} after {time.monotonic() - t0:.2f} s)')
    elif probe(path, kw) is not False:
        bad.append(f'{what}: a second fresh process acquired the lock as well')
    f.kill()      # a survivor that dies holding it
    if probe(path, kw) is not True:
        f = Actor(path)
        if f.do('op', 'tl', 0, kw) is not True:
            bad.append(f'{what}: the lock is stuck after a second crash')
    return order


def run_crash(spec, out):
    _, kw, prog, mode, gran, pre = spec
    bad = out['bad']
    k = 0
    while True:
        path = newpath()
        holder = None
        if pre == 'held':
            with open(path, 'w') as f:
                f.write('stale contents\n')
            holder = Actor(path)
            if holder.do('op', 'nb', 0, {}) is not True:
                bad.append('cannot acquire a fresh lock file')
                return
            prog2 = [['tm', 0], ['nb', 0], ['tm', 1]]
        else:
            prog2 = prog
        v = Actor(path)
        v.do('arm', k, gran)
        v.send('prog', prog2, kw)
        r = v.recv()
        if r is None:
            raise RuntimeError(f'victim does not pause {spec} at {k}')
        if r[0] == 'end':
            cleanup()
            out['points'] += k
            return
        out['runs'] += 1
        _, _, holding, where = r
        what = f'victim {prog2} killed at {where} (event {k}), holding={holding}'
        cont = contend(path, mode, kw)
        if holding > 0 and any(a.got for a in cont):
            bad.append(f'{what}: another process acquired the lock before the death')
        got = sum(a.got for a in cont)
        v.kill()
        if holder is not None:
            if probe(path, kw) is not False:
                bad.append(f'{what}: the lock of a live holder was lost')
            holder.do('op', 'rl', 0, {})
        order = survivors(path, cont, kw, bad, what)
        out['outcomes'].append(f'{where} holding={holding} contender already in={got} order={order}')
        if holding or got:
            out['nontrivial'].append(f'{spec} {k}')
        cleanup()
        if bad:
            return
        k += 1


def run_double(spec, out):
    """the victim dies at event k, the next holder dies at its event j"""
    _, kw, prog, gran, second, k, step = spec
    bad = out['bad']
    while True:
        j = 0
        ended = False
        while True:
            path = newpath()
            v = Actor(path)
            v.do('arm', k, gran)
            v.send('prog', prog, kw)
            r = v.recv()
            if r is None or r[0] == 'end':
                ended = True
                break
            _, _, holding, where = r
            w = Actor(path)
            if second == 'rel':
                v.kill()
                w.do('op', 'tl', 0, kw)
                w.do('arm', j, gran)
                w.send('prog', [['rl', 0]], kw)
                r2 = w.recv()
            elif second == 'acq':
                w.do('arm', j, gran)
                w.send('prog', [['tm', 0]], kw)
                r2 = w.recv()
                v.kill()
            else:
                v.kill()
                w.do('op', 'tl', 0, kw)
                r2 = ['paused', 0, 1, 'holding'] if j == 0 else ['end']
            if r2 is None:
                raise RuntimeError('second victim stuck')
            if r2[0] == 'end':
                out['points'] += j
                cleanup()
                break
            out['runs'] += 1
            what = f'first victim killed at {where}, second at {r2[3]} of {second}'
            cont = contend(path, 'wait-b', kw)
            w.kill()
            order = survivors(path, cont, kw, bad, what)
            out['outcomes'].append(f'{where} {r2[3]} {order}')
            out['nontrivial'].append(f'{spec} {k} {j}')
            cleanup()
            if bad:
                return
            # acquiring polls real time: stop at a bounded number of events
            j += 1
            if j > 60:
                break
        if ended:
            cleanup()
            return
        k += step


def grandchild(path, parent, inner=None):
    """let `parent` fork; -> actor of the forked child"""
    fp = path + f'.fifo{len(LIVE)}'
    os.mkfifo(fp + '.c')
    os.mkfifo(fp + '.r')
    if inner is None:
        parent.send('fork', fp)
    else:
        parent.send('held-exit', inner, fp)
    rr = os.open(fp + '.r', os.O_RDONLY | os.O_NONBLOCK)
    end = time.monotonic() + LIMIT
    while True:
        try:
            cw = os.open(fp + '.c', os.O_WRONLY | os.O_NONBLOCK)
            break
        except OSError as e:
            if e.errno != errno.ENXIO:
                raise
        if time.monotonic() > end:
            os.close(rr)
            raise Dead('the forked child does not answer')
        time.sleep(0.0005)
    os.set_blocking(cw, True)
    os.set_blocking(rr, True)
    pid = parent.recv()
    if not isinstance(pid, int):
        raise RuntimeError(f'cannot fork: {pid}')
    return Actor(path, (cw, rr, pid))


def run_orphan(spec, out):
    _, kw, depth, how, n, mode, pre = spec
    bad = out['bad']
    path = newpath()
    q = Actor(path)
    kids = []
    if pre:
        # forked earlier, after other uses of the object
        for name in pre:
            q.do('op', name, 0, kw)
        kids = [grandchild(path, q) for _ in range(n)]
    for _ in range(depth):
        if q.do('op', how, 0, kw) is not True:
            bad.append(f'cannot acquire the lock ({spec})')
            return
    if not pre:
        kids = [grandchild(path, q) for _ in range(n)]
    cont = contend(path, mode, kw)
    out['runs'] += 1
    out['points'] += 1
    if any(a.got for a in cont):
        bad.append('a contender acquired the lock while its holder was alive')
    q.kill()
    what = f'holder killed while {n} forked children live on'
    survivors(path, cont, kw, bad, what)
    for i, k in enumerate(kids):
        if bad:
            break
        own_turn(path, k, kw, bad, f'{what}, child {i}', ('nb', 'tl') if i % 2 else ('tl', 'nb'))
    out['outcomes'].append(repr(spec))
    out['nontrivial'].append(repr(spec))
    cleanup()


def own_turn(path, c, kw, bad, what, ops=('nb', 'tl')):
    """a forked child acquires the lock which nobody holds, by old and new objects"""
    for i in (0, 7):
        for o in ops:
            r = c.do('op', o, i, kw)
            if r is not True:
                bad.append(f'{what}: it gets {r!r} from {o} of its {"new" if i else "inherited"} object, nobody holds the lock')
                return
            if probe(path, kw) is not False:
                bad.append(f'{what}: another process acquired the lock which it holds')
            c.do('op', 'rl', i, kw)
            if probe(path, kw) is not True:
                bad.append(f'{what}: the lock is stuck after its release')
                return


def run_exec(spec, out):
    """the holder has started another program which outlives it"""
    _, kw, depth, how, start, when, mode = spec
    bad = out['bad']
    path = newpath()
    q = Actor(path)
    pids = []
    try:
        if when != 'after':
            q.do('op', 'nb', 0, kw)
            if when == 'between':
                pids.append(q.do('spawn', start))
            q.do('op', 'rf', 0, kw)
        for _ in range(depth):
            if q.do('op', how, 0, kw) is not True:
                bad.append(f'cannot acquire the lock again after having started another program ({spec})')
                return
        if when != 'between':
            pids.append(q.do('spawn', start))
        cont = contend(path, mode, kw)
        out['runs'] += 1
        out['points'] += 1
        if any(a.got for a in cont):
            bad.append('a contender acquired the lock while its holder was alive')
        if when == 'release':
            q.do('op', 'rf', 0, kw)
        else:
            q.kill()
        survivors(path, cont, kw, bad, f'holder died, a program it has started by {start} lives on')
        out['outcomes'].append(repr(spec))
        out['nontrivial'].append(repr(spec))
    finally:
        for p in pids:
            try:
                os.kill(p, signal.SIGKILL)
            except OSError:
                pass
        cleanup()


def run_blocked(spec, out):
    _, kw, op, n = spec
    bad = out['bad']
    path = newpath()
    h = Actor(path)
    if h.do('op', 'nb', 0, {}) is not True:
        raise RuntimeError('cannot acquire')
    ws = []
    for i in range(n):
        w = Actor(path)
        w.send('op', op if op != 'tm' else 'tl', 0, kw)
        ws.append(w)
    time.sleep(0.03)
    for i, w in enumerate(ws):
        r = w.recv(0)
        if r is not None:
            bad.append(f'a waiter got {r!r} although the lock is held')
        w.kill()
        out['runs'] += 1
        out['points'] += 1
        if probe(path, kw) is not False:
            bad.append('killing a waiter released the lock of the holder')
    h.do('op', 'rl', 0, {})
    survivors(path, [], kw, bad, f'{n} waiters killed while blocked in {op}')
    out['outcomes'].append(repr(spec))
    out['nontrivial'].append(repr(spec))
    cleanup()


def run_fork(spec, out):
    """C02: a child forked while the parent holds the lock is not a holder"""
    _, kw, depth, how, ops = spec
    bad = out['bad']
    path = newpath()
    q = Actor(path)
    ops = list(ops)
    end = ops.pop()
    inner = 'wx' in ops or end == 'exit' and how == 'wi'
    for _ in range(depth - 1 if inner else depth):
        if q.do('op', how, 0, kw) is not True:
            raise RuntimeError('cannot acquire')
    c = grandchild(path, q, kw if inner else None)
    out['runs'] += 1
    done = []
    left = False
    for o in ops:
        done.append(o)
        if o == 'wx':
            if left:
                continue
            left = True
            c.send('leave')
            r = None
            time.sleep(0.002)
            # the child returns to its command loop after leaving
        elif o == 'new':
            r = c.do('op', 'nb', 7, kw)
        elif o == 'bt':
            r = c.do('op', 'tm', 0, kw)
        else:
            r = c.do('op', o, 0, kw)
        if o in ('nb', 'bt', 'new') and r is True:
            bad.append(f'a child forked while its parent holds the lock acquired it as well ({done})')
        if left and o == 'wx':
            if c.do('op', 'nb', 8, kw) is True:
                bad.append(f'after leaving the with statement of its parent the child acquired the lock ({done})')
        if probe(path, kw) is not False:
            bad.append(f'the lock of the parent was lost by {done} in the forked child')
        if bad:
            break
    if not bad:
        done.append(end)
        if end == 'late':
            # the child acquires once its parent has released
            c.send('op', 'bl', 0 if 'dl' not in ops else 9, kw)
            r = c.recv(0.02)
            if r is not None:
                bad.append(f'a forked child acquired the lock while its parent holds it ({done})')
            q.do('op', 'rf', 0, kw)
            if not bad:
                r = c.recv()
                if r is not True:
                    bad.append(f'a forked child cannot acquire the lock after its parent released it: {r!r} ({done})')
                elif probe(path, kw) is not False:
                    bad.append(f'the forked child holds the lock but another process acquired it ({done})')
                c.do('op', 'rl', 0 if 'dl' not in ops else 9, kw)
                if not bad and 'new' not in ops and 'dl' not in ops:
                    own_turn(path, c, kw, bad, f'the forked child after {done}')
        else:
            c.send('quit' if end == '_exit' else 'sysexit')
            try:
                while c.recv() is not None:
                    pass
            except Dead:
                pass
            c.gone()
            if probe(path, kw) is not False:
                bad.append(f'the lock of the parent was lost when the forked child exited ({done})')
            q.do('op', 'rf', 0, kw)
        if not bad and probe(path, kw) is not True:
            bad.append(f'the lock is stuck after its release ({done})')
    out['points'] += len(done)
    out['outcomes'].append(repr(spec))
    cleanup()


def run_pause(spec, out):
    """C02: one process is suspended at every line while another one acts"""
    _, kw, prog, idx, gran = spec
    bad = out['bad']
    k = 0
    a, b = Actor(newpath()), Actor(newpath())
    while not bad:
        path = newpath()
        a.do('path', path)
        b.do('path', path)
        held = 0
        for name, i in prog[:idx]:
            r = a.do('op', name, i, kw)
            held = count(held, name, r)
        a.do('arm', k, gran)
        name, i = prog[idx]
        before = held
        a.send('op', name, i, kw)
        r = a.recv()
        if r is None:
            raise RuntimeError(f'no answer {spec} {k}')
        if not isinstance(r, list):
            a.quit()
            b.quit()
            out['points'] += k
            cleanup()
            return
        where = r[3]
        out['runs'] += 1
        what = f'process stopped at {where} (event {k}) of {name}'
        got = b.do('op', 'nb', 0, kw)
        low = min(before, count(before, name, True if name not in REL else 'done'))
        if got is True and low > 0:
            bad.append(f'{what}: another process acquired the lock it holds')
            break
        a.send('go')
        r = a.recv(0.02 if got is True and name in ('bl', 'wi') else LIMIT)
        if r is None and got is True:
            b.do('op', 'rl', 0, kw)
            got = 'released'
            r = a.recv()
        if r is None:
            raise TimeoutError(f'{what}: never continues')
        held = count(before, name, r)
        if got is True and held > 0:
            bad.append(f'{what}: continues and holds the lock together with another process')
            break
        if got is True:
            b.do('op', 'rl', 0, kw)
        p = b.do('op', 'nb', 5, kw)
        if p is not (held == 0):
            bad.append(f'{what}, then {r!r}: another process gets {p!r} although depth is {held}')
        b.do('op', 'rf', 5, kw)
        a.do('op', 'rf', 0, kw)
        a.do('op', 'rf', 1, kw)
        out['outcomes'].append(f'{where} {got} {r}')
        if got is True or held:
            out['nontrivial'].append(f'{spec} {k}')
        k += 1


REL = ('rl', 'rf', 'xc', 'dl')


def count(held, name, r):
    if name in ('rl', 'xc'):
        return max(0, held - 1)
    if name in ('rf', 'dl'):
        return 0
    return held + (r is True)


def run_seq(spec, out):
    """C02: all sequences of operations of several processes"""
    import itertools
    _, kws, n, first, names = spec
    bad = out['bad']
    actors = [Actor(newpath()) for _ in kws]
    old = 'age' in names
    names = [o for o in names if o != 'age']
    ops = [(p, o) for p in range(len(kws)) for o in names]
    for rest in itertools.product(ops, repeat=n - 1):
        seq = (ops[first],) + rest
        # skip sequences with no-op prefixes that shorter ones cover
        depth = [0] * len(kws)
        cms = [0] * len(kws)
        path = None
        done = []
        for p, o in seq:
            if o == 'xc' and not cms[p] or o in ('rl', 'rf', 'dl') and not depth[p]:
                path = None
                break
            if path is None:
                path = newpath()
                for a in actors:
                    a.do('path', path)
            done.append(f'{o} by process {p}')
            a = actors[p]
            if old:
                age(path)
            if o in ('nb', 'tm', 'cx'):
                free = all(not d for q, d in enumerate(depth) if q != p) and \
                    (not depth[p] or bool(kws[p].get('reentrant')))
                r = a.do('op', o, 0, kws[p])
                if (r is True) != free:
                    bad.append(f'after {done} the result is {r!r}, depths before {depth}')
                    return
                if r is True:
                    depth[p] += 1
                    cms[p] += o == 'cx'
            else:
                a.do('op', o, 0, kws[p])
                depth[p] = count(depth[p], o, None)
                if o == 'xc':
                    cms[p] -= 1
                if o == 'dl':
                    cms[p] = 0
        if path is None:
            continue
        out['runs'] += 1
        if sum(map(bool, depth)) == 1 and any('nb by process %d' % p in done for p in range(len(kws))
                                              if not depth[p]):
            out['nontrivial'].append(repr(done))
        for q, a in enumerate(actors):
            if depth[q]:
                a.do('op', 'rf', 0, kws[q])
        if len(out['outcomes']) < 300:
            out['outcomes'].append(repr(seq))
    out['points'] += out['runs']
    cleanup()


def run_family(spec, out):
    """C02: sequences of operations of a process and a child it forks in between"""
    import itertools
    _, kw, pre, n, first, names = spec
    bad = out['bad']
    ops = [(p, o) for p in (0, 1) for o in names]
    for rest in itertools.product(ops, repeat=n - 1):
        seq = (ops[first],) + rest
        depth, cms = [0, 0], [0, 0]
        for o in pre:
            depth[0] = count(depth[0], o, not depth[0] or bool(kw.get('reentrant')))
        held = depth[0]
        ok = True
        for p, o in seq:     # skip sequences with operations which do nothing
            if o == 'xc' and not cms[p] or o in ('rl', 'rf', 'dl') and not depth[p]:
                ok = False
                break
            if o in ('nb', 'cx'):
                can = not depth[1 - p] and (not depth[p] or kw.get('reentrant'))
                depth[p] += bool(can)
                cms[p] += bool(can) and o == 'cx'
            else:
                depth[p] = count(depth[p], o, None)
                cms[p] = 0 if o == 'dl' else cms[p] - (o == 'xc')
        if not ok:
            continue
        path = newpath()
        q = Actor(path)
        for o in pre:
            q.do('op', o, 0, kw)
        c = grandchild(path, q)
        fam = (q, c)
        depth = [held, 0]
        done = list(pre) + ['fork']
        for p, o in seq:
            done.append(f'{o} by the ' + ('parent', 'child')[p])
            r = fam[p].do('op', o, 0, kw)
            if o in ('nb', 'cx'):
                want = not depth[1 - p] and (not depth[p] or bool(kw.get('reentrant')))
                if (r is True) != want:
                    bad.append(f'after {done} the result is {r!r}, depths before {depth}')
                    return
                depth[p] += r is True
            else:
                depth[p] = count(depth[p], o, None)
        out['runs'] += 1
        r = probe(path, kw)
        if r is not (not any(depth)):
            bad.append(f'after {done} another process gets {r!r}, depths {depth}')
            return
        if any(depth):
            out['nontrivial'].append(repr(done))
        if len(out['outcomes']) < 300:
            out['outcomes'].append(repr(done))
        cleanup()
    out['points'] += out['runs']


RUN = {'h': run_family, 'm': run_pause, 's': run_seq, 'c': run_crash, 'p': run_double, 'g': run_orphan, 'b': run_blocked, 'x': run_exec, 'f': run_fork}


def main():
    global M, DIR
    die_with_parent(True)
    signal.signal(signal.SIGPIPE, signal.SIG_IGN)
    outfd = os.dup(1)
    os.dup2(2, 1)
    M = load()
    DIR = tempfile.mkdtemp(prefix='s', dir=os.environ.get('MC_SCRATCH'))
    gc.disable()
    for line in sys.stdin:
        spec = json.loads(line)
        out = {'bad': [], 'runs': 0, 'points': 0, 'ops': 0, 'kills': 0, 'nontrivial': [], 'outcomes': []}
        STAT.clear()
        STAT.update(ops=0, kills=0)
        try:
            RUN[spec[0]](spec, out)
        except (Dead, TimeoutError) as e:
            out['bad'].append(f'a process hung or died: {e!r} {"".join(traceback.format_tb(e.__traceback__)[-2:])}')
        except BaseException:  # noqa
            out['error'] = traceback.format_exc()
        finally:
            cleanup()
        out['ops'] = STAT['ops']
        out['kills'] = STAT['kills']
        out['outcomes'] = sorted(set(out['outcomes']))[:300]
        try:
            os.write(outfd, (json.dumps(out) + '\n').encode())
        except BrokenPipeError:
            return       # the check is over


if __name__ == '__main__':
    main()
