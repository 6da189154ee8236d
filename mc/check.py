"""
Command line driver:  python -m mc.check <property> [--tier T] [--replay FILE]

Exit 0: the property held on everything explored.
Exit 1: violation(s); a line "VIOLATION property=<id> replay=<path>".
Exit 2: the machinery itself failed (no answer).
"""
import argparse
import importlib
import json
import os
import random
import sys
import time as _t

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

MODULES = {
    'C17': 'xloop',
    'C01': 'cache', 'C05': 'cache', 'C06': 'cache', 'C14': 'cachekeys',
    'C02': 'filelock', 'C12': 'filelock', 'C13': 'flockproc',
    'C03': 'buffer', 'C07': 'buffer', 'C08': 'buffer',
    'C04': 'batcher', 'C09': 'batcher', 'C10': 'batcher', 'C11': 'batcher',
    'C15': 'options', 'C16': 'bridge', 'C17': 'xloop',
    'C18': 'split', 'C19': 'parse', 'C20': 'gather',
}

_real_monotonic = _t.monotonic


class Group:
    """One family of scenarios of a check.

    kind 'explore': deviation-bounded exploration of each spec, for each of
                    `bounds` in turn;
    kind 'program': each spec run once (the spec itself is the enumerated
                    point: a timed program / operation sequence / input);
    kind 'custom':  specs are handed to harness.custom_job(specs) in a worker.
    """

    def __init__(self, name, specs, kind='program', bounds=(0,), chunk=100,
                 note='', weight=1.0):
        self.name = name
        self.specs = specs
        self.kind = kind
        self.bounds = bounds
        self.chunk = chunk
        self.note = note
        self.weight = weight


def chunks(it, n):
    buf = []
    for x in it:
        buf.append(x)
        if len(buf) >= n:
            yield buf
            buf = []
    if buf:
        yield buf


def known_findings(prop):
    out = []
    fn = os.path.join(VERIF, 'known-findings.txt')
    try:
        with open(fn) as f:
            for line in f:
                line = line.strip()
                if line.startswith('finding:') and f'property={prop} ' in line:
                    # finding: property=<id> match=<json string> <what fails>
                    rest = line.split(f'property={prop} ', 1)[1]
                    if rest.startswith('match='):
                        dec = json.JSONDecoder()
                        pat, end = dec.raw_decode(rest[6:])
                        out.append((pat, rest[6 + end:].strip()))
    except OSError:
        pass
    return out


def jsonable(x):
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, (set, frozenset)):
        return sorted((jsonable(v) for v in x), key=repr)
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return repr(x)


def write_replay(prop, mod, n, v):
    from .explore import REPO
    spec, choices, msgs, log = v
    d = os.environ.get('VERIF_REPLAYS') or os.path.join(VERIF, 'replays')
    try:
        os.makedirs(d, exist_ok=True)
        fn = os.path.join(d, f'{prop}-{n}.json')
        with open(fn, 'w') as f:
            json.dump({
                'property': prop, 'spec_repr': repr(spec),
                'choices': list(choices or b''), 'violations': [str(m) for m in msgs],
                'how': f'/verif/check {prop} --replay {fn}',
                'repo': REPO,
                'log': [[round(a, 6), b, c] for a, b, c in (log or [])][-3000:],
            }, f, indent=1)
    except OSError as e:
        print('cannot write replay file:', e)
        fn = '/dev/null'
    return fn


def replay(prop, harness, fn):
    from . import explore
    with open(fn) as f:
        data = json.load(f)
    spec = eval(data['spec_repr'], {'__builtins__': {'frozenset': frozenset, 'set': set}})
    if data.get('choices') is None or not hasattr(harness, 'make'):
        v = harness.replay(spec)
        log = None
    else:
        r = explore.run_one(harness.make(spec), bytes(data['choices']), log=True)
        v, log = r.violations, r.log
        for t, th, what in (log or []):
            print(f'{t:10.4f} {th:6} {what}')
        print('status:', r.status, 'outcome:', r.outcome)
    print('spec:', spec)
    for m in v:
        print('violation:', m)
    return 1 if v else 0


def adopt():
    """processes whose parent dies become children of this one"""
    try:
        import ctypes
        ctypes.CDLL(None).prctl(36, 1, 0, 0, 0)
    except Exception:  # noqa
        pass


def end_children():
    """nothing which this check has started outlives it"""
    import signal
    for _ in range(50):
        kids = set()
        try:
            for t in os.listdir('/proc/self/task'):
                with open(f'/proc/self/task/{t}/children') as f:
                    kids.update(map(int, f.read().split()))
        except OSError:
            pass
        if not kids:
            return
        for k in kids:
            try:
                os.kill(k, signal.SIGKILL)
            except OSError:
                pass
        for k in kids:
            try:
                os.waitpid(k, 0)
            except OSError:
                pass


def main(argv=None):
    adopt()
    try:
        return _main(argv)
    finally:
        end_children()
        for mod in set(MODULES.values()):
            h = sys.modules.get('mc.harness.' + mod)
            if hasattr(h, 'finish'):
                h.finish()


def _main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--budget', type=float, default=None, help='wall seconds')
    ap.add_argument('--groups', default=None, help='only groups whose name contains this')
    ap.add_argument('--keep-going', action='store_true')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args(argv)
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    prop = a.prop
    from . import vrt, explore
    t0 = vrt.real_monotonic()
    budget = a.budget or (420.0 if tier == 'quick' else 5400.0)
    deadline = t0 + budget
    harness = importlib.import_module('mc.harness.' + MODULES[prop])
    explore.install_repo()
    if hasattr(harness, 'prepare'):
        harness.prepare()
    if a.replay:
        return replay(prop, harness, a.replay)
    # fail early, in this process, if the code under test cannot be imported
    make = getattr(harness, 'make', None)
    groups = harness.groups(prop, tier)
    if a.groups:
        groups = [g for g in groups if a.groups in g.name]

    total = explore.Stats()
    states = 0
    report = []
    capped = False
    pending_errors = []

    def handler(job):
        kind = job[0]
        if kind == 'explore':
            return explore.explore_job(make, job[1:4], job[4])
        if kind == 'program':
            return explore.program_job(make, job[1])
        return harness.custom_job(prop, job[1])

    rng = random.Random(seed)
    for gi, g in enumerate(groups):
        for bound in (g.bounds if g.kind == 'explore' else (None,)):
            st = explore.Stats()
            nspecs = [0]
            t1 = vrt.real_monotonic()

            def jobs():
                if g.kind == 'explore':
                    specs = list(g.specs() if callable(g.specs) else g.specs)
                    rng.shuffle(specs)   # order only: everything is explored
                    for sp in specs:
                        nspecs[0] += 1
                        yield ('explore', sp, [(b'', b'')], bound, 150)
                else:
                    sp = g.specs() if callable(g.specs) else g.specs
                    for ch in chunks(sp, g.chunk):
                        nspecs[0] += len(ch)
                        yield (g.kind, ch)

            def on_result(job, res):
                s, left, hung = res
                st.merge(s)
                if job[0] == 'explore' and left:
                    k = max(1, min(8, len(left)))
                    # big subtrees are at the bottom of the stack
                    parts = [left[i::k] for i in range(k)]
                    return [('explore', job[1], p, bound, 600) for p in parts]
                return None

            def stop():
                return bool(st.violations) and not a.keep_going

            try:
                done = explore.run_pool(jobs(), handler, on_result, deadline=deadline, stop=stop)
            except explore.JobError as e:
                pending_errors.append(f'{g.name}: {e}')
                done = False
            if not done and not st.violations:
                capped = True
            total.merge(st)
            last = g.kind != 'explore' or bound == g.bounds[-1] or not done
            if last:
                states += st.nodes
            report.append({
                'group': g.name, 'kind': g.kind, 'note': g.note,
                'scenarios': nspecs[0],
                **({'deviation_bound': bound} if g.kind == 'explore' else {}),
                'complete': done, 'executions': st.executions,
                'nodes': st.nodes, 'steps': st.steps,
                'distinct_outcomes': len(st.outcomes),
                'divergences': st.divergences,
                'wall_s': round(vrt.real_monotonic() - t1, 2)})
            if a.v or not done:
                print(json.dumps(report[-1]), {k: v for k, v in st.extra.items() if not isinstance(v, set)}, st.statuses, flush=True)
            if st.unreproduced:
                print('WARNING: unreproduced:', repr(st.unreproduced[0])[:1500])
            if (st.violations and not a.keep_going) or pending_errors:
                break
            if vrt.real_monotonic() > deadline:
                capped = True
                break
        if (total.violations and not a.keep_going) or pending_errors or vrt.real_monotonic() > deadline:
            break

    wall = vrt.real_monotonic() - t0
    kf = known_findings(prop)
    real_v, seen_kf = [], {}
    for v in total.violations:
        rest = []
        for m in v[2]:
            hit = next((k for k in kf if k[0] in f'{v[0]!r} {m}'), None)
            if hit:
                seen_kf[hit] = True
            else:
                rest.append(m)
        if rest:
            real_v.append((v[0], v[1], rest, v[3]))
    level = getattr(harness, 'LEVEL', {}).get(prop, 'model_checking')
    cov = {
        'samples': jsonable(total.samples[:6]),
        'groups': report,
        'exhaustive': not capped and not pending_errors and not total.violations
        and total.divergences == 0,
        'max_deviations_in_one_execution': total.max_dev,
        'distinct_outcomes': len(total.outcomes),
        'line_events': total.lines,
        'thread_switches': total.switches,
        'execution_statuses': total.statuses,
        'unreproduced_alarms_discarded': len(total.unreproduced),
        'replay_divergences': total.divergences,
        'leaked_threads': total.leaked,
        'counters': jsonable({k: (len(v) if isinstance(v, set) else v)
                              for k, v in total.extra.items()}),
        'capped_by_time': capped,
    }
    if level == 'model_checking':
        cov['states'] = states
        cov['transitions'] = total.steps
        cov['traces_validated_against_impl'] = total.executions
        cov['explanation'] = (
            'Stateless exploration of the real code: states = nodes of the choice tree '
            '(highest bound of each group), transitions = scheduler steps executed, '
            'traces_validated_against_impl = complete executions, every one of them run '
            'on the implementation in /repo itself.')
    else:
        cov['evaluations'] = total.executions
        cov['distinct_nontrivial'] = len(total.extra.get('nontrivial', ())) or len(total.outcomes)
        cov['rule'] = getattr(harness, 'RULE', {}).get(prop, '')
        if 'states' in total.extra:
            cov['states'] = len(total.extra['states']) if isinstance(total.extra['states'], set) else total.extra['states']
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': level,
        'coverage': cov, 'wall_s': round(wall, 2), 'violations': len(real_v),
        'assumptions': getattr(harness, 'ASSUMPTIONS', {}).get(prop, []),
    }
    if pending_errors:
        ev['coverage']['errors'] = [e[:2000] for e in pending_errors]
    evd = os.environ.get('VERIF_EVIDENCE') or os.path.join(VERIF, 'evidence')
    os.makedirs(evd, exist_ok=True)
    with open(os.path.join(evd, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)

    print(f'{prop} [{tier}] executions={total.executions} states={states} '
          f'steps={total.steps} outcomes={len(total.outcomes)} wall={wall:.1f}s '
          f'{"CAPPED " if capped else ""}{total.statuses}')
    for pat, what in seen_kf:
        print(f'KNOWN-FINDING: property={prop} {what}')
    if a.keep_going:
        kinds = {}
        import re
        for v in real_v:
            for m in v[2]:
                kinds.setdefault(re.sub(r'[0-9.]+', '#', str(m))[:160], []).append(v[0])
        for k, sp in kinds.items():
            print(f'{len(sp):5} {k}\n        e.g. {sp[0]!r}'[:700])
    if real_v:
        for n, v in enumerate(real_v[:3]):
            fn = write_replay(prop, harness, n, v)
            for m in v[2][:3]:
                print('  ', str(m)[:600])
            print('   scenario:', repr(v[0])[:600])
            print(f'VIOLATION property={prop} replay={fn}')
        return 1
    if pending_errors:
        for e in pending_errors:
            print('ERROR', e[:4000])
        return 2
    return 0


if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
