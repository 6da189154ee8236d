#!/usr/bin/env python3
"""Runs the quick check of its property against each planted bug, in scratch
copies of /repo and /verif (development only).

usage: hunt.py [-j N] [--tier T] [id...]"""
import argparse
import concurrent.futures as cf
import json
import os
import shutil
import subprocess
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.environ.get('SEEDED') or os.path.join(HERE, 'seeded')


def one(i, tier, prop=None):
    base = f'/tmp/hunt-{os.getpid()}-{i}-{prop or ""}'
    d = os.path.join(SEEDED, i)
    prop = prop or json.load(open(d + '/meta.json'))['property']
    os.makedirs(base)
    try:
        shutil.copytree('/repo', base + '/r', symlinks=True, ignore=shutil.ignore_patterns('.git'))
        shutil.copytree(HERE, base + '/v', symlinks=True,
                        ignore=shutil.ignore_patterns('.git', 'seeded', 'evidence', 'replays', '__pycache__'))
        subprocess.run(['patch', '-s', '-p1', '-i', d + '/patch.diff'], cwd=base + '/r', check=True,
                       env=dict(os.environ, GIT_CEILING_DIRECTORIES=base))
        t = time.time()
        env = dict(os.environ, VERIF_REPO=base + '/r', VERIF_SEED='1', VERIF_TIER=tier)
        try:
            r = subprocess.run(['./check', prop, '--tier', tier], cwd=base + '/v', env=env,
                               capture_output=True, text=True, timeout=900 if tier == 'quick' else 3600)
            v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
            rc, tail = r.returncode, (r.stdout + r.stderr)[-700:]
        except subprocess.TimeoutExpired:
            rc, v, tail = 'timeout', [], ''
        s = f'{i} [{prop}]: ' + ('caught' if rc == 1 and v else f'MISSED rc={rc}') + f' {time.time() - t:.0f} s'
        return s if 'caught' in s else s + '\n' + tail
    finally:
        shutil.rmtree(base, ignore_errors=True)


if __name__ == '__main__':
    ap = argparse.ArgumentParser()
    ap.add_argument('-j', type=int, default=2)
    ap.add_argument('--tier', default='quick')
    ap.add_argument('--prop')
    ap.add_argument('ids', nargs='*')
    a = ap.parse_args()
    ids = a.ids or sorted(os.listdir(SEEDED))
    with cf.ThreadPoolExecutor(a.j) as ex:
        jobs = [(i, p) for i in ids for p in ([a.prop] if a.prop else json.load(
            open(os.path.join(SEEDED, i, 'meta.json')))['property'].split())]
        for s in ex.map(lambda j: one(j[0], a.tier, j[1]), jobs):
            print(s, flush=True)
