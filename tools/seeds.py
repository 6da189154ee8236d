#!/usr/bin/env python3
"""Writes seeded/<id>/{patch.diff,meta.json,demo.sh} from the edits below
(demo.py is written by hand). Development only; no check uses it.

usage: seeds.py [id...]"""
import json
import os
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
A, F, I, P = ('aiuti/%s.py' % n for n in ('asyncio', 'filelock', 'itertools', 'parsing'))
SEEDS = {}


def seed(id, prop, file, edits, needs, breaks):
    SEEDS[id] = (prop, file, edits, needs, breaks)


OUT = os.environ.get('SEEDED') or os.path.join(HERE, 'seeded')
exec(open(os.environ.get('SEEDLIST') or os.path.join(HERE, 'tools', 'seedlist.py')).read())


def main():
    ids = sys.argv[1:] or list(SEEDS)
    for i in ids:
        prop, file, edits, needs, breaks = SEEDS[i]
        d = os.path.join(OUT, i)
        os.makedirs(d, exist_ok=True)
        src = open(os.path.join('/repo', file)).read()
        new = src
        for old, rep in edits:
            if new.count(old) != 1:
                sys.exit(f'{i}: {new.count(old)} times: {old!r}')
            new = new.replace(old, rep)
        compile(new, file, 'exec')
        with tempfile.TemporaryDirectory() as t:
            for n, s in (('a', src), ('b', new)):
                os.makedirs(os.path.join(t, n, os.path.dirname(file)))
                open(os.path.join(t, n, file), 'w').write(s)
            r = subprocess.run(['git', 'diff', '--no-index', '--no-prefix', '-U3', f'a/{file}', f'b/{file}'], cwd=t,
                               capture_output=True, text=True)
        open(os.path.join(d, 'patch.diff'), 'w').write(r.stdout)
        json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks},
                  open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        open(os.path.join(d, 'demo.sh'), 'w').write(
            '#!/bin/bash\nhere=$(cd "$(dirname "$0")" && pwd)\n'
            'PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" exec timeout -k 5 150 python3 "$here/demo.py"\n')


main()
