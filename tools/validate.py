#!/usr/bin/env python3
"""Validates planted bugs in scratch copies of /repo (development only): the
demo passes unpatched and fails patched, and the stable tests pass patched.

usage: validate.py [-j N] [id...]"""
import argparse
import concurrent.futures as cf
import json
import os
import shutil
import subprocess
import xml.etree.ElementTree as ET

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(HERE, 'seeded')


def run(cmd, cwd, t, **kw):
    try:
        r = subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, timeout=t, **kw)
        return r.returncode, (r.stdout + r.stderr)[-1500:]
    except subprocess.TimeoutExpired:
        return 'timeout', ''


def one(i):
    w = f'/tmp/validate-{os.getpid()}-{i}'
    d = os.path.join(SEEDED, i)
    shutil.copytree('/repo', w, symlinks=True)
    try:
        clean, out0 = run(['bash', d + '/demo.sh'], w, 300)
        rc, out = run(['git', 'apply', d + '/patch.diff'], w, 30)
        if rc:
            return i, f'NO APPLY {out}'
        bad, out1 = run(['bash', d + '/demo.sh'], w, 300)
        xml = w + '-j.xml'
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
        env.pop('PYTHONPATH', None)
        rc, o = run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '-n', '1',
                     '--max-worker-restart=100', '--timeout=30', '--timeout-method=thread',
                     '--continue-on-collection-errors', f'--basetemp={w}-t', '-o', 'junit_family=xunit2',
                     f'--junitxml={xml}'], w, 800, env=env)
        p = f = 0
        failed = []
        for tc in ET.parse(xml).iter('testcase'):
            if any(c.tag in ('failure', 'error') for c in tc):
                failed.append(tc.get('classname') + '::' + tc.get('name'))
            elif not any(c.tag == 'skipped' for c in tc):
                p += 1
        s = []
        if clean != 0:
            s.append(f'CLEAN DEMO rc={clean}: {out0}')
        if bad == 0 or bad in ('timeout', 124, 137):
            s.append(f'PATCHED DEMO rc={bad}: {out1}')
        if p < 42:
            s.append(f'TESTS {p} pass; failed {failed}')
        return i, '; '.join(s) or f'ok ({out1.strip().splitlines()[-1] if out1.strip() else ""})'
    finally:
        for p in (w, w + '-t'):
            shutil.rmtree(p, ignore_errors=True)
        if os.path.exists(w + '-j.xml'):
            os.remove(w + '-j.xml')


if __name__ == '__main__':
    ap = argparse.ArgumentParser()
    ap.add_argument('-j', type=int, default=4)
    ap.add_argument('ids', nargs='*')
    a = ap.parse_args()
    ids = a.ids or sorted(os.listdir(SEEDED))
    with cf.ThreadPoolExecutor(a.j) as ex:
        for i, s in ex.map(one, ids):
            print(f'{i}: {s}', flush=True)
