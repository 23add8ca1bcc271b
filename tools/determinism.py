#!/usr/bin/env python3
"""determinism.py [N] [PROP...]: the same cases, in other processes, orders and with other hash seeds, do the same."""
import hashlib
import json
import multiprocessing as mp
import os
import random
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def child(prop, n, workers, order):
    sys.path.insert(0, ROOT)
    from sim import core

    os.environ['VERIF_SCRATCH'] = tempfile.mkdtemp()
    mod = core.load(prop)
    ns = core.boot(mod)
    global one

    def one(i):
        case = core.make_case(mod, int(os.environ.get('VERIF_SEED', 1)), i, 'quick')
        v, info = core.run_case(mod, case, ns)
        return i, f'{v.cls}: {v.msg}' if v else info.digest

    todo = list(range(n))
    if order:
        random.Random(order).shuffle(todo)
    with mp.get_context('fork').Pool(workers) as p:
        out = dict(p.map(one, todo, chunksize=7))
    print('DIGESTS ' + json.dumps([str(out[i]) for i in range(n)]))


if os.environ.get('DETERMINISM'):
    child(sys.argv[1], *map(int, sys.argv[2:]))
    sys.exit()

n = int(sys.argv[1]) if len(sys.argv) > 1 else 300
props = sys.argv[2:] or [json.loads(line)['id'] for line in open(f'{ROOT}/properties.jsonl')]
claimed = {c['property'] for c in json.load(open(f'{ROOT}/MANIFEST.json'))['checks']}
bad = 0
for prop in props:
    if prop not in claimed:
        continue
    ref = None
    for workers, hashseed, order in ((8, '0', 0), (1, '0', 0), (3, '12345', 1), (8, '77', 2)):
        env = dict(os.environ, DETERMINISM='1', PATH='/opt/venv/bin:' + os.environ['PATH'], PYTHONHASHSEED=hashseed,
                   SETUPTOOLS_SCM_PRETEND_VERSION='2.0.0', PYTHONDONTWRITEBYTECODE='1', OMP_NUM_THREADS='1',
                   OPENBLAS_NUM_THREADS='1', LANG='C.UTF-8')
        p = subprocess.run(['/opt/venv/bin/python', __file__, prop, str(n), str(workers), str(order)], env=env, cwd=ROOT,
                           capture_output=True, text=True)
        line = [s for s in p.stdout.splitlines() if s.startswith('DIGESTS ')]
        if not line:
            print(prop, 'failed', p.stderr[-2000:])
            bad = 1
            break
        d = json.loads(line[0][8:])
        if ref is None:
            ref = d
        diff = [i for i in range(n) if d[i] != ref[i]]
        if diff:
            bad = 1
            print(f'{prop}: {workers} workers, PYTHONHASHSEED={hashseed}, order {order}: cases {diff[:10]} differ')
    else:
        h = hashlib.sha256(json.dumps(ref).encode()).hexdigest()[:16]
        print(f'{prop}: {n} cases, 4 configurations, {len(set(ref))} different histories, {h}', flush=True)
sys.exit(bad)
