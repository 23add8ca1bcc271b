#!/usr/bin/env python3
"""tally.py <PROP> <n> [start] [-v]: run cases, and count the classes of the violations (for development)."""
import collections
import multiprocessing as mp
import os
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
if os.environ.get('TALLY') != '1':
    env = dict(os.environ, TALLY='1', PATH='/opt/venv/bin:' + os.environ['PATH'], SETUPTOOLS_SCM_PRETEND_VERSION='2.0.0',
               PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')
    sys.exit(subprocess.call(['/opt/venv/bin/python', __file__] + sys.argv[1:], env=env, cwd=ROOT))
sys.path.insert(0, ROOT)
from sim import core  # noqa: E402

prop, n = sys.argv[1], int(sys.argv[2])
start = int(sys.argv[3]) if len(sys.argv) > 3 and sys.argv[3] != '-v' else 0
os.environ['VERIF_SCRATCH'] = tempfile.mkdtemp()
mod = core.load(prop)
ns = core.boot(mod)


def one(i):
    case = core.make_case(mod, int(os.environ.get('VERIF_SEED', 1)), i, 'quick')
    try:
        v, info = core.run_case(mod, case, ns)
    except Exception:
        import traceback

        return i, case, 'HARNESS', traceback.format_exc()[-1500:]
    return (i, case, v.cls, v.msg) if v else None


if __name__ == '__main__':
    seen = collections.defaultdict(list)
    with mp.get_context('fork').Pool(8) as p:
        for r in p.imap_unordered(one, range(start, start + n), chunksize=5):
            if r:
                seen[r[2]].append(r)
    for k, v in sorted(seen.items(), key=lambda t: -len(t[1])):
        v.sort()
        v = sorted(v, key=lambda r: len(str(r[1])))
        print(f'=== {k}: {len(v)}\n    case {v[0][0]}: {v[0][1]}\n    {v[0][3][:900 if "-v" not in sys.argv else 3000]}')
    print('cases', n, 'violations', sum(map(len, seen.values())))
