#!/usr/bin/env python3
"""cover.py [N] [PROP...]: lines of pysimulators that no check executes (for development)."""
import json
import os
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def child(prop, n):
    sys.path.insert(0, ROOT)
    mon = sys.monitoring
    seen = set()

    def line(code, number):
        if '/pysimulators/' in code.co_filename:
            seen.add((code.co_filename.split('/pysimulators/')[-1], number))
        return mon.DISABLE

    mon.use_tool_id(mon.COVERAGE_ID, 'cover')
    mon.register_callback(mon.COVERAGE_ID, mon.events.LINE, line)
    mon.set_events(mon.COVERAGE_ID, mon.events.LINE)
    exit_ = os._exit

    def dump(rc):
        with open(f"{os.environ['COVER']}/{prop}-{os.getpid()}.json", 'w') as f:
            json.dump(sorted(seen), f)
        exit_(rc)

    os._exit = dump
    from sim import core

    core.write_evidence = lambda *a, **k: None
    dump(core.run_check(core.load(prop), 'quick', int(os.environ.get('VERIF_SEED', 1)), ncases=n))


def code_lines(path):
    """The lines of functions, by function."""
    out = {}

    def walk(code, name):
        for const in code.co_consts:
            if hasattr(const, 'co_code'):
                q = const.co_qualname
                lines = {l for *_, l in const.co_lines() if l} - {const.co_firstlineno}
                out.setdefault(q, set()).update(lines)
                walk(const, q)

    walk(compile(open(path).read(), path, 'exec'), '')
    return out


if os.environ.get('COVER'):
    child(sys.argv[1], int(sys.argv[2]))

n = int(sys.argv[1]) if len(sys.argv) > 1 else 400
props = sys.argv[2:] or [c['property'] for c in json.load(open(f'{ROOT}/MANIFEST.json'))['checks']]
repo = os.environ.get('VERIF_REPO', '/repo')
with tempfile.TemporaryDirectory() as d:
    env = dict(os.environ, COVER=d, PATH='/opt/venv/bin:' + os.environ['PATH'], PYTHONHASHSEED='0',
               SETUPTOOLS_SCM_PRETEND_VERSION='2.0.0', PYTHONDONTWRITEBYTECODE='1', OMP_NUM_THREADS='1',
               OPENBLAS_NUM_THREADS='1', LANG='C.UTF-8')
    for prop in props:
        subprocess.run(['/opt/venv/bin/python', __file__, prop, str(n)], env=env, cwd=ROOT, stderr=subprocess.DEVNULL)
    seen = {}
    for f in os.listdir(d):
        for path, number in json.load(open(f'{d}/{f}')):
            seen.setdefault(path, set()).add(number)
src = f'{repo}/src/pysimulators'
for base, _, files in sorted(os.walk(src)):
    for f in sorted(files):
        if f.endswith('.py'):
            path = os.path.join(base, f)
            rel = os.path.relpath(path, src)
            for q, lines in code_lines(path).items():
                missed = sorted(lines - seen.get(rel, set()))
                if missed:
                    print(rel, q, 'never' if len(missed) == len(lines) else missed)
