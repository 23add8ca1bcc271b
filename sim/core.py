"""
The batch runner: seeded cases over worker processes, violations, minimisation, replay
files, known findings and evidence.

A check is a module of /verif/checks with

    PROPERTY            the property id
    RULE                how cases are made, and what makes one non-trivial
    REAL, STUB          which components run real code, which run a stand-in
    BUDGET = {'quick': (ncases, seconds), 'thorough': (ncases, seconds)}
    setup(ns)           once per process (optional)
    generate(rng, tier) -> case, a JSON-able dict which decides the run completely
    run(case, ns)       -> Info; raises Violation
    shrink(case)        -> simpler candidate cases (optional)
"""

import gc
import hashlib
import json
import multiprocessing as mp
import os
import random
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback
from collections import Counter
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
OUT = VERIF / 'out'
CASE_TIMEOUT = 150


class Violation(Exception):
    """The property does not hold. cls: the class of the violation (stable)."""

    def __init__(self, cls, msg, **info):
        super().__init__(f'{cls}: {msg}')
        self.cls, self.msg, self.info = cls, msg, info


class Info:
    """What one simulated run did."""

    def __init__(self):
        self.faults = Counter()
        self.probes = Counter()
        self.stats = Counter()
        self.keys = set()
        self.nontrivial = True
        self.h = hashlib.sha256()

    def log(self, *items):
        for i in items:
            self.h.update(repr(i).encode())

    def array(self, a):
        import numpy as np

        a = np.asarray(a)
        self.h.update(str((a.dtype.str, a.shape)).encode())
        if a.dtype.char in 'gG':
            # extended precision has padding bytes
            a = a.astype(a.dtype.kind + ('8' if a.dtype.kind == 'f' else '16'))
        self.h.update(np.ascontiguousarray(a).tobytes() if a.dtype.kind != 'O' else repr(a).encode())

    def key(self, *items):
        self.keys.add(hashlib.sha1(repr(items).encode()).hexdigest()[:16])

    @property
    def digest(self):
        return self.h.hexdigest()[:16]


def case_rng(prop, seed, i):
    return random.Random(f'{prop}:{seed}:{i}')


def make_case(mod, seed, i, tier):
    directed = getattr(mod, 'DIRECTED', [])
    if i < len(directed):
        return dict(directed[i])
    return mod.generate(case_rng(mod.PROPERTY, seed, i), tier)


class CaseHang(BaseException):
    pass


def run_case(mod, case, ns):
    """Run one case; return (violation or None, info or None)."""
    scratch = tempfile.mkdtemp(prefix=f'sim-{mod.PROPERTY}-', dir=ns.scratch)
    ns.tmp = scratch
    ns.taken = []
    cwd = os.getcwd()
    try:
        ns.omp.reset()
        ns.mem.off()
        ns.files.reset()
        ns.files.root = scratch
        ns.np.random.set_bit_generator(ns.np.random.MT19937(1))
        info = mod.run(case, ns)
        return None, info
    except Violation as v:
        return v, None
    except MemoryError:
        raise
    except Exception as e:
        # an exception which the code under test raises, where the check expects none
        frames = traceback.extract_tb(e.__traceback__)
        if not any(f'{os.sep}pysimulators{os.sep}' in f.filename for f in frames):
            raise
        text = ''.join(traceback.format_list(frames[-4:]))
        return Violation('exception', f'{type(e).__name__}: {e}\n{text}'), None
    finally:
        ns.mem.off()
        ns.omp.reset()
        ns.files.reset()
        ns.files.root = None
        os.chdir(cwd)
        shutil.rmtree(scratch, ignore_errors=True)


def boot(mod):
    from . import env

    ns = env.boot()
    ns.scratch = os.environ.get('VERIF_SCRATCH') or tempfile.mkdtemp(prefix='vsim-')
    os.makedirs(ns.scratch, exist_ok=True)
    if hasattr(mod, 'setup'):
        mod.setup(ns)
    # what is there now stays: collections only look at what runs create
    gc.collect()
    gc.freeze()
    return ns


# ------------------------------------------------------------------ worker
def _worker(mod, ns, seed, tier, todo, deadline, conn, cur, det_every):
    """todo: iterator of case indices (strided)."""
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    agg = {
        'n': 0, 'nontrivial': 0, 'keys': set(), 'faults': Counter(), 'probes': Counter(),
        'stats': Counter(), 'digests': {}, 'samples': [], 'redone': 0, 'diverged': [],
    }
    try:
        for i in todo:
            if time.time() > deadline:
                break
            cur.value = i
            case = make_case(mod, seed, i, tier)
            v, info = run_case(mod, case, ns)
            agg['n'] += 1
            if v is not None:
                conn.send(('violation', i, case, v.cls, v.msg))
                agg['stats']['violating_runs'] += 1
                continue
            agg['nontrivial'] += bool(info.nontrivial)
            if info.nontrivial:
                agg['keys'].add(hashlib.sha1(repr(sorted(info.keys)).encode()).hexdigest()[:16])
            agg['faults'].update(info.faults)
            agg['probes'].update(info.probes)
            agg['stats'].update(info.stats)
            if det_every and i % det_every == 0:
                # determinism: the same case again, in the state this process is in now
                v2, info2 = run_case(mod, case, ns)
                agg['redone'] += 1
                d2 = info2.digest if info2 is not None else f'violation {v2}'
                if d2 != info.digest:
                    agg['diverged'].append(i)
                agg['digests'][i] = info.digest
            if len(agg['samples']) < 1:
                agg['samples'].append({'index': i, 'case': case, 'digest': info.digest})
        cur.value = -1
        conn.send(('done', agg))
    except BaseException:
        conn.send(('error', cur.value, traceback.format_exc()))
    conn.close()
    os._exit(0)


def run_check(mod, tier, seed, nworkers=None, ncases=None, quiet=False):
    t0 = time.time()
    prop = mod.PROPERTY
    scratch = tempfile.mkdtemp(prefix=f'vsim-{prop}-')
    os.environ['VERIF_SCRATCH'] = scratch
    try:
        return _run_check(mod, tier, seed, nworkers, ncases, t0, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def _run_check(mod, tier, seed, nworkers, ncases, t0, scratch):
    prop = mod.PROPERTY
    print(f'{prop}: VERIF_SEED={seed} tier={tier}', flush=True)
    n, secs = mod.BUDGET[tier]
    n = ncases or n
    nworkers = nworkers or int(os.environ.get('VERIF_WORKERS', 0)) or os.cpu_count() or 4
    known = load_known(prop)
    ns = boot(mod)
    t_boot = time.time() - t0
    deadline = time.time() + secs
    ctx = mp.get_context('fork')
    det_every = getattr(mod, 'DET_EVERY', 17)

    class W:
        pass

    workers = []

    def start(todo):
        w = W()
        w.todo = todo
        w.cur = ctx.Value('l', -1, lock=False)
        w.conn, child = ctx.Pipe(False)
        w.p = ctx.Process(
            target=_worker,
            args=(mod, ns, seed, tier, todo, deadline, child, w.cur, det_every),
        )
        w.p.start()
        child.close()
        w.last = (-1, time.time())
        w.finished = False
        workers.append(w)

    for k in range(min(nworkers, n)):
        start(range(k, n, nworkers))
    violations, errors = [], []
    total = {
        'n': 0, 'nontrivial': 0, 'keys': set(), 'faults': Counter(), 'probes': Counter(),
        'stats': Counter(), 'samples': [], 'redone': 0, 'diverged': [],
    }
    restarts = 0
    while any(not w.finished for w in workers):
        conns = [w.conn for w in workers if not w.finished]
        for c in mp.connection.wait(conns, timeout=1.0):
            w = next(w for w in workers if w.conn is c)
            try:
                msg = c.recv()
            except EOFError:
                w.p.join()
                w.finished = True
                code = w.p.exitcode
                i = w.cur.value
                if code == 0:
                    continue
                if i >= 0 and code not in (-signal.SIGKILL, -signal.SIGTERM):
                    case = make_case(mod, seed, i, tier)
                    violations.append((i, case, 'crash', f'the process died (status {code})'))
                    rest = [j for j in w.todo if j > i]
                    if rest and restarts < 3 and len(violations) < 8:
                        restarts += 1
                        start(rest)
                else:
                    errors.append(f'worker died with status {code} in case {i}')
                continue
            if msg[0] == 'violation':
                violations.append(msg[1:])
                novel = [x for x in violations if not is_known(known, x[2], x[1], mod)]
                if len(novel) >= 12 or (novel and time.time() - t0 > secs):
                    deadline = 0
                    for x in workers:
                        if not x.finished:
                            x.p.terminate()
                            x.finished = True
            elif msg[0] == 'error':
                errors.append(f'case {msg[1]}: {msg[2]}')
            else:
                a = msg[1]
                for k in ('n', 'nontrivial', 'redone'):
                    total[k] += a[k]
                total['keys'] |= a['keys']
                for k in ('faults', 'probes', 'stats'):
                    total[k].update(a[k])
                total['samples'] += a['samples']
                total['diverged'] += a['diverged']
        now = time.time()
        for w in workers:
            if w.finished:
                continue
            if w.cur.value != w.last[0]:
                w.last = (w.cur.value, now)
            elif now - w.last[1] > CASE_TIMEOUT and w.cur.value >= 0:
                i = w.cur.value
                w.p.kill()
                w.p.join()
                w.finished = True
                violations.append(
                    (i, make_case(mod, seed, i, tier), 'hang', f'no end after {CASE_TIMEOUT} s (typical: milliseconds)')
                )
    for w in workers:
        w.p.join(5)
    wall = time.time() - t0

    rc = 0
    seen_known = {}
    novel = []
    for v in violations:
        k = is_known(known, v[2], v[1], mod)
        if k:
            seen_known.setdefault(k['id'], k)
        else:
            novel.append(v)
    for k in seen_known.values():
        print(f"KNOWN-FINDING: property={prop} {k['what']}")
    if novel:
        novel.sort(key=lambda v: v[0])
        # one report per class
        classes = {}
        for v in novel:
            classes.setdefault(v[2], v)
        for i, case, cls, msg in list(classes.values())[:3]:
            path = report(mod, ns, seed, tier, i, case, cls, msg)
            print(f'VIOLATION property={prop} replay={path}', flush=True)
        rc = 1
    elif errors:
        rc = 2
    for e in errors[:3]:
        print(f'ERROR {prop}: {e}', file=sys.stderr)
    if total['diverged'] and rc == 0:
        print(f"ERROR {prop}: runs of the same case diverged: {sorted(total['diverged'])[:5]}", file=sys.stderr)
        rc = 3
    minimum = getattr(mod, 'MIN_CASES', {'quick': 1, 'thorough': 1})[tier]
    if rc == 0 and total['n'] < minimum:
        print(f"ERROR {prop}: only {total['n']} cases were run", file=sys.stderr)
        rc = 4
    write_evidence(mod, tier, seed, total, len(novel), wall, t_boot, nworkers, known, seen_known)
    print(
        f"{prop}: {total['n']} runs, {len(total['keys'])} distinct, {len(novel)} violations, "
        f"{len(seen_known)} known findings, {wall:.1f} s",
        flush=True,
    )
    return rc


# ------------------------------------------------------------ known findings
def load_known(prop):
    path = VERIF / 'known_findings.jsonl'
    out = []
    if path.exists():
        for line in path.read_text().splitlines():
            line = line.strip()
            if not line or line.startswith(('#', 'fixed:')):
                continue
            d = json.loads(line)
            if d['property'] == prop:
                out.append(d)
    return out


def is_known(known, cls, case, mod):
    for k in known:
        if k['class'] == cls and all(
            (case.get(a) in b if isinstance(b, list) else case.get(a) == b) for a, b in k.get('case', {}).items()
        ):
            return k
    return None


# ------------------------------------------------------ minimise and report
def _subrun(mod, case, timeout=CASE_TIMEOUT):
    """Run a case in a fresh child of this process. -> (cls, msg) or None"""
    ctx = mp.get_context('fork')
    conn, child = ctx.Pipe(False)

    def target():
        try:
            v, info = run_case(mod, case, mod._ns)
            child.send((v.cls, v.msg) if v else None)
        except BaseException:
            child.send(('harness-error', traceback.format_exc()))
        child.close()
        os._exit(0)

    p = ctx.Process(target=target)
    p.start()
    child.close()
    try:
        if conn.poll(timeout):
            try:
                return conn.recv()
            except EOFError:
                p.join()
                return ('crash', f'the process died (status {p.exitcode})')
        return ('hang', f'no end after {timeout} s')
    finally:
        if p.is_alive():
            p.kill()
        p.join()
        conn.close()


def minimise(mod, case, cls, budget=12.0):
    """Greedy: take any simpler case which fails in the same way."""
    t0 = time.time()
    tried = 0
    if not hasattr(mod, 'shrink'):
        return case, tried
    improved = True
    while improved and time.time() - t0 < budget:
        improved = False
        for cand in mod.shrink(case):
            if time.time() - t0 > budget:
                break
            tried += 1
            r = _subrun(mod, cand, 20)
            if r is not None and r[0] == cls:
                case = cand
                improved = True
                break
    return case, tried


def report(mod, ns, seed, tier, i, case, cls, msg):
    mod._ns = ns
    original = case
    tried = 0
    if cls != 'hang':
        try:
            # pin the schedule first, so that it can be shrunk too
            if hasattr(mod, 'pin'):
                pinned = _pin(mod, case, cls)
                if pinned is not None:
                    case = pinned
            case, tried = minimise(mod, case, cls)
        except Exception:
            traceback.print_exc()
        r = _subrun(mod, case)
        if r is None or r[0] != cls:
            case = original
        else:
            msg = r[1]
    OUT.mkdir(exist_ok=True)
    name = hashlib.sha1(json.dumps(case, sort_keys=True, default=str).encode()).hexdigest()[:12]
    path = OUT / f'{mod.PROPERTY}-{name}.json'
    path.write_text(
        json.dumps(
            {
                'property': mod.PROPERTY, 'class': cls, 'message': msg, 'seed': seed,
                'tier': tier, 'index': i, 'case': case, 'original_case': original,
                'minimisation_attempts': tried,
                'replay': f'cd /verif && ./check replay {path}',
            },
            indent=1, default=str,
        )
    )
    # replay in a fresh interpreter
    env = dict(os.environ)
    env.pop('VERIF_SCRATCH', None)
    try:
        r = subprocess.run(
            [str(VERIF / 'check'), 'replay', str(path)], env=env, capture_output=True,
            text=True, timeout=CASE_TIMEOUT + 100,
        )
        reproduced = r.returncode == 1
    except subprocess.TimeoutExpired:
        reproduced = cls == 'hang'
    print(f'{mod.PROPERTY}: {cls}: {msg[:1500]}')
    print(f'{mod.PROPERTY}: seed {seed}, case {i}; replay in a fresh interpreter: '
          + ('reproduced' if reproduced else 'NOT reproduced'))
    return path


def _pin(mod, case, cls):
    ctx = mp.get_context('fork')
    conn, child = ctx.Pipe(False)

    def target():
        try:
            child.send(mod.pin(case, mod._ns))
        except BaseException:
            child.send(None)
        os._exit(0)

    p = ctx.Process(target=target)
    p.start()
    child.close()
    out = None
    if conn.poll(60):
        try:
            out = conn.recv()
        except EOFError:
            pass
    if p.is_alive():
        p.kill()
    p.join()
    if out is None:
        return None
    r = _subrun(mod, out)
    return out if r is not None and r[0] == cls else None


def replay(path):
    d = json.loads(Path(path).read_text())
    mod = load(d['property'])
    scratch = tempfile.mkdtemp(prefix='vsim-replay-')
    os.environ['VERIF_SCRATCH'] = scratch
    try:
        mod._ns = boot(mod)
        r = _subrun(mod, d['case'])
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    if r is None:
        print(f"{d['property']}: the replayed case does not violate the property")
        return 0
    if r[0] == 'harness-error':
        print(r[1])
        return 2
    print(f"{d['property']}: {r[0]}: {r[1]}")
    print(f"VIOLATION property={d['property']} replay={path}")
    return 1


def load(prop):
    import importlib

    sys.path.insert(0, str(VERIF))
    return importlib.import_module(f'checks.{prop.lower()}')


# ----------------------------------------------------------------- evidence
def write_evidence(mod, tier, seed, total, nviol, wall, t_boot, nworkers, known, seen):
    hours = max(wall - t_boot, 1e-3) / 3600
    cov = {
        'evaluations': total['n'],
        'distinct_nontrivial': len(total['keys']),
        'rule': mod.RULE,
        'samples': total['samples'][:3],
        'nontrivial_runs': total['nontrivial'],
        'runs_per_hour': round(total['n'] / hours),
        'seed': seed,
        'simulated_steps': int(total['stats'].get('steps', 0)),
        'faults_injected': dict(total['faults']),
        'probes': dict(total['probes']),
        'stats': {k: int(v) for k, v in total['stats'].items()},
        'determinism': {
            'runs_repeated': total['redone'],
            'diverged': len(total['diverged']),
        },
        'real_components': mod.REAL,
        'stubbed_components': mod.STUB,
        'workers': nworkers,
        'known_findings_listed': len(known),
        'known_findings_seen': sorted(seen),
    }
    ev = {
        'property': mod.PROPERTY, 'tier': tier, 'seed': seed,
        'level': getattr(mod, 'LEVEL', 'exploration'), 'coverage': cov,
        'assumptions': getattr(mod, 'ASSUMPTIONS', []),
        'wall_s': round(wall, 2), 'violations': nviol,
    }
    d = VERIF / 'evidence'
    d.mkdir(exist_ok=True)
    (d / f'{mod.PROPERTY}.json').write_text(json.dumps(ev, indent=1, default=str) + '\n')


def main(argv):
    if argv[0] == 'replay':
        return replay(argv[1])
    if argv[0] == 'build':
        from . import build

        print(build.build())
        return 0
    prop = argv[0]
    tier = argv[1] if len(argv) > 1 and not argv[1].startswith('--') else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    ncases = None
    if '--cases' in argv:
        ncases = int(argv[argv.index('--cases') + 1])
    return run_check(load(prop), tier, seed, ncases=ncases)


if __name__ == '__main__':
    try:
        from sim.core import main as _main

        rc = _main(sys.argv[1:])
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
