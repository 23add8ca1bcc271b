"""
Build, from the working tree of the repository, what the simulator needs: the
Fortran kernels (same sources and same f2py wrappers as the shipped extension)
instrumented and linked against the deterministic OpenMP runtime, and the small C
helpers of the simulator. The result goes to /verif/.build/<hash of the inputs>.
"""

import hashlib
import os
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

HERE = Path(__file__).resolve().parent
VERIF = HERE.parent
REPO = Path(os.environ.get('VERIF_REPO', '/repo'))
FLIB = REPO / 'src' / 'flib'
F2CMAP = """{
    'integer': {'int8': 'char', 'int16': 'short', 'int32': 'int', 'int64': 'long_long'},
    'real': {'real32': 'float', 'real64': 'double', 'p': 'double'},
    'complex': {'real32': 'complex_float', 'real64': 'complex_double'},
}
"""


class BuildError(Exception):
    pass


def _run(cmd, cwd):
    r = subprocess.run(cmd, cwd=cwd, capture_output=True, text=True)
    if r.returncode:
        raise BuildError(
            f"{' '.join(map(str, cmd))}\n{r.stdout[-3000:]}\n{r.stderr[-3000:]}"
        )
    return r.stdout


def _meson_list(text, name):
    m = re.search(rf'^{name}\s*=\s*\[(.*?)\]', text, re.S | re.M)
    if not m:
        raise BuildError(f'{name} not found in src/flib/meson.build')
    return re.findall(r"'([^']+)'", m.group(1))


def key():
    h = hashlib.sha256()
    paths = sorted(p for p in FLIB.iterdir() if p.is_file())
    paths += sorted((REPO / 'tools').glob('*.py'))
    paths += sorted((HERE / 'csrc').iterdir()) + [HERE / 'build.py']
    for p in paths:
        h.update(p.name.encode() + b'\0' + p.read_bytes() + b'\0')
    return h.hexdigest()[:20]


def _waves(srcs, d):
    """Order Fortran sources so that modules are compiled before their users."""
    provides, uses = {}, {}
    for s in srcs:
        t = (d / s).read_text().lower()
        provides[s] = set(re.findall(r'^\s*module\s+(?!procedure\b)(\w+)', t, re.M))
        uses[s] = set(re.findall(r'^\s*use\s*(?:,\s*\w+\s*::)?\s*(\w+)', t, re.M))
    allmods = set().union(*provides.values())
    done, left = set(), list(srcs)
    while left:
        ready = [
            s for s in left if (uses[s] & allmods) - provides[s] <= done
        ]
        if not ready:
            raise BuildError(f'circular module dependencies: {left}')
        yield ready
        for s in ready:
            done |= provides[s]
        left = [s for s in left if s not in ready]


def build():
    out = VERIF / '.build' / key()
    if (out / 'ok').exists():
        return out
    out.parent.mkdir(exist_ok=True)
    work = Path(tempfile.mkdtemp(prefix='wip-', dir=out.parent))
    try:
        _build(work)
        (work / 'ok').write_text('')
        try:
            os.rename(work, out)
        except OSError:
            if not (out / 'ok').exists():
                raise
    finally:
        if work.exists():
            shutil.rmtree(work)
    return out


def _build(d):
    import numpy
    import numpy.f2py
    import sysconfig

    text = (FLIB / 'meson.build').read_text()
    pool = ThreadPoolExecutor(os.cpu_count() or 4)
    list(
        pool.map(
            lambda t: _run(
                [
                    sys.executable,
                    REPO / 'tools' / 'generate_fortran.py',
                    FLIB / t,
                    '-o',
                    d,
                    '--precision-real',
                    '8',
                ],
                d,
            ),
            _meson_list(text, 'template_files'),
        )
    )
    for p in FLIB.glob('*.f90'):
        shutil.copy(p, d)
    fmod = _meson_list(text, 'fmod_sources') + _meson_list(text, 'fmod_generated')
    flib = _meson_list(text, 'flib_sources') + _meson_list(text, 'flib_generated')
    (d / '.f2py_f2cmap').write_text(F2CMAP)
    f2py = pool.submit(
        _run,
        [
            sys.executable,
            REPO / 'tools' / 'generate_f2py_wrappers.py',
            '--output-dir',
            d,
            '--module-name',
            '_flib',
        ]
        + flib,
        d,
    )
    fflags = (
        '-cpp -fpack-derived -DNDEBUG -D_FILE_OFFSET_BITS=64 -DGFORTRAN '
        '-DPRECISION_REAL=8 -fPIC -fopenmp -O0 -g1 -fsanitize=thread '
        '-fvisibility=hidden -w'
    ).split()
    objs = []

    def fc(s):
        o = s.replace('.f90', '.o')
        objs.append(o)
        _run(['gfortran', *fflags, '-c', s, '-o', o], d)

    inc = [
        '-I' + numpy.get_include(),
        '-I' + numpy.f2py.get_include(),
        '-I' + sysconfig.get_paths()['include'],
        '-I' + sysconfig.get_paths()['platinclude'],
    ]
    cflags = ['-fPIC', '-O1', '-w', *inc]
    fortranobject = os.path.join(numpy.f2py.get_include(), 'fortranobject.c')

    def cc(src, o, *more):
        objs.append(o)
        _run(['gcc', *cflags, *more, '-c', src, '-o', o], d)

    futs = [
        pool.submit(cc, fortranobject, 'fortranobject.o', '-fvisibility=hidden'),
        pool.submit(
            cc, HERE / 'csrc' / 'simomp.c', 'simomp.o', '-O2', '-fvisibility=hidden'
        ),
    ]
    for wave in _waves(fmod, d):
        list(pool.map(fc, wave))
    f2py.result()
    wrappers = [p.name for p in d.glob('_flib-f2pywrappers*') if p.suffix != '.o']
    futs.append(pool.submit(cc, '_flibmodule.c', '_flibmodule.o', '-fvisibility=hidden'))
    for wave in _waves(flib, d):
        list(pool.map(fc, wave))
    for w in wrappers:
        o = w + '.o'
        objs.append(o)
        futs.append(
            pool.submit(_run, ['gfortran', *fflags, '-c', w, '-o', o], d)
        )
    for f in futs:
        f.result()
    _run(
        [
            'gcc',
            '-shared',
            '-Wl,-Bsymbolic',
            '-Wl,--wrap=malloc',
            '-Wl,--wrap=realloc',
            '-Wl,-z,now',
            '-o',
            '_flib.so',
            *sorted(objs),
            '-lgfortran',
            '-lm',
        ],
        d,
    )
    _run(
        [
            'gcc',
            *cflags,
            '-shared',
            HERE / 'csrc' / 'simmem.c',
            '-o',
            'simmem.so',
        ],
        d,
    )
    for p in d.iterdir():
        if p.suffix not in ('.so',):
            p.unlink()


if __name__ == '__main__':
    print(build())
