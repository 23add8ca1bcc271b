"""mkbug.py: read a description on stdin and write /verif/seeded/<id>/.

id: ..., property: ..., needs: ..., breaks: ..., file: ... (several), then
<<<<  old  ====  new  >>>> blocks (after the file they apply to), then DEMO (py or mpi N) and a python program.
"""
import json, os, re, subprocess, sys

R = os.environ.get('MKREPO', '/repo')
text = sys.stdin.read()
head, demo = re.split(r'^DEMO(?=[ \n])', text, maxsplit=1, flags=re.M)
kind, demo = demo.split('\n', 1)
f = lambda k: re.search(rf'^{k}: *(.*)$', head, re.M).group(1).strip()
d = f'/verif/seeded/{f("id")}'
os.makedirs(d, exist_ok=True)
assert not subprocess.run(['git', '-C', R, 'status', '--porcelain'], capture_output=True).stdout
try:
    for m in re.finditer(r'^file: *(\S+)$(.*?)(?=^file:|\Z)', head, re.M | re.S):
        p = R + '/' + m.group(1)
        s = open(p).read()
        for b in re.finditer(r'^<<<<\n(.*?)^====\n(.*?)^>>>>$', m.group(2), re.M | re.S):
            n = s.count(b.group(1))
            if n != 1:
                sys.exit(f'{n} matches in {p}: {b.group(1)}')
            s = s.replace(b.group(1), b.group(2))
        open(p, 'w').write(s)
    diff = subprocess.run(['git', '-C', R, 'diff'], capture_output=True, text=True).stdout
finally:
    subprocess.run(['git', '-C', R, 'checkout', '-q', '--', '.'])
open(f'{d}/patch.diff', 'w').write(diff)
json.dump({'property': f('property'), 'needs': f('needs'), 'what_it_breaks': f('breaks')}, open(f'{d}/meta.json', 'w'), indent=1)
open(f'{d}/demo.py', 'w').write(demo)
sh = '''#!/bin/bash
here="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/env.sh
'''
k = kind.split()
if k and k[0] == 'mpi':
    sh += f'''export PYTHONPATH=/opt/mpi4py OMP_NUM_THREADS=1 DEMO_MPI=1
export OMPI_MCA_btl=self,vader OMPI_MCA_btl_vader_single_copy_mechanism=none
export OMPI_MCA_plm=isolated OMPI_MCA_rmaps_base_oversubscribe=1
scratch=$(mktemp -d)
trap 'rm -rf "$scratch"' EXIT
cd "$scratch"
python -c "import pysimulators" || exit 3
timeout -k 5 60 mpirun --allow-run-as-root --oversubscribe -np {k[1]} python "$here/demo.py"
'''
else:
    env = ' '.join(k[1:])
    sh += f'''scratch=$(mktemp -d)
trap 'rm -rf "$scratch"' EXIT
cd "$scratch"
{'export ' + env if env else ''}
timeout -k 5 200 python "$here/demo.py"
'''
open(f'{d}/demo.sh', 'w').write(sh)
print(diff)
# lines which are not of the original repository
path = line = None
for l in diff.splitlines():
    if l.startswith('--- '):
        path = l[6:]
    elif l.startswith('@@'):
        line = int(re.match(r'@@ -(\d+)', l).group(1))
    elif l[:1] in ' -' and path:
        if l[0] == '-':
            b = subprocess.run(['git', '-C', R, 'blame', '-s', '-L', f'{line},{line}', 'HEAD', '--', path],
                               capture_output=True, text=True).stdout
            if not b.lstrip('^').startswith('7269491'[:7]):
                print('NOT ORIGINAL:', b, end='')
        line += 1
