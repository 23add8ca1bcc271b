"""Rewrite the table of the planted bugs of DESIGN.md from the meta.json files."""
import glob, json, os

STRENGTHENED = (
    'c02-stale-operator c05-rank-zero c07-corestrict-dims c11-powerlaw-block c13-error-shared c13-header-shared '
    'c13-median-header c17-psd-altered c11-roll-axes c01-missing-zero c03-origin-given c13-coverage-order c13-tod-mask-order '
    'c04-crpix-float c01-instrument-split c18-latitude-zero c18-broadcast-time c18-center-vertices c18-time-unsorted'
).split()
MISSED = ''.split()
os.chdir('/verif')
s = open('DESIGN.md').read()
head, _, rest = s.partition('|---|---|---|---|\n')
rows = []
for d in sorted(glob.glob('seeded/*') + glob.glob('fortran_plants/*'), key=os.path.basename):
    b = os.path.basename(d)
    m = json.load(open(d + '/meta.json'))
    r = 'missed' if b in MISSED else 'caught after strengthening' if b in STRENGTHENED else 'caught'
    rows.append(f'| {b}{" (Fortran)" if d[0] == "f" else ""} | {m["property"]} | {m["needs"]} | {r} |')
open('DESIGN.md', 'w').write(head + '|---|---|---|---|\n' + '\n'.join(rows) + '\n')
