#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from the definitions below."""
import json
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
P, LEVEL = [], {}


def prop(id, title, statement, over, text, why, files, mechanism, observe, state=(), note=None, technique=None,
         level='exploration', na=None, hook=None):
    P.append({
        'id': id, 'title': title, 'statement': statement,
        'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
        'anchors': {'files': files, 'state': [dict(zip(('name', 'meaning', 'where'), s)) for s in state],
                    'mechanism': [dict(zip(('name', 'where'), m)) for m in mechanism], 'observe_at': observe,
                    'hook_needed': hook},
    })
    assert len(title) <= 80, title
    LEVEL[id] = (level, technique, note, na)


exec((Path(__file__).parent / 'properties.py').read_text())

(VERIF / 'properties.jsonl').write_text(''.join(json.dumps(p) + '\n' for p in P))
checks, na = [], []
for p in P:
    level, technique, note, reason = LEVEL[p['id']]
    if reason:
        na.append({'property': p['id'], 'reason': reason})
        continue
    checks.append({
        'property': p['id'], 'quick_cmd': f"./check {p['id']} quick", 'thorough_cmd': f"./check {p['id']} thorough",
        'evidence_file': f"evidence/{p['id']}.json", 'technique': technique, 'level': level, 'level_note': note,
    })
    assert (VERIF / 'checks' / (p['id'].lower() + '.py')).exists(), p['id']
manifest = {
    'version': 1,
    'setup_cmd': 'python3 -m compileall -q sim checks >/dev/null 2>&1; ./check build',
    'hooks': {'guard': 'none', 'enable': 'no hook was needed in /repo: the seams are the mpi4py module, the OpenMP '
              'runtime the kernels are linked with, the allocator of numpy, the open function of the I/O modules '
              'and limits of the process', 'source_commits': []},
    'checks': checks, 'not_applicable': na,
    'notes': 'Deterministic simulation with fault injection; see DESIGN.md. ./check replay <file> replays a violation.',
}
(VERIF / 'MANIFEST.json').write_text(json.dumps(manifest, indent=1) + '\n')
