"""Writes MANIFEST.json from the properties and the registry of checks"""
import json
import sys
from pathlib import Path

V = Path(__file__).resolve().parent.parent
sys.path.insert(0, str(V / 'harness'))
from registry import CHECKS, NOTES  # noqa: E402

props = [json.loads(x) for x in (V / 'properties.jsonl').read_text().splitlines()]
TECH = 'TLA+ specification checked with TLC; TLC replays histories of the real code through its actions (trace validation)'
out = dict(version=1, setup_cmd='bash ./setup.sh', checks=[], not_applicable=[])
for p in props:
    i = p['id']
    if i in CHECKS:
        out['checks'].append(dict(property=i, quick_cmd=f'VERIF_TIER=quick ./check {i}', thorough_cmd=f'VERIF_TIER=thorough ./check {i}',
                                  technique=TECH, level='model_checking', level_note=NOTES[i]))
    else:
        out['not_applicable'].append(dict(property=i, reason='No check has been built yet.'))
(V / 'MANIFEST.json').write_text(json.dumps(out, indent=1) + '\n')
