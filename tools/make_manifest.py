#!/usr/bin/env python3
""" Regenerates /verif/MANIFEST.json from dsim/meta.py and properties.jsonl. """
import json, os, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
from dsim.meta import PROPS, NOT_APPLICABLE  # noqa: E402
ids = [json.loads(l)['id'] for l in open(os.path.join(VERIF, 'properties.jsonl'))]
checks, na = [], []
for i in ids:
    if i in PROPS:
        m = PROPS[i]
        note = ("Seeded search over schedules, histories and fault sequences of the real code; assurance is statistical, no exhaustiveness is claimed. "
                + "Real: " + "; ".join(m['real']) + ". Stub: " + "; ".join(m['stub']) + ".")
        if m['assumptions']:
            note += " Assumes: " + "; ".join(m['assumptions']) + "."
        checks.append(dict(property=i, quick_cmd=f"bash check.sh {i} quick", thorough_cmd=f"bash check.sh {i} thorough",
                           evidence_file=f"evidence/{i}.json",
                           technique="deterministic simulation with fault injection (seeded schedule and fault search, reference-model oracle, minimised replay)",
                           level="exploration", level_note=note))
    else:
        na.append(dict(property=i, reason=NOT_APPLICABLE.get(i, "not built yet")))
json.dump(dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na,
               notes="No hooks in /repo: all seams (clock, ray, filesystem, random sources, environments, tensorboard writer) are reached by dependency injection or "
                     "by replacing modules before coax is imported. Genuine defects were repaired with fix: commits, see known-findings.txt."),
          open(os.path.join(VERIF, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks;', len(na), 'not applicable')
