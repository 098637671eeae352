#!/usr/bin/env python3
"""Writes MANIFEST.json from this table."""
import json, subprocess
T = {}
exec(open('/verif/claims.py').read())
props = [json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
checks = []
for p in props:
    if p in CLAIMS:
        tech, level, note = CLAIMS[p]
        checks.append(dict(property=p, quick_cmd=f"bash /verif/check.sh {p} quick", thorough_cmd=f"bash /verif/check.sh {p} thorough", evidence_file=f"/verif/evidence/{p}.json", technique=tech, level=level, level_note=note))
m = dict(version=1, setup_cmd="bash /verif/setup.sh", hooks=dict(guard="none", enable="none needed: the checks use the public API and the wire", source_commits=[]), checks=checks,
         not_applicable=[dict(property=p, reason=NA.get(p, "not built yet")) for p in props if p not in CLAIMS], notes=NOTES)
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
