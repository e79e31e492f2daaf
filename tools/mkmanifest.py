#!/usr/bin/env python3
# Writes MANIFEST.json from the properties and the table below.
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
notes = json.load(open(os.path.join(here, 'tools', 'levels.json')))
m = {
 "version": 1,
 "setup_cmd": "./run.sh setup",
 "hooks": {
  "guard": "none in /repo: the simulator rewrites a scratch copy of the sources at build time (go build -overlay) from /repo's working tree",
  "enable": "/verif/run.sh builds /verif/tools/instr, rewrites the packages of /repo into a scratch overlay and builds the harness with it; the shipped build never sees it",
  "source_commits": [],
 },
 "checks": [], "not_applicable": [],
 "notes": "Every check runs seeded simulated executions of the real code until its time budget is over (quick about 30 s, thorough about 10 min) on 8 worker processes; a violation is confirmed in a fresh process, minimised and written as a replay file: ./run.sh replay FILE repeats it exactly.",
}
for p in props:
    i = p['id']
    if i not in notes:
        m["not_applicable"].append({"property": i, "reason": "check not built yet"})
        continue
    m["checks"].append({
        "property": i,
        "quick_cmd": "./run.sh check " + i,
        "thorough_cmd": "VERIF_TIER=thorough ./run.sh check " + i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": "deterministic simulation with fault injection: " + notes[i][0],
        "level": "exploration",
        "level_note": notes[i][1],
    })
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
