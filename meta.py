#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the entries below."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
TECH = "deterministic simulation with fault injection (seeded search, replayable minimised traces)"
P, NA = [], []


def prop(id, title, statement, over, text, why, files, mech, note, observe=None, state=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe or [], hook_needed=None))
    if state:
        d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    P.append((d, note))


def na(id, title, statement, over, text, why, files, mech, reason):
    prop(id, title, statement, over, text, why, files, mech, None)
    NA.append(dict(property=id, reason=reason))


COMMON = " Sampling, not proof: a clean run is evidence for the seeds explored. Trusted: the simulator's stand-ins for the C library's streams, allocator, clock and process exit, and the reference model."
exec(open(HERE + "/props_text.py").read())

with open(HERE + "/properties.jsonl", "w") as f:
    for d, _ in P:
        assert len(d["title"]) <= 80, d["id"]
        f.write(json.dumps(d) + "\n")
m = dict(version=1, setup_cmd="python3 check.py --build",
         checks=[dict(property=d["id"], quick_cmd="python3 check.py %s quick" % d["id"], thorough_cmd="python3 check.py %s thorough" % d["id"],
                      technique=TECH, level="exploration", level_note=n + COMMON) for d, n in P if n],
         not_applicable=NA,
         notes="No hooks in /repo: the library is linked with --wrap seams (allocator, clock, rand, streams, exit/abort/assert). Commits in /repo are repairs only.")
with open(HERE + "/MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1); f.write("\n")
