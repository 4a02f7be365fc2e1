#!/usr/bin/env python3
"""Single source for properties.jsonl and MANIFEST.json: python3 tools/gen.py"""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, binary, note, state=None):
    assert len(title) <= 80, (id, len(title))
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                     "observe_at": observe, "hook_needed": False}}
    P.append((d, binary, note))
exec(open(os.path.join(ROOT, "tools", "props.py")).read())
NA = globals().get("NOT_APPLICABLE", [])
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for d, _, _ in P:
        f.write(json.dumps(d) + "\n")
TECH = "deterministic simulation with fault injection: seeded schedule/fault search over the real code under a libc-level simulator"
checks = [{"property": d["id"],
           "quick_cmd": f"bash /verif/check.sh {b} {d['id']} quick",
           "thorough_cmd": f"bash /verif/check.sh {b} {d['id']} thorough",
           "technique": TECH, "level": "exploration", "level_note": note,
           "evidence_file": f"evidence/{d['id']}.json"} for d, b, note in P if b]
man = {"version": 1, "setup_cmd": "bash /verif/setup.sh",
       "hooks": {"guard": "none: /repo is unmodified apart from fix: commits",
                 "enable": "the checks compile /repo's crates with compiler edge instrumentation (sancov trace-pc-guard, added by RUSTC_WRAPPER=/verif/sim/rustc-wrap.sh) and interpose libc at link time; no source hooks are needed",
                 "source_commits": []},
       "checks": checks, "not_applicable": NA,
       "notes": "One seed is one exactly repeatable execution; replay a file with: /verif/target/debug/<sim_comp|sim_lsp> replay FILE (the property's binary is named in its quick_cmd)."}
json.dump(man, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties,", len(checks), "claimed")
