"""Regenerates MANIFEST.json from props.py (claimed) and the N.. list (not applicable)."""
import json, os, sys, subprocess
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
 "N01": "A pure function of the digits: no scheduling, time, I/O, allocation or multi-party behaviour for a simulation to vary; generating digit strings would be property testing, not this technique.",
 "N02": "A pure function of the code unit sequence; nothing in it depends on delivery, faults or interleaving (that delivery does not matter at all is C04).",
 "N03": "A finite table look-up per code point, decided by comparing the table with the Unicode data (not available offline); nothing to simulate.",
 "N04": "A pure function of grammar and token sequence; no fault, schedule or history enters (delivery and faults are covered by C04, C07, C10).",
 "N05": "A pure function of input and position; no source of nondeterminism to control.",
 "N06": "A pure function of the literal set and the text; no source of nondeterminism to control.",
 "N07": "A pure function of grammar and input nesting; no source of nondeterminism to control (isolation of the depth counter between parses is C08).",
}
TECH = "deterministic simulation with seeded fault injection: "
checks = []
for p, P in sorted(PROPS.items()):
    checks.append(dict(property=p, quick_cmd="./check %s --tier quick" % p, thorough_cmd="./check %s --tier thorough" % p,
                       technique=TECH + P["tech"], level=P["level"], level_note=P["note"]))
lines = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
na = [dict(property=l["id"], reason=NA.get(l["id"], "check under construction")) for l in lines if l["id"] not in PROPS]
m = dict(version=1, setup_cmd="python3 tools/setup.py", hooks=dict(guard="none (no hooks were needed)", enable="nothing to enable: every seam is a public extension point or a link-time interposition", source_commits=[]),
         checks=checks, not_applicable=na, notes="Replay a violation with: ./check <property> --replay <file>")
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
