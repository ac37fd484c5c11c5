"""Writes MANIFEST.json from properties.jsonl and the parts that exist."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from harness import parts

TECH = {"history": "stateful model-based PBT (Hypothesis) of the real server on a virtual clock, against a reference model"}
EXTRA = {
    "C13": "grammar-based generation and mutation of configuration texts against an independent parser/validator",
    "C25": "generated argument vectors and output faults against an exit-status contract",
    "C27": "generated TLS faults at the token server; oracle: no application data sent",
}
NOTE = ("Exploration: holds on every generated case (counts in the evidence file), not proven beyond them. Trusts the reference model in harness/engine.py, "
        "the LD_PRELOAD clock shim and the loopback stand-ins for token servers, browsers and $SHELL; the server is the unmodified binary built from /repo.")
checks = []
na = []
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)
    i = p["id"]
    if not parts.parts(i):
        na.append(dict(property=i, reason="check under construction"))
        continue
    t = [EXTRA[i]] if i in EXTRA else []
    if any(x.name == "history" for x in parts.parts(i)):
        t.append(TECH["history"])
    t += [x.technique for x in parts.parts(i) if getattr(x, "technique", None)]
    checks.append(dict(property=i, quick_cmd="./check " + i, thorough_cmd="./check " + i, evidence_file="evidence/%s.json" % i, technique="; ".join(t),
                       level="exploration", level_note=NOTE))
m = dict(version=1, setup_cmd="PYTHONPATH=. python3-vt -m harness.build", checks=checks, not_applicable=na,
         notes="No hooks in /repo: every check drives the real binary from outside. ./check reads VERIF_SEED and VERIF_TIER.")
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
