"""writes properties.jsonl, MANIFEST.json and the generated part of DESIGN.md"""
import json
import os
import re
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
V = os.path.dirname(HERE)
from propdata import P  # noqa: E402
import na  # noqa: E402

have = [p for p in sorted(P, key=lambda p: p["id"]) if os.path.exists(os.path.join(V, "vz/props/%s.py" % p["id"].lower()))]
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in have + na.NA:
        d = dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["q"]),
                 why_tests_cant=p["why"],
                 anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]], hook_needed=None))
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(d) + "\n")
checks = []
for p in have:
    checks.append(dict(property=p["id"], quick_cmd="/verif/run.sh %s quick" % p["id"], thorough_cmd="/verif/run.sh %s thorough" % p["id"],
                       technique="symbolic execution of the real Python functions, SMT (z3/cvc5) verdict per path, counterexamples replayed on the real code",
                       level="model_checking",
                       level_note="Every input within the bounds (%s). %s" % (p["bounds"], p["note"])))
json.dump(dict(version=1, setup_cmd="/verif/run.sh setup", checks=checks,
               not_applicable=[dict(property=n["id"], reason=n["reason"]) for n in na.NA],
               notes="No hooks: the engine substitutes numpy in the loaded modules of the package at run time."),
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
out = []
for p in have:
    out.append("### %s %s\n\n%s\n\n- How it is decided: %s\n- Bounds: %s. Outside the bounds: not covered.\n- Trusted/assumed: %s\n- Beyond the tests: %s\n" % (
        p["id"], p["title"], p["statement"], p["how"], p["bounds"], p["note"], p["why"]))
for n in na.NA:
    out.append("### %s %s (not applicable)\n\n%s\n\n- Reason: %s\n" % (n["id"], n["title"], n["statement"], n["reason"]))
f = os.path.join(V, "DESIGN.md")
s = open(f).read()
s = re.sub(r"<!-- GEN -->.*<!-- /GEN -->", lambda m: "<!-- GEN -->\n" + "\n".join(out) + "<!-- /GEN -->", s, flags=re.S)
open(f, "w").write(s)
