"""Writes DESIGN.md (run with /opt/venv/bin/python)."""
import importlib
import json
import os
import sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.insert(0, "/repo")
from mc.run import registry  # noqa

reg = registry()
props = [json.loads(line) for line in open(os.path.join(HERE, "properties.jsonl"))]
out = [open(os.path.join(HERE, "tools/design_head.md")).read().rstrip(), ""]
costs_file = os.path.join(HERE, "tools/costs.json")
costs = json.load(open(costs_file)) if os.path.exists(costs_file) else {}
for p in props:
    i = p["id"]
    ev = os.path.join(HERE, "evidence", i + ".json")
    if os.path.exists(ev):
        d = json.load(open(ev))
        c = d["coverage"]
        costs.setdefault(i, {})[d["tier"]] = {
            "cases": c.get("cases"), "states": c.get("states"), "transitions": c.get("transitions"),
            "traces": c.get("traces_validated_against_impl"), "seconds": round(d.get("wall_s", d.get("seconds", 0)) or 0)}
json.dump(costs, open(costs_file, "w"), indent=1, sort_keys=True)
for p in props:
    i = p["id"]
    m = importlib.import_module(reg[i])
    out += [f"### {i} {p['title']}", "",
            f"*Space*: {p['quantifier']['text']}.", "",
            f"*Beyond the tests*: {p['why_tests_cant']}", "",
            f"*Decided by*: {m.TECHNIQUE}.", "",
            m.NOTE, "",
            f"*Bounds*: quick: {m.BOUND['quick']}. thorough: {m.BOUND['thorough']}.", ""]
    if m.ASSUMPTIONS:
        out += ["*Assumptions*: " + "; ".join(m.ASSUMPTIONS) + ".", ""]
    for tier, c in sorted(costs.get(i, {}).items()):
        out += [f"*Cost ({tier}, 8 cores)*: {c['cases']} cases, {c['states']} states, {c['transitions']} transitions, "
                f"{c['traces']} traces on the implementation, {c['seconds']} s.", ""]
    doc = (m.__doc__ or "").strip()
    if doc:
        out += ["*Notes of the module*: " + " ".join(doc.split()), ""]
kf = json.load(open(os.path.join(HERE, "known_findings.json")))
out += ["## 4. Defects found", "",
        "Every one was first seen as a violation on the unchanged tree and reproduced against the real code. "
        "Repaired ones are \"fix:\" commits in /repo (small, general corrections; the tests pass unedited):", ""]
out += ["* " + f[len("fixed: "):] for f in kf["fixed"]]
out += ["", "Recorded and not repaired (a repair needs a redesign, see below):", ""]
for f in kf["findings"]:
    out += [f"* {f['property']}: {f['what']}"]
out += ["", open(os.path.join(HERE, "tools/design_tail.md")).read().strip(), "", "## 7. Planted bugs", "",
        "Kept in `seeded/` (patch, demonstration, meta). The last column: checks that were run against the bug and "
        "reported it (quick tier); the property's own check is named first.", "",
        "| bug | property | needs | caught by | missed at first |", "|---|---|---|---|---|"]
pl = os.path.join(HERE, "tools/planted.json")
planted = json.load(open(pl)) if os.path.exists(pl) else {}
for b in sorted(os.listdir(os.path.join(HERE, "seeded"))):
    meta = json.load(open(os.path.join(HERE, "seeded", b, "meta.json")))
    r = planted.get(b, {})
    out += [f"| {b} | {meta['property']} | {meta['needs']} | {', '.join(k for k, v in sorted(r.get('checks', {}).items(), key=lambda x: (x[0] != meta['property'], x[0])) if v == 1)} | {r.get('history', '')} |"]
with open(os.path.join(HERE, "DESIGN.md"), "w") as f:
    f.write("\n".join(out) + "\n")
