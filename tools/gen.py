#!/usr/bin/env python3
"""Single source of the property list. Writes properties.jsonl, checks.json, MANIFEST.json and the
per-property part of DESIGN.md (tools/design_head.md + this + tools/design_tail.md)."""
import json, os, re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
CORE, ALGO, DER, IO = "pasture-core/src/", "pasture-algorithms/src/", "pasture-derive/src/", "pasture-io/src/"


def prop(id, crate, title, statement, over, quant, why, files, mech, rule, how, assume=(), level_note="", observe=(), state=()):
    assert len(title) <= 80, title
    P.append(dict(id=id, crate=crate, title=title, statement=statement, over=over, quant=quant, why=why, files=files,
                  mech=mech, rule=rule, how=how, assume=list(assume), level_note=level_note, observe=list(observe), state=list(state)))


exec(open(os.path.join(HERE, "tools", "props.py")).read())

built = {}
for c in os.listdir(os.path.join(HERE, "mc")):
    m = os.path.join(HERE, "mc", c, "src", "main.rs")
    if os.path.exists(m):
        for i in re.findall(r'p\("(C\d+)"', open(m).read()):
            built[i] = c

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "hook_needed": None}
        if p["state"]:
            a["state"] = [dict(zip(("name", "meaning", "where"), s)) for s in p["state"]]
        if p["observe"]:
            a["observe_at"] = p["observe"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                            "quantifier": {"over": p["over"], "text": p["quant"]}, "why_tests_cant": p["why"], "anchors": a}) + "\n")

json.dump({p["id"]: {"crate": p["crate"], "rule": p["rule"], "assumptions": p["assume"]} for p in P if p["id"] in built},
          open(os.path.join(HERE, "checks.json"), "w"), indent=1)

NOTE = ("Bounded-exhaustive: every execution of the real code within the stated alphabet and bounds is run and compared "
        "with an independent reference model on every step; nothing is claimed outside the bounds. ")
man = {
    "version": 1,
    "setup_cmd": "python3 check.py --setup",
    "checks": [{
        "property": p["id"],
        "quick_cmd": f"python3 check.py {p['id']} --tier quick",
        "thorough_cmd": f"python3 check.py {p['id']} --tier thorough",
        "evidence_file": f"evidence/{p['id']}.json",
        "technique": "stateless model checking: exhaustive bounded exploration of the real code against a reference model",
        "level": "model_checking",
        "level_note": (NOTE + p["level_note"]).strip(),
    } for p in P if p["id"] in built],
    "not_applicable": [{"property": p["id"], "reason": NA.get(p["id"], "no check is registered for it yet (see DESIGN.md)")}
                       for p in P if p["id"] not in built],
    "notes": "No hooks in /repo are needed: every property is observed through public interfaces; the explorers link the crates of /repo by path.",
}
json.dump(man, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)

with open(os.path.join(HERE, "DESIGN.md"), "w") as f:
    f.write(open(os.path.join(HERE, "tools", "design_head.md")).read())
    f.write("\n## The properties, one by one\n\n")
    for p in P:
        f.write(f"### {p['id']} — {p['title']}\n\n{p['statement']}\n\n")
        if p["id"] in built:
            f.write(f"*Decided by* `mc/{p['crate']}`. {p['how']}\n\n*Explored (quick / thorough):* {p['rule']}\n\n")
            if p["assume"]:
                f.write("*Trusted / not covered:* " + " ".join(p["assume"]) + "\n\n")
        else:
            f.write("*Not claimed:* " + NA.get(p["id"], "no check yet") + "\n\n")
    found = [json.loads(l) for l in open(os.path.join(HERE, "KNOWN_FINDINGS.jsonl")) if l.strip()]
    found = "\n".join(f"* {d['property']} ({d['commit']}): " + d["what"].split(d["commit"], 1)[1].strip() for d in found if d["status"] == "fixed")
    f.write(open(os.path.join(HERE, "tools", "design_tail.md")).read().replace("@FINDINGS@", found))
    rows = ["| bug | property | needs | breaks | caught |", "|---|---|---|---|---|"]
    seeded = os.path.join(HERE, "seeded")
    for b in sorted(os.listdir(seeded)) if os.path.isdir(seeded) else []:
        m = json.load(open(os.path.join(seeded, b, "meta.json")))
        rows.append(f"| {b} | {m['property']} | {m['needs']} | {m['what_it_breaks']} | {'no' if b in MISSED else 'yes, by ' + m['property']} |")
    f.write(open(os.path.join(HERE, "tools", "caught.md")).read().replace("@TABLE@", "\n".join(rows)))
print(len(P), "properties,", len(built), "checks")
