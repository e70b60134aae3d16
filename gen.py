#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py."""
import json, os, re
V = os.path.dirname(os.path.abspath(__file__))
import props as P
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for i, p in P.PROPS.items():
        assert len(p["title"]) <= 80, (i, len(p["title"]))
        n = len(re.findall(r"[.!?](?:\s|$)", p["statement"]))
        assert n <= 3, (i, n, "sentences")
        for x in p["files"]:
            assert os.path.exists(os.path.join("/repo", x)), x
        a = {"files": p["files"], "mechanism": p["mechanism"]}
        if p["state"]:
            a["state"] = p["state"]
        if p["observe"]:
            a["observe_at"] = p["observe"]
        a["hook_needed"] = None
        f.write(json.dumps({"id": i, "title": p["title"], "statement": p["statement"],
                            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"], "anchors": a}) + "\n")
    for x in P.NOT_APPLICABLE:
        if "line" in x:
            f.write(json.dumps(x["line"]) + "\n")
m = {
    "version": 1,
    "setup_cmd": "python3 build.py",
    "checks": [{
        "property": i,
        "quick_cmd": "python3 run.py %s --tier quick" % i,
        "thorough_cmd": "python3 run.py %s --tier thorough" % i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": p["technique"],
        "level": "exploration",
        "level_note": p["note"],
    } for i, p in P.PROPS.items()],
    "not_applicable": [{"property": x["property"], "reason": x["reason"]} for x in P.NOT_APPLICABLE],
    "notes": "Property-based testing and fuzzing with the engine in engine/ (see DESIGN.md). Recorded findings: known-findings.txt.",
}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")

# ---- DESIGN.md
import glob
targets = {}
for f in sorted(glob.glob(os.path.join(V, "harness", "*.cpp"))):
    for a in re.findall(r"^TARGET(?:_F)?\((\w+), (\w+), (\d+), (\d+)", open(f).read(), re.M):
        targets.setdefault(a[0], []).append(a[1:])
fixed = {}
for l in open(os.path.join(V, "known-findings.txt")):
    a = re.match(r"fixed: property=(\w+) (\w+) (.*)", l)
    if a:
        fixed.setdefault(a.group(1), []).append((a.group(2), a.group(3)))
planted, caught = {}, {}
cf = os.path.join(V, "catches.txt")
if os.path.exists(cf):
    for l in open(cf):
        a = l.split(None, 2)
        if len(a) >= 2:
            caught[a[0]] = " ".join(a[1:]).strip()
for d in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    mt = json.load(open(d))
    planted.setdefault(mt["property"], []).append((os.path.basename(os.path.dirname(d)), mt))
s = ""
for i, p in P.PROPS.items():
    s += "### %s. %s\n\n" % (i, p["title"])
    s += "*Generated:* %s Targets (`harness/%s.cpp`): %s.\n" % (p["text"], p["harness"], ", ".join("`%s` (%s quick, %s thorough)" % (a, format(int(b) * 8, ","), format(int(c) * 8, ",")) for a, b, c in targets[i]))
    s += "*Oracle:* %s\n" % p["note"]
    s += "*Non-trivial:* %s\n" % p["rule"]
    if p["assumptions"]:
        s += "*Bounds:* %s\n" % " ".join(p["assumptions"])
    s += "*Why tests can't settle it:* %s\n" % p["why"]
    if i in fixed:
        s += "*Defects repaired:* %d (%s).\n" % (len(fixed[i]), ", ".join(c for c, _ in fixed[i]))
    s += "\n"
t = "| planted bug | property | needs | result |\n|---|---|---|---|\n"
for i in P.PROPS:
    for n, mt in planted.get(i, []):
        t += "| %s | %s | %s | %s |\n" % (n, i, str(mt["needs"]).replace("|", "/").replace("\n", " "), caught.get(n, "not run"))
dp = os.path.join(V, "DESIGN.md")
d = open(dp).read()
for tag, body in (("properties", s), ("planted", t)):
    a, b = "<!-- %s -->\n" % tag, "<!-- /%s -->" % tag
    d = d[:d.index(a) + len(a)] + body + d[d.index(b):]
open(dp, "w").write(d)
