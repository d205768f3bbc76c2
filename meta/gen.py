#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from meta/props*.py (one place to keep them in step)."""
import json, os, subprocess, importlib.util
here = os.path.dirname(os.path.abspath(__file__))
props = []
for f in ("props_core", "props_langs", "props_tools"):
    p = os.path.join(here, f + ".py")
    if not os.path.exists(p): continue
    spec = importlib.util.spec_from_file_location(f, p); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
    props += m.PROPS
props.sort(key=lambda p: p["id"])
# every check but these also has a space of large cases, one per shape and size
NO_SIZES = {"P19", "P21"}
for p in props:
    if p["id"] not in NO_SIZES: p["for_all"] += "; and a few shapes of large case at every small size and on both sides of the powers of two"
with open(os.path.join(here, "..", "properties.jsonl"), "w") as o:
    for p in props:
        o.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["for_all"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "observe_at": p["observe"], "hook_needed": p.get("hook")},
        }, ensure_ascii=False) + "\n")
checks = [{
    "property": p["id"], "quick_cmd": f"./run.sh quick {p['id']}", "thorough_cmd": f"./run.sh thorough {p['id']}",
    "evidence_file": f"evidence/{p['id']}.json",
    "technique": p["technique"], "level": "model_checking", "level_note": p["note"]} for p in props if p.get("claim", True)]
na = [{"property": p["id"], "reason": p["reason"]} for p in props if not p.get("claim", True)]
hooks = subprocess.run(["git", "-C", "/repo", "log", "--format=%h", "--grep", "^hook:"], capture_output=True, text=True).stdout.split()
man = {
    "version": 1, "setup_cmd": "./setup.sh",
    "hooks": {"guard": "cfg(oak_mc)", "enable": "RUSTFLAGS='--cfg oak_mc' (set by env.sh, which run.sh sources)", "source_commits": hooks},
    "checks": checks, "not_applicable": na,
    "notes": "Every check builds its harness crate (mc/core, mc/langs or mc/tools) against /repo's working tree and enumerates its bounded space in parallel worker processes; see DESIGN.md. Generated by meta/gen.py.",
}
json.dump(man, open(os.path.join(here, "..", "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
print(len(props), "properties,", len(checks), "checks")
# what each check reports about itself
import re
for c in ("core", "langs", "tools"):
    p = os.path.join(here, "..", "mc", c, "src", "main.rs")
    if not os.path.exists(p): continue
    s = old = open(p).read()
    for q in props:
        b = json.dumps(q["for_all"] + "; see coverage.spaces", ensure_ascii=False)
        a = ", ".join(json.dumps(x, ensure_ascii=False) for x in ("the harness reference is right", q["note"]))
        s = re.sub(r'(Check \{ id: "%s", bounds: )"(?:[^"\\]|\\.)*", assumptions: &\[[^\n]*?\](, spaces:)' % q["id"], lambda m: m.group(1) + b + ", assumptions: &[" + a + "]" + m.group(2), s)
    if s != old: open(p, "w").write(s)

# the section on properties in DESIGN.md
spec = importlib.util.spec_from_file_location("design", os.path.join(here, "design.py")); D = importlib.util.module_from_spec(spec); spec.loader.exec_module(D)
out = ""
for p in props:
    out += f"""#### {p['id']}: {p['title']}

* *Claim.* {p['statement']}
* *Enumerated.* {p['for_all'][0].upper() + p['for_all'][1:]}.
* *Method.* {p['technique'][0].upper() + p['technique'][1:]}. {D.HOW.get(p['id'], '')}
* *Limits.* {p['note']}
* *Beyond the tests.* {p['why']}

"""
f = os.path.join(here, "..", "DESIGN.md")
s = open(f).read()
a, b = s.split("<!-- properties -->\n")[0], s.split("<!-- end of properties -->\n")[1]
open(f, "w").write(a + "<!-- properties -->\n" + out + "<!-- end of properties -->\n" + b)
# the table of planted changes
rows = ""
for d in sorted(os.listdir(os.path.join(here, "..", "seeded"))) if os.path.isdir(os.path.join(here, "..", "seeded")) else []:
    m = json.load(open(os.path.join(here, "..", "seeded", d, "meta.json")))
    rows += f"| {d} | {m['property']} | {m['needs']} | {D.SEEDS.get(d, 'caught')} |\n"
if rows:
    s = open(f).read()
    a, b = s.split("<!-- seeds -->\n")[0], s.split("<!-- end of seeds -->\n")[1]
    open(f, "w").write(a + "<!-- seeds -->\n| change | property | needs | at first |\n|---|---|---|---|\n" + rows + "<!-- end of seeds -->\n" + b)
