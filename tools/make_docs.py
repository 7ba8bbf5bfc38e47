"""Writes properties.jsonl, MANIFEST.json and DESIGN.md from tools/props.py, tools/design_head.md and tools/design_tail.md."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
from props import P, N  # noqa: E402


def seeded():
    """The table of planted changes."""
    caught = json.load(open(os.path.join(HERE, "tools/caught.json")))
    rows = ["| change | property | what it breaks | needs | caught by |", "|---|---|---|---|---|"]
    for i in sorted(caught):
        if not os.path.exists(os.path.join(HERE, "seeded", i)):
            continue
        m = json.load(open(os.path.join(HERE, "seeded", i, "meta.json")))
        rows.append(f"| {i} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {', '.join(caught[i]) if caught[i] else '**missed**'} |")
    return "\n".join(rows) + "\n"


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for id in sorted(P):
            p = P[id]
            row = dict(id=id, title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]),
                       why_tests_cant=p["why"],
                       anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]],
                                    observe_at=p["observe"], hook_needed=None))
            if p["state"]:
                row["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in p["state"]]
            assert len(p["title"]) <= 80, (id, len(p["title"]))
            f.write(json.dumps(row) + "\n")
    checks, na = [], []
    for id in sorted(P):
        if os.path.exists(os.path.join(HERE, "checks", id.lower() + ".py")):
            checks.append(dict(property=id, quick_cmd=f"python3 run_check.py {id}",
                               thorough_cmd=f"VERIF_TIER=thorough python3 run_check.py {id}",
                               evidence_file=f"evidence/{id}.json", technique="property-based testing: " + P[id]["note"],
                               level="exploration",
                               level_note="Generated-input search with Hypothesis, seeded by VERIF_SEED, shrunk and saved as a replay file; "
                                          + P[id]["note"] + "."))
        else:
            na.append(dict(property=id, reason="the check for it is not built yet"))
    man = dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na,
               notes="No hooks are needed: every check imports the code from /repo's working tree. Repairs of genuine defects are the fix: commits "
                     "listed in known_findings.txt.")
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")
    head = open(os.path.join(HERE, "tools/design_head.md")).read()
    tail = open(os.path.join(HERE, "tools/design_tail.md")).read()
    out = [head.rstrip(), "", "## The properties and how each is decided", ""]
    for id in sorted(P):
        p = P[id]
        out += [f"### {id} {p['title']}", "", "*Specified:* " + p["statement"], "", "*Decided by:* " + p["design"], "",
                "*Domain:* " + p["text"] + ".", "", "*Beyond the tests because:* " + p["why"], ""]
    with open(os.path.join(HERE, "DESIGN.md"), "w") as f:
        f.write("\n".join(out) + "\n" + tail + seeded())


if __name__ == "__main__":
    main()
