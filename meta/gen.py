#!/usr/bin/env python3
"""Writes ../properties.jsonl and ../MANIFEST.json from the tables beside it (props_*.py)."""
import glob, importlib.util, json, os
here = os.path.dirname(os.path.abspath(__file__))
P, NA = [], []
for f in sorted(glob.glob(os.path.join(here, "props_*.py"))):
    spec = importlib.util.spec_from_file_location("m", f)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    P += m.PROPS
    NA += getattr(m, "NOT_APPLICABLE", [])
assert len({p["id"] for p in P}) == len(P)
na = {n["property"] for n in NA}
with open(os.path.join(here, "..", "properties.jsonl"), "w") as o:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        o.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {
                "files": p["files"],
                "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]],
                "state": [{"name": n, "meaning": d, "where": w} for n, d, w in p.get("state", [])],
                "observe_at": p.get("observe", []),
                "hook_needed": None,
            },
        }, ensure_ascii=False) + "\n")
man = {
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "hooks": {"guard": "none", "enable": "no hooks are needed: the harness crates use the public interface of /repo's crates", "source_commits": []},
    "checks": [{
        "property": p["id"],
        "quick_cmd": f"bash check.sh {p['id']} quick",
        "thorough_cmd": f"bash check.sh {p['id']} thorough",
        "technique": p["technique"],
        "level": "exploration",
        "level_note": p["note"],
        "evidence_file": f"evidence/{p['id']}.json",
    } for p in P if p["id"] not in na],
    "not_applicable": NA,
    "notes": "Every check builds a harness crate of /verif/h against /repo's working tree and searches generated histories or inputs against an explicit oracle; see DESIGN.md.",
}
json.dump(man, open(os.path.join(here, "..", "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
print(len(P), "properties", len(man["checks"]), "checks")
