#!/usr/bin/env python3
"""Writes ../properties.jsonl and ../MANIFEST.json from the list below."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
PROPS = []


def prop(id, title, statement, over, quant, why, files, mechanism, technique, note, observe=()):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files,
                      mechanism=mechanism, technique=technique, note=note, observe=list(observe)))


exec(open(os.path.join(HERE, "props_list.py")).read())

NOT_APPLICABLE = []


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in PROPS:
            assert len(p["title"]) <= 80, p["title"]
            rec = {
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["quant"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"],
                            "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]],
                            "hook_needed": None},
            }
            if p["observe"]:
                rec["anchors"]["observe_at"] = p["observe"]
            f.write(json.dumps(rec, ensure_ascii=False) + "\n")
    man = {
        "version": 1,
        "setup_cmd": "python3 check.py --setup",
        "checks": [{
            "property": p["id"],
            "quick_cmd": f"python3 check.py {p['id']} quick",
            "thorough_cmd": f"python3 check.py {p['id']} thorough",
            "evidence_file": f"evidence/{p['id']}.json",
            "technique": p["technique"],
            "level": "exploration",
            "level_note": p["note"],
        } for p in PROPS],
        "not_applicable": NOT_APPLICABLE,
        "notes": "No hooks: the checks use the public API only. The defects found are repaired in /repo by 'fix:' commits, listed in known-findings.txt.",
    }
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1, ensure_ascii=False)
        f.write("\n")


main()
