#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json:  python3 catalogue.py  rewrites both."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
P = []   # claimed and not-applicable properties
def prop(id, title, statement, over, qtext, why, files, mech, technique=None, note=None, na=None, level="other", observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, technique=technique, note=note, na=na, level=level, observe=observe))

IR = " Decided on LLVM IR of all translation units with virtual calls resolved by class hierarchy analysis; trusts clang, LLVM's simplification passes and the analyser in tool/."

exec(open(os.path.join(HERE, "catalogue_entries.py")).read())

def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in sorted(P, key=lambda x: x["id"]):
            anchors = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "hook_needed": None}
            if p["observe"]: anchors["observe_at"] = p["observe"]
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["qtext"]},
                                "why_tests_cant": p["why"], "anchors": anchors}) + "\n")
    man = {"version": 1, "setup_cmd": "python3 check.py --setup",
           "checks": [{"property": p["id"], "quick_cmd": "python3 check.py %s --tier quick" % p["id"], "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"],
                       "technique": p["technique"], "level": p["level"], "level_note": p["note"]} for p in sorted(P, key=lambda x: x["id"]) if not p["na"]],
           "not_applicable": [{"property": p["id"], "reason": p["na"]} for p in sorted(P, key=lambda x: x["id"]) if p["na"]],
           "notes": "All checks are static: they inspect IR generated from /repo's working tree; no code of the library is executed."}
    json.dump(man, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)

if __name__ == "__main__": main()
