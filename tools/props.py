"""Source of properties.jsonl and MANIFEST.json (python3 tools/props.py)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=(), na=None,
         note=""):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text,
                  why=why, files=files, mech=mech, observe=list(observe), na=na,
                  note=note))


exec(open(os.path.join(HERE, "tools", "proplist.py")).read())


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"],
                            "mechanism": [{"name": n, "where": w}
                                          for n, w in p["mech"]],
                            "observe_at": p["observe"], "hook_needed": None},
            }) + "\n")
    checks, na = [], []
    for p in P:
        has = os.path.exists(os.path.join(HERE, "harness", p["id"].lower() + ".py"))
        if p["na"] or not has:
            na.append({"property": p["id"],
                       "reason": p["na"] or "no check built yet"})
            continue
        checks.append({
            "property": p["id"],
            "quick_cmd": "./check.sh %s" % p["id"],
            "thorough_cmd": "VERIF_TIER=thorough ./check.sh %s" % p["id"],
            "evidence_file": "evidence/%s.json" % p["id"],
            "technique": "symbolic execution of the real Python source, path "
                         "conditions and assertions decided by Z3, models "
                         "replayed on the unmodified code",
            "level": "model_checking",
            "level_note": (p["note"] + " " if p["note"] else "") +
            "Bounded: every value within the bounds in the evidence file; "
            "trusts the symbolic models of Python's built-in str/bytes/re/"
            "int/float/containers (validated per run by replaying path models "
            "on the real interpreter) and Z3.",
        })
    man = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks,
           "not_applicable": na,
           "notes": "Source of this file: tools/props.py and "
                    "tools/proplist.py. No hooks in /repo are needed."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")
    print(len(P), "properties", len(checks), "claimed", len(na), "not claimed")


if __name__ == "__main__":
    main()
