"""What each property says; properties.jsonl and MANIFEST.json are generated from this (python3 lib/spec.py)."""
import json, os

P = []


def prop(id, title, statement, over, qtext, why, files, mech, technique, note, level="exploration", observe=None):
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()), over=over.split(), qtext=" ".join(qtext.split()),
                  why=" ".join(why.split()), files=files.split(), mech=mech, technique=technique,
                  note=" ".join(note.split()), level=level, observe=observe or []))


DIFF = "generated cases run on Avian and on OpenJDK 8 HotSpot (differential oracle); differences replayed and shrunk"
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "spec_props.py")).read())


def main():
    verif = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    import checks
    ids = [p["id"] for p in P]
    assert sorted(ids) == sorted(checks.CHECKS), (set(ids) ^ set(checks.CHECKS))
    P.sort(key=lambda p: p["id"])
    with open(os.path.join(verif, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            assert p["statement"].count(". ") <= 2, p["id"]
            for x in p["files"]:
                assert os.path.exists("/repo/" + x), x
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                                "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"],
                                "anchors": {"files": p["files"],
                                            "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                                            "observe_at": p["observe"], "hook_needed": None}}) + "\n")
    m = {"version": 1, "setup_cmd": "python3 run.py setup",
         "checks": [{"property": p["id"], "quick_cmd": "python3 run.py check " + p["id"],
                     "thorough_cmd": "env VERIF_TIER=thorough python3 run.py check " + p["id"],
                     "evidence_file": "evidence/%s.json" % p["id"],
                     "technique": p["technique"], "level": p["level"], "level_note": p["note"]} for p in P],
         "not_applicable": []}
    with open(os.path.join(verif, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
