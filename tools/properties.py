#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json: python3 tools/properties.py"""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = "include/Simu/math/"
P = "include/Simu/physics/"
A = "include/Simu/app/"
U = "include/Simu/utility/"
PROPS = []
HOOKS = {"guard": "SIMU_VERIF_SYSTEM_ALLOCATOR",
         "enable": "-DSIMU_VERIF_SYSTEM_ALLOCATOR (harnesses ask for it in their FLAGS line)",
         "source_commits": ["04b22e8"]}


def prop(id, title, statement, over, text, tests, files, mechanism, note, observe=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, tests=tests,
                      files=files, mechanism=mechanism, note=note, observe=observe or []))


exec(open(os.path.join(HERE, "tools/list.py")).read())


def main():
    with open(HERE + "/properties.jsonl", "w") as f:
        for p in PROPS:
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["tests"],
                "anchors": {"files": p["files"],
                            "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]],
                            **({"observe_at": p["observe"]} if p["observe"] else {})},
            }) + "\n")
    checks, na = [], []
    for p in PROPS:
        if not os.path.exists(f"{HERE}/harness/{p['id']}.cpp"):
            na.append({"property": p["id"], "reason": "the harness is not built yet"})
            continue
        checks.append({
            "property": p["id"],
            "quick_cmd": f"python3 check.py {p['id']} quick",
            "thorough_cmd": f"python3 check.py {p['id']} thorough",
            "evidence_file": f"evidence/{p['id']}.json",
            "technique": "property-based testing (generated cases, coverage-guided mutation, shrinking) against an explicit oracle",
            "level": "exploration",
            "level_note": p["note"],
        })
    m = {"version": 1,
         "setup_cmd": "mkdir -p build evidence replays && g++ --version && python3 --version",
         "checks": checks, "not_applicable": na,
         "notes": "check.py builds harness/<ID>.cpp with the sources of /repo's working tree, runs it, and removes "
                  "the build. 'python3 check.py ID replay FILE' re-runs a replay file. tools/properties.py generates "
                  "properties.jsonl and this file from tools/list.py."}
    if HOOKS:
        m["hooks"] = HOOKS
    with open(HERE + "/MANIFEST.json", "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    try:
        import jsonschema
        jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
        sch = json.load(open("/root/.vp/PROPERTIES.schema.json"))
        for line in open(HERE + "/properties.jsonl"):
            jsonschema.validate(json.loads(line), sch)
        print("valid", len(PROPS), "properties,", len(checks), "checks")
    except ImportError:
        print("written (not validated)")


main()
