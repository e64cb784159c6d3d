#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json: run after editing."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
L = "src/lib/sup/oac-tree/"
PROPS = []
NOT_APPLICABLE = []


def At(f):
    return f if f.startswith("src/") else L + f


def prop(id, title, statement, over, text, why, files, mechanism, technique, note, state=None,
         observe=None):
    PROPS.append(dict(
        id=id, title=title, statement=statement, quantifier={"over": over, "text": text},
        why_tests_cant=why,
        anchors={"files": [At(f) for f in files], "state": state or [],
                 "mechanism": [{"name": n, "where": At(w)} for n, w in mechanism],
                 "observe_at": observe or [], "hook_needed": None},
        technique=technique, note=note))


exec(open(os.path.join(HERE, "tools", "props_core.py")).read())
for extra in ("props_full.py",):
    p = os.path.join(HERE, "tools", extra)
    if os.path.exists(p):
        exec(open(p).read())


def main():
    import sys
    sys.path.insert(0, os.path.join(HERE, "tools"))
    from registry import CHECKS
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in PROPS:
            q = {k: v for k, v in p.items() if k not in ("technique", "note")}
            f.write(json.dumps(q) + "\n")
    ids = [p["id"] for p in PROPS]
    na = {n["property"] for n in NOT_APPLICABLE}
    manifest = {
        "version": 1,
        "setup_cmd": "python3 check.py --build-all",
        "checks": [{
            "property": p["id"],
            "quick_cmd": "VERIF_TIER=quick python3 check.py " + p["id"],
            "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + p["id"],
            "evidence_file": "evidence/%s.json" % p["id"],
            "technique": p["technique"],
            "level": "exploration",
            "level_note": p["note"],
        } for p in PROPS if p["id"] in CHECKS],
        "not_applicable": NOT_APPLICABLE + [
            {"property": i, "reason": "no check built yet"} for i in ids
            if i not in CHECKS and i not in na],
        "notes": "Every check rebuilds from /repo's working tree (tools/build.py); replay a failure "
                 "with 'python3 check.py --replay <file>'.",
    }
    json.dump(manifest, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
    assert len(set(ids)) == len(ids)
    for p in PROPS:
        assert len(p["title"]) <= 80, p["id"]
    try:
        import jsonschema
    except ImportError:
        return
    for p in PROPS:
        jsonschema.validate({k: v for k, v in p.items() if k not in ("technique", "note")},
                            json.load(open("/root/.vp/PROPERTIES.schema.json")))
    jsonschema.validate(manifest, json.load(open("/root/.vp/MANIFEST.schema.json")))


if __name__ == "__main__":
    main()
