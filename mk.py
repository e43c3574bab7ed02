#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from lib/catalogue.py and lib/props.py."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
sys.dont_write_bytecode = True
import catalogue  # noqa: E402
import units  # noqa: E402,F401
import props  # noqa: E402

checks, na = [], []
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in sorted(catalogue.ALL, key=lambda p: p["pid"]):
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(dict(id=p["pid"], title=p["title"], statement=p["statement"],
                                quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
                                anchors=dict(files=p["files"], mechanism=p["mech"]))) + "\n")
        if p["pid"] in props.PROPS:
            P = props.PROPS[p["pid"]]
            assert not p["na"], p["pid"]
            checks.append(dict(property=p["pid"], quick_cmd=f"python3 check.py {p['pid']}",
                               thorough_cmd=f"VERIF_TIER=thorough python3 check.py {p['pid']}",
                               technique=P.technique, level="other", level_note=P.explain + " Bounds: " + P.bounds))
        else:
            assert p["na"], p["pid"]
            na.append(dict(property=p["pid"], reason=p["na"]))
known = {p["pid"] for p in catalogue.ALL}
assert not set(props.PROPS) - known, set(props.PROPS) - known
m = dict(version=1, setup_cmd="python3 setup.py", checks=checks, not_applicable=na)
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "claimed,", len(na), "not applicable")
