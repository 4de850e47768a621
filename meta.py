#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one description."""
import json, os
from checks import PROPS
HERE = os.path.dirname(os.path.abspath(__file__))
P = []


def prop(pid, title, statement, over, text, why, files, mechanism, state=None, observe=None, technique="", note="", na=None):
    P.append(dict(pid=pid, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mechanism=mechanism, state=state or [], observe=observe or [], technique=technique, note=note, na=na))


LIBNOTE = ("Exhaustive up to the bounds stated in the evidence file: every choice sequence was executed on the real "
           "code (compiled from the working tree with AddressSanitizer and assertions on) and compared with a reference "
           "written for the check. Trusts gcc, ASan and the reference; says nothing beyond the bounds.")
exec(open(os.path.join(HERE, "meta_props.py")).read())

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in sorted(P, key=lambda p: p["pid"]):
        assert len(p["title"]) <= 80, p["title"]
        anchors = dict(files=p["files"], mechanism=[dict(name=m[0], where=m[1]) for m in p["mechanism"]], hook_needed=None)
        if p["state"]:
            anchors["state"] = [dict(name=s[0], meaning=s[1], where=s[2]) for s in p["state"]]
        if p["observe"]:
            anchors["observe_at"] = p["observe"]
        f.write(json.dumps(dict(id=p["pid"], title=p["title"], statement=p["statement"],
                                quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"], anchors=anchors)) + "\n")
checks, na = [], []
for p in sorted(P, key=lambda p: p["pid"]):
    if p["na"] or p["pid"] not in PROPS:
        na.append(dict(property=p["pid"], reason=p["na"] or "the check is not built yet"))
        continue
    checks.append(dict(property=p["pid"], quick_cmd="python3 check.py %s --tier quick" % p["pid"],
                       thorough_cmd="python3 check.py %s --tier thorough" % p["pid"],
                       technique=p["technique"], level=PROPS[p["pid"]]["level"], level_note=p["note"]))
for pid in PROPS:
    assert any(p["pid"] == pid for p in P), pid
m = dict(version=1, setup_cmd="python3 check.py --setup", checks=checks, not_applicable=na,
         hooks=dict(guard="none", enable="no hook is needed: the sources are compiled unchanged, the environment is substituted at link time", source_commits=[]))
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not claimed")
