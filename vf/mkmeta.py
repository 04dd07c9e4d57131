#!/usr/bin/env python3
"""writes /verif/properties.jsonl and /verif/MANIFEST.json from the tables below and contracts/props.py"""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE)
sys.dont_write_bytecode = True
sys.path.insert(0, HERE); sys.path.insert(0, os.path.join(ROOT, "contracts"))
from props import PROPS
I = "include/altruct/"; M = I + "algorithm/math/"; C = I + "structure/container/"; SM = I + "structure/math/"; X = "experimental/" + I
P = []


def p(id, title, statement, qtext, why, files, mech, over=("inputs",), na=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier={"over": list(over), "text": qtext}, why_tests_cant=why,
                  anchors={"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech]}, na=na))


exec(open(os.path.join(HERE, "props_text.py")).read())


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for q in P:
            f.write(json.dumps({k: v for k, v in q.items() if k != "na"}) + "\n")
    checks, na = [], []
    for q in P:
        i = q["id"]
        assert len(q["title"]) <= 80, (i, len(q["title"]))
        if i in PROPS:
            d = PROPS[i]
            checks.append(dict(property=i, quick_cmd="python3 vf/run.py check %s --tier quick" % i, thorough_cmd="python3 vf/run.py check %s --tier thorough" % i,
                               technique=d.get("technique", "contract-based deductive verification: Verus contracts on the C++ functions extracted mechanically from clang's AST on every run"),
                               level=d.get("level", "proof"), level_note=d["note"]))
        else:
            na.append(dict(property=i, reason=q["na"] or "no contract for the functions of this property has been brought within the verifier's reach yet"))
    man = dict(version=1, setup_cmd="python3 vf/run.py selftest", checks=checks, not_applicable=na,
               notes="Every check re-extracts the functions under contract from /repo's current working tree (clang AST -> Verus), discharges every obligation, and replays/searches failing inputs on the compiled real headers.")
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1); f.write("\n")


main()
