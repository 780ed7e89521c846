#!/usr/bin/env python3
"""check.py PROPERTY  --  decide one property on /repo's current working tree.
exit 0: held on everything explored; exit 1 + VIOLATION line: broken; exit 2: error of the check."""
import os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import common as C


def main():
    prop = sys.argv[1]
    if len(sys.argv) > 2:
        os.environ["VERIF_TIER"] = sys.argv[2]
        C.TIER = sys.argv[2]
        C.THOROUGH = sys.argv[2] == "thorough"
    if prop.startswith("N"):
        import newton as layer
    elif prop.startswith("L"):
        import dense as layer
    elif prop.startswith("W"):
        import norm as layer
    elif prop.startswith("C"):
        import root as layer
    elif prop == "I23":
        import accuracy as layer
    elif prop in ("S03", "S04"):
        import sampleruns as layer
    elif prop.startswith("S"):
        import samples as layer
    else:
        import ida as layer
    try:
        cov, assumptions = layer.run(prop)
        C.write_evidence(prop, "model_checking", cov, assumptions, 0)
        print("OK property=%s states=%s traces=%s" % (prop, cov.get("states"), cov.get("traces_validated_against_impl")))
        return 0
    except C.Violation as v:
        path = C.write_replay(prop, {"property": prop, "what": v.what, "case": v.replay})
        C.write_evidence(prop, "model_checking",
                         {"states": 0, "transitions": 0, "traces_validated_against_impl": 0,
                          "samples": [v.what]}, [], 1)
        print(v.what)
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    except C.ToolError as e:
        print("ERROR", e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2


sys.exit(main())
