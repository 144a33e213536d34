#!/usr/bin/env python3
"""check.py <property>: decides one property (see DESIGN.md)."""
import importlib, json, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib

ENGINES = {}
for _p in ("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09"):
    ENGINES[_p] = "eng_meta"
for _p in ("C12", "C13", "C14", "C15", "C16", "C20"):
    ENGINES[_p] = "eng_tree"
ENGINES["C10"] = ENGINES["C17"] = "eng_decl"
ENGINES["C18"] = "eng_algebra"
ENGINES["C11"] = ENGINES["C19"] = ENGINES["C21"] = "eng_types"


def main():
    prop = sys.argv[1]
    try:
        eng = importlib.import_module(ENGINES[prop])
        level, coverage, extra = eng.check(prop)
    except vlib.Violation as v:
        path = vlib.replay_file(prop, v.detail)
        cov = dict(v.detail.get("coverage") or {})
        for k in ("states", "transitions", "traces_validated_against_impl"):
            cov.setdefault(k, 0)
        cov.setdefault("samples", [v.what])
        vlib.write_evidence(prop, "model_checking", cov, "violated", {"violations": 1})
        print("property %s: %s" % (prop, v.what))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    except vlib.ToolError as e:
        print("TOOL ERROR:", e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    vlib.write_evidence(prop, level, coverage, "held", dict(extra or {}, violations=0))
    for k in vlib.known_findings(prop):
        print("KNOWN-FINDING: property=%s %s" % (prop, k))
    vlib.log("%s held: %s" % (prop, json.dumps({k: v for k, v in coverage.items() if k != "samples"})))
    return 0


if __name__ == "__main__":
    sys.exit(main())
