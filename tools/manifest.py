"""Writes MANIFEST.json and checks it against the list of properties."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
import sys
sys.path.insert(0, os.path.join(V, "tools"))
import check
NOTE = {
 "eng_meta": ("TLA+ specification of the generated parser (spec/Meta.tla) model checked by TLC against a declarative oracle; "
              "every explored behaviour replayed on the real derived parser; random recorded executions validated by TLC (Trace_Meta.tla)",
              "Exhaustive within the declaration/input families of spec/MC_%s.tla (TLC checks the invariants on all of them and the code is "
              "replayed on all of them); beyond them random declarations and inputs, each recorded execution accepted or rejected by TLC. "
              "Trusts the model of the leaf value types (spec/Tokens.tla), rustc and the harness."),
 "eng_tree": ("TLA+ specification of the Parse/ToTokens derives (spec/Tree.tla) model checked by TLC against a declarative oracle; "
              "every explored behaviour replayed on the real derived code; random recorded executions validated by TLC (Trace_Tree.tla)",
              "Exhaustive within the families of spec/MC_%s.tla; beyond them random types and inputs, each recorded execution accepted or "
              "rejected by TLC. Trusts the model of the leaf types (spec/Tokens.tla), rustc and the harness."),
 "eng_decl": ("TLA+ specification of the declaration checks (spec/LegalMeta.tla, spec/LegalTree.tla) model checked by TLC; every explored declaration compiled with the real "
              "derive and its verdict (accepted / rejected where / panicked) compared",
              "Exhaustive within the declaration families of spec/MC_%s.tla plus random declarations classified by TLC. Trusts rustc's diagnostics for the verdict."),
 "eng_types": ("TLA+ specification of type recognition (spec/Types.tla) model checked by TLC (matcher = path suffix); every explored spelling compiled and "
               "replayed on the real derived parser", "Exhaustive within the type spellings of spec/MC_%s.tla. Trusts rustc and the harness."),
 "eng_algebra": ("TLA+ specification of Flag/NameValue/NameArgs as a state machine (spec/Algebra.tla) model checked by TLC; every explored transition sequence "
                 "replayed on the real types", "Exhaustive up to the operation depth of spec/MC_%s.tla, random longer histories validated by TLC."),
 "C21": ("The TLA+ machines of Meta.tla and Tree.tla on inputs together with the fragments that are hidden in invisible groups (spec/Invisible.tla), model checked by TLC; "
         "every explored behaviour replayed on the real derived parsers with the groups put into the token stream; random recorded executions validated by TLC",
         "Exhaustive over the inputs and wrappings of spec/MC_%s.tla and spec/MC_%sT.tla; beyond them random cases. Trusts syn, rustc and the harness."),
 "C19": ("The TLA+ models of the three derives with an additional naming/generics context dimension (spec/MC_C19.tla); behaviours replayed on real code "
                 "compiled in every context", "Exhaustive over the listed contexts and the families of spec/MC_%s.tla; the model says that none of it has a meaning (ContextFree, checked by TLC)."),
}
checks = []
for p, e in sorted(check.ENGINES.items()):
    t, n = NOTE[p] if p in NOTE else NOTE[e]
    checks.append({"property": p, "quick_cmd": "python3 tools/check.py " + p, "thorough_cmd": "VERIF_TIER=thorough python3 tools/check.py " + p,
                   "evidence_file": "evidence/%s.json" % p, "technique": t, "level": "model_checking", "level_note": n.replace("%s", p)})
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
na = [{"property": p, "reason": "its check is not built yet"} for p in props if p not in check.ENGINES]
m = {"version": 1, "setup_cmd": "bash tools/setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the public API (parse, print, spans, diagnostics) exposes the abstract state of the specification."}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
