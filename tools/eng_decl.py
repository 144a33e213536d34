"""Engine for the derives as checkers of declarations (C10, C17)."""
import concurrent.futures, json, os, random
import vlib, legalgen
from vlib import log, Violation, ToolError
from eng_meta import deep_cfg

KINDS = {
    "C10": ("MC_C10", "Trace_LegalMeta", legalgen.meta_lines, legalgen.PRELUDE_META, legalgen.random_meta),
    "C17": ("MC_C17", "Trace_LegalTree", legalgen.tree_lines, legalgen.PRELUDE_TREE, legalgen.random_tree),
}
RANDOM = {"quick": 1500, "thorough": 12000}
SHARDS = 8


def texts(groups, lines, prelude):
    """groups: {bin prefix: [(id, item)]} -> {bin: source}, {bin: {line: (id, field)}}"""
    files, where = {}, {}
    for prefix, items in groups.items():
        n = max(1, min(SHARDS, (len(items) + 99) // 100))
        for s in range(n):
            t = legalgen.Text(prelude)
            for i, d in items[s::n]:
                for line, at in lines(d, i):
                    t.add(line, (i, at))
            t.lines.append("fn main() {}")
            files["%s_%d" % (prefix, s)] = "\n".join(t.lines) + "\n"
            where["%s_%d" % (prefix, s)] = t.where
    return files, where


def compile_items(name, files):
    vlib.invalidate_if_changed()
    cdir = vlib.write_crate(name, files)
    ok, msgs, err = vlib.cargo(["check", "--keep-going"], cdir)
    if not ok:
        broken = vlib.harness_broken(msgs)
        if broken:
            raise ToolError("/repo does not build:\n" + broken)
    return msgs


def diagnostics(msgs, where):
    """[(id, field, message)] for every error; unlocated ones raise."""
    res = []
    for m in msgs:
        msg = m["message"]
        if not msg["level"].startswith("error") or msg["message"].startswith(("aborting due to", "could not compile")):
            continue
        w = where.get(m["target"]["name"])
        if w is None:
            continue
        hit = None
        for sp in sorted(msg["spans"], key=lambda s: not s["is_primary"]):
            s = sp
            while s.get("expansion") and s["expansion"].get("span") and not s["file_name"].endswith(m["target"]["name"] + ".rs"):
                s = s["expansion"]["span"]
            if s["line_start"] in w:
                hit = w[s["line_start"]]
                break
        res.append((hit[0] if hit else None, hit[1] if hit else None, msg))
    return res


def verdicts(diags):
    """What the derive itself said: {id: (verdict, field, message)}; absent: accepted."""
    res = {}
    for i, at, msg in diags:
        if i is None:
            raise ToolError("an error without location:\n" + (msg.get("rendered") or msg["message"]))
        text = msg["message"]
        if "panicked" in text:
            sub = " ".join(c["message"] for c in msg.get("children", []))
            v = ("dump", at, sub) if "macro result:" in sub else ("panic", at, sub)
        elif msg.get("code"):
            continue               # an error in generated code: the derive accepted
        else:
            v = ("reject", at, text)
        if i not in res or v[0] == "panic":
            res[i] = v
    return res


def show(lines, d, i):
    return " ".join(l for l, _ in lines(d, i))


def norm(at):
    return list(at) if isinstance(at, tuple) else at


def check(prop):
    module, tmodule, lines, prelude, rnd = KINDS[prop]
    os.makedirs(vlib.BUILD, exist_ok=True)
    r = vlib.tlc(module, deep_cfg(module), 8)
    if r.violated:
        raise ToolError("the specification violates its own invariant %s (%s)" % (r.violated, module))
    items = r.tagged["D"][0]
    vectors = r.tagged["V"]
    if len(vectors) != len(items):
        raise ToolError("%d verdicts for %d declarations" % (len(vectors), len(items)))
    log("TLC %s: %d states, %d declarations" % (module, r.distinct, len(items)))
    want = {v["d"]: v for v in vectors}
    off = len(items)
    rng = random.Random("%s-%d" % (prop, vlib.SEED))
    ritems = [rnd(rng) for _ in range(RANDOM[vlib.TIER])]

    groups = {"gen_ok": [(v["d"], items[v["d"] - 1]) for v in vectors if v["v"] == "ok"],
              "gen_no": [(v["d"], items[v["d"] - 1]) for v in vectors if v["v"] != "ok"],
              "gen_rnd": [(off + k + 1, d) for k, d in enumerate(ritems)]}
    groups = {k + "_" + prop: v for k, v in groups.items()}
    files, where = texts(groups, lines, prelude)
    msgs = compile_items("gen_" + prop, files)
    diags = diagnostics(msgs, where)
    got = verdicts(diags)
    errors = {}
    for i, at, msg in diags:
        errors.setdefault(i, msg)
    log("compiled %d declarations" % (len(items) + len(ritems)))

    # spec -> code
    classes, bads = {}, []
    for v in vectors:
        d = v["d"]
        k = v["c"] if v["v"] == "reject" else v["v"]
        classes[k] = classes.get(k, 0) + 1
        o = got.get(d, ("ok", None, ""))
        why = None
        if o[0] != v["v"]:
            why = "%s expected, %s" % ({"ok": "acceptance", "reject": "rejection (%s)" % v["c"], "dump": "the dump"}[v["v"]],
                                       {"ok": "accepted", "reject": "rejected: " + o[2], "dump": "dumped", "panic": "the derive panicked: " + o[2]}[o[0]])
        elif v["v"] == "reject" and norm(o[1]) not in v["blame"]:
            why = "the error (%s) is located at %s, not at %s" % (o[2], o[1], v["blame"])
        elif v["v"] == "ok" and d in errors:
            why = "accepted, but the generated code does not compile: " + errors[d]["message"]
        if why:
            bads.append((len(show(lines, items[d - 1], d)), d, v, o, why))
    if bads:
        bads.sort(key=lambda b: b[0])
        _, d, v, o, why = bads[0]
        text = show(lines, items[d - 1], d)
        raise Violation("%s: %s (%d of %d declarations differ)" % (text, why, len(bads), len(vectors)), {
            "kind": "replay", "declaration": text, "specification": v, "code": o, "difference": why,
            "rustc": errors.get(d, {}).get("rendered"),
            "coverage": {"states": r.distinct, "transitions": r.distinct - len(items), "traces_validated_against_impl": len(vectors)}})
    log("verdicts agree: %s" % classes)

    # code -> spec
    events = []
    for k, d in enumerate(ritems):
        i = off + k + 1
        o = got.get(i, ("ok", None, ""))
        if o[0] == "panic":
            raise Violation("%s: the derive panicked: %s" % (show(lines, d, i), o[2]), {
                "kind": "trace", "declaration": show(lines, d, i), "code": o, "rustc": errors[i].get("rendered")})
        events.append({"d": k + 1, "v": o[0], "at": norm(o[1]) if o[0] == "reject" else 0})
    tr = validate(prop, tmodule, ritems, events)
    if tr.tagged.get("REJECT"):
        rej = min(tr.tagged["REJECT"], key=lambda x: len(show(lines, ritems[x["l"] - 1], 0)))
        i = off + rej["l"]
        text = show(lines, ritems[rej["l"] - 1], i)
        raise Violation("%s: the specification does not explain the outcome %s" % (text, got.get(i, "accepted")), {
            "kind": "trace", "declaration": text, "specification": rej["want"], "code": got.get(i), "rustc": errors.get(i, {}).get("rendered")})
    if tr.violated:
        raise ToolError("the specification violates its own invariant %s (trace)" % tr.violated)
    acc = tr.tagged.get("A", [])
    if len(acc) != len(events):
        raise ToolError("TLC accepted %d of %d traces without rejecting any" % (len(acc), len(events)))
    rclasses = {}
    for _, c in acc:
        rclasses[c] = rclasses.get(c, 0) + 1
    log("TLC accepted %d recorded verdicts: %s" % (len(acc), rclasses))
    # what the derive accepted must also compile
    okr = [(off + k + 1, d) for k, d in enumerate(ritems) if events[k]["v"] == "ok"]
    files, where = texts({"gen_okr_" + prop: okr}, lines, prelude)
    for i, at, msg in diagnostics(compile_items("gen_%s_r" % prop, files), where):
        d = ritems[i - off - 1] if i else None
        text = show(lines, d, i) if d else "?"
        raise Violation("%s: accepted, but the generated code does not compile: %s" % (text, msg["message"]), {
            "kind": "compile", "declaration": text, "rustc": msg.get("rendered")})
    log("%d random legal declarations compile" % len(okr))
    n = len(vectors)
    sample = [show(lines, items[v["d"] - 1], v["d"]) + "  ->  " + str(got.get(v["d"], "accepted")) for v in (vectors[0], vectors[n // 3], vectors[2 * n // 3])]
    cov = {"states": r.distinct + tr.distinct, "transitions": r.distinct - n + tr.distinct - len(events),
           "traces_validated_against_impl": n + len(acc), "spec_vectors_replayed": n, "recorded_executions_accepted_by_tlc": len(acc),
           "declarations": n + len(ritems), "outcome_classes_replayed": classes, "outcome_classes_recorded": rclasses,
           "exhaustive": False, "samples": sample}
    return "model_checking", cov, {"assumptions": [
        "rustc's diagnostics (level, code, primary span) tell apart errors of the derive and errors in generated code",
        "exhaustive only within the families of spec/%s.tla; beyond them random declarations" % module]}


def validate(prop, tmodule, decls, events):
    d = os.path.join(vlib.BUILD, "trace")
    os.makedirs(d, exist_ok=True)
    pd, pt = os.path.join(d, prop + ".decls.json"), os.path.join(d, prop + ".ndjson")
    with open(pd, "w") as f:
        json.dump(decls, f)
    with open(pt, "w") as f:
        for e in events:
            f.write(json.dumps(e) + "\n")
    os.environ["VERIF_DECLS"], os.environ["VERIF_TRACE"] = pd, pt
    return vlib.tlc(tmodule, os.path.join(vlib.SPEC, tmodule + ".cfg"), name="Trace_" + prop, extra=["-continue"])
