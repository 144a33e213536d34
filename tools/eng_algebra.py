"""Engine for C18: spec/Algebra.tla (Flag, NameValue, NameArgs as a state machine)."""
import json, os, random
import vlib
from vlib import log, Violation, ToolError
from eng_meta import deep_cfg, run as run_cases
import eng_meta

RANDOM = {"quick": (400, 12), "thorough": (4000, 40)}


def content(c):
    k = c["k"]
    if k in ("int", "asym"):
        return "%s %d" % (k, c["n"])
    if k in ("nan", "none"):
        return k
    if k == "flag":
        return "flag %d" % c["s"]
    if k == "some":
        return "some " + content(c["v"])
    if k == "seq":
        return " ".join(["seq %d" % len(c["v"])] + [content(x) for x in c["v"]])
    return "%s %d %s" % (k, c["s"], content(c["v"]))


def op_text(o):
    return " ".join([o["o"], str(o["i"])] + [str(int(o[k])) for k in ("b", "s", "j", "k") if k in o])


class Case:
    mode = "x"

    def __init__(self, f, w, ops):
        self.text = "%s|%s|%s|%s" % (" ".join(map(str, f)), content(w[0]), content(w[1]), ";".join(map(op_text, ops)))


def canon(x):
    return json.dumps(x, sort_keys=True)


def rand_content(r, t):
    f = lambda: {"k": "flag", "s": r.randrange(5)}
    n = lambda: {"k": "int", "n": r.randrange(3)}
    wr = lambda k, v: {"k": k, "s": r.randint(1, 4), "v": v}
    inner = {1: n, 2: n, 3: lambda: {"k": "nan"}, 4: lambda: {"k": "nan"},
             5: lambda: {"k": "asym", "n": r.randrange(4)}, 6: lambda: {"k": "asym", "n": r.randrange(4)}, 7: f, 8: f,
             9: lambda: r.choice([{"k": "none"}, {"k": "some", "v": wr("nv", f())}]),
             10: lambda: {"k": "seq", "v": [wr("na", n()) for _ in range(r.randrange(4))]}}[t]()
    return wr("nv" if t in (1, 3, 5, 7, 10) else "na", inner)


def rand_ops(r, t, n):
    ops = []
    for _ in range(r.randint(2, n)):
        i, j, k = (r.randint(1, 3) for _ in range(3))
        wi, wj = r.randint(1, 2), r.randint(1, 2)
        ops.append(r.choice([
            {"o": "default", "i": i}, {"o": "none", "i": i}, {"o": "from", "i": i, "b": r.random() < .5},
            {"o": "build", "i": i, "s": r.randrange(5)}, {"o": "parse", "i": i, "s": r.choice([0, 2, 3, 4])},
            {"o": "clone", "i": i, "j": j}, {"o": "or", "i": i, "j": j, "k": k}, {"o": "or", "i": i, "j": j, "k": k},
            {"o": "orassign", "i": i, "j": j}, {"o": "orassign", "i": i, "j": j},
            {"o": "wclone", "i": wi, "j": wj}, {"o": "respan", "i": wi, "s": r.randint(1, 4)}]
            + ([{"o": "into", "i": wi}] * 2 if t in (7, 8) else [])
            + ([{"o": "wcopy", "i": wi, "j": wj}] * 2 if t <= 6 else [])))
    return ops


def check(prop):
    os.makedirs(vlib.BUILD, exist_ok=True)
    vlib.invalidate_if_changed()
    src = open(os.path.join(vlib.VERIF, "harness", "bins", "algebra.rs")).read()
    b = "gen_C18_0"
    cdir = vlib.write_crate("gen_C18", {b: src})
    ok, msgs, err = vlib.cargo(["build"], cdir)
    if not ok:
        broken = vlib.harness_broken(msgs)
        if broken:
            raise ToolError("/repo does not build:\n" + broken)
        raise Violation("a program that uses the documented operations of Flag, NameValue and NameArgs does not compile", {
            "kind": "compile", "rustc": "\n".join(m["message"]["rendered"] or "" for m in msgs)[:4000]})
    r = vlib.tlc("MC_C18", deep_cfg("MC_C18"))
    if r.violated:
        raise ToolError("the specification violates its own invariant " + r.violated)
    vectors = r.tagged["V"]
    log("TLC MC_C18: %d states, %d vectors" % (r.distinct, len(vectors)))
    owner = {t: b for t in range(1, 11)}

    cases = [Case(v["f"], v["w"], [v["op"]]) for v in vectors]
    obs = run_cases(owner, [("v%d" % i, v["ty"], cases[i]) for i, v in enumerate(vectors)])
    classes = {}
    for i, v in enumerate(vectors):
        o = obs["v%d" % i]
        classes[v["op"]["o"]] = classes.get(v["op"]["o"], 0) + 1
        if not isinstance(o, list) or canon(o[0]) != canon(v["obs"]):
            raise Violation("after %s on %s: specification %s, code %s" % (
                op_text(v["op"]), cases[i].text, canon(v["obs"]), canon(o)), {
                "kind": "replay", "case": cases[i].text, "type": v["ty"], "specification": v, "code": o,
                "coverage": {"states": r.distinct, "transitions": len(vectors), "traces_validated_against_impl": i + 1}})
    log("replayed %d operations: %s" % (len(vectors), classes))

    # longer histories, recorded and validated by TLC
    rnd = random.Random("C18-%d" % vlib.SEED)
    nh, ln = RANDOM[vlib.TIER]
    hist = []
    for _ in range(nh):
        t = rnd.randint(1, 10)
        hist.append({"ty": t, "f": [rnd.randrange(5) for _ in range(3)],
                     "w": [rand_content(rnd, t), rand_content(rnd, t)], "ops": rand_ops(rnd, t, ln)})
    hc = [Case(h["f"], h["w"], h["ops"]) for h in hist]
    robs = run_cases(owner, [("h%d" % i, h["ty"], hc[i]) for i, h in enumerate(hist)])
    for i, h in enumerate(hist):
        if not isinstance(robs["h%d" % i], list):
            raise Violation("history %s: %s" % (hc[i].text, robs["h%d" % i]), {"kind": "trace", "case": hc[i].text, "code": robs["h%d" % i]})
        h["obs"] = robs["h%d" % i]
    # an observation that is not even of the right form is rejected here (TLC would not compare it)
    for i, h in enumerate(hist):
        for o in h["obs"]:
            if any(isinstance(x, str) for x in o["f"] + sum(o["eq"], []) + sum(o["weq"], [])) or '"s": "' in canon(o):
                raise Violation("history %s: %s" % (hc[i].text, o), {"kind": "trace", "case": hc[i].text, "code": o})
    tdir = os.path.join(vlib.BUILD, "trace")
    os.makedirs(tdir, exist_ok=True)
    pt = os.path.join(tdir, "C18.ndjson")
    with open(pt, "w") as f:
        for h in hist:
            f.write(json.dumps(h) + "\n")
    os.environ["VERIF_TRACE"] = pt
    tr = vlib.tlc("Trace_Algebra", name="Trace_C18")
    if tr.tagged.get("REJECT"):
        rej = min(tr.tagged["REJECT"], key=lambda x: x["n"])
        h = hist[rej["l"] - 1]
        raise Violation("history %s: step %d is not explained: specification %s, code %s" % (
            hc[rej["l"] - 1].text, rej["n"], canon(rej["want"]), canon(h["obs"][rej["n"] - 1])), {
            "kind": "trace", "case": hc[rej["l"] - 1].text, "step": rej["n"], "specification": rej["want"], "code": h["obs"]})
    if tr.violated:
        raise ToolError("the specification violates its own invariant %s (trace)" % tr.violated)
    acc = len({a[0] for a in tr.tagged.get("A", [])})
    if acc != len(hist):
        raise ToolError("TLC accepted %d of %d histories without rejecting any" % (acc, len(hist)))
    log("TLC accepted %d recorded histories" % acc)
    cov = {"states": r.distinct + tr.distinct, "transitions": len(vectors) + tr.distinct - len(hist),
           "traces_validated_against_impl": len(vectors) + acc, "spec_vectors_replayed": len(vectors),
           "recorded_executions_accepted_by_tlc": acc, "operations_replayed": classes, "exhaustive": True,
           "bounds": "every value of three Flags over 5 spans x every operation; wrappers of 10 types; histories of up to %d operations" % ln,
           "samples": ["%s -> %s" % (cases[i].text, canon(vectors[i]["obs"])) for i in (0, len(cases) // 2, len(cases) - 1)]
                      + ["%s -> %s" % (hc[0].text, canon(hist[0]["obs"]))[:600]]}
    return "model_checking", cov, {"assumptions": ["spans are compared by their byte range in the parsed source"]}
