"""Engine for the derived Parse and ToTokens (C12..C16): spec/TreeSpec.tla."""
import concurrent.futures, json, os, random
import context, metagen, vlib, treegen
from vlib import log, Violation, ToolError
from toks import Input
from eng_meta import deep_cfg, run as run_cases
import eng_meta

SHARDS = 8
RANDOM = {"quick": (150, 50), "thorough": (900, 150)}
CHECK_AT = {"C13", "C20", "C21"}
CHECK_SOURCE = {"C20", "C21"}
HIDE = {"C21"}
SPELL = {"C11"}
CONTEXT = {"C19"}


def build(name, decls, tops, edition="2024"):
    n = max(1, min(SHARDS, (len(tops) + 19) // 20))
    files, where, owner = {}, {}, {}
    for k in range(n):
        b = "gen_%s_%d" % (name, k)
        files[b], where[b] = treegen.program(decls, tops[k::n])
        for d in tops[k::n]:
            owner[d] = b
    vlib.invalidate_if_changed()
    cdir = vlib.write_crate("gen_" + name, files, edition)
    ok, msgs, err = vlib.cargo(["build"], cdir)
    if not ok:
        broken = vlib.harness_broken(msgs)
        if broken:
            raise ToolError("/repo does not build:\n" + broken)
        eng_meta.compile_violation(msgs, decls, where, treegen.rust_decl)
        raise ToolError("the generated crate does not build:\n" + err[-3000:])
    return owner


class Raw:
    """A case whose text is not a token sequence."""
    mode = "build"

    def __init__(self, text):
        self.text = text


def shift(t, off):
    if t["n"] == "@":
        return dict(t, a=[t["a"][0] + off])
    return dict(t, a=[shift(x, off) for x in t["a"]])


def shift_decl(d, off):
    return dict(d, variants=[dict(v, fields=[dict(f, ty=shift(f["ty"], off)) for f in v["fields"]]) for v in d["variants"]])


def unflat(p):
    """Printed tokens as tokens of the specification."""
    return ["'" + t[1:-1] if t.startswith('"') else t for t in p]


def check(prop, key=None):
    key = key or prop
    at, source = prop in CHECK_AT, prop in CHECK_SOURCE
    os.makedirs(vlib.BUILD, exist_ok=True)
    pool = concurrent.futures.ThreadPoolExecutor(2)
    module = "MC_" + key
    fut = pool.submit(vlib.tlc, module, deep_cfg(module), 7)
    nd, ni = RANDOM[vlib.TIER]
    rdecls, rcases = treegen.random_cases("%s-%d" % (prop, vlib.SEED), nd, ni, spell=prop in SPELL, ctx=prop in CONTEXT)
    r = fut.result()
    if r.violated:
        raise ToolError("the specification violates its own invariant %s (%s)" % (r.violated, module))
    fdecls = r.tagged["D"][0]
    vectors, prints = r.tagged.get("V", []), r.tagged.get("P", [])
    log("TLC %s: %d states, %d parse vectors, %d print vectors, %d declarations" % (
        module, r.distinct, len(vectors), len(prints), len(fdecls)))
    off = len(fdecls)
    alldecls = fdecls + [shift_decl(d, off) for d in rdecls]
    tops = sorted({v["d"] for v in vectors} | {v["d"] for v in prints}) + [off + i + 1 for i in range(nd)]
    owner = build(key, alldecls, tops, context.EDITIONS if prop in CONTEXT else "2024")
    log("harness built: %d declarations" % len(tops))
    name = lambda d: treegen.rust_decl(alldecls[d - 1], d)[0]

    # spec -> code
    inputs = [Input(v["t"], "str", v.get("g", ())) for v in vectors]
    obs = run_cases(owner, [("v%d" % i, v["d"], inputs[i]) for i, v in enumerate(vectors)]
                    + [("p%d" % i, v["d"], Raw(treegen.build_text(v["v"], v["t"]))) for i, v in enumerate(prints)])
    classes, bads, n = {}, [], 0
    for i, v in enumerate(vectors):
        o = obs["v%d" % i]
        if "skipped" in o:
            continue
        n += 1
        k = "ok" if v["ok"] else v["c"]
        classes[k] = classes.get(k, 0) + 1
        bad = treegen.compare(v, o, inputs[i], at, source)
        if bad:
            bads.append((len(v["t"]), inputs[i].shown(), v, o, bad))
    for i, v in enumerate(prints):
        o = obs["p%d" % i]
        if "skipped" in o:
            continue
        n += 1
        classes["printed"] = classes.get("printed", 0) + 1
        bad = treegen.compare_print(v, o)
        if bad:
            bads.append((len(v["out"]), "printing " + " ".join(v["out"]), v, o, bad))
    if bads:
        bads.sort(key=lambda b: b[0])
        _, text, v, o, bad = bads[0]
        raise Violation("%s  on  %s  (%d of %d vectors differ: %s)" % (text, name(v["d"]), len(bads), n, bad), {
            "kind": "replay", "declaration": name(v["d"]), "input": text, "specification": v, "code": o,
            "difference": bad, "vectors": n, "differing": len(bads),
            "coverage": {"states": r.distinct, "transitions": r.distinct - n, "traces_validated_against_impl": n}})
    log("replayed %d vectors: %s" % (n, classes))

    # code -> spec
    hrnd = random.Random("hide-%s-%d" % (key, vlib.SEED))
    rinputs = [Input(t, "str", metagen.random_hidden(hrnd, t) if prop in HIDE else ()) for _, t in rcases]
    robs = run_cases(owner, [("r%d" % i, d + off, rinputs[i]) for i, (d, t) in enumerate(rcases)])
    events = []
    for i, (d, t) in enumerate(rcases):
        o, inp = robs["r%d" % i], rinputs[i]
        if "panic" in o or "died" in o:
            raise Violation("%s  on  %s: %s" % (inp.shown(), name(d + off), o), {
                "kind": "trace", "declaration": name(d + off), "input": inp.shown(), "code": o})
        if "skipped" in o:
            continue
        ev = {"i": i, "d": d, "t": t, "ok": o["ok"], "v": [], "at": 0, "p": [], "src": []}
        pre = o["pre"]
        ev["pok"], ev["pq"], ev["pv"] = pre["ok"], treegen.prefix_at(pre, inp), treegen.norm_obs(pre["v"], inp) if pre["ok"] else []
        if o["ok"]:
            ev["v"], ev["p"] = treegen.norm_obs(o["v"], inp), unflat(o["p"])
            ev["src"] = treegen.sources(o["src"], inp)
        else:
            ev["at"] = treegen.at_of(o, inp)
        events.append(ev)
    tr = validate(key, rdecls, events, at, source)
    if tr.tagged.get("REJECT"):
        rej = min(tr.tagged["REJECT"], key=lambda x: len(events[x["l"] - 1]["t"]))
        ev = events[rej["l"] - 1]
        inp, o = rinputs[ev["i"]], robs["r%d" % ev["i"]]
        raise Violation("%s  on  %s: the specification does not explain the outcome %s" % (
            inp.shown(), name(ev["d"] + off), o), {
            "kind": "trace", "declaration": name(ev["d"] + off), "input": inp.shown(), "event": ev,
            "specification": rej["want"], "code": o})
    if tr.violated:
        raise ToolError("the specification violates its own invariant %s (trace)" % tr.violated)
    acc = tr.tagged.get("A", [])
    if len(acc) != len(events):
        raise ToolError("TLC accepted %d of %d traces without rejecting any" % (len(acc), len(events)))
    rclasses = {}
    for _, c in acc:
        rclasses[c] = rclasses.get(c, 0) + 1
    log("TLC accepted %d recorded executions: %s" % (len(acc), rclasses))
    samples = []
    for k in (0, len(vectors) // 3, 2 * len(vectors) // 3):
        if vectors:
            samples.append("%s on %s -> %s" % (inputs[k].shown(), name(vectors[k]["d"]), json.dumps(obs["v%d" % k])[:300]))
    for k in (0, len(prints) // 2):
        if prints:
            samples.append("value %s of %s prints %s" % (json.dumps(prints[k]["v"]), name(prints[k]["d"]), json.dumps(obs["p%d" % k])[:300]))
    cov = {"states": r.distinct + tr.distinct, "transitions": (r.distinct - n) + (tr.distinct - len(events)),
           "traces_validated_against_impl": n + len(acc), "spec_vectors_replayed": n,
           "recorded_executions_accepted_by_tlc": len(acc), "declarations": len(tops),
           "outcome_classes_replayed": classes, "outcome_classes_recorded": rclasses,
           "exhaustive": False, "samples": samples}
    return "model_checking", cov, {"assumptions": [
        "the field types (Ident, LitInt, tokens, Punctuated, ...) behave as modelled in spec/Tokens.tla and spec/Tree.tla",
        "exhaustive only within the families of spec/%s.tla; beyond them random cases" % module]}


def validate(prop, decls, events, at, source):
    d = os.path.join(vlib.BUILD, "trace")
    os.makedirs(d, exist_ok=True)
    pd, pt = os.path.join(d, prop + ".decls.json"), os.path.join(d, prop + ".ndjson")
    with open(pd, "w") as f:
        json.dump(decls, f)
    with open(pt, "w") as f:
        for e in events:
            f.write(json.dumps(e) + "\n")
    cfg = open(os.path.join(vlib.SPEC, "Trace_Tree.cfg")).read()
    if at:
        cfg = cfg.replace("CheckAt = FALSE", "CheckAt = TRUE")
    if source:
        cfg = cfg.replace("CheckSource = FALSE", "CheckSource = TRUE")
    cp = os.path.join(d, prop + ".cfg")
    vlib.write_if_changed(cp, cfg)
    os.environ["VERIF_DECLS"], os.environ["VERIF_TRACE"] = pd, pt
    return vlib.tlc("Trace_Tree", cp, name="Trace_" + prop, extra=["-continue"])
