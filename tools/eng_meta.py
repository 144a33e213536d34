"""Engine for the StructMeta parse properties (C01..C09): spec/MetaSpec.tla."""
import concurrent.futures, json, os, random
import context, vlib, metagen
from vlib import log, Violation, ToolError
from toks import Input

SHARDS = 8

# property -> what to compare beyond acceptance and values, and random case mix
CFG = {
    "C08": dict(spans=True),
    "C09": dict(msgs=True),
    "C11": dict(spell=True),
    "C19": dict(ctx=True, editions=context.EDITIONS),
    "C21": dict(hide=True, spans=True),
}
RANDOM = {"quick": (160, 60), "thorough": (1200, 150)}


def build(name, decls, tops, prelude=metagen.PRELUDE, edition="2024"):
    """Builds the harness for the declarations `tops`; returns {decl: binary name}."""
    n = max(1, min(SHARDS, (len(tops) + 19) // 20))
    shards = [tops[i::n] for i in range(n)]
    files, where, owner = {}, {}, {}
    for k, sh in enumerate(shards):
        b = "gen_%s_%d" % (name, k)
        files[b], where[b] = metagen.program(decls, sh, prelude)
        for d in sh:
            owner[d] = b
    vlib.invalidate_if_changed()
    cdir = vlib.write_crate("gen_" + name, files, edition)
    ok, msgs, err = vlib.cargo(["build"], cdir)
    if not ok:
        broken = vlib.harness_broken(msgs)
        if broken:
            raise ToolError("/repo does not build:\n" + broken)
        compile_violation(msgs, decls, where)
        raise ToolError("the generated crate does not build:\n" + err[-3000:])
    return owner


def compile_violation(msgs, decls, where, rust_decl=metagen.rust_decl):
    for m in msgs:
        if not m["message"]["level"].startswith("error"):
            continue
        b = m["target"]["name"]
        for sp in m["message"]["spans"]:
            s = sp
            while s.get("expansion") and s["expansion"].get("span"):
                s = s["expansion"]["span"]
            for line in (s["line_start"], s["line_start"] - 1):
                d = where.get(b, {}).get(line)
                if d:
                    rd = rust_decl(decls[d - 1], d)[0]
                    raise Violation("a legal declaration does not compile: " + rd, {
                        "kind": "compile", "declaration": rd, "spec_declaration": decls[d - 1],
                        "rustc": m["message"]["rendered"]})
    text = "\n".join(m["message"]["rendered"] or "" for m in msgs if m["message"]["level"].startswith("error"))
    raise Violation("the code generated for legal declarations does not compile", {"kind": "compile", "rustc": text[:4000]})


def run(owner, cases):
    """cases: [(id, decl, Input)] -> {id: observed}"""
    per = {}
    for i, d, inp in cases:
        per.setdefault(owner[d], []).append("%s\t%d\t%s\t%s" % (i, d, inp.mode, inp.text))
    res = {}
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for r in ex.map(lambda kv: vlib.run_bin(kv[0], kv[1]), per.items()):
            res.update(r)
    return res


def deep_cfg(module):
    """The thorough configuration is the quick one with Deep = TRUE."""
    cfg = os.path.join(vlib.SPEC, module + ".cfg")
    if not vlib.THOROUGH:
        return cfg
    text = open(cfg).read().replace("Deep = FALSE", "Deep = TRUE")
    out = os.path.join(vlib.BUILD, module + "_deep.cfg")
    vlib.write_if_changed(out, text)
    return out


def check(prop, key=None):
    key = key or prop               # names the specification module and the generated crate
    opts = CFG.get(prop, {})
    spans, msgs = opts.get("spans", False), opts.get("msgs", False)
    os.makedirs(vlib.BUILD, exist_ok=True)

    # 1. the bounded family: TLC explores the machine, checks the invariants, writes vectors
    pool = concurrent.futures.ThreadPoolExecutor(2)
    module = "MC_" + key
    fut = pool.submit(vlib.tlc, module, deep_cfg(module), 7)
    # 3. (prepared meanwhile) random declarations and inputs
    nd, ni = RANDOM[vlib.TIER]
    rdecls, rcases = metagen.random_cases("%s-%d" % (prop, vlib.SEED), nd, ni, spell=opts.get("spell", False),
                                            ctx=opts.get("ctx", False))
    r = fut.result()
    if r.violated:
        raise ToolError("the specification violates its own invariant %s (%s)" % (r.violated, module))
    fdecls = r.tagged["D"][0]
    vectors = r.tagged["V"]
    log("TLC %s: %d states, %d vectors, %d declarations" % (module, r.distinct, len(vectors), len(fdecls)))

    # one harness for both directions: random declarations are numbered after the family's
    off = len(fdecls)

    def shift(t):
        return dict(t, a=[t["a"][0] + off]) if t["n"] == "@" else dict(t, a=[shift(x) for x in t["a"]])
    alldecls = fdecls + [dict(d, fields=[dict(f, ty=shift(f["ty"])) for f in d["fields"]]) for d in rdecls]
    tops = sorted({v["d"] for v in vectors}) + [off + i + 1 for i in range(nd)]
    owner = build(key, alldecls, tops, edition=opts.get("editions", "2024"))
    log("harness built: %d declarations" % len(tops))

    # 2. spec -> code: every vector is replayed on the real parser
    inputs = [Input(v["t"], hidden=v.get("g", ())) for v in vectors]
    obs = run(owner, [("v%d" % i, v["d"], inputs[i]) for i, v in enumerate(vectors)])
    classes, nbad, first = {}, 0, None
    for i, v in enumerate(vectors):
        o = obs["v%d" % i]
        if "skipped" in o:
            continue
        k = "ok" if v["ok"] else v["c"]
        classes[k] = classes.get(k, 0) + 1
        bad = metagen.compare(v, o, inputs[i], spans, msgs)
        if bad:
            nbad += 1
            if first is None or len(v["t"]) < len(first[1]["t"]):
                first = (i, v, o, bad)
    if first:
        i, v, o, bad = first
        rd = metagen.rust_decl(fdecls[v["d"] - 1], v["d"])[0]
        raise Violation("%s  on  %s  (%d of %d vectors differ: %s)" % (inputs[i].shown(), rd, nbad, len(vectors), bad), {
            "kind": "replay", "declaration": rd, "input": inputs[i].shown(), "specification": v, "code": o,
            "difference": bad, "vectors": len(vectors), "differing": nbad,
            "coverage": {"states": r.distinct, "transitions": r.states - 0, "traces_validated_against_impl": len(vectors)}})
    log("replayed %d vectors: %s" % (len(vectors), classes))

    # 3. code -> spec: random executions, validated by TLC against the specification
    hrnd = random.Random("hide-%s-%d" % (key, vlib.SEED))
    rinputs = [Input(t, hidden=metagen.random_hidden(hrnd, t) if opts.get("hide") else ()) for _, t in rcases]
    robs = run(owner, [("r%d" % i, d + off, rinputs[i]) for i, (d, t) in enumerate(rcases)])
    events = []
    for i, (d, t) in enumerate(rcases):
        o, inp = robs["r%d" % i], rinputs[i]
        if "panic" in o or "died" in o:
            rd = metagen.rust_decl(rdecls[d - 1], d)[0]
            raise Violation("%s  on  %s: %s" % (inp.shown(), rd, o), {
                "kind": "trace", "declaration": rd, "input": inp.shown(), "code": o})
        if "skipped" in o:
            continue
        ev = {"i": i, "d": d, "t": t, "ok": o["ok"], "v": [], "at": 0, "msg": ""}
        if o["ok"]:
            ev["v"] = metagen.norm_obs(o["v"], inp)
        else:
            ev["at"] = 0 if o["at"] == [0, 0] else inp.tok_at(o["at"][0])
            ev["msg"] = o["msg"]
        events.append(ev)
    tr = validate(key, rdecls, events, spans, msgs)
    if tr.tagged.get("REJECT"):
        rej = min(tr.tagged["REJECT"], key=lambda x: len(x["want"]["t"]))
        ev = events[rej["l"] - 1]
        inp = rinputs[ev["i"]]
        rd = metagen.rust_decl(rdecls[ev["d"] - 1], ev["d"])[0]
        raise Violation("%s  on  %s: the specification does not explain the outcome %s" % (
            inp.shown(), rd, robs["r%d" % ev["i"]]), {
            "kind": "trace", "declaration": rd, "input": inp.shown(), "event": ev, "specification": rej["want"],
            "code": robs["r%d" % ev["i"]]})
    if tr.violated:
        raise ToolError("the specification violates its own invariant %s (trace)" % tr.violated)
    acc = tr.tagged.get("A", [])
    if len(acc) != len(events):
        raise ToolError("TLC accepted %d of %d traces without rejecting any" % (len(acc), len(events)))
    rclasses = {}
    for _, c in acc:
        rclasses[c] = rclasses.get(c, 0) + 1
    log("TLC accepted %d recorded executions: %s" % (len(acc), rclasses))
    sample = lambda v, inp, o: "%s on %s -> %s" % (inp.shown(), metagen.rust_decl(fdecls[v["d"] - 1], v["d"])[0], json.dumps(o)[:300])
    picks = [0, len(vectors) // 3, 2 * len(vectors) // 3]
    cov = {"states": r.distinct + tr.distinct, "transitions": (r.distinct - len(vectors)) + (tr.distinct - len(events)),
           "traces_validated_against_impl": len(vectors) + len(acc),
           "spec_vectors_replayed": len(vectors), "recorded_executions_accepted_by_tlc": len(acc),
           "declarations": len(tops), "outcome_classes_replayed": classes, "outcome_classes_recorded": rclasses,
           "exhaustive": False,
           "samples": [sample(vectors[i], inputs[i], obs["v%d" % i]) for i in picks]}
    return "model_checking", cov, {"assumptions": [
        "the leaf value types (LitInt, Ident, Expr subset, ...) behave as modelled in spec/Tokens.tla",
        "exhaustive only within the families of spec/%s.tla; beyond them random cases" % module]}


def validate(prop, decls, events, spans, msgs):
    d = os.path.join(vlib.BUILD, "trace")
    os.makedirs(d, exist_ok=True)
    pd, pt = os.path.join(d, prop + ".decls.json"), os.path.join(d, prop + ".ndjson")
    with open(pd, "w") as f:
        json.dump(decls, f)
    with open(pt, "w") as f:
        for e in events:
            f.write(json.dumps(e) + "\n")
    cfg = open(os.path.join(vlib.SPEC, "Trace_Meta.cfg")).read()
    if spans:
        cfg = cfg.replace("CheckAt = FALSE", "CheckAt = TRUE")
    if msgs:
        cfg = cfg.replace("CheckMsg = FALSE", "CheckMsg = TRUE")
    cp = os.path.join(d, prop + ".cfg")
    vlib.write_if_changed(cp, cfg)
    os.environ["VERIF_DECLS"], os.environ["VERIF_TRACE"] = pd, pt
    return vlib.tlc("Trace_Meta", cp, name="Trace_" + prop, extra=["-continue"])
