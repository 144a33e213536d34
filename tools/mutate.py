"""mutate.py: a development aid (no check uses it).  Makes small syntactic changes to structmeta in scratch
copies, keeps those that build and pass the existing tests, and runs the checks on them: what survives is
either equivalent or shows what the specification does not observe.

  mutate.py gen                 list the mutants           -> /tmp/mut/mutants.json
  mutate.py tests [N]           which pass the tests       -> /tmp/mut/tests.jsonl    (N scratch copies)
  mutate.py checks [N]          which the checks catch     -> /tmp/mut/checks.jsonl   (N scratch copies)"""
import concurrent.futures, json, os, queue, re, shutil, subprocess, sys
M = "/tmp/mut"
FILES = ["structmeta/src/helpers.rs", "structmeta/src/arg_types.rs", "structmeta-derive/src/struct_meta.rs",
         "structmeta-derive/src/parse.rs", "structmeta-derive/src/to_tokens.rs",
         "structmeta-derive/src/to_tokens_attribute.rs", "structmeta-derive/src/syn_utils.rs", "structmeta-derive/src/lib.rs"]
META = ["C09", "C03", "C07", "C01", "C06", "C02", "C05", "C04", "C08", "C10", "C11", "C18", "C19"]
TREE = ["C12", "C13", "C14", "C15", "C16", "C17", "C20", "C11", "C19"]
DECL = ["C10", "C17", "C12", "C13", "C14", "C11", "C19"]
ORDER = {"helpers.rs": ["C13", "C14"] + META, "arg_types.rs": ["C18"] + META, "struct_meta.rs": META, "parse.rs": TREE, "to_tokens.rs": ["C14", "C15", "C17", "C19", "C12", "C11", "C20"],
         "to_tokens_attribute.rs": DECL, "syn_utils.rs": DECL, "lib.rs": DECL + ["C01"]}

SUBS = [(r" == ", " != "), (r" != ", " == "), (r" && ", " || "), (r" \|\| ", " && "), (r" < ", " <= "), (r" <= ", " < "),
        (r" > ", " >= "), (r" >= ", " > "), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
        (r"!(?=[a-z_#][\w.]*[(.])(?<![a-z]!)", ""), (r" \+ 1\b", ""), (r" \+ 1\b", " + 2"), (r" - 1\b", ""), (r" \+= 1\b", " += 2"),
        (r"\bis_some\b", "is_none"), (r"\bis_none\b", "is_some"), (r"\.is_empty\(\)", ".is_empty() == false"),
        (r"\bcontinue;", ""), (r"\bbreak;", ""), (r"\bmin\b", "max"), (r"\bmax\b", "min"),
        (r"\bSome\((\w+)\)(?= *[,;}])", "None"), (r"(?<![\w.])0(?![\w.])", "1"), (r"(?<![\w.])1(?![\w.])", "0"), (r"(?<![\w.])1(?![\w.])", "2"),
        (r"(?<![\w.])2(?![\w.])", "1"), (r"(?<![\w.])2(?![\w.])", "3"), (r"(?<![\w.])3(?![\w.])", "2"), (r"(?<![\w.])3(?![\w.])", "4"),
        (r"\bif (?!let|true|false)([^{}]+) \{", r"if !(\1) {"), (r"\bif (?!let|true|false)([^{}]+) \{", r"if true || \1 {"),
        (r"\bif (?!let|true|false)([^{}]+) \{", r"if false && \1 {"), (r"\.rev\(\)", ""), (r"\bany\(", "all("), (r"\ball\(", "any("),
        (r"\bfirst\(\)", "last()"), (r"\blast\(\)", "first()"), (r"\bpush\b", "insert_0"), (r"\.unraw\(\)", ""),
        (r"\bspan\(\)", "span().resolved_at(proc_macro2::Span::call_site())"), (r"_brace\b", "_bracket"),
        (r"\bBrace\b", "Paren"), (r"\bBracket\b", "Paren"), (r"\bParenthesis\b", "Brace"), (r'"\("', '"["'),
        (r"\bpeek2\b", "peek"), (r"\bpeek3\b", "peek2"), (r"\bpeek2\b", "peek3"), (r"\.min\(", ".max("), (r"\bOption<", "Option<"),
        (r"\breturn (Ok|Err)\((.*)\);$", r"let _ = \2;"), (r"\.clone\(\) \| ", " & "), (r"\bunwrap_or\(", "min(")]


def code_lines(path):
    """Lines that are code (no comments, docs, tests)."""
    for n, line in enumerate(open(os.path.join("/repo", path)).read().split("\n"), 1):
        s = line.strip()
        if not s or s.startswith(("//", "#[", "#!", "use ", "pub use")):
            continue
        yield n, line


def gen():
    out = []
    for f in FILES:
        lines = open(os.path.join("/repo", f)).read().split("\n")
        for n, line in code_lines(f):
            seen = set()
            for pat, rep in SUBS:
                for m in re.finditer(pat, line):
                    new = line[:m.start()] + m.expand(rep) + line[m.end():]
                    if new != line and new not in seen:
                        seen.add(new)
                        out.append((f, n, n, new))
            s = line.strip()
            if s.endswith(";") and not s.startswith(("let ", "use ", "return", "pub ", "fn ", "mod ")) and s.count("(") == s.count(")") \
                    and s.count("{") == s.count("}") and not s.startswith((")", "}", ".")):
                out.append((f, n, n, ""))
                nx = lines[n] if n < len(lines) else ""
                if nx.strip().endswith(";") and not nx.strip().startswith((")", "}", ".")) and nx.count("(") == nx.count(")"):
                    out.append((f, n, n + 1, nx + "\n" + line))
            m = re.match(r"(\s*)if (?!let)(.*) \{$", line)
            # a whole match arm in one line
            if re.match(r"\s+[^=]+ => .*,$", line) and "_ =>" not in line:
                out.append((f, n, n, ""))
    ms = [{"id": i, "file": f, "a": a, "b": b, "new": new} for i, (f, a, b, new) in enumerate(out)]
    json.dump(ms, open(M + "/mutants.json", "w"), indent=0)
    print(len(ms), "mutants")


def sh(cmd, cwd, timeout=400, env=None):
    try:
        return subprocess.run(["setsid", "timeout", "-k", "5", str(timeout), "bash", "-c", cmd], cwd=cwd, stdout=subprocess.PIPE,
                              stderr=subprocess.STDOUT, text=True, env=env, errors="replace")
    except Exception as e:
        return subprocess.CompletedProcess(cmd, 99, str(e))


def copy(k):
    w = "%s/w%d" % (M, k)
    if not os.path.exists(w):
        os.makedirs(w)
        subprocess.run(["cp", "-a", "/repo", w + "/repo"], check=True)
        for x in ("build.sh", "test.sh", "env.sh"):
            s = open("/opt/vp/" + x).read().replace("/opt/vp/env.sh", w + "/env.sh").replace("cd /repo", "cd %s/repo" % w)
            open(w + "/" + x, "w").write(s)
    sh("git checkout -q -- . && git fetch -q /repo && git reset -q --hard FETCH_HEAD", w + "/repo")
    return w


def put(w, m):
    p = os.path.join(w, "repo", m["file"])
    lines = open(os.path.join("/repo", m["file"])).read().split("\n")
    lines[m["a"] - 1:m["b"]] = [m["new"]]
    open(p, "w").write("\n".join(lines))


def undo(w, m):
    shutil.copy(os.path.join("/repo", m["file"]), os.path.join(w, "repo", m["file"]))


def done(path):
    return {json.loads(l)["id"] for l in open(path)} if os.path.exists(path) else set()


def pooled(n, todo, one, path):
    q = queue.Queue()
    for k in range(n):
        q.put(copy(k))

    def go(m):
        w = q.get()
        try:
            put(w, m)
            r = one(w, m)
        finally:
            undo(w, m)
            q.put(w)
        with open(path, "a") as f:
            f.write(json.dumps(dict(m, **r)) + "\n")
        print(m["id"], m["file"].split("/")[-1], m["a"], r, flush=True)
    with concurrent.futures.ThreadPoolExecutor(n) as ex:
        list(ex.map(go, todo))


def test_one(w, m):
    if sh("bash %s/build.sh" % w, w + "/repo").returncode:
        return {"r": "nobuild"}
    if os.path.exists(w + "/out.json"):
        os.remove(w + "/out.json")
    sh("bash %s/test.sh %s/out.json" % (w, w), w + "/repo")
    try:
        got = set(json.load(open(w + "/out.json"))["passed"])
    except Exception:
        return {"r": "killed"}
    miss = set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) - got
    return {"r": "killed" if miss else "pass"}


CACHED = '''
import hashlib, os, pickle, sys
sys.path.insert(0, sys.argv[1] + "/tools")
import vlib, check
real = vlib.tlc
def cached(module, cfg=None, *a, **k):
    h = hashlib.sha256()
    for f in sorted(os.listdir(vlib.SPEC)):
        if f.endswith(".tla"): h.update(open(os.path.join(vlib.SPEC, f), "rb").read())
    c = cfg or module + ".cfg"
    h.update(open(c if os.path.isabs(c) else os.path.join(vlib.SPEC, c), "rb").read()); h.update(module.encode())
    if "Trace" in module:
        for e in ("VERIF_DECLS", "VERIF_TRACE", "VERIF_ITEMS"):
            if e in os.environ: h.update(open(os.environ[e], "rb").read())
    p = "/tmp/mut/cache/" + h.hexdigest()
    if os.path.exists(p): return pickle.load(open(p, "rb"))
    r = real(module, cfg, *a, **k)
    os.makedirs("/tmp/mut/cache", exist_ok=True)
    pickle.dump(r, open(p + ".%d" % os.getpid(), "wb")); os.rename(p + ".%d" % os.getpid(), p)
    return r
vlib.tlc = cached
sys.argv = ["check.py", sys.argv[2]]
sys.exit(check.main())
'''


def check_one(w, m):
    env = dict(os.environ, VERIF_REPO=w + "/repo", VERIF_SEED="1", VERIF_TIER="quick")
    odd = []
    for p in m.get("props") or ORDER[m["file"].split("/")[-1]]:
        r = sh("python3 %s/cached.py %s/verif %s" % (M, w, p), w, 850, env)
        if r.returncode == 1 and "VIOLATION property=" + p in r.stdout:
            v = [l for l in r.stdout.split("\n") if l.startswith("property ")]
            return {"r": "caught", "by": p, "what": v[0][:300] if v else "", "odd": odd}
        if r.returncode != 0:
            odd.append([p, r.returncode, r.stdout[-300:]])
    return {"r": "odd" if odd else "SURVIVED", "odd": odd}


def main():
    n = int(sys.argv[2]) if len(sys.argv) > 2 else 3
    if sys.argv[1] == "gen":
        return gen()
    if sys.argv[1] == "tests":
        p = M + "/tests.jsonl"
        d = done(p)
        return pooled(n, [m for m in json.load(open(M + "/mutants.json")) if m["id"] not in d], test_one, p)
    open(M + "/cached.py", "w").write(CACHED)
    for k in range(n):
        w = copy(k)
        sh("rm -rf %s/verif && mkdir %s/verif && cd /verif && cp -a tools spec harness MANIFEST.json known-findings.txt properties.jsonl %s/verif/ && sed -i 's,/repo/structmeta,%s/repo/structmeta,' %s/verif/harness/Cargo.toml" % (w, w, w, w, w), w)
    p = M + "/checks.jsonl"
    d = done(p)
    ms = [json.loads(l) for l in open(M + "/tests.jsonl")]
    pooled(n, [m for m in ms if m["r"] == "pass" and m["id"] not in d], check_one, p)


main()
