"""Shared machinery of the checks: running TLC and cargo, verdicts, evidence."""
import fcntl, hashlib, json, os, random, re, resource, shutil, subprocess, sys, time

import toks

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
SPEC = os.path.join(VERIF, "spec")
TARGET = os.path.join(BUILD, "target")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick") or "quick"
THOROUGH = TIER == "thorough"
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
TOOLCHAIN = "1.98.1-x86_64-unknown-linux-gnu"
T0 = time.time()


class ToolError(Exception):
    """The check itself could not run: exit 2, never a verdict."""


class Violation(Exception):
    def __init__(self, what, detail):
        super().__init__(what)
        self.what, self.detail = what, detail


def log(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, flush=True)


def env():
    e = dict(os.environ)
    e.update(HOME="/root", RUSTUP_TOOLCHAIN=TOOLCHAIN, CARGO_NET_OFFLINE="true",
             CARGO_TERM_COLOR="never", NO_COLOR="1", RUSTC_WRAPPER="", CARGO_INCREMENTAL="0",
             CARGO_TARGET_DIR=TARGET)
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "")
    for k in ("RUSTFLAGS", "RUSTDOCFLAGS", "CARGO_PROFILE_DEV_DEBUG", "RUSTC_WORKSPACE_WRAPPER"):
        e.pop(k, None)
    return e


# --------------------------------------------------------------------------- TLC

class TlcResult:
    def __init__(self):
        self.lines, self.tagged = [], {}
        self.states = self.distinct = 0
        self.violated = None
        self.coverage = {}


def unquote(line):
    # PrintT writes TLA+ string escapes, which are a subset of JSON's
    return json.loads(line)


def tlc(module, cfg=None, workers=8, extra=(), timeout=800, mem="10g", cwd=SPEC, name=None,
        coverage=False):
    """Runs TLC on spec/<module>.tla; returns what it printed, sorted by tag."""
    name = name or module
    meta = os.path.join(BUILD, "tlc", name)
    shutil.rmtree(meta, ignore_errors=True)
    os.makedirs(meta, exist_ok=True)
    cmd = ["java", "-Dtlc2.tool.impl.SpecProcessor.aggressiveConstantCaching=true", "-XX:+UseParallelGC", "-Dfile.encoding=UTF-8", "-Xss64m", "-Xmx" + mem, "-cp", JAR, "tlc2.TLC",
           "-workers", str(workers), "-noGenerateSpecTE", "-metadir", meta,
           "-config", cfg or module + ".cfg"]
    if coverage:
        cmd += ["-coverage", "1"]
    cmd += list(extra) + [module + ".tla"]
    r = TlcResult()
    out = os.path.join(BUILD, "tlc", name + ".out")
    with open(out, "w", encoding="utf-8") as f:
        try:
            p = subprocess.run(cmd, cwd=cwd, stdout=f, stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise ToolError("TLC timed out on " + name)
    with open(out, encoding="utf-8") as f:
        for line in f:
            line = line.rstrip("\n")
            if line.startswith('"@'):
                s = unquote(line)
                tag, _, body = s.partition(" ")
                r.tagged.setdefault(tag[1:], []).append(json.loads(body))
                continue
            r.lines.append(line)
            m = re.match(r"(\d+) states generated, (\d+) distinct states found", line)
            if m:
                r.states, r.distinct = int(m.group(1)), int(m.group(2))
            m = re.match(r"Error: (?:Invariant|Action property) (\S+) is violated", line) or \
                re.match(r"Error: The invariant of (\S+) is equal to FALSE", line)
            if m and not r.violated:
                r.violated = m.group(1)
            m = re.match(r"<(\w+) .*>: (\d+):(\d+)", line)
            if m:
                r.coverage[m.group(1)] = max(r.coverage.get(m.group(1), 0), int(m.group(3)))
    shutil.rmtree(meta, ignore_errors=True)
    r.code = p.returncode
    if p.returncode != 0 and not r.violated:
        raise ToolError("TLC failed on %s (exit %d):\n%s" % (name, p.returncode, "\n".join(r.lines[-40:])))
    return r


# ------------------------------------------------------------------------- cargo

def repo_hash():
    h = hashlib.sha256()
    for sub in ("structmeta", "structmeta-derive"):
        for root, dirs, files in os.walk(os.path.join(REPO, sub)):
            dirs[:] = sorted(d for d in dirs if d not in ("target", "tests"))
            for f in sorted(files):
                p = os.path.join(root, f)
                h.update(p.encode())
                with open(p, "rb") as fh:
                    h.update(fh.read())
    for f in ("Cargo.toml",):
        p = os.path.join(REPO, f)
        if os.path.exists(p):
            h.update(open(p, "rb").read())
    return h.hexdigest()


def invalidate_if_changed():
    """cargo decides by time stamps whether /repo changed; we decide by content."""
    os.makedirs(BUILD, exist_ok=True)
    stamp = os.path.join(BUILD, "repo.sha256")
    cur = repo_hash()
    old = open(stamp).read() if os.path.exists(stamp) else ""
    if old != cur:
        for prof in ("debug", "release"):
            fp = os.path.join(TARGET, prof, ".fingerprint")
            if os.path.isdir(fp):
                for d in os.listdir(fp):
                    if d.startswith(("structmeta", "vharness", "gen_")):
                        shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
        with open(stamp, "w") as f:
            f.write(cur)


def gen_manifest(name, bins, edition="2024", kind="bin"):
    """edition: of all binaries, or a list of editions that the binaries get in turn."""
    turns = [edition] if isinstance(edition, str) else list(edition)
    lines = ['[package]', 'name = "%s"' % name, 'version = "0.0.0"', 'edition = "%s"' % turns[0],
             'autobins = false', '', '[workspace]', '', '[dependencies]',
             'vharness = { path = "%s/harness" }' % VERIF,
             'structmeta = { path = "%s/structmeta" }' % REPO,
             'syn = { version = "3", features = ["full", "extra-traits"] }',
             'proc-macro2 = { version = "1", features = ["span-locations"] }',
             'quote = "1"', '', '[profile.dev]', 'debug = 0', 'incremental = false', '']
    for k, (b, path) in enumerate(bins):
        lines += ['[[bin]]', 'name = "%s"' % b, 'path = "%s"' % path]
        lines += ['edition = "%s"' % turns[k % len(turns)], ''] if len(turns) > 1 else ['']
    return "\n".join(lines)


def write_if_changed(path, text):
    if os.path.exists(path) and open(path).read() == text:
        return
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        f.write(text)


def cargo(args, cwd, timeout=600):
    """Runs cargo with JSON messages; returns (ok, compiler messages)."""
    cmd = ["cargo"] + args + ["--offline", "--message-format=json"]
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           timeout=timeout, text=True)
    except subprocess.TimeoutExpired:
        raise ToolError("cargo timed out in " + cwd)
    msgs = []
    for line in p.stdout.splitlines():
        if line.startswith("{"):
            m = json.loads(line)
            if m.get("reason") == "compiler-message":
                msgs.append(m)
    if p.returncode != 0 and not any(m["message"]["level"].startswith("error") for m in msgs):
        raise ToolError("cargo failed in %s:\n%s" % (cwd, p.stderr[-4000:]))
    return p.returncode == 0, msgs, p.stderr


def harness_broken(msgs):
    """Errors outside the generated crate: /repo or the harness does not build."""
    for m in msgs:
        if m["message"]["level"].startswith("error"):
            n = m["target"]["name"].replace("-", "_")
            if not n.startswith("gen_"):
                return m["message"].get("rendered") or m["message"]["message"]
    return None


def write_crate(name, files, edition="2024", kind="bin"):
    """files: {bin name: source}.  Writes /verif/build/<name>; returns its directory."""
    d = os.path.join(BUILD, name)
    src = os.path.join(d, "src")
    os.makedirs(src, exist_ok=True)
    for f in os.listdir(src):
        if f[:-3] not in files:
            os.remove(os.path.join(src, f))
    write_if_changed(os.path.join(d, "Cargo.toml"),
                     gen_manifest(name, [(b, "src/%s.rs" % b) for b in files], edition))
    lock = os.path.join(d, "Cargo.lock")
    if not os.path.exists(lock):
        shutil.copy(os.path.join(VERIF, "harness", "Cargo.lock"), lock)
    for b, text in files.items():
        write_if_changed(os.path.join(src, b + ".rs"), text)
    return d


def run_bin(name, lines, timeout=300):
    """Feeds cases to a built harness binary.  Returns {case id: result}; a case
    that kills or hangs the process gets the result {"died": ...}."""
    exe = os.path.join(TARGET, "debug", name)
    res = {}
    todo = list(lines)
    while todo:
        outp = os.path.join(BUILD, "run_%s.out" % name)
        inp = os.path.join(BUILD, "run_%s.in" % name)
        with open(inp, "w") as f:
            f.write("".join(l + "\n" for l in todo))

        def lim():
            resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        how = None
        with open(inp) as fi, open(outp, "w") as fo:
            p = subprocess.Popen([exe], stdin=fi, stdout=fo, stderr=subprocess.DEVNULL, preexec_fn=lim)
            # a hang is a process that answers nothing for 20 s
            last, lastt = -1, time.time()
            while True:
                try:
                    p.wait(timeout=0.5)
                    break
                except subprocess.TimeoutExpired:
                    size = os.path.getsize(outp)
                    if size != last:
                        last, lastt = size, time.time()
                    elif time.time() - lastt > 20:
                        p.kill()
                        p.wait()
                        how = "no answer within 20 s"
                        break
        n = 0
        with open(outp) as f:
            for line in f:
                if not line.endswith("\n"):
                    break
                i, _, body = line.rstrip("\n").partition("\t")
                res[i] = json.loads(body.translate(toks.BACK))
                if isinstance(res[i], dict) and str(res[i].get("panic", "")).startswith("HARNESS:"):
                    raise ToolError("harness %s: %s (case %s)" % (name, res[i]["panic"], i))
                n += 1
        if n < len(todo):
            if how is None:
                if p.returncode == 0:
                    raise ToolError("harness %s stopped early" % name)
                how = "process died (exit %d)" % p.returncode
            res[todo[n].split("\t", 1)[0]] = {"died": how}
            if how.startswith("no answer"):
                # one hang is enough
                for l in todo[n + 1:]:
                    res.setdefault(l.split("\t", 1)[0], {"skipped": True})
                return res
            todo = todo[n + 1:]
        else:
            todo = []
        os.remove(outp)
        os.remove(inp)
    return res


# ---------------------------------------------------------------------- verdicts

def known_findings(prop):
    res = []
    p = os.path.join(VERIF, "known-findings.txt")
    for line in open(p):
        line = line.strip()
        if line.startswith("known: property=%s " % prop):
            res.append(line[len("known: property=%s " % prop):])
    return res


def replay_file(prop, detail):
    d = os.path.join(BUILD, "replay")
    os.makedirs(d, exist_ok=True)
    text = json.dumps(detail, indent=1, sort_keys=True)
    path = os.path.join(d, "%s-%s.json" % (prop, hashlib.sha256(text.encode()).hexdigest()[:10]))
    with open(path, "w") as f:
        f.write(text + "\n")
    return path


def write_evidence(prop, level, coverage, verdict, extra=None):
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    ev = {"property": prop, "tier": TIER, "seed": SEED, "level": level, "coverage": coverage,
          "wall_s": round(time.time() - T0, 2)}
    if extra:
        ev.update(extra)
    with open(os.path.join(d, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
