"""plant.py ID: turns /tmp/plant/bugs/ID.py into seeded/ID, after confirming it in a scratch copy of /repo.

A bug file defines: prop, needs, breaks, edits = [(file, old, new), ...], demo (Rust source, exits 0 iff
the property holds) and optionally mode: "run" (default), "accept" (demo must compile), "reject" (demo must
not compile, with diagnostics matching `want`)."""
import json, os, runpy, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = "/tmp/plant"
R = P + "/repo"

SH = r'''#!/bin/bash
# Exit 0 iff demo.rs @WHAT@ with the structmeta in the current directory.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export HOME=${HOME:-/root} PATH=/root/.cargo/bin:$PATH CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export RUSTUP_TOOLCHAIN=1.98.1-x86_64-unknown-linux-gnu
unset RUSTFLAGS CARGO_TARGET_DIR
w=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf "$w"' EXIT
mkdir "$w/src" && cp "$here/demo.rs" "$w/src/main.rs"
[ -e "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$w/Cargo.lock"
cat > "$w/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "@EDITION@"
[workspace]
[dependencies]
structmeta = { path = "$repo/structmeta" }
syn = { version = "3", features = ["full", "extra-traits"] }
proc-macro2 = { version = "1", features = ["span-locations"] }
quote = "1"
EOF
cd "$w" || exit 2
@ACTION@
'''
ACTION = {
    "run": "timeout 250 cargo run --offline -q 2>&1; exit $?",
    "accept": "timeout 250 cargo check --offline -q 2>&1; exit $?",
    "reject": r'''timeout 250 cargo check --offline -q > out.txt 2>&1; rc=$?
cat out.txt
# it must be rejected, at the declaration, by the derive itself
[ $rc -ne 0 ] && grep -qF -- "@WANT@" out.txt && ! grep -q "panicked" out.txt''',
}


def sh(cmd, cwd, timeout=300):
    return subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)


def tests():
    if sh("bash %s/build.sh" % P, R).returncode:
        return ["does not build"]
    sh("bash %s/test.sh %s/out.json" % (P, P), R)
    got = set(json.load(open(P + "/out.json"))["passed"])
    return sorted(set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) - got)


def main(bid):
    b = runpy.run_path("%s/bugs/%s.py" % (P, bid))
    sh("git checkout -q -- . && git fetch -q /repo && git reset -q --hard FETCH_HEAD", R)
    d = os.path.join(V, "seeded", bid)
    os.makedirs(d, exist_ok=True)
    mode = b.get("mode", "run")
    what = {"run": "runs successfully", "accept": "compiles", "reject": "is rejected by the derive"}[mode]
    open(d + "/demo.rs", "w").write(b["demo"].strip("\n") + "\n")
    open(d + "/demo.sh", "w").write(SH.replace("@ACTION@", ACTION[mode].replace("@WANT@", b.get("want", ""))).replace("@WHAT@", what)
                                    .replace("@EDITION@", b.get("edition", "2024")))
    meta = {"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}
    json.dump(meta, open(d + "/meta.json", "w"), indent=1)
    sh("bash %s/build.sh" % P, R)
    r = sh("bash %s/demo.sh" % d, R)
    fail = None
    if r.returncode != 0:
        fail = "demo fails on the unchanged tree:\n" + r.stdout[-3000:]
    else:
        for f, old, new in b["edits"]:
            p = os.path.join(R, f)
            s = open(p).read()
            if s.count(old) != 1:
                fail = "%s: %d matches of %r" % (f, s.count(old), old)
                break
            open(p, "w").write(s.replace(old, new))
    if not fail:
        open(d + "/patch.diff", "w").write(sh("git diff", R).stdout)
        miss = tests()
        if miss:
            fail = "tests fail: %s" % miss[:8]
        else:
            r = sh("bash %s/demo.sh" % d, R)
            if r.returncode == 0:
                fail = "demo passes with the change:\n" + r.stdout[-2000:]
    sh("git checkout -q -- .", R)
    if fail:
        shutil.rmtree(d)
        print(bid, "NOT KEPT:", fail)
        return 1
    print(bid, "kept;", r.stdout.strip().split("\n")[-1][:200])
    return 0


sys.exit(max(main(x) for x in sys.argv[1:]))
