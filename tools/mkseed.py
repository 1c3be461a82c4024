#!/usr/bin/env python3
"""mkseed.py SPEC.py : plants the change described in SPEC (id, property, needs, breaks, edits [(file, old, new)], demo main.rs text)
in a scratch copy of /repo, confirms it (builds, stable tests pass, demo fails with and passes without) and writes /verif/seeded/<id>/."""
import sys, os, subprocess, json, shutil, tempfile, runpy
spec = runpy.run_path(sys.argv[1])
sid = spec["id"]
out = "/verif/seeded/" + sid
work = tempfile.mkdtemp(prefix="seed-", dir="/tmp")
copy = work + "/repo"
def run(cmd, cwd=None, **kw):
    return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
try:
    subprocess.check_call(["cp", "-a", "/repo", copy])
    subprocess.check_call(["git", "checkout", "-q", "--", "."], cwd=copy)
    for f, old, new in spec["edits"]:
        t = open(copy + "/" + f).read()
        n = t.count(old)
        assert n == 1 or (n > 1 and spec.get("first")), "%d occurrences of %r in %s" % (n, old, f)
        t = t.replace(old, new, 1)
        open(copy + "/" + f, "w").write(t)
    d = run(["git", "diff"], cwd=copy).stdout
    stage = work + "/stage"
    os.makedirs(stage + "/src")
    open(stage + "/patch.diff", "w").write(d)
    open(stage + "/src/main.rs", "w").write(spec["demo"])
    shutil.copy("/verif/replay/Cargo.lock", stage + "/Cargo.lock.in")
    open(stage + "/demo.sh", "w").write("""#!/bin/bash
# builds the program beside this file against the crate in the current directory and runs it
here=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d) || exit 2
trap 'rm -rf "$w"' EXIT
mkdir "$w/src"
cp "$here/src/main.rs" "$w/src/main.rs"
sed 's/name = "vreplay"/name = "demo"/' "$here/Cargo.lock.in" > "$w/Cargo.lock"
cat > "$w/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2018"
[dependencies]
moledyn = { path = "$PWD" }
rand = "0.7"
rand_pcg = "0.2.1"
rand_distr = "0.2.2"
streaming-iterator = "0.1.5"
chrono = "0.4"
[workspace]
EOF
export CARGO_TARGET_DIR="$w/target" DEMO_TMP="$w"
cd "$w" && cargo build --offline -q 2> "$w/log" || { cat "$w/log"; exit 3; }
exec_dir="$w"
timeout 60 "$w/target/debug/demo"
""")
    os.chmod(stage + "/demo.sh", 0o755)
    json.dump(dict(property=spec["property"], needs=spec["needs"], what_it_breaks=spec["breaks"]), open(stage + "/meta.json", "w"), indent=1)
    r = run([stage + "/demo.sh"], cwd=copy)
    assert r.returncode not in (0, 3), "demo passes with the patch (or does not build): %s\n%s" % (r.returncode, r.stdout[-2000:])
    print("with patch: exit", r.returncode, r.stdout.strip()[-300:])
    r = run([stage + "/demo.sh"], cwd="/repo")
    assert r.returncode == 0, "demo fails on the unchanged tree: " + r.stdout[-2000:]
    if "--notest" not in sys.argv:
        # stable tests in the copy
        base = json.load(open("/opt/vp/BASELINE.json"))
        stable = base.get("stable") or base.get("tests") or base.get("passing") or []
        log = run(["bash", "-c", ". /opt/vp/env.sh; cd %s; unset CARGO_TARGET_DIR; CARGO_TARGET_DIR=%s/target timeout 800 cargo test --workspace --no-fail-fast --offline -- --include-ignored --skip test_many_mergeable_searcher --test-threads 8 2>&1" % (copy, copy)]).stdout
        import re
        bad = re.findall(r"^test (\S+).* \.\.\. FAILED", log, re.M)
        okn = len(re.findall(r"^test (\S+).* \.\.\. ok", log, re.M))
        print("tests ok", okn, "failed", bad)
        names = json.dumps(base)
        broken = [b for b in bad if b.split("::")[-1] in names]
        assert okn > 60 and not broken, "stable tests fail: %s\n%s" % (broken, log[-1500:])
    shutil.rmtree(out, ignore_errors=True)
    shutil.copytree(stage, out)
    print("seeded", sid)
finally:
    shutil.rmtree(work, ignore_errors=True)
