"""Builds, from /repo's current working tree: the MIR dump of every function
reachable from the harness entry points, and the native replay program."""
import os, subprocess, hashlib, json, shutil, sys, fcntl
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))

class BuildError(Exception):
    pass

def sh(cmd, env=None, cwd=None, timeout=800):
    e = dict(os.environ)
    e.pop("RUSTFLAGS", None)
    e.update(env or {})
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    if p.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), p.stdout[-4000:]))
    return p.stdout

def digest(paths):
    h = hashlib.sha256()
    for root in paths:
        if os.path.isfile(root):
            fs = [root]
        else:
            fs = []
            for d, ds, ns in os.walk(root):
                ds[:] = sorted(x for x in ds if x not in ("target", ".git"))
                fs += [os.path.join(d, n) for n in sorted(ns)]
        for f in fs:
            h.update(f.encode() + b"\0")
            with open(f, "rb") as g:
                h.update(g.read())
            h.update(b"\0")
    return h.hexdigest()[:24]

def src_hash():
    return digest([os.path.join(REPO, x) for x in ("src", "moledyn_proc", "Cargo.toml")])

def lock():
    os.makedirs(BUILD, exist_ok=True)
    f = open(os.path.join(BUILD, "lock"), "w")
    fcntl.flock(f, fcntl.LOCK_EX)
    return f

def driver():
    src = os.path.join(VERIF, "driver", "src", "main.rs")
    out = os.path.join(BUILD, "mirdrv-" + digest([src]))
    if not os.path.exists(out):
        sr = sh(["rustc", "+nightly", "--print", "sysroot"]).strip()
        sh(["rustc", "+nightly", "--edition", "2021", src, "-o", out + ".tmp", "-C", "link-arg=-Wl,-rpath,%s/lib" % sr],
           env={"RUSTC_BOOTSTRAP": "1"})
        os.rename(out + ".tmp", out)
    return out

def stage(name):
    """copy a crate of /verif next to the build output with its path to the repository filled in"""
    src = os.path.join(VERIF, name)
    dst = os.path.join(BUILD, "crates", name)
    shutil.rmtree(dst, ignore_errors=True)
    shutil.copytree(src, dst, ignore=shutil.ignore_patterns("target"))
    if REPO != "/repo":
        c = os.path.join(dst, "Cargo.toml")
        t = open(c).read().replace('path = "/repo"', 'path = "%s"' % REPO)
        open(c, "w").write(t)
    return dst

def mir():
    """path of the MIR dump for the current tree"""
    with lock():
        drv = driver()
        key = hashlib.sha256((src_hash() + digest([os.path.join(VERIF, "harness")]) + os.path.basename(drv) + REPO).encode()).hexdigest()[:24]
        out = os.path.join(BUILD, "mir-%s.json" % key)
        if os.path.exists(out):
            return out
        for f in os.listdir(BUILD):
            if f.startswith("mir-") and f.endswith(".json"):
                os.unlink(os.path.join(BUILD, f))
        d = stage("harness")
        env = {"CARGO_NET_OFFLINE": "true", "CARGO_INCREMENTAL": "0", "CARGO_TARGET_DIR": os.path.join(BUILD, "t-mir"),
               "RUSTFLAGS": "-Zalways-encode-mir -Zmir-opt-level=0 -Zinline-mir=no -Awarnings",
               "RUSTC_WORKSPACE_WRAPPER": drv, "MIR_OUT": out + ".tmp"}
        touch_repo_fingerprint(os.path.join(BUILD, "t-mir"), ("moledyn", "vharness"))
        log = sh(["cargo", "+nightly", "build", "--offline"], env=env, cwd=d)
        if not os.path.exists(out + ".tmp"):
            raise BuildError("no MIR dump produced\n" + log[-2000:])
        os.rename(out + ".tmp", out)
        return out

def touch_repo_fingerprint(tgt, names):
    """drop cargo's fingerprints of the repository's crates so that they are rebuilt"""
    for prof in ("debug", "release"):
        d = os.path.join(tgt, prof, ".fingerprint")
        if os.path.isdir(d):
            for x in os.listdir(d):
                if any(x.startswith(n + "-") or x.startswith(n + "_proc-") for n in names):
                    shutil.rmtree(os.path.join(d, x), ignore_errors=True)

def native():
    """path of the native replay program for the current tree"""
    with lock():
        key = hashlib.sha256((src_hash() + digest([os.path.join(VERIF, "replay")]) + REPO).encode()).hexdigest()[:24]
        out = os.path.join(BUILD, "replay-" + key)
        if os.path.exists(out):
            return out
        for f in os.listdir(BUILD):
            if f.startswith("replay-"):
                os.unlink(os.path.join(BUILD, f))
        d = stage("replay")
        tgt = os.path.join(BUILD, "t-replay")
        env = {"CARGO_NET_OFFLINE": "true", "CARGO_INCREMENTAL": "0", "CARGO_TARGET_DIR": tgt, "RUSTFLAGS": "-Awarnings"}
        touch_repo_fingerprint(tgt, ("moledyn", "vreplay"))
        sh(["cargo", "build", "--offline"], env=env, cwd=d)
        shutil.copy(os.path.join(tgt, "debug", "vreplay"), out + ".tmp")
        os.rename(out + ".tmp", out)
        return out

if __name__ == "__main__":
    print(mir())
    print(native())
