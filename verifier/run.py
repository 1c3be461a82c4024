"""Decides one property: discharges the obligations of its contracts on the
current source, then searches for a concrete failing input on the real code."""
import sys, os, json, time, subprocess, hashlib, shutil, tempfile, multiprocessing as mp, traceback, signal
sys.setrecursionlimit(20000)
import build, contract, contracts

VERIF = build.VERIF
ASSUME = [
    "f64 arithmetic of the contracts is exact real arithmetic: no rounding, no overflow; signed zeros are identified. NaN and infinities are covered only by contracts marked 'special values' and by the replay search",
    "termination is not proved (partial correctness); redraw loops are assumed to leave eventually",
    "usize and i32 arithmetic is checked for overflow under lengths and dimensions up to 2^58",
    "the MIR that rustc nightly emits for the crate at -Zmir-opt-level=0 has the meaning the executed build has",
]
TRUST = ["rustc nightly MIR of /repo's current source (dumped by /verif/driver on every run)", "/verif/verifier: symbolic execution of MIR, loop summaries, heap model", "z3 (python bindings) and cvc5"]

def run_one(job):
    dump, i, mode, dim, budget = job
    s = contract.CONTRACTS[i]
    t0 = time.time()
    try:
        dims = (lambda nm: dim) if mode == "bounded" else None
        r = contract.execute(dump, s, mode, dims, budget=budget)
    except BaseException as e:
        r = dict(func=s["func"], prop=s["prop"], entry=s["entry"], mode=mode, status="error", error="engine: %s: %s" % (type(e).__name__, e), trace=traceback.format_exc()[-1500:],
                 obligations=[], functions=[], trusted=[], loops=[], secs=round(time.time() - t0, 2), solver_secs=0, queries=0, reach=0)
    r["index"], r["dim"] = i, dim
    return r

def pool_run(jobs, limit, workers, end):
    """runs jobs in separate processes with a wall-clock limit each"""
    res, live, todo = [], [], list(jobs)
    q = mp.get_context("fork")
    while todo or live:
        while todo and time.time() > end:
            res.append(failed(todo.pop(0), "not started: time is up", time.time()))
        while todo and len(live) < workers:
            j = todo.pop(0)
            a, b = q.Pipe(False)
            def body(j=j, b=b):
                try:
                    import resource
                    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
                    b.send(run_one(j))
                finally:
                    b.close()
            p = q.Process(target=body)
            p.start(); b.close()
            live.append((p, a, j, time.time()))
        nxt = []
        for p, a, j, t in live:
            if a.poll(0.02):
                try: res.append(a.recv())
                except EOFError: res.append(failed(j, "worker died", t))
                p.join(5)
                if p.is_alive(): p.kill()
            elif not p.is_alive():
                res.append(failed(j, "worker died", t))
            elif time.time() - t > limit or time.time() > end:
                p.kill(); p.join(); res.append(failed(j, "no result within %d s" % limit, t))
            else:
                nxt.append((p, a, j, t))
        live = nxt
    return res

def failed(job, why, t):
    s = contract.CONTRACTS[job[1]]
    return dict(func=s["func"], prop=s["prop"], entry=s["entry"], mode=job[2], status="error", error=why, obligations=[], functions=[], trusted=[], loops=[], secs=round(time.time() - t, 2), solver_secs=0, queries=0, reach=0, index=job[1], dim=job[3])

def native_run(exe, prop, seed, first, count, secs, hints, tmp):
    os.makedirs(tmp, exist_ok=True)
    def lim():
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
    try:
        p = subprocess.run([exe, prop, str(seed), str(first), str(count), str(secs)] + [repr(float(h)) for h in hints[:400]], capture_output=True, timeout=secs + 60,
                           env=dict(os.environ, VREPLAY_TMP=tmp), preexec_fn=lim, stdin=subprocess.DEVNULL)
    except subprocess.TimeoutExpired:
        return dict(violation=False, evaluations=0, nontrivial=0, samples=[], note="timed out")
    lines = [l for l in p.stdout.decode(errors="replace").splitlines() if l.startswith("{\"violation\"")]
    if not lines:
        return dict(violation=p.returncode < 0 or p.returncode > 0, evaluations=0, nontrivial=0, samples=[], case=first, input=[], message="replay program ended with status %s: %s" % (p.returncode, p.stderr.decode(errors="replace")[-400:]), crashed=True)
    return json.loads(lines[-1])

def native_search(exe, prop, seed, secs, hints, workers):
    tmp = tempfile.mkdtemp(prefix="vreplay-", dir=build.BUILD)
    try:
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(workers) as ex:
            fs = [ex.submit(native_run, exe, prop, seed * 1000 + k, 0, 10 ** 12, secs, hints if k % 2 else [], os.path.join(tmp, str(k))) for k in range(workers)]
            rs = [f.result() for f in fs]
        for k, r in enumerate(rs):
            r["seed"] = seed * 1000 + k
            r["hints"] = hints[:400] if k % 2 else []
        bad = [r for r in rs if r.get("violation")]
        # a failing case must fail again
        for r in bad:
            if r.get("crashed"):
                continue
            again = native_run(exe, prop, r["seed"], r["case"], 1, 60, r["hints"], os.path.join(tmp, "again"))
            r["confirmed"] = bool(again.get("violation"))
        good = [r for r in bad if r.get("confirmed")] or [r for r in bad if r.get("crashed")]
        return rs, (good[0] if good else None)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

def hint_values(results):
    vs = set()
    for r in results:
        for o in r["obligations"]:
            for v in (o.get("model") or {}).values():
                if isinstance(v, (int, float)) and not isinstance(v, bool) and abs(v) < 1e300:
                    vs.add(float(v))
    return sorted(vs)[:400]

def known(prop):
    out = []
    try:
        for l in open(os.path.join(VERIF, "KNOWN_FINDINGS.txt")):
            if l.startswith("known: property=%s " % prop):
                out.append(l[len("known: "):].strip())
    except FileNotFoundError:
        pass
    return out

def decide(prop, tier, seed):
    t0 = time.time()
    thorough = tier == "thorough"
    sel = [i for i, s in enumerate(contract.CONTRACTS) if prop in ([s["prop"]] + list(s.get("also", ())))]
    err = None
    try:
        dump = build.mir()
        exe = build.native()
    except build.BuildError as e:
        print("the repository or the harness does not build:\n" + str(e)[-3000:])
        return 2
    workers = 8
    budget = 400 if thorough else 150
    jobs = [(dump, i, contract.CONTRACTS[i].get("mode", "unbounded"), contract.CONTRACTS[i].get("dim"), budget) for i in sel]
    jobs.sort(key=lambda j: -contract.CONTRACTS[j[1]].get("cost", 1))
    end = t0 + (3000 if thorough else 700)          # a check answers well within its time
    first = pool_run(jobs, budget * 2.2, workers, t0 + (end - t0) * 0.55)
    proved = [r for r in first if r["status"] == "proved" and r["mode"] == "unbounded"]
    rest = [r for r in first if not (r["status"] == "proved")]
    # what the unbounded mode cannot decide: fixed dimensions, labelled bounded
    bounded, undecided = [r for r in first if r["status"] == "proved" and r["mode"] != "unbounded"], []
    hints = hint_values(first)
    rs, bad = [], None
    if rest:
        # a failing input settles it
        rs, bad = native_search(exe, prop, seed, 15, hints, workers)
    if bad:
        undecided = rest
    elif rest:
        bj = []
        for r in rest:
            s = contract.CONTRACTS[r["index"]]
            for d in s.get("dims", (1, 2, 3)):
                if s.get("mode") != "bounded" or d != r.get("dim"):
                    bj.append((dump, r["index"], "bounded", d, budget))
        second = pool_run(bj, budget * 1.5, workers, end - 75)
        for r in rest:
            mine = [x for x in second if x["index"] == r["index"]]
            if mine and all(x["status"] == "proved" for x in mine):
                bounded += mine
                r["decided"] = "bounded"
            else:
                undecided.append(r)
                r["bounded_results"] = [dict(dim=x["dim"], status=x["status"], error=x["error"], failed=[o for o in x["obligations"] if o["status"] != "proved"]) for x in mine]
                for x in mine:
                    r["obligations"] = r["obligations"] + [dict(o, label="[dimension %d] %s" % (x["dim"], o["label"])) for o in x["obligations"] if o["status"] != "proved"]
    if not bad:
        secs = (240 if thorough else 15) if not undecided else (300 if thorough else 60)
        r2, bad = native_search(exe, prop, seed + (7919 if rs else 0), secs, hints, workers)
        rs = rs + r2
    rdir = os.path.join(build.BUILD, "replays")
    os.makedirs(rdir, exist_ok=True)
    rpath = os.path.join(rdir, "%s.json" % prop)
    code = 0
    for k in known(prop):
        print("KNOWN-FINDING: " + k)
    def failed_names():
        out = []
        for r in undecided:
            f = [o for o in r["obligations"] if o["status"] != "proved"]
            out.append(dict(contract=r["func"], entry=r["entry"], status=r["status"], error=r["error"], failed=[dict(obligation=o["label"], status=o["status"], backend=o["backend"], goal=o.get("goal"), path=o.get("path"), model=o.get("model")) for o in f][:20]))
        return out
    if bad:
        code = 1
        json.dump(dict(property=prop, kind="input", seed=bad["seed"], case=bad.get("case"), hints=bad["hints"], message=bad["message"], input=bad.get("input"), obligations=failed_names()), open(rpath, "w"), indent=1)
        print("failing input on the real code: %s" % bad["message"])
        for l in bad.get("input", []):
            print("   " + l[:400])
        for f in failed_names():
            for o in f["failed"][:4]:
                print("failed obligation: %s: %s (%s)" % (f["contract"], o["obligation"], o["status"]))
        print("VIOLATION property=%s replay=%s" % (prop, rpath))
    elif undecided:
        code = 1
        json.dump(dict(property=prop, kind="obligation", obligations=failed_names()), open(rpath, "w"), indent=1, default=str)
        for f in failed_names():
            print("undischarged: %s [%s] %s" % (f["contract"], f["status"], f["error"] or ""))
            for o in f["failed"][:6]:
                print("   %s (%s)" % (o["obligation"], o["status"]))
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, rpath))
    backends = {}
    for r in proved:
        for o in r["obligations"]:
            backends[o["backend"]] = backends.get(o["backend"], 0) + 1
    nob = sum(len(r["obligations"]) for r in first if r["mode"] == "unbounded")
    ndis = sum(sum(o["status"] == "proved" for o in r["obligations"]) for r in first if r["mode"] == "unbounded")
    cov = dict(
        obligations=nob, discharged=ndis,
        checker_cmd="VERIF_TIER=%s VERIF_SEED=%d ./check %s" % (tier, seed, prop),
        trusted_base=TRUST + ["contract assumed for a dependency: " + t for t in sorted({t for r in first + bounded for t in r["trusted"]})],
        contracts=[dict(function=r["func"], entry=r["entry"], status=r["status"] if not r.get("decided") else "not discharged for every dimension; bounded", mode=r["mode"], dimension=r.get("dim"), obligations=len(r["obligations"]),
                        discharged=sum(o["status"] == "proved" for o in r["obligations"]), seconds=r["secs"], solver_seconds=r["solver_secs"], solver_queries=r["queries"], loops=r["loops"], error=r["error"]) for r in sorted(first, key=lambda r: r["index"])],
        functions_executed=sorted({f for r in first for f in r["functions"]}),
        backends=backends, solver_seconds=round(sum(r["solver_secs"] for r in first + bounded), 2),
        bounded=[dict(function=r["func"], bound="dimension %s" % r["dim"], obligations=len(r["obligations"]), discharged=sum(o["status"] == "proved" for o in r["obligations"]), seconds=r["secs"]) for r in bounded],
        undischarged=[dict(function=r["func"], status=r["status"], error=r["error"]) for r in undecided],
        evaluations=sum(r.get("evaluations", 0) for r in rs), distinct_nontrivial=sum(r.get("nontrivial", 0) for r in rs),
        rule="replay search against the built crate: seeded inputs mixing ordinary, exactly representable, extreme and solver-suggested values; non-trivial when the case exercises a call with the property's precondition. Counts are per case, cases are drawn independently",
        samples=[s for r in rs for s in r.get("samples", [])][:4],
    )
    level = "proof" if proved else "other"
    if level == "other":
        cov["explanation"] = "contracts discharged for the stated bounds only; see 'bounded'"
    ev = dict(property=prop, tier=tier, seed=seed, level=LEVELS.get(prop, level), coverage=cov, assumptions=ASSUME, wall_s=round(time.time() - t0, 2), violations=1 if code else 0)
    if ev["level"] == "other" and "explanation" not in cov:
        cov["explanation"] = "see 'contracts' and 'bounded'"
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1, default=str)
    print("%s: %d contracts, %d proved for all inputs, %d decided with bounds, %d undischarged; obligations %d/%d; replay %d cases; %.0f s" % (prop, len(first), len(proved), len({r["index"] for r in bounded}), len(undecided), ndis, nob, cov["evaluations"], time.time() - t0))
    return code

LEVELS = {}

def replay(path):
    d = json.load(open(path))
    if d["kind"] != "input":
        print(json.dumps(d, indent=1)); return 0
    exe = build.native()
    tmp = tempfile.mkdtemp(prefix="vreplay-", dir=build.BUILD)
    r = native_run(exe, d["property"], d["seed"], d["case"] or 0, 1, 60, d["hints"], tmp)
    shutil.rmtree(tmp, ignore_errors=True)
    print(json.dumps(r, indent=1))
    return 1 if r.get("violation") else 0

if __name__ == "__main__":
    if sys.argv[1] == "--replay":
        sys.exit(replay(sys.argv[2]))
    if sys.argv[1] == "--setup":
        build.mir(); build.native(); sys.exit(0)
    sys.exit(decide(sys.argv[1], os.environ.get("VERIF_TIER", "quick"), int(os.environ.get("VERIF_SEED", "1"))))
