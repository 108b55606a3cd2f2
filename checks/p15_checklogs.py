"""P15: check-logs tells completed runs from the others, whatever happened to them."""
from .common import *

RULE = ("a case is a tree of 2-6 runs that completed, failed on a seeded input or output fault, or were killed at a seeded operation (down to the moment the log was created), followed by `sorcha outputs "
        "check-logs` to the terminal or to a report file that may already exist, optionally while another run is in progress or with a write fault on the report; its verdict on every log is compared with "
        "what the run delivered; non-trivial when completed and incomplete runs are told apart")
REAL, STUB = REAL_RUN + ["sorcha_cmdline.outputs check-logs"], STUB_RUN + STUB_AR
QUICK_S = 24
MIN_CASES = 24
KINDS = ("open", "write", "read", "close", "trunc", "unlink", "lock")


def gen(rng, tier, idx):
    n = rng.randrange(2, 6)
    p = random_params(rng, ar=0.25)
    runs = []
    for k in range(n):
        runs.append({"how": pick(rng, ("ok", 3), ("kill", 4), ("err", 3), ("config", 1)), "s": rng.randrange(10**9), "dir": rng.choice(["res", "res", "res/a", "res/a/b c", "res/[x]"])})
    return {"p": p, "seed": rng.randrange(2**31), "runs": runs, "report": rng.choice([None, "report", "report.csv", "rep.v2"]), "exists": rng.choice([None, None, "plain", "csv", "both"]), "force": rng.random() < .4,
            "live": rng.random() < .3, "sched": {"seed": rng.randrange(10**6), "p": .3}, "listseed": rng.randrange(10**6), "fault": rng.choice([None, None, None, rng.randrange(10**9)])}


def indexes(w, p, out, stem):
    """names of the indexes of a delivered database (a run is not complete before they exist)"""
    f = w.path(out, stem + ".db")
    if p["fmt"] != "sqlite3" or not os.path.exists(f):
        return None
    try:
        con = sqlite3.connect(f"file:{urllib.parse.quote(f)}?mode=ro", uri=True)
        try:
            return sorted(r[0] for r in con.execute("select name from sqlite_master where type='index'"))
        finally:
            con.close()
    except sqlite3.Error as e:
        return str(e)


def run_case(env, case):
    p = L.full(case["p"])
    w0, r0, o0 = ref(env, p, name="b", seed=case["seed"])
    if r0.code != 0:
        return {"violations": ref_failed(r0), "nontrivial": None}
    x0 = indexes(w0, p, "out", "run")
    w = env.world("a")
    setup(w, p)
    truth = {}
    trace = []
    for k, ru in enumerate(case["runs"]):
        rng = random.Random(ru["s"])
        os.makedirs(w.path(ru["dir"]), exist_ok=True)
        kw = {}
        if ru["how"] == "kill":
            ops = r0.ops[0]
            j = rng.randrange(40) if rng.random() < .3 else place(rng, ops, KINDS) if rng.random() < .6 else rng.randrange(len(ops))
            f = {"p": 0, "k": min(j or 0, len(ops) - 1), "a": rng.choice(["kill", "kill_after"])}
            if ops[f["k"]][0] == "write" and ops[f["k"]][4] > 1 and rng.random() < .5:
                f = dict(f, a="torn", n=rng.randrange(1, ops[f["k"]][4]))
            kw["faults"] = [f]
        elif ru["how"] == "err":
            ops = [o if ptype(o[2] or o[3]) != "log" else ("-",) + o[1:] for o in r0.ops[0]]
            j = place(rng, ops, ("open", "read", "write"))
            kw["faults"] = [{"p": 0, "k": j or 0, "a": "err", "e": rng.choice([errno.EIO, errno.ENOSPC])}]
        names = dict(stem=f"run{k}", stats=f"stats{k}", ew=f"ephout{k}")
        sp = proc(p, seed=case["seed"], out=ru["dir"], pid=2000 + k, **names)
        if ru["how"] == "config":
            sp["argv"][sp["argv"].index("-s") + 1] = "LSST"
        r = w.phase([sp], **kw)
        # what a killed run has delivered may be complete; a run that ends with an error has failed
        good = ru["how"] == "kill" and diff(o0, outputs(w, p, out=ru["dir"], **names)) is None and indexes(w, p, ru["dir"], names["stem"]) == x0
        trace.append({"run": k, "how": ru["how"], "faults": kw.get("faults"), "exit": r.code})
        for f in logs(w, ru["dir"]):
            if f.startswith(f"run{k}-"):
                truth[os.path.join(ru["dir"], f)] = (r.code == 0, good)
    v, argv = [], ["check-logs", "-f", "res"]
    rep = case["report"]
    pre = {}
    if rep:
        argv += ["-o", rep] + (["--force"] if case["force"] else [])
        full = rep if rep.endswith(".csv") else rep + ".csv"
        names = {None: [], "plain": [rep], "csv": [full], "both": sorted({rep, full})}[case["exists"]]
        for f in names:
            open(w.path(f), "w").write("user data, not to be lost\n")
            pre[f] = 1
    specs = [dict(cmd="outputs", argv=argv, pid=3000)]
    if case["live"]:
        specs.append(proc(p, seed=case["seed"], out="res", stem="live", stats="livestats", ew="liveeph", pid=3001))
    kw = {}
    if case["fault"] is not None:
        rng = random.Random(case["fault"])
        if case["live"]:
            specs.pop()
        if rep and rng.random() < .4:
            kw["quota"] = rng.randrange(1, 400)
        else:                                             # something below the tree, or the report, cannot be read or written
            x = env.world("probe")
            shutil.rmtree(x.root)
            shutil.copytree(w.root, x.root)
            ops = x.phase(specs[:1], listseed=case["listseed"]).ops[0]
            k = place(rng, ops, ("open", "read", "write", "listdir"))
            if k is not None:
                kw["faults"] = [{"p": 0, "k": k, "a": "err", "e": rng.choice([errno.EIO, errno.EACCES, errno.ENOSPC])}]
    r = w.phase(specs, sched=case["sched"], listseed=case["listseed"], **kw)
    tag = f"runs {[t['how'] for t in trace]}, exits {[t['exit'] for t in trace]}; argv {argv}, existing {sorted(pre)}: exit {r.codes[0]}"
    out = r.out[0]
    verdict = None
    kept = {f for f in pre if os.path.exists(w.path(f)) and open(w.path(f)).read() == "user data, not to be lost\n"}
    fail_out = "unsuccessful" in out
    if rep and not case["force"] and kept != set(pre):
        v.append(V("existing-report-clobbered", f"{sorted(set(pre) - kept)} ({tag})"))
    elif not truth:
        if r.codes[0] == 0 and not case["live"] and not pre:
            v.append(V("no-logs-accepted", tag))
    elif r.codes[0] != 0:
        if not w.fault_counts.get("x") and not kw:
            v.append(V("check-logs-fails", f"({tag}) {out[-400:]}"))
    elif rep and pre and not case["force"]:
        pass                                              # refused or had nothing to save
    elif rep:
        if os.path.exists(w.path(full)) and full not in kept:
            h, rows = rd_csv(w.path(full))
            verdict = {os.path.relpath(x[0], w.root): x[1] == "True" for x in rows if len(x) >= 2}
        elif fail_out:
            v.append(V("report-missing", tag))
        elif not case["live"]:
            verdict = {f: True for f in truth}
    else:
        lines = out.split("\n")
        bad = {os.path.relpath(lines[i + 1].strip(), w.root) for i, l in enumerate(lines) if l.startswith("Failed run log filename") and i + 1 < len(lines)}
        verdict = {f: f not in bad for f in truth}
    if verdict is not None and not v:
        for f, (ok, good) in sorted(truth.items()):
            if f not in verdict:
                v.append(V("log-not-listed", f"{f} ({tag})"))
                break
            if verdict[f] and not (ok or good):
                v.append(V("failed-run-called-successful", f"{f} ({tag})"))
                break
            if ok and not verdict[f]:
                v.append(V("completed-run-called-failed", f"{f} ({tag})"))
                break
    oks = {t[0] for t in truth.values()}
    return {"violations": v, "nontrivial": f"{sorted(t['how'] + str(t['exit']) for t in trace)}/{rep}/{case['exists']}/{case['force']}/{case['live']}" if len(oks) == 2 else None, "trace": trace}


def shrink(case):
    yield from shrink_case(case, keys_lists=("runs",), simple=(("live", False), ("report", None), ("exists", None), ("force", False), ("fault", None), ("listseed", 0)))
