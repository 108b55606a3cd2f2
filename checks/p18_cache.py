"""P18: the shared cache never serves a partial file."""
from .netcache import *

RULE = ("a case is one cache directory (absent, empty, partly filled or left by killed processes) shared by 1-3 runs and bootstraps that start together, interleaved operation by operation, with seeded network "
        "faults, disk faults, a kill of one of them, and finally one more run with a working network; each delivered result is compared with the one computed from a complete cache; non-trivial when at "
        "least two processes were interleaved on an incomplete cache, or one was killed or failed")
REAL = REAL_RUN + ["sorcha_cmdline.bootstrap, pooch, requests, urllib3 above the transport adapter"]
STUB = ["HTTP transport (simulated servers)", "thread pool hand-over"] + STUB_RUN + STUB_AR
QUICK_S = 20
MIN_CASES = 16
ASSUMPTIONS = ["servers deliver correct bytes or fail visibly", "a forced re-download removes files under a run in progress, which may then fail, but not deliver anything else"]
KINDS = ("open", "write", "rename", "unlink", "close", "mkdir", "meta", "stat", "copy", "read")


def gen(rng, tier, idx):
    p = random_params(rng, ar=1.0, des=.15)
    p.update(nobj=rng.randrange(1, 4), nights=rng.randrange(1, 4), spread=0.5, keep=1.0)
    procs = []
    for _ in range(rng.randrange(1, 4)):
        procs.append({"cmd": pick(rng, ("run", 4), ("bootstrap", 2), ("force", 1)), "faults": net_faults(rng) if rng.random() < .25 else []})
    return {"p": p, "seed": rng.randrange(2**31), "prior": pick(rng, ("none", 2), ("empty", 1), ("partial", 5), ("full", 1)), "drop": [f for f in ALL if rng.random() < .4],
            "procs": procs, "harm": pick(rng, (None, 3), ("kill", 5), ("disk", 2)), "s": rng.randrange(10**9), "sched": {"seed": rng.randrange(10**6), "p": rng.choice([.02, .1, .3, .7])},
            "before": rng.random() < .4, "policy": rng.choice([None, None, {"seed": rng.randrange(10**6), "short": .1, "eintr": .05}])}


def run_case(env, case):
    p = L.full(case["p"])
    w0, r0, o0 = ref(env, p, name="b", seed=case["seed"])
    if r0.code != 0:
        return {"violations": ref_failed(r0), "nontrivial": None}
    w = env.world("a")
    os.makedirs(w.path("cache"))
    setup(w, p)
    if case["prior"] in ("partial", "full"):
        r = w.phase([dict(cmd="bootstrap", argv=["--cache", w.path("cache")], ar=True, net={"faults": []})])
        for f in case["drop"] if case["prior"] == "partial" else []:
            os.unlink(w.path("cache", f))
    elif case["prior"] == "none" and all(q["cmd"] != "run" for q in case["procs"]):   # a run refuses a folder that is not there
        os.rmdir(w.path("cache"))
    v, trace = [], []

    def specs(w, base):
        out = []
        for k, q in enumerate(case["procs"]):
            net = {"faults": q["faults"]}
            if q["cmd"] == "run":
                s = proc(p, seed=case["seed"], stem=f"run{base + k}", stats=f"stats{base + k}", ew=f"ephout{base + k}", pid=1000 + base + k, net=net)
                s["argv"][s["argv"].index("--ar") + 1] = w.path("cache")
                out.append(s)
            else:
                out.append(dict(cmd="bootstrap", argv=["--cache", w.path("cache")] + (["-f"] if q["cmd"] == "force" else []), ar=True, net=net, pid=1000 + base + k))
        return out

    def examine(r, base, harmed, tag):
        forced = any(q["cmd"] == "force" for q in case["procs"])
        bad = {f: s for f, s in state(w).items() if s.startswith("bad")}
        if bad:
            v.append(V("partial-file", f"{tag}: {bad}"))
        for k, q in enumerate(case["procs"]):
            if r.codes[k] != 0:
                if k != harmed and not q["faults"] and not forced:
                    v.append(V("process-fails", f"{tag}: {q['cmd']} {k} exits {r.codes[k]}: {r.out[k][-500:]}", sig=q["cmd"]))
            elif q["cmd"] == "run":
                names = dict(stem=f"run{base + k}", stats=f"stats{base + k}", ew=f"ephout{base + k}")
                d = diff(o0, outputs(w, p, **names))
                if d:
                    v.append(V("result-differs", f"{tag}: run {k}: {d}"))
            elif not forced and incomplete(state(w)):
                v.append(V("bootstrap-incomplete", f"{tag}: exit 0 but {incomplete(state(w))}"))

    rng = random.Random(case["s"])
    kw, harmed = {}, None
    sp = specs(w, 0)
    if case["harm"]:
        x = env.world("probe")
        shutil.rmtree(x.root)
        shutil.copytree(w.root, x.root)
        r = x.phase(specs(x, 0), sched=case["sched"], policy=case["policy"])
        harmed = rng.randrange(len(sp))
        ops = [o if ptype(o[2] or o[3]) == "cache" or rng.random() < .2 else ("-",) + o[1:] for o in r.ops[harmed]]
        j = place(rng, ops, KINDS if case["harm"] == "kill" else ("open", "write", "rename", "mkdir", "unlink", "read"))
        if j is None:
            harmed = None
        else:
            f = {"p": harmed, "k": j, "a": rng.choice(["kill", "kill_after"])} if case["harm"] == "kill" else {"p": harmed, "k": j, "a": "err", "e": rng.choice([errno.ENOSPC, errno.EIO, errno.EACCES])}
            if case["harm"] == "kill" and ops[j][0] == "write" and ops[j][4] > 1 and rng.random() < .5:
                f = dict(f, a="torn", n=rng.randrange(1, ops[j][4]))
            kw["faults"] = [f]
    before = incomplete(state(w))
    tag = f"cache {case['prior']}, {[q['cmd'] for q in case['procs']]}, harm {kw}"
    r = w.phase(sp, sched=case["sched"], policy=case["policy"], **kw)
    trace.append({"faults": kw, "exits": r.codes, "missing_before": before})
    examine(r, 0, harmed, tag)
    if not v:                                               # afterwards everybody succeeds
        after = incomplete(state(w))
        last = [dict(cmd="bootstrap", argv=["--cache", w.path("cache")], ar=True, net={"faults": []}, pid=5000)] if case["before"] or not os.path.isdir(w.path("cache")) else []
        s = proc(p, seed=case["seed"], stem="last", stats="laststats", ew="lasteph", pid=5001, net={"faults": []})
        s["argv"][s["argv"].index("--ar") + 1] = w.path("cache")
        for q in last + [s]:
            r2 = w.phase([q])
            if r2.code != 0:
                v.append(V("does-not-recover", f"{tag}, left {after}: {q['cmd']} exits {r2.code}: {r2.out[0][-500:]}"))
                break
        else:
            d = diff(o0, outputs(w, p, stem="last", stats="laststats", ew="lasteph"))
            if d:
                v.append(V("later-result-differs", f"{tag}, left {after}: {d}"))
    nt = f"{case['prior']}/{[q['cmd'] for q in case['procs']]}/{r.codes}/{sorted(before)}" if (len(sp) > 1 and before) or any(r.codes) else None
    return {"violations": v, "nontrivial": nt, "trace": trace}


def shrink(case):
    for i, q in enumerate(case["procs"]):
        if q["faults"]:
            c = copy.deepcopy(case)
            c["procs"][i]["faults"] = []
            yield c
    for c in shrink_case(case, keys_lists=("procs", "drop"), simple=(("policy", None), ("before", False), ("harm", None), ("prior", "none"))):
        if c["p"].get("mode") == "ar":
            yield c
