"""P10: runs that go on at the same time do not influence each other."""
from .common import *

RULE = ("a case is 2-4 different runs (own configuration, seed and stem, some without faults, some meeting write faults or a kill) started on one simulated machine with a shared output directory, "
        "shared ephemeris cache and, for some, shared inputs, interleaved operation by operation; every undisturbed run has to deliver exactly what it delivers alone and to leave exactly one "
        "complete log of its own; non-trivial when at least two processes alternate")
REAL, STUB = REAL_RUN, STUB_RUN + STUB_AR
QUICK_S = 26
ASSUMPTIONS = ["concurrent runs have different stems and process ids (same host)"]


def gen(rng, tier, idx):
    parks = rng.choice([None, rng.randrange(10**9), rng.randrange(10**9)])
    n = rng.choice([2, 2, 3, 4]) if parks is None else rng.choice([2, 2, 2, 3])
    base = random_params(rng, ar=0.65)
    ps = []
    for k in range(n):
        if rng.random() < 0.5:
            q = dict(base)
            if rng.random() < 0.5:
                q["fmt"] = rng.choice(["csv", "sqlite3", "hdf5"])
        else:
            q = random_params(rng, ar=0.65)
        ps.append(q)
    styles = rng.choice(["plain", "prefix", "dotted", "case"])
    stems = {"plain": ["alpha", "beta", "gamma", "delta"], "prefix": ["run", "run1", "run10", "ru"], "dotted": ["run", "run.1", "run.1.2", "run-1"], "case": ["run", "Run", "RUN", "rUn"]}[styles][:n]
    bad = rng.choice([None, None, "kill", "err"])
    return {"ps": ps, "seeds": [rng.randrange(2**31) for _ in ps], "stems": stems, "share": rng.random() < 0.5, "sched": {"seed": rng.randrange(10**6), "p": rng.choice([.02, .2, .7])},
            "policy": rng.choice([None, {"seed": rng.randrange(10**6), "short": .1, "eintr": .1}]), "listseed": rng.randrange(10**6), "force": [rng.random() < 0.3 for _ in ps],
            "parks": parks, "bad": bad, "bads": rng.randrange(10**9), "jump": rng.choice([0, 0, -3600, 10**5])}


def touched(ops):
    """path -> (operation indexes, whether any of them changes the file)"""
    g = {}
    for k, (op, fl, path, path2, size) in enumerate(ops):
        for f in (path, path2):
            if f and ptype(f) != "input":
                e = g.setdefault(f, [[], False])
                e[0].append(k)
                e[1] |= op in W.MUTATING or (op == "open" and bool(fl & (os.O_WRONLY | os.O_RDWR | os.O_CREAT)))
    return g


def park_at(rng, mine, others):
    """an operation in the middle of the work on some output or cache file: one that another run touches as well, if there is any"""
    hot = [f for f in mine if any(f in o and (o[f][1] or mine[f][1]) for o in others)]
    if hot and rng.random() < .85:
        return rng.choice(mine[rng.choice(sorted(hot))][0])
    out = [f for f in mine if ptype(f) != "cache"]
    files = out if out and rng.random() < .8 else sorted(mine)
    return rng.choice(mine[rng.choice(sorted(files))][0]) if files else None


def run_case(env, case):
    ps = [L.full(q) for q in case["ps"]]
    share = case["share"] and all(q == ps[0] for q in ps)
    solo, names, specs, nops = [], [], [], []
    x = env.world("b")
    for k, p in enumerate(ps):
        nm = dict(stem=case["stems"][k], stats=case["stems"][k] + "_st", ew=case["stems"][k] + "_eph")
        names.append(nm)
        sub = "in0" if share else f"in{k}"
        w = env.world("a")
        setup(w, p, sub=sub)
        r = w.phase([proc(p, seed=case["seeds"][k], sub=sub, pid=700 + k, **nm)])
        if r.code != 0:
            return {"violations": ref_failed(r), "nontrivial": None}
        solo.append(outputs(w, p, **nm))
        nops.append(r.ops[0])
        setup(x, p, sub=sub)
        specs.append(proc(p, seed=case["seeds"][k], sub=sub, pid=700 + k, force=case["force"][k], **nm))
    faults = []
    if case["bad"]:
        rng = random.Random(case["bads"])
        j = place(rng, nops[0], ("open", "write", "close", "unlink", "trunc", "read", "lock") if case["bad"] == "kill" else ("open", "write"))
        if j is not None:
            faults = [{"p": 0, "k": j, "a": "kill"} if case["bad"] == "kill" else {"p": 0, "k": j, "a": "err", "e": rng.choice([errno.EIO, errno.ENOSPC])}]
    sched = case["sched"]
    if case.get("parks") is not None:
        # one or two runs are held up in the middle of something while the others go on, or to their end
        rng = random.Random(case["parks"])
        tt = [touched(o) for o in nops]
        sched = {"seed": case["parks"], "p": rng.choice([0.0, 0.0, .002]), "parks": []}
        who = rng.sample(range(len(ps)), rng.randrange(1, len(ps)))
        sched["first"] = who[0]
        for i in who:
            j = park_at(rng, tt[i], tt[:i] + tt[i + 1:])
            if j is not None:
                sched["parks"].append([i, j, rng.choice([100, 1000, 10**6, 10**6])])
    r = x.phase(specs, sched=sched, policy=case["policy"], listseed=case["listseed"], jumps=[[100, case["jump"] * 10**9]] if case["jump"] else [], faults=faults)
    v = []
    for k, p in enumerate(ps):
        if k == 0 and faults:
            continue
        if r.codes[k] != 0:
            v.append(V("co-run-failed", f"run {k} ({case['stems'][k]}) exits {r.codes[k]} next to others: {r.out[k][-400:]}", who="co"))
            break
        d = diff(solo[k], outputs(x, p, **names[k]))
        if d:
            v.append(V("co-run-differs", f"run {k} ({case['stems'][k]}) alone vs next to {len(ps) - 1} others: {d}"))
            break
    if not v:
        lg = logs(x)
        own = {}
        for f in lg:
            t = open(x.path("out", f), errors="replace").read()
            hits = [k for k in range(len(ps)) if f"-t {case['stems'][k]} " in t.split("Command line:")[-1].split("\n")[0] + " "]
            starts = t.count("Sorcha Start (Main)")
            if "Command line:" in t and (len(hits) != 1 or starts != 1):
                v.append(V("log-mixed", f"{f} holds {starts} runs {hits}"))
            for k in hits:
                own.setdefault(k, []).append((f, completed(x, f)))
        for k in range(len(ps)):
            if k == 0 and faults:
                continue
            if [c for _, c in own.get(k, [])] != [True]:
                v.append(V("log-missing", f"run {k} ({case['stems'][k]}) completed but its logs are {own.get(k)} among {lg}"))
                break
    return {"violations": v, "nontrivial": [shape(q) + f"/{len(ps)}/sw{min(len(x.switches) // 20, 9)}/{case['bad']}" for q in ps] if len(x.switches) > 2 else None}


def shrink(case):
    n = len(case["ps"])
    if n > 2:
        for i in range(n):
            c = copy.deepcopy(case)
            for k in ("ps", "seeds", "stems", "force"):
                c[k].pop(i)
            yield c
    for i in range(n):
        for q in shrink_params(case["ps"][i]):
            c = copy.deepcopy(case)
            c["ps"][i] = q
            yield c
    for k, val in (("policy", None), ("listseed", 0), ("jump", 0), ("bad", None), ("parks", None)):
        if case.get(k) != val:
            yield dict(copy.deepcopy(case), **{k: val})
