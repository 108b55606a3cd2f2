"""P01: results are a function of inputs, configuration and SORCHA_SEED alone."""
from .common import *

RULE = ("a case is a random workload (survey, ephemeris mode, filters, formats, chunking) with SORCHA_SEED fixed, executed in a reference environment and again in a perturbed one: "
        "other string-hash seed, OS entropy, pid, clock with jumps, directory order, file locations, short/interrupted system calls and co-running processes interleaved by the scheduler; "
        "non-trivial when the reference run delivers at least one row with a randomised stage on")
REAL, STUB = REAL_RUN, STUB_RUN + STUB_AR
HASHSEEDS = [0, 4711]
QUICK_S = 30
ASSUMPTIONS = ["same build of the numerical libraries on both sides (single-threaded BLAS)"]


def gen(rng, tier, idx):
    p = random_params(rng, ar=0.55)
    return {"p": p, "seed": rng.randrange(0, 2**31), "b": {"zygote": 1, "entropy": rng.randrange(2, 10**9), "pid": rng.randrange(2, 4 * 10**6), "listseed": rng.randrange(1, 10**6),
            "t_shift": rng.randrange(0, 10**9), "jump": rng.choice([0, -3600, 86400, 10**7]), "reloc": rng.random() < 0.7, "policy": rng.choice([None, {"seed": rng.randrange(10**6), "short": .2, "eintr": .1}]),
            "co": rng.choice([0, 0, 1, 2]), "sched": {"seed": rng.randrange(10**6), "p": 0.5}}}


def run_case(env, case):
    p, b = L.full(case["p"]), case["b"]
    w = env.world("a")
    setup(w, p)
    r = w.phase([proc(p, seed=case["seed"], zygote=0)])
    o1 = outputs(w, p)
    x = env.world("bb" if b.get("reloc") else "a2")
    x.now += b["t_shift"] * 10**9
    sub, out, cache = ("data/catalogues", "results/x", "arfiles") if b.get("reloc") else ("in", "out", "cache")
    setup(x, p, sub=sub, out=out, cache=cache)
    pre = x.root + "/" if b.get("reloc") else ""
    specs = [proc(p, seed=case["seed"], pre=pre, sub=sub, out=out, ar=cache, zygote=b["zygote"], entropy=b["entropy"], pid=b["pid"])]
    for k in range(b["co"]):
        specs.append(proc(p, seed=case["seed"] + 1 + k, sub=sub, out=out, ar=cache, stem=f"other{k}", stats=f"otherstats{k}", ew=f"othereph{k}", entropy=5 + k, pid=77 + k, zygote=k % 2))
    jumps = [[40, b["jump"] * 10**9], [120, -b["jump"] * 10**9]] if b["jump"] else []
    r2 = x.phase(specs, sched=b["sched"], policy=b["policy"], listseed=b["listseed"], jumps=jumps)
    o2 = outputs(x, p, out=out)
    v = []
    if r.code != r2.codes[0]:
        v.append(V("exit-differs", f"exit {r.code} vs {r2.codes[0]}: {r.out[0][-300:]} | {r2.out[0][-300:]}"))
    elif r.code == 0:
        d = diff(o1, o2)
        if d:
            v.append(V("output-differs", d))
    elif r.code != 0:
        v.append(failed(r))
    rnd = p["fading"] or p["rand"] or p["fill"] < 1
    return {"violations": v, "nontrivial": shape(p) + f"/co{b['co']}" if nrows(o1) and rnd else None}


def shrink(case):
    for k, val in (("co", 0), ("jump", 0), ("policy", None), ("reloc", False), ("t_shift", 0), ("listseed", 0), ("zygote", 0), ("entropy", 1), ("pid", 1000)):
        if case["b"][k] != val:
            c = copy.deepcopy(case)
            c["b"][k] = val
            yield c
    yield from shrink_case(case)
