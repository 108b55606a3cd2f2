"""P04: splitting the catalogue over concurrent runs and merging gives what one run gives."""
from .common import *

RULE = ("a case is a random workload with the random stages off, run once as a whole and again as 2-4 concurrent runs over a random partition of the catalogue that share pointing database, cache and "
        "output directory, interleaved operation by operation by the seeded scheduler with clock jumps and short/interrupted system calls; SQLite results are then merged with `sorcha outputs create-sqlite`; "
        "non-trivial when something is detected and at least two processes are interleaved")
REAL, STUB = REAL_RUN + ["sorcha_cmdline.outputs create-sqlite"], STUB_RUN + STUB_AR
QUICK_S = 24
ASSUMPTIONS = ["random stages off: the shards have their own random streams"]


def gen(rng, tier, idx):
    p = random_params(rng, ar=0.4, deterministic=True, fmts=("csv", "sqlite3", "sqlite3", "hdf5"))
    p["nobj"] = rng.randrange(3, 13)
    if p["fmt"] == "sqlite3":
        p["aux_fmt"], p["comment"] = "whitespace", 0
    k = min(p["nobj"], rng.randrange(2, 5))
    part = [rng.randrange(k) for _ in range(p["nobj"])]
    return {"p": p, "part": part, "chunks": [rng.choice([1, 2, 5000]) for _ in range(k)], "sched": {"seed": rng.randrange(10**6), "p": rng.choice([.02, .2, .7])},
            "policy": rng.choice([None, {"seed": rng.randrange(10**6), "short": .1, "eintr": .1}]), "listseed": rng.randrange(10**6), "jump": rng.choice([0, 0, -7200, 10**6]),
            "subdirs": rng.random() < .3, "prefix": rng.choice(["part", "run", "shard-"]), "twice": rng.random() < .4}


def union(os_):
    o = {}
    for k in sorted({k for x in os_ for k in x}):
        ts = [x[k] for x in os_ if x.get(k) is not None]
        ts = [t for t in ts if t[0] or t[1]] or ts      # an HDF5 file holds no table as long as there is no row
        o[k] = (ts[0][0], [r for t in ts for r in t[1]]) if ts else None
        if any(t[0] != o[k][0] for t in ts):
            o[k] = ("headers differ", [t[0] for t in ts])
    return o


def run_case(env, case):
    p = L.full(case["p"])
    w, r, o = ref(env, p, seed=1)
    if r.code != 0:
        return {"violations": ref_failed(r), "nontrivial": None}
    x = env.world("b")
    shards = sorted(set(case["part"]))
    specs, where = [], []
    os.makedirs(x.path("inputs"))
    for j, s in enumerate(shards):
        q = dict(p, chunk=case["chunks"][s % len(case["chunks"])])
        sub, out = f"in{s}", f"results/{s}" if case["subdirs"] else "results"
        setup(x, q, sub=sub, out=out)
        L.materialise(x, q, sub=sub, subset=[i for i in range(p["nobj"]) if case["part"][i] == s])
        for a, b in (("orbits.csv", "orbits"), ("params.csv", "params")):
            shutil.copy(x.path(sub, a), x.path("inputs", f"{b}_{s}.txt"))
        names = dict(stem=f"{case['prefix']}{s}", stats=f"stats{s}", ew=f"ephout{s}")
        where.append((q, out, names))
        specs.append(proc(q, seed=1, sub=sub, out=out, pid=300 + j, **names))
    jumps = [[150, case["jump"] * 10**9]] if case["jump"] else []
    r2 = x.phase(specs, sched=case["sched"], policy=case["policy"], listseed=case["listseed"], jumps=jumps)
    v = []
    bad = [i for i, c in enumerate(r2.codes) if c != 0]
    if bad:
        return {"violations": [V("shard-failed", f"shard {bad[0]} of {len(specs)} exits {r2.codes[bad[0]]}: {r2.out[bad[0]][-500:]}")], "nontrivial": None}
    parts = [outputs(x, q, out=out, **names) for q, out, names in where]
    d = diff_close(o, union(parts))
    if d:
        v.append(V("union-differs", f"whole run vs union of {len(specs)} shards: {d}"))
    if p["fmt"] == "sqlite3" and nrows(o) and not v:
        m = dict(cmd="outputs", argv=["create-sqlite", "-o", "merged.sqlite", "-i", "inputs", "-r", "results", "-s", case["prefix"]])
        for _ in range(2 if case["twice"] else 1):
            r3 = x.phase([m], policy=case["policy"], listseed=case["listseed"])
        if r3.code != 0:
            v.append(V("merge-failed", r3.out[0][-500:]))
        else:
            got = rd_safe_db(x.path("merged.sqlite"), "sorcha_results")
            d = diff_close({"merged": o["detections"]}, {"merged": got})
            if d:
                v.append(V("merged-differs", f"whole run vs merged database: {d}"))
    return {"violations": v, "nontrivial": shape(p) + f"/{len(specs)}/sw{min(len(x.switches) // 20, 9)}" if nrows(o) and len(specs) > 1 else None}


def shrink(case):
    for i in range(len(case["part"])):
        if case["part"][i] != 0:
            c = copy.deepcopy(case)
            c["part"][i] = 0
            yield c
    for c in shrink_case(case, simple=(("policy", None), ("listseed", 0), ("jump", 0), ("subdirs", False), ("twice", False))):
        n = c["p"]["nobj"]
        c["part"] = c["part"][:n]
        if c["p"]["fmt"] == "sqlite3" and c["p"]["aux_fmt"] != "whitespace":
            continue
        yield c
