"""P03: how the catalogue is cut into chunks does not change what comes out."""
from .common import *

RULE = ("a case is a random workload with every random stage off, often with stretches of objects that are in no field, run once in a single chunk and again with two other chunk sizes, under short and interrupted system calls and another "
        "directory order; non-trivial when at least one object is detected and the chunk sizes split the catalogue")
REAL, STUB = REAL_RUN, STUB_RUN + STUB_AR
QUICK_S = 30
ASSUMPTIONS = ["random stages are switched off, as randomised runs legitimately draw in processing order"]


def gen(rng, tier, idx):
    p = random_params(rng, ar=0.45, deterministic=True)
    p["nobj"] = rng.randrange(2, 14)
    if rng.random() < 0.4:
        p["ids"] = rng.choice(["zero", "num", "mixed", "long"])
    n = p["nobj"]
    cs = rng.sample(sorted({1, 2, 3, max(1, n // 2), n - 1 or 1, n, n + 1}), 2)
    if rng.random() < 0.5:         # whole stretches of the catalogue that are in no field
        a = rng.randrange(n)
        p["absent"] = list(range(a, min(n, a + rng.randrange(1, n + 1)))) if n > 1 else []
    return {"p": p, "chunks": cs, "policy": rng.choice([None, {"seed": rng.randrange(10**6), "short": .2, "eintr": .1}]), "listseed": rng.randrange(10**6)}


def run_case(env, case):
    p = L.full(dict(case["p"], chunk=5000))
    w, r, o = ref(env, p, seed=1)
    if r.code != 0:
        return {"violations": ref_failed(r), "nontrivial": None}
    v = []
    for c in case["chunks"]:
        q = dict(p, chunk=c)
        x = env.world("b")
        setup(x, q)
        r2 = x.phase([proc(q, seed=1)], policy=case["policy"], listseed=case["listseed"])
        if r2.code != 0:
            v.append(V("chunked-run-failed", f"chunk {c} of {p['nobj']} objects: exit {r2.code}: {r2.out[0][-500:]}"))
            break
        d = diff_close(o, outputs(x, q))
        if d:
            v.append(V("chunk-changes-result", f"one chunk vs chunks of {c} ({p['nobj']} objects): {d}"))
            break
    return {"violations": v, "nontrivial": [shape(dict(p, chunk=c)) + f"/{c}of{p['nobj']}" for c in case["chunks"] if c < p["nobj"]] if nrows(o) else None, "evals": 2}


def shrink(case):
    for c in case["chunks"]:
        if len(case["chunks"]) > 1:
            yield dict(copy.deepcopy(case), chunks=[c])
    yield from shrink_case(case, simple=(("policy", None), ("listseed", 0)))
