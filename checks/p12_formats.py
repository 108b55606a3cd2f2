"""P12: file formats carry the same content."""
from .common import *

RULE = ("a case is a workload run with the same seed in every output format, with the auxiliary files as CSV and whitespace tables and the ephemeris as CSV, whitespace table and HDF5, under short and "
        "interrupted system calls; all runs have to deliver the same rows up to number formatting; non-trivial when rows are delivered and at least two formats were compared")
REAL, STUB = REAL_RUN, STUB_RUN + STUB_AR
QUICK_S = 24
ASSUMPTIONS = ["values that differ in the last digits between text and binary storage do not cross a cut; compared to 1e-9"]


def gen(rng, tier, idx):
    p = random_params(rng, ar=0.35)
    p["posdec"] = p["magdec"] = None
    if rng.random() < 0.4:
        p["ids"] = rng.choice(["zero", "num", "mixed", "long"])
    vs = []
    for _ in range(3):
        q = {"fmt": rng.choice(["csv", "sqlite3", "hdf5"]), "aux_fmt": rng.choice(["csv", "whitespace"]), "eph_fmt": rng.choice(["csv", "whitespace", "hdf5"]), "comment": rng.choice([0, 0, 3]), "loglevel": rng.random() < .5}
        vs.append(q)
    return {"p": p, "seed": rng.randrange(2**31), "vars": vs, "policy": rng.choice([None, {"seed": rng.randrange(10**6), "short": .2, "eintr": .1}])}


def run_case(env, case):
    p = L.full(case["p"])
    w, r, o = ref(env, p, seed=case["seed"])
    if r.code != 0:
        return {"violations": ref_failed(r), "nontrivial": None}
    v, nt = [], []
    for var in case["vars"]:
        q = dict(p, **var)
        x = env.world("b")
        setup(x, q)
        r2 = x.phase([proc(q, seed=case["seed"])], policy=case["policy"])
        if r2.code != 0:
            v.append(V("format-run-failed", f"{var}: exit {r2.code}: {r2.out[0][-400:]}"))
            break
        d = diff_close(o, outputs(x, q), rel=1e-8, ab=1e-8)
        if d:
            v.append(V("format-changes-result", f"{ {k: p[k] for k in var} } vs {var}: {d}"))
            break
        if any(p[k] != var[k] for k in ("fmt", "aux_fmt", "eph_fmt")) and nrows(o):
            nt.append("/".join(f"{p[k]}>{var[k]}" for k in ("fmt", "aux_fmt", "eph_fmt")) + "/" + p["mode"] + p["ids"])
    return {"violations": v, "nontrivial": nt, "evals": 1 + len(case["vars"])}


def shrink(case):
    for i, var in enumerate(case["vars"]):
        if len(case["vars"]) > 1:
            yield dict(copy.deepcopy(case), vars=[var])
        for k in var:
            if var[k] != L.full(case["p"])[k]:
                c = copy.deepcopy(case)
                c["vars"][i][k] = L.full(case["p"])[k]
                yield c
    yield from shrink_case(case, simple=(("policy", None),))
