"""P14: a written ephemeris, read back as external ephemeris, reproduces the run."""
from .common import *

RULE = ("a case is a workload with generated ephemerides that are also written to disk (CSV, whitespace or HDF5) with one chunk size, then read back as external ephemerides with other chunk sizes, with the "
        "auxiliary catalogues possibly in another order, under short/interrupted system calls; the second run has to deliver the detections of the first; non-trivial when something is detected")
REAL, STUB = REAL_RUN, STUB_RUN + STUB_AR
QUICK_S = 24
ASSUMPTIONS = ["random stages off, as the order of random draws may differ; compared to 1e-8 (text round trip)"]


def gen(rng, tier, idx):
    p = random_params(rng, ar=1.0, deterministic=True)
    p["ew"] = True
    if p["camera"] == "visits_footprint":
        p["camera"] = "circle"
    if rng.random() < 0.4:
        p["ids"] = rng.choice(["zero", "num", "mixed", "long"])
    return {"p": p, "chunks": [rng.choice([1, 2, 3, p["nobj"], 5000]) for _ in range(2)], "policy": rng.choice([None, {"seed": rng.randrange(10**6), "short": .2, "eintr": .1}]),
            "fmt2": rng.choice([p["fmt"], "csv", "sqlite3"]), "order": rng.choice([None, "shuffle"])}


def run_case(env, case):
    p = L.full(case["p"])
    w, r, o = ref(env, p, seed=1)
    if r.code != 0:
        return {"violations": ref_failed(r), "nontrivial": None}
    ext = ".h5" if p["eph_fmt"] == "hdf5" else ".csv"
    src = w.path("out", "ephout" + ext)
    if not os.path.exists(src):
        return {"violations": [V("ephemeris-missing", "no ephemeris written")] if nrows(o) else [], "nontrivial": None}
    if not o["ephemeris"][1]:
        return {"violations": [V("ephemeris-missing", "no row in the ephemeris")] if nrows(o) else [], "nontrivial": None}
    v = []
    data = open(src, "rb").read()
    for c in case["chunks"]:
        q = dict(p, chunk=c, mode="ar", fmt=case["fmt2"])
        x = env.world("b")
        setup(x, q)
        L.materialise(x, q, order=case["order"])
        # the same simulation, with the ephemerides taken from the file
        cfg = open(x.path("in", "config.ini")).read().replace("ephemerides_type = ar", "ephemerides_type = external")
        cfg = "\n".join(l for l in cfg.split("\n") if not l.startswith("ar_"))
        cfg = cfg.replace("brute_force = False\n", "")
        open(x.path("in", "config.ini"), "w").write(cfg)
        with open(x.path("in", "eph" + ext), "wb") as f:
            f.write(data)
        e = dict(q, mode="ext", ew=False)
        r2 = x.phase([proc(e, seed=1)], policy=case["policy"])
        if r2.code != 0:
            v.append(V("readback-failed", f"{p['eph_fmt']} ephemeris written in chunks of {p['chunk']}, read in chunks of {c}: exit {r2.code}: {r2.out[0][-500:]}"))
            break
        o1 = {k: t for k, t in o.items() if k != "ephemeris"}
        o1, o2 = common_columns(o1, outputs(x, e))
        d = diff_close(o1, o2, rel=1e-8, ab=1e-8)
        if d:
            v.append(V("readback-differs", f"{p['eph_fmt']} ephemeris written in chunks of {p['chunk']}, read in chunks of {c}: {d}"))
            break
    return {"violations": v, "nontrivial": [shape(p) + f"/{p['chunk']}>{c}" for c in case["chunks"]] if nrows(o) else None, "evals": 2}


def shrink(case):
    for c in case["chunks"]:
        if len(case["chunks"]) > 1:
            yield dict(copy.deepcopy(case), chunks=[c])
    for c in shrink_case(case, simple=(("policy", None), ("order", None), ("fmt2", case["p"]["fmt"]))):
        c["p"]["ew"], c["p"]["mode"] = True, "ar"
        yield c
