"""P02: without SORCHA_SEED every run draws fresh noise from OS entropy, names its seed, and never restarts a stream."""
import re
from .common import *

RULE = ("a case is a random workload with randomisation on; it is run unseeded twice under different simulated OS entropy but identical clock, pid and string-hash seed, "
        "once more seeded with the number the first run reported, and once with every object doubled under another name in another chunk; "
        "non-trivial when the first run delivers at least 3 rows with randomised columns")
REAL, STUB = REAL_RUN, STUB_RUN + STUB_AR
QUICK_S = 20
ASSUMPTIONS = ["noise columns compared are continuous, so equal values in independent draws have negligible probability"]
NOISY = ("RA_deg", "Dec_deg", "trailedSourceMag")


def gen(rng, tier, idx):
    p = random_params(rng, ar=0.4, des=0.0)
    p.update(rand=True, posdec=None, magdec=None, link=0 if rng.random() < .6 else 2, limit=None, keep=1.0)
    p["nobj"] = max(3, p["nobj"])
    return {"p": p, "e1": rng.randrange(1, 10**9), "e2": rng.randrange(1, 10**9), "twin_seed": rng.randrange(0, 2**32), "policy": rng.choice([None, {"seed": rng.randrange(10**6), "short": .2, "eintr": .1}])}


def columns(o):
    h, rows = o["detections"]
    return [[r[h.index(c)] for r in rows] for c in NOISY]


def run_case(env, case):
    p = L.full(case["p"])
    w, r, o = ref(env, p, entropy=case["e1"], pid=4242)
    if r.code != 0:
        return {"violations": ref_failed(r), "nontrivial": None}
    v = []
    txt = "".join(open(w.path("out", f)).read() for f in logs(w))
    m = re.search(r"base rng seed is (\d+)", txt)
    n = nrows(o)
    if not m:
        v.append(V("seed-not-reported", "log of an unseeded run does not name the base seed"))
    else:
        _, r2, o2 = ref(env, p, "b", seed=int(m.group(1)), entropy=case["e2"], pid=99)
        d = diff(o, o2) if r2.code == 0 else f"exit {r2.code}"
        if d:
            v.append(V("reported-seed-wrong", f"SORCHA_SEED={m.group(1)} does not reproduce the run that reported it: {d}"))
    if case["e1"] != case["e2"]:
        x = env.world("c")
        setup(x, p)
        r3 = x.phase([proc(p, entropy=case["e2"], pid=4242)], policy=case["policy"])
        o3 = outputs(x, p)
        if r3.code != 0:
            v.append(failed(r3))
        elif n >= 3 and nrows(o3) >= 3:
            for c, a, b in zip(NOISY, columns(o), columns(o3)):
                k = len(set(a) & set(b))
                if k:
                    v.append(V("noise-repeats-across-runs", f"{k} of {len(a)} values of {c} are the same in two runs with different OS entropy"))
                    break
    # doubled objects: same sky track and physics under a second name, processed in a later chunk
    q = dict(p, mode="ext", chunk=1 + case["twin_seed"] % 3, link=0, eph_order="byobj", ew=False)
    y = env.world("d")
    setup(y, q)
    double(y, q)
    r4 = y.phase([proc(q, seed=case["twin_seed"])])
    o4 = outputs(y, q)
    if r4.code != 0:
        v.append(failed(r4, what="a run on a doubled catalogue"))
    else:
        for c in NOISY:
            if o4["detections"] is None:
                continue
            h, rows = o4["detections"]
            t = h.index("fieldMJD_TAI")
            seen = {}
            for row in rows:
                key = (row[t], row[h.index(c)])
                if key in seen and seen[key] != row[0]:
                    v.append(V("stream-restarts", f"{c} of {row[0]} and {seen[key]} at {row[t]} carry the same draw: {row[h.index(c)]}"))
                    break
                seen[key] = row[0]
            # chunk-wise restart shows as repeated noise residuals between twins
    return {"violations": v, "nontrivial": shape(p) if n >= 3 else None, "evals": 4}


def double(w, q):
    import pandas as pd
    sep = "\\s+" if q["aux_fmt"] == "whitespace" else ","
    for f in ("orbits.csv", "params.csv"):
        lines = open(w.path("in", f)).read().splitlines()
        k = next(i for i, l in enumerate(lines) if l.startswith("ObjID"))
        tw = ["twin_" + l for l in lines[k + 1:]]
        open(w.path("in", f), "w").write("\n".join(lines + tw) + "\n")
    if q["eph_fmt"] == "hdf5":
        df = pd.read_hdf(w.path("in", "eph.h5"))
        t = df.copy()
        t["ObjID"] = "twin_" + t["ObjID"].astype(str)
        df = pd.concat([df, t], ignore_index=True)
        df["ObjID"] = df["ObjID"].astype(object)
        os.unlink(w.path("in", "eph.h5"))
        df.to_hdf(w.path("in", "eph.h5"), key="sorcha_ephemeris", format="table", data_columns=True)
    else:
        lines = open(w.path("in", "eph.csv")).read().splitlines()
        open(w.path("in", "eph.csv"), "w").write("\n".join(lines + ["twin_" + l for l in lines[1:]]) + "\n")


def shrink(case):
    yield from shrink_case(case, simple=(("policy", None),))
