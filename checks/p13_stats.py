"""P13: the statistics table describes the delivered detections."""
from .common import *
import statistics

RULE = ("a case is a random workload with a statistics table, cut into random chunks, executed under short and interrupted system calls and optionally killed and repeated with the overwrite flag; the table is "
        "recomputed from the delivered detections by an independent implementation; non-trivial when at least one object-filter group is compared")
REAL, STUB = REAL_RUN, STUB_RUN + STUB_AR
QUICK_S = 24


def gen(rng, tier, idx):
    p = random_params(rng, ar=0.3)
    p["stats"] = True
    if rng.random() < .3:
        p["bright"], p["limit"] = False, None
    return {"p": p, "seed": rng.randrange(2**31), "policy": rng.choice([None, {"seed": rng.randrange(10**6), "short": .2, "eintr": .1}]), "listseed": rng.randrange(10**6),
            "kill": rng.choice([None, None, rng.randrange(10**9)])}


def check(p, o):
    det, st = o["detections"], o["stats"]
    if det is None and st is None:
        return None, 0
    if det is None or st is None:
        return f"detections {'absent' if det is None else 'present'}, statistics {'absent' if st is None else 'present'}", 0
    h = list(det[0])
    i_o, i_f, i_m, i_p = (h.index(c) for c in ("ObjID", "optFilter", "trailedSourceMag", "phase_deg"))
    g = {}
    for r in det[1]:
        g.setdefault((r[i_o], r[i_f]), []).append(r)
    sh = list(st[0])
    tol = 0.51 * 10 ** -p["magdec"] if p["magdec"] is not None else 1e-9
    seen = {}
    for r in st[1]:
        d = dict(zip(sh, r))
        k = (d["ObjID"], d["optFilter"])
        if k in seen:
            return f"group {k} twice", 0
        seen[k] = d
    for k, d in seen.items():
        if k not in g and float(d["number_obs"]) != 0:
            return f"group {k} with number_obs {d['number_obs']} has no detection", 0
    for k, rows in g.items():
        if k not in seen:
            return f"group {k} with {len(rows)} detections is missing", 0
        d = seen[k]
        m, ph = [float(r[i_m]) for r in rows], [float(r[i_p]) for r in rows]
        want = {"number_obs": len(rows), "min_apparent_mag": min(m), "max_apparent_mag": max(m), "median_apparent_mag": statistics.median(m), "min_phase": min(ph), "max_phase": max(ph)}
        for c, x in want.items():
            t = tol if "mag" in c else 1e-9
            if abs(float(d[c]) - x) > t * max(1, abs(x) if t < 1e-6 else 1):
                return f"{k}: {c} = {d[c]}, detections give {x}", 0
        for c in ("object_linked", "date_linked_MJD"):
            if c in h and c in sh:
                x = {str(r[h.index(c)]) for r in rows}
                x = {"True" if u == "1" else "False" if u == "0" else u for u in x}
                y = d[c]
                if not any(u == y or (u and y and c != "object_linked" and abs(float(u) - float(y)) < 1e-6) for u in x):
                    return f"{k}: {c} = {y!r}, detections say {sorted(x)}", 0
    return None, len(g)


def run_case(env, case):
    p = L.full(case["p"])
    w = env.world("a")
    setup(w, p)
    v = []
    if case["kill"] is not None:
        w2, r0, _ = ref(env, p, name="b", seed=case["seed"])
        k = random.Random(case["kill"]).randrange(max(1, r0.nops[0]))
        w.phase([proc(p, seed=case["seed"], pid=88)], faults=[{"p": 0, "k": k, "a": "kill"}])
    r = w.phase([proc(p, seed=case["seed"], force=case["kill"] is not None)], policy=case["policy"], listseed=case["listseed"])
    if r.code != 0:
        return {"violations": ref_failed(r), "nontrivial": None}
    d, n = check(p, outputs(w, p))
    if d:
        v.append(V("statistics-disagree", d))
    return {"violations": v, "nontrivial": shape(p) + f"/{min(n, 12)}/{case['kill'] is not None}" if n else None}


def shrink(case):
    for c in shrink_case(case, simple=(("policy", None), ("listseed", 0), ("kill", None))):
        c["p"]["stats"] = True
        yield c
