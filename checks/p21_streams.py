"""P21: random modules draw from independent streams of one seed."""
from .common import *

RULE = ("a case is a workload and a seed; it is run with one module after another switched (fading, camera gaps, measurement noise, brightness limits, linking without dropping, statistics, verbosity, written "
        "ephemeris) and once with another seed, under short and interrupted system calls, and the delivered detections are related row by row; non-trivial when a switched module dropped rows or drew noise")
REAL, STUB = REAL_RUN, STUB_RUN + STUB_AR
QUICK_S = 24
MIN_CASES = 24
TOGGLES = ("fading", "fill", "rand", "bright", "mag", "link2", "link1", "stats", "loglevel", "ew", "seed")


def gen(rng, tier, idx):
    p = random_params(rng, ar=0.3, des=0.0, fmts=("csv", "csv", "sqlite3"))
    p.update(columns="all", nobj=max(4, p["nobj"]), link=0, limit=None, bright=False, camera=pick(rng, ("circle", 3), ("footprint", 1)), posdec=None, magdec=None, rand=True, fading=False, fill=1.0)
    return {"p": p, "seed": rng.randrange(2**32), "toggles": rng.sample(TOGGLES, rng.randrange(2, 5)), "fill": rng.choice([.9, .7]), "policy": rng.choice([None, None, {"seed": rng.randrange(10**6), "short": .2, "eintr": .1}]),
            "with": rng.sample(["fading", "fill"], rng.randrange(0, 3))}


def equal(a, b):
    """the same value, if need be printed differently (whole numbers)"""
    if a == b:
        return True
    try:
        return float(a) == float(b)
    except ValueError:
        return False


def table(o):
    h, rows = o["detections"] if o["detections"] else ((), [])
    h = list(h)
    if not rows:
        return h, {}
    i, j = h.index("ObjID"), h.index("FieldID")
    return h, {(r[i], r[j]): r for r in rows}


def run_case(env, case):
    base = L.full(case["p"])
    v, seen = [], set()
    used = []

    def go(p, seed=case["seed"]):
        w = env.world("a")
        setup(w, p)
        r = w.phase([proc(p, seed=seed)], policy=case["policy"])
        if r.code != 0:
            v.extend(ref_failed(r))
            return None, None
        return table(outputs(w, p))

    def with_(*ks):
        q = dict(base)
        for k in ks:
            if k == "fading":
                q["fading"] = True
            elif k == "fill" and base["camera"] == "circle":
                q["fill"] = case["fill"]
        return q
    for t in case["toggles"]:
        if v:
            break
        lo = with_()
        subset = True
        if t == "fading":                       # fading comes after the camera gaps: whatever they did, it only takes rows away
            lo = with_(*[k for k in case["with"] if k == "fill"])
            hi = dict(lo, fading=True)
        elif t == "fill":
            hi = with_("fill")
        elif t == "rand":
            # no row may leave for another reason than the draw: no signal-to-noise cut, no detector edge for the noise to cross
            lo, subset = dict(base, camera="circle", radius=40.0, edge=None, fill=case["fill"], snrcut=False, faint=0.0), None
            hi = dict(lo, rand=False)
        elif t == "bright":
            lo = with_(*case["with"])
            hi = dict(lo, bright=True)
        elif t == "mag":
            hi = dict(lo, limit=["mag_limit", 19.5])
        elif t in ("link1", "link2"):
            lo = with_(*case["with"])
            hi = dict(lo, link=int(t[4]), link_eff=0.9)
            subset = True if t == "link1" else False
        elif t == "ew":
            if base["mode"] != "ar":
                continue
            lo = with_(*case["with"])
            hi, subset = dict(lo, ew=not lo["ew"]), False
        elif t in ("stats", "loglevel"):
            lo = with_(*case["with"])
            hi, subset = dict(lo, **{t: not lo[t]}), False
        else:
            h, a = go(with_(*case["with"]))
            if h is None:
                break
            h2, b = go(with_(*case["with"]), seed=(case["seed"] + 1) % 2**32)
            if h2 is None:
                break
            if a and b:
                for c in ("RA_deg", "trailedSourceMag"):
                    k = [x for x in set(a) & set(b) if a[x][h.index(c)] == b[x][h2.index(c)]]
                    if len(k) > 0:
                        v.append(V("seeds-share-noise", f"{c} of {k[0]} is the same for seeds {case['seed']} and its successor", sig=c))
                        break
                used.append("seed")
            continue
        h1, a = go(lo)
        if h1 is None:
            break
        h2, b = go(hi)
        if h2 is None:
            break
        if not a or not b:
            if a or not subset and b:
                seen.add(t)
            if not subset and bool(a) != bool(b):
                v.append(V("selection-changes", f"{t}: {len(a)} rows vs {len(b)} rows", sig=t))
            if b and not a:
                v.append(V("selection-changes", f"{t}: rows appear when a filter is switched on", sig=t))
            continue
        extra = sorted(set(b) - set(a))
        if extra:
            v.append(V("selection-changes", f"switching {t} adds detections {extra[:3]} ({len(a)} vs {len(b)})", sig=t))
        elif subset is not True and len(b) != len(a):
            v.append(V("selection-changes", f"switching {t} removes detections {sorted(set(a) - set(b))[:3]} ({len(a)} vs {len(b)})", sig=t))
        elif subset is not None:
            cs = [c for c in h1 if c in h2]
            for k in sorted(b):
                d = [(c, a[k][h1.index(c)], b[k][h2.index(c)]) for c in cs if not equal(a[k][h1.index(c)], b[k][h2.index(c)])]
                if d:
                    v.append(V("values-change", f"switching {t} changes {k}: {d[:3]}", sig=t))
                    break
        if len(a) != len(b) or subset is not True:
            used.append(t)
    return {"violations": v[:1], "nontrivial": f"{shape(base)}/{'+'.join(used)}/{'+'.join(case['with'])}" if used else None, "evals": len(case["toggles"])}


def shrink(case):
    for xs in shrink_list(case["toggles"]):
        yield dict(copy.deepcopy(case), toggles=xs)
    for xs in shrink_list(case["with"]):
        yield dict(copy.deepcopy(case), **{"with": xs})
    for c in shrink_case(case, simple=(("policy", None),)):
        if c["p"].get("columns") == "all" and c["p"].get("rand"):
            yield c
