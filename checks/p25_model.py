"""P25: what a run delivers is what its inputs and configuration say, exactly once."""
from .common import *
from . import refmodel as R

RULE = ("a case is a workload without random modules over all cameras, phase functions, filters sets, limits, cuts and linking criteria, one seeded execution environment (chunking, interrupted and short calls, co-running process) "
        "and possibly one read error; the delivered rows and values are compared with an executable reference model written from the documentation; non-trivial when rows are expected")
REAL = REAL_RUN
STUB = STUB_RUN + STUB_AR + ["with generated ephemerides the model starts from the ephemeris the run itself wrote (its correctness is P19)"]
QUICK_S = 26
MIN_CASES = 40
ASSUMPTIONS = ["decisions within 1e-9 of a threshold are not judged"]


def gen(rng, tier, idx):
    p = random_params(rng, ar=.2, des=0, deterministic=True)
    des = rng.random() < .25
    p["phase"] = pick(rng, ("HG", 3), ("HG1G2", 1), ("HG12", 1), ("linear", 1), ("none", 1))
    p["gband"] = rng.random() < .3
    p["mainf"] = rng.choice("rrrgiz")
    fs = list("rgizuy" if not des else "rgiz")
    rng.shuffle(fs)
    p["obsf"] = pick(rng, (None, 1), (fs, 1), (fs[:rng.randrange(1, len(fs) + 1)], 1))
    if p["obsf"] is not None and set(p["obsf"]) == {p["mainf"]}:
        p["gband"] = False           # with one filter the parameters have no filter in their names
    p["phase_max"] = pick(rng, (25.0, 2), (100.0, 1), (6.0, 1))
    p["brightlim"] = pick(rng, ("15.0", 1), (f"{rng.uniform(17, 21):.3f}", 2), (None, 2))
    p["limit"] = pick(rng, (None, 2), (["snr_limit", round(rng.uniform(2, 60), 3)], 1), (["mag_limit", round(rng.uniform(18.5, 22), 3)], 1))
    p["radius"] = pick(rng, (1.75, 1), (round(rng.uniform(.3, 2.2), 3), 2), (0.0, .08))
    p["fill"] = 1.0 if rng.random() < .96 else 0.0
    p["motion"] = pick(rng, (.12, 2), (.02, 1), (1.5, 1), (6.0, 1))
    p["edge"] = pick(rng, (None, 1), (2.0, 1), (60.0, 1)) if p["camera"] == "footprint" else None
    p["ids"] = pick(rng, ("plain", 3), ("mixed", 2), ("num", 1), ("zero", 1), ("long", 1))
    p["columns"] = pick(rng, ("all", 5), ("basic", 2), ("ObjID,FieldID,fieldMJD_TAI,optFilter,PSFMag,RA_deg,Dec_deg", 1))
    p["lc"] = rng.random() < .15
    p["nobj"] = rng.randrange(2, 9)
    p["nights"], p["visits"] = rng.randrange(3, 9), rng.randrange(1, 4)
    p["ssp"] = (pick(rng, (2, 4), (1, 1), (3, 1)), rng.randrange(1, 5), rng.randrange(1, 16), round(pick(rng, (.5, 2), (rng.uniform(1, 60), 1), (rng.uniform(60, 400), 1)), 3), rng.choice([.0625, .03, .01, .1]))
    p["stride"] = pick(rng, (1, 4), (3, 1))
    p["posdec"], p["magdec"] = pick(rng, ((None, None), 3), ((6, 3), 1), ((2, 1), 1), ((0, 0), .5))
    if des:
        p.update(survey="DES", trail=False, vign=False, limit=None if p["limit"] is None or p["limit"][0] == "snr_limit" else p["limit"], columns="all", posdec=None, magdec=None)
        p["obsf"] = None if p["obsf"] is None else [f for f in p["obsf"] if f in "rgiz"] or None
        p["camera"] = pick(rng, ("visits_footprint", 3 if p["mode"] == "ar" else 0), ("circle", 1), ("none", 1), ("footprint", 1))
        p["cuts"] = {}
        if rng.random() < .4:
            p["cuts"].update(distance_cut_lower=round(rng.uniform(1.5, 2.6), 3), distance_cut_upper=round(rng.uniform(2.6, 3.5), 3))
        if rng.random() < .4:
            p["cuts"].update(motion_cut_lower=round(p["motion"] * rng.uniform(0, .6), 4), motion_cut_upper=round(p["motion"] * rng.uniform(.6, 1.4), 4))
        if rng.random() < .6:
            p.update(link=1, nights=rng.randrange(5, 14), stride=rng.choice([1, 5, 25, 40, 70]), fields=1, motion=.02)
        else:
            p["link"] = 0
        if p["mode"] == "ar":
            p["stride"] = min(p["stride"], 5)
    p["motion"] = min(p["motion"], 40.0 / (p["nights"] * (p["stride"] + 1)))
    if p["mode"] == "ar":
        p["ew"] = True
        p["motion"] = min(p["motion"], .5)
        p["brute"] = True
        p["stride"] = min(p["stride"], 5)
        p["columns"] = "all" if des else p["columns"]
    if p["link"] and rng.random() < .4:           # separations near the threshold: tracklets over two or more visits
        p.update(visits=rng.randrange(3, 6), fields=1, keep=1.0)
        p["ssp"] = (pick(rng, (2, 3), (3, 1)), rng.randrange(1, 3), 15, round(max(.05, p["motion"] * 72 * rng.uniform(.2, 1.6)), 3), rng.choice([.0625, .1, .045]))
    if not {q["filter"] for q in L.pointings(L.full(p))[0]} & set(L.survey_filters(L.full(p))):
        p["obsf"], p["mainf"] = None, "r"     # refused: nothing observed in any of the filters
    if p["brightlim"] is None:
        fl = L.survey_filters(L.full(p))
        p["brightlim"] = ",".join(f"{rng.uniform(17, 21):.2f}" for _ in fl)
    return {"p": p, "env": rng.randrange(10**9), "rough": rng.random() < .5, "fault": pick(rng, (None, 3), (rng.randrange(10**9), 1))}


NUM = {"FieldID", "detectorID"}
POS = ("fieldRA_deg", "fieldDec_deg", "RA_deg", "Dec_deg", "astrometricSigma_deg", "RATrue_deg", "DecTrue_deg")
MAGS = ("PSFMag", "trailedSourceMag", "trailedSourceMagTrue", "PSFMagTrue", "PSFMagSigma", "trailedSourceMagSigma", "fieldFiveSigmaDepth_mag", "fiveSigmaDepth_mag")


def run_case(env, case):
    p = L.full(case["p"])
    rng = random.Random(case["env"])
    faults = []
    policy = {"short": .02, "eintr": .01, "seed": case["env"]} if case["rough"] else None
    if case["fault"] is not None:
        w, r, o = ref(env, p, seed=rng.randrange(10**6), name="b")
        k = place(random.Random(case["fault"]), r.ops[0], ("open", "read", "pread", "stat"))
        if k is not None:
            faults = [{"p": 0, "k": k, "a": "err", "e": rng.choice([errno.EIO, errno.EACCES, errno.EMFILE])}]
    w = env.world("a")
    setup(w, p)
    r = w.phase([proc(p, seed=rng.randrange(10**6))], listseed=rng.randrange(10**6), faults=faults, **({"policy": policy} if policy else {}))
    if r.code != 0:
        return {"violations": [] if faults else ref_failed(r), "nontrivial": None}
    o = outputs(w, p)
    eph = None
    if p["mode"] == "ar":
        if not o.get("ephemeris"):
            eph = []
        else:
            eph = [dict(zip(o["ephemeris"][0], x)) for x in o["ephemeris"][1]]
            pts = {q["id"]: q for q in L.pointings(p)[0]}
            for e in eph:
                q = pts[int(float(e["FieldID"]))]
                if abs(float(e["fieldMJD_TAI"]) - q["t"] - q["vt" if p["survey"] == "rubin_sim" else "et"] / 2 / 86400) > 1e-7:
                    return {"violations": [V("not-at-mid-visit", f"{e['ObjID']} in visit {q['id']} is computed for {e['fieldMJD_TAI']}, the visit of {q['vt']} s starts {q['t']}")], "nontrivial": None}
    try:
        want = R.survey(p, eph)
    except R.Ambiguous:
        return {"violations": [], "nontrivial": None}
    tag = f"(camera {p['camera']}, survey {p['survey']}, phase {p['phase']}, faults {faults})"
    v = []
    if not want:
        if nrows(o):
            v.append(V("unexpected-detections", f"{nrows(o)} rows delivered, none expected, first {o['detections'][1][0][:4]} {tag}"))
        return {"violations": v, "nontrivial": None}
    if o["detections"] is None:
        return {"violations": [V("missing-detections", f"nothing delivered, {len(want)} rows expected {tag}")], "nontrivial": None}
    h, rows = o["detections"]
    bykey, fid = {}, "FieldID" in h
    wanted = want if fid else {(k[0], round(x["fieldMJD_TAI"], 7)): x for k, x in want.items()}
    for x in rows:
        d = dict(zip(h, x))
        k = (d["ObjID"], int(float(d["FieldID"])) if fid else round(float(d["fieldMJD_TAI"]), 7))
        if k in bykey:
            v.append(V("delivered-twice", f"{k} {tag}"))
        bykey[k] = d
    miss, extra = sorted(set(wanted) - set(bykey)), sorted(set(bykey) - set(wanted))
    if miss:
        v.append(V("missing-detections", f"{len(miss)} of {len(wanted)} expected detections not delivered, first {miss[:3]}; {len(extra)} not expected, first {extra[:3]} {tag}"))
    if extra:
        v.append(V("unexpected-detections", f"{len(extra)} of {len(bykey)} delivered detections not expected, first {extra[:3]} {tag}"))
    for k in sorted(set(wanted) & set(bykey)):
        if v:
            break
        d, x = bykey[k], wanted[k]
        for c in h:
            if c not in x:
                continue
            a, b = d[c], x[c]
            if c in ("ObjID", "optFilter"):
                ok = a == b
            elif c == "object_linked":
                ok = a in (("True", "1", "1.0") if b else ("False", "0", "0.0"))
            elif a == "" or b != b:
                ok = a in ("", "nan") and b != b
            else:
                t = 1e-8 + 1e-8 * abs(b) if c != "fieldMJD_TAI" else 1e-8
                dec = p["posdec"] if c in POS else p["magdec"] if c in MAGS else None
                if dec is not None:
                    t += .501 * 10 ** -dec
                ok = abs(float(a) - b) <= t and (dec is None or abs(float(a) - round(float(a), dec)) < 1e-10)
            if not ok:
                v.append(V("wrong-value", f"{c} of {k}: delivered {a}, expected {b} {tag}", sig=c))
                break
    need = {"basic": {"ObjID", "fieldMJD_TAI", "RA_deg", "optFilter", "trailedSourceMag"}, "all": {"PSFMag", "trailedSourceMagTrue", "fiveSigmaDepth_mag", "RATrue_deg"}}.get(p["columns"], set(p["columns"].split(",")))
    if not v and not need <= set(h):
        v.append(V("columns", f"no columns {sorted(need - set(h))} {tag}"))
    return {"violations": v[:1], "nontrivial": [shape(p) + f"/{p['phase']}/{p['gband']}/{p['mainf']}"], "evals": 1 + len(want) // 10}


def shrink(case):
    for k, val in (("fault", None), ("rough", False)):
        if case[k] != val:
            yield dict(copy.deepcopy(case), **{k: val})
    p = case["p"]
    for q in shrink_params(p):
        if q.get("survey", "rubin_sim") != p.get("survey", "rubin_sim"):
            continue
        yield dict(copy.deepcopy(case), p=q)
    for k, val in (("phase", "HG"), ("gband", False), ("mainf", "r"), ("obsf", None), ("lc", False), ("columns", "all"), ("cuts", None), ("stride", 1)):
        if k in p and p[k] != val and not (k == "mainf" and p.get("obsf")):
            yield dict(copy.deepcopy(case), p=dict(p, **{k: val}))
