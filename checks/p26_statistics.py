"""P26: measurements scatter as their uncertainties say and detections are lost with the configured probabilities."""
from .common import *
from . import refmodel as R

RULE = ("a case is a catalogue of some thousand observations run twice (another seed, or one random module switched on) under seeded chunk sizes, interruptions and short calls; residuals and survivors are compared with "
        "normal and Bernoulli laws, in total, in bins, per object, per visit, between columns, between chunks and between seeds; non-trivial when at least 300 rows are judged")
REAL = REAL_RUN
STUB = STUB_RUN
QUICK_S = 30
MIN_CASES = 24
ASSUMPTIONS = ["a statistic is reported beyond 7 standard deviations only (chance below 1e-9 per statistic for a correct law; the seeds are fixed, so a verdict is repeatable)"]
LIMIT = 7.0


def gen(rng, tier, idx):
    p = dict(seed=rng.randrange(1, 10**6), mode="ext", camera="none", columns="all", stats=False, bright=False, snrcut=False, keep=1.0, vign=rng.random() < .5, trail=rng.random() < .6, fading=False, rand=False,
             eph_order=rng.choice(["byobj", "byobj", "bytime", "shuffled"]), ids=rng.choice(["plain", "num", "mixed"]), motion=rng.choice([.01, .05, .1]), dec=rng.choice([None, 80.0, -60.0, 0.0]),
             fmt=rng.choice(["csv", "csv", "sqlite3"]), nights=rng.randrange(8, 15), fields=1, visits=rng.randrange(3, 6), hrange=rng.choice([(13.0, 19.0), (16.0, 22.0), (18.0, 21.0)]), spread=.5)
    if rng.random() < .4:
        p.update(dec=0.0, vign=False, motion=rng.choice([1.0, 5.0]))
    kind = pick(rng, ("scatter", 3), ("fade", 3), ("fill", 2), ("link", 2), ("desfade", 1))
    n = rng.choice([2200, 5000, 5000]) // (p["nights"] * p["visits"])
    p["nobj"] = n
    p["chunk"] = rng.choice([1 if n < 80 else 17, 7, max(1, n // 2), 5000])
    if kind == "scatter":
        p["rand"] = True
    elif kind == "fade":
        p.update(rand=rng.random() < .6, fade=(rng.choice([1.0, 1.0, .9, .6]), rng.choice([.1, .1, .5, .3])), hrange=rng.choice([(18.4, 20.4), (17.0, 22.0)]))
    elif kind == "desfade":
        p.update(survey="DES", rand=False, trail=False, vign=False, transeff=rng.choice([.95529, 1.0, .5]), hrange=rng.choice([(18.0, 21.0), (17.0, 22.0)]), motion=min(.05, p["motion"]))
    elif kind == "fill":
        p.update(camera="circle", fill=rng.choice([.9, .5, .2, .97]), radius=rng.choice([40, 1.75]), rand=rng.random() < .5)
    else:
        p.update(nights=rng.randrange(3, 8), visits=2, nobj=rng.randrange(250, 330), keep=rng.choice([1.0, .8]), chunk=rng.choice([40, 5000]), link=pick(rng, (1, 2), (2, 1)), link_eff=rng.choice([.95, .5, .5, .2]),
                 ssp=(2, pick(rng, (1, 1), (2, 2), (3, 1)), rng.randrange(3, 12), .05, .0625), rand=False, motion=.3)
    return {"p": p, "kind": kind, "seeds": [rng.randrange(2**31), rng.randrange(2**31)], "env": rng.randrange(10**9), "rough": rng.random() < .3}


def table(env, case, p, seed, name):
    w = env.world(name)
    setup(w, p)
    policy = {"short": .02, "eintr": .01, "seed": case["env"]} if case["rough"] else None
    r = w.phase([proc(p, seed=seed)], listseed=case["env"] % 10**6, **({"policy": policy} if policy else {}))
    if r.code != 0:
        return None, ref_failed(r)
    o = outputs(w, p)
    if o["detections"] is None:
        return {}, []
    h, rows = o["detections"]
    t = [dict(zip(h, x)) for x in rows]
    d = {(x["ObjID"], int(float(x["FieldID"]))): x for x in t}
    return d, ([V("delivered-twice", f"{len(t) - len(d)} rows")] if len(d) != len(t) else [])


class Judge:
    def __init__(self, tag):
        self.v, self.n, self.tag = [], 0, tag

    def check(self, z, what):
        self.n += 1
        if not abs(z) < LIMIT:
            self.v.append(V("improbable", f"{what}: {z:.1f} standard deviations from the stated law {self.tag}", sig=what.split(":")[0]))

    def normal(self, z, what):
        """z is to be an independent standard normal sample"""
        n = len(z)
        if n < 60:
            return
        self.check(sum(z) / math.sqrt(n), what + ": mean")
        c = sum(x * x for x in z)
        self.check(((c / n) ** (1 / 3) - (1 - 2 / (9 * n))) / math.sqrt(2 / (9 * n)), what + ": variance")
        if n >= 300:
            s = sorted(z)
            d = max(max((i + 1) / n - phi(x), phi(x) - i / n) for i, x in enumerate(s))
            self.check(d * math.sqrt(n) * LIMIT / 3.3, what + ": distribution")
            self.check(max(abs(s[0]), abs(s[-1])) - 1.0, what + ": extreme value")
            close = sum(1 for a, b in zip(s, s[1:]) if b - a < 1e-11)
            if close > 3:
                self.v.append(V("repeated-random-values", f"{what}: {close} of {n} values occur again {self.tag}"))

    def bernoulli(self, q, what, least=30.0):
        """q: (survived, probability)"""
        var = sum(p * (1 - p) for _, p in q)
        if var < least:
            return
        self.check(sum(k - p for k, p in q) / math.sqrt(var), what)

    def groups(self, cells, what):
        """cells: iterable of (sum, variance) of independent sums; their spread is to be what independence says"""
        z = [s * s / v for s, v in cells if v >= 3.0]
        n = len(z)
        if n < 8:
            return
        self.check(((sum(z) / n) ** (1 / 3) - (1 - 2 / (9 * n))) / math.sqrt(2.4 / (9 * n)), what)


def phi(x):
    return .5 * (1 + math.erf(x / math.sqrt(2)))


def corr(a, b):
    return sum(x * y for x, y in zip(a, b)) / math.sqrt(len(a))


def by(keys, vals, f):
    g = {}
    for k, x in zip(keys, vals):
        g.setdefault(f(k), []).append(x)
    return g


def residuals(t, keys, trail):
    out = {c: [] for c in (("trailedSourceMag", "PSFMag") if trail else ("trailedSourceMag",)) + ("RA", "Dec")}
    for k in keys:
        d = {c: float(t[k][c]) for c in ("trailedSourceMag", "trailedSourceMagTrue", "trailedSourceMagSigma", "PSFMag", "PSFMagTrue", "PSFMagSigma", "RA_deg", "RATrue_deg", "Dec_deg", "DecTrue_deg", "astrometricSigma_deg")}
        out["trailedSourceMag"].append((d["trailedSourceMag"] - d["trailedSourceMagTrue"]) / d["trailedSourceMagSigma"])
        if trail:
            out["PSFMag"].append((d["PSFMag"] - d["PSFMagTrue"]) / d["PSFMagSigma"])
        out["RA"].append(((d["RA_deg"] - d["RATrue_deg"] + 180) % 360 - 180) * math.cos(math.radians(d["DecTrue_deg"])) / d["astrometricSigma_deg"])
        out["Dec"].append((d["Dec_deg"] - d["DecTrue_deg"]) / d["astrometricSigma_deg"])
    return out


def survivors(J, keys, alive, prob, chunk, ids, what):
    """independent survival with the given probabilities"""
    q = [(k in alive, prob[k]) for k in keys]
    J.bernoulli(q, what + ": total")
    for lo, hi in ((0, .2), (.2, .5), (.5, .8), (.8, 1.01)):
        J.bernoulli([x for x in q if lo <= x[1] < hi], f"{what}: probabilities {lo}-{hi}")
    e = [k - p for k, p in q]
    var = [p * (1 - p) for _, p in q]
    pos = {i: n for n, i in enumerate(ids)}
    for name, f in (("per object", lambda k: k[0]), ("per visit", lambda k: k[1]), ("per place in the chunk", lambda k: (pos[k[0]] % chunk, k[1])), ("per chunk", lambda k: pos[k[0]] // chunk)):
        a, b = by(keys, e, f), by(keys, var, f)
        J.groups([(sum(a[g]), sum(b[g])) for g in a], f"{what}: {name}")
    w = math.sqrt(sum(x * y for x, y in zip(var, var[1:])))
    if w > 5:
        J.check(sum(x * y for x, y in zip(e, e[1:])) / w, what + ": neighbouring rows")
    return e, var


def run_case(env, case):
    p, kind, (s1, s2) = L.full(case["p"]), case["kind"], case["seeds"]
    J = Judge(f"(kind {kind}, chunk {p['chunk']}, {p['nobj']} objects)")
    ids = L.obj_ids(p)
    order = {i: n for n, i in enumerate(ids)}
    chunk = min(p["chunk"], p["nobj"])
    out = lambda v, n: {"violations": v[:1], "nontrivial": f"{kind}/{p['survey']}/c{p['chunk']}/{p['trail']}{p['vign']}/{p['eph_order']}/{p['rand']}" if n >= 300 else None, "evals": max(1, J.n)}
    if kind == "link":
        t, v = table(env, case, p, s1, "a")
        if t is None or v:
            return {"violations": v, "nontrivial": None}
        full, v = table(env, case, dict(p, link=0), s1, "b")
        if full is None or v:
            return {"violations": v, "nontrivial": None}
        obs = {}
        for (o, f), d in full.items():
            obs.setdefault(o, []).append((float(d["fieldMJD_TAI"]), float(d["RA_deg"]), float(d["Dec_deg"])))
        found = {o for (o, f), d in t.items() if p["link"] == 1 or d["object_linked"] in ("True", "1", "1.0")}
        q = []
        try:
            for o, x in obs.items():
                k = R.opportunities(x, *p["ssp"])
                if k == 0 and o in found:
                    return out([V("linked-without-opportunity", f"{o} {J.tag}")], 0)
                q.append((o, 1 - (1 - p["link_eff"]) ** k))
        except R.Ambiguous:
            return {"violations": [], "nontrivial": None}
        J.bernoulli([(o in found, a) for o, a in q], f"linking: objects linked with efficiency {p['link_eff']}", least=8.0)
        part = [o for o in found if sum(1 for k in t if k[0] == o) != len(obs[o])]
        if part and not J.v:
            J.v.append(V("object-linked-in-part", f"{part[:3]} {J.tag}"))
        return out(J.v, 300)
    if kind == "scatter":
        a, v = table(env, case, p, s1, "a")
        b, v2 = table(env, case, p, s2, "b")
        if v or v2 or a is None or b is None:
            return {"violations": v + v2, "nontrivial": None}
        keys = sorted(set(a) & set(b), key=lambda k: (order[k[0]], k[1]))
        try:
            want = R.survey(p)
        except R.Ambiguous:
            return {"violations": [], "nontrivial": None}
        if set(a) != set(want) or set(b) != set(want):
            return out([V("rows-lost", f"{len(want)} observations, {len(a)} and {len(b)} rows delivered although nothing removes any {J.tag}")], 0)
        for k in keys:
            for c in ("trailedSourceMagTrue", "PSFMagTrue", "RATrue_deg", "DecTrue_deg", "fiveSigmaDepth_mag", "astrometricSigma_deg", "trailedSourceMagSigma", "PSFMagSigma"):
                x = float(a[k][c])
                if abs(x - want[k][c]) > 1e-8 * (1 + abs(x)) or a[k][c] != b[k][c]:
                    return out([V("true-value-or-uncertainty", f"{c} of {k}: {a[k][c]} and {b[k][c]}, expected {want[k][c]!r} {J.tag}", sig=c)], 0)
            if not p["trail"] and a[k]["PSFMag"] != a[k]["trailedSourceMag"]:
                return out([V("two-magnitudes", f"{k}: PSFMag {a[k]['PSFMag']} and trailedSourceMag {a[k]['trailedSourceMag']} with trailing losses off {J.tag}")], 0)
        ra, rb = residuals(a, keys, p["trail"]), residuals(b, keys, p["trail"])
        allv = []
        for c in ra:
            J.normal(ra[c], c + " residuals")
            for name, f in (("per visit", lambda k: k[1]), ("per object", lambda k: k[0]), ("per place in the chunk", lambda k: (order[k[0]] % chunk, k[1]))):
                J.groups([(sum(x), len(x)) for x in by(keys, ra[c], f).values()], f"{c} residuals: {name}")
            J.check(corr(ra[c], ra[c][1:]), c + " residuals: neighbouring rows")
            J.check(corr(ra[c], rb[c]), c + " residuals: between two seeds")
            for name, f in (("faint", lambda k: float(a[k]["trailedSourceMagTrue"]) > float(a[k]["fiveSigmaDepth_mag"]) - 1), ("bright", lambda k: float(a[k]["trailedSourceMagTrue"]) < float(a[k]["fiveSigmaDepth_mag"]) - 3)) + tuple(
                    (x, lambda k, x=x: a[k]["optFilter"] == x) for x in "griz"):
                J.normal([x for k, x in zip(keys, ra[c]) if f(k)], f"{c} residuals, {name}")
            for c2 in ra:
                if c < c2:
                    J.check(corr(ra[c], ra[c2]), f"{c} and {c2} residuals: correlation")
            allv += ra[c]
        J.normal(allv, "all residuals")
        return out(J.v, len(keys))
    on, off = dict(p), dict(p)
    if kind in ("fade", "desfade"):
        on["fading"] = True
    else:
        off["fill"] = 1.0
    a, v = table(env, case, off, s1, "a")
    b, v2 = table(env, case, on, s1, "b")
    if v or v2 or a is None or b is None:
        return {"violations": v + v2, "nontrivial": None}
    if not set(b) <= set(a):
        return out([V("appears-from-nowhere", f"{sorted(set(b) - set(a))[:3]} {J.tag}")], 0)
    keys = sorted(a, key=lambda k: (order[k[0]], k[1]))
    pts = {q["id"]: q for q in L.pointings(p)[0]}
    prob = {}
    for k in keys:
        m, m5 = float(a[k]["PSFMag"]), float(a[k]["fiveSigmaDepth_mag"])
        if kind == "fade":
            prob[k] = p["fade"][0] / (1 + math.exp((m - m5) / p["fade"][1]))
        elif kind == "desfade":
            q = pts[k[1]]
            prob[k] = p["transeff"] * q["c"] / (1 + math.exp(q["k"] * (m - m5)))
        else:
            prob[k] = p["fill"]
        if (prob[k] < 1e-9 and k in b) or (prob[k] > 1 - 1e-9 and k not in b):
            return out([V("against-certainty", f"{k} of probability {prob[k]} {'kept' if k in b else 'lost'} {J.tag}")], 0)
    e, var = survivors(J, keys, b, prob, chunk, ids, "survivors of the " + ("camera fill factor" if kind == "fill" else "fading function"))
    if p["rand"]:
        z = residuals(a, keys, p["trail"])
        for c in z:
            w = math.sqrt(sum(var))
            if w > 5:
                J.check(sum(x * max(-4, min(4, y)) for x, y in zip(e, z[c])) / w, f"survivors: correlation with the {c} residuals")
    c, v = table(env, case, on, s2, "c")
    if v or c is None:
        return {"violations": v, "nontrivial": None}
    if not p["rand"]:
        e2 = [(k in c) - prob[k] for k in keys]
        w = math.sqrt(sum(x * x for x in var))
        if w > 5:
            J.check(sum(x * y for x, y in zip(e, e2)) / w, "survivors: between two seeds")
    return out(J.v, len(keys))


def shrink(case):
    if case["rough"]:
        yield dict(copy.deepcopy(case), rough=False)
    p = case["p"]
    for k, val in (("vign", False), ("trail", False), ("ids", "plain"), ("eph_order", "byobj"), ("fmt", "csv"), ("dec", 0.0), ("chunk", 5000), ("chunk", max(1, p["nobj"] // 2)), ("motion", .05), ("rand", False)):
        if p.get(k) != val and not (k == "rand" and case["kind"] == "scatter"):
            yield dict(copy.deepcopy(case), p=dict(p, **{k: val}))
