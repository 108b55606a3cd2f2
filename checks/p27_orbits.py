"""P27: an orbit may be written in any supported form."""
from .common import *

RULE = ("a case is a set of trajectories (bound, circular, in the ecliptic, retrograde, hyperbolic, parabolic, nearly parabolic), written as barycentric Cartesian states and in two other formats, at epochs of each object's own, whole periods "
        "and turns apart, with its own chunk size, input order and faint-object culling in each run; ephemerides and detections have to agree; non-trivial when a run has rows")
REAL, STUB = REAL_RUN, STUB_RUN + STUB_AR
QUICK_S = 24
MIN_CASES = 24
ASSUMPTIONS = ["initial states are what is compared (the integrator is a stub moving straight on from them)"]
GM = 2.9591220828411951e-04
GM_ALL = GM * (1 + sum(1e-6 / (1 + i) for i in range(1, 27)))
W = 2 * math.pi / 4332.0
ORBIT = {"FORMAT", "epochMJD_TDB", "q", "a", "e", "inc", "node", "argPeri", "ma", "t_p_MJD_TDB", "x", "y", "z", "xdot", "ydot", "zdot"}
COLS = {"KEP": ("a", "e", "inc", "node", "argPeri", "ma"), "COM": ("q", "e", "inc", "node", "argPeri", "t_p_MJD_TDB"), "CART": ("x", "y", "z", "xdot", "ydot", "zdot")}


def sun(mjd):
    a = W * (mjd + 2400000.5 - 2451545.0)
    return [0.004 * math.cos(a), 0.004 * math.sin(a), 0.001], [-0.004 * W * math.sin(a), 0.004 * W * math.cos(a), 0.0]


def gen(rng, tier, idx):
    p = dict(seed=rng.randrange(1, 10**6), mode="ar", ew=True, camera=rng.choice(["none", "circle"]), radius=2.5, stats=rng.random() < .3, fading=False, rand=False, bright=False, vign=False, trail=rng.random() < .5,
             nobj=rng.randrange(3, 10), nights=rng.randrange(1, 4), fields=1, visits=rng.randrange(1, 4), columns="all", dec=rng.choice([-60.0, -20.0, 0.0, 10.0, 40.0]), spread=rng.choice([.5, 1.5]), ids=rng.choice(["plain", "num", "mixed"]),
             healpix=6, picket=1, limit=["snr_limit", 2.0], faint=.35, aux_fmt=rng.choice(["csv", "csv", "whitespace"]), ang_fov=rng.choice([2.06, 3.5]))
    kind = pick(rng, ("bound", 4), ("open", 2), ("parabolic", 1), ("comet", 2))
    fm = {"bound": ["COM", "BCOM", "CART", "KEP", "BKEP", "KEP", "BKEP"], "open": ["COM", "BCOM", "CART"], "parabolic": ["COM", "CART"], "comet": ["COM", "BCOM", "CART", "COM"]}[kind]
    var = [{"fmt": f, "chunk": rng.choice([1, 2, 5000]), "epochs": rng.choice([0.0, 0.0, 0.1, 3.0, 40.0]) if kind != "parabolic" else 0.0, "turns": rng.random() < .5, "brute": rng.random() < .5, "whole": rng.random() < .3} for f in rng.sample(fm, 2)]
    return {"p": p, "kind": kind, "near": rng.random() < .5, "var": var, "env": rng.randrange(10**9)}


def dot(a, b):
    return sum(x * y for x, y in zip(a, b))


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def norm(a):
    return math.sqrt(dot(a, a))


def trajectories(case):
    """per object a barycentric equatorial state at the reference epoch (au, au/day)"""
    p = L.full(case["p"])
    r = random.Random(p["seed"] * 13 + 7)
    _, ra0, dec0 = L.pointings(p)
    mid = L.T_START + p["nights"] / 2 + 0.5
    e, ve = L.earth(mid + 2400000.5)
    s, vs = sun(mid)
    out = []
    for n, i in enumerate(L.obj_ids(p)):
        dec = math.radians(dec0 + r.uniform(-1, 1) * p["spread"])
        ra = math.radians(ra0 + r.uniform(-1, 1) * p["spread"] / math.cos(math.radians(dec0)))
        d = r.choice([r.uniform(1.3, 4.0), r.uniform(5, 40.0), r.uniform(.3, 1.0)])
        pos = [e[0] + d * math.cos(ra) * math.cos(dec), e[1] + d * math.sin(ra) * math.cos(dec), e[2] + d * math.sin(dec)]
        h = [a - b for a, b in zip(pos, s)]
        rr = norm(h)
        u = [x / rr for x in h]
        kind = case["kind"]
        if kind == "open" and r.random() < .3:
            kind = "bound"
        esc = math.sqrt(2 * GM / rr)
        speed = {"bound": esc * r.uniform(.35, .93), "open": esc * r.uniform(1.05, 1.9), "parabolic": esc, "comet": esc * (1 + r.choice([-1, 1]) * 10 ** r.uniform(-10, -3))}[kind]
        pole = [-u[1], u[0], 0.0]               # a direction across the line of sight to the Sun
        if r.random() < .2 and kind == "bound":      # circular
            speed, tilt = math.sqrt(GM / rr), 0.0
        else:
            tilt = r.uniform(-1.1, 1.1)
        k = norm(pole)
        t1 = [x / k for x in pole]
        t2 = cross(u, t1)
        if r.random() < .15:                     # motion in the plane of the ecliptic, as far as the position is in it
            ob = L.OBL
            z = [0.0, -math.sin(ob), math.cos(ob)]
            t = cross(z, u)
            k = norm(t)
            t1, t2, turn = [x / k for x in t], z, 0.0
        else:
            turn = r.uniform(0, 2 * math.pi)
        w = [math.cos(turn) * a + math.sin(turn) * b for a, b in zip(t1, t2)]
        vel = [speed * (math.sin(tilt) * a + math.cos(tilt) * b) + c for a, b, c in zip(u, w, vs)]
        out.append((pos, vel))
    return mid, out


def elements(mu, r, v, mjd):
    """(q, e, inc, node, argPeri in degrees, time of perihelion), by the classical formulas"""
    h = cross(r, v)
    hh, rr = norm(h), norm(r)
    ev = [a / mu - b / rr for a, b in zip(cross(v, h), r)]
    e = norm(ev)
    if abs(e - 1) < 1e-13:
        e = 1.0
    q = hh * hh / mu / (1 + e)
    inc = math.atan2(math.hypot(h[0], h[1]), h[2])
    node = math.atan2(h[0], -h[1]) if math.hypot(h[0], h[1]) > 1e-12 * hh else 0.0
    N = [math.cos(node), math.sin(node), 0.0]
    M = [x / hh for x in cross(h, N)]
    if e < 1e-12:
        e = w = 0.0
    else:
        w = math.atan2(dot(ev, M), dot(ev, N))
    nu = math.atan2(dot(r, M), dot(r, N)) - w
    t = math.tan(nu / 2)
    lam = (1 - e) / (1 + e)
    if e != 1.0 and abs(e - 1) < 1e-2:       # the closed forms lose their digits: area law by Gauss' rule in tan(nu/2)
        if abs(lam) * t * t > .9:
            return None
        n = 40
        s = math.fsum(g * t / n / 2 * (1 + x * x) / (1 + lam * x * x) ** 2 for k in range(n) for y, g in GAUSS for x in [t / n * (k + .5 + y / 2)])
        tp = mjd - 2 * q * q / hh * s
    elif e < 1:
        E = 2 * math.atan2(math.sqrt(1 - e) * math.sin(nu / 2), math.sqrt(1 + e) * math.cos(nu / 2))
        a = q / (1 - e)
        tp = mjd - (E - e * math.sin(E)) * math.sqrt(a ** 3 / mu)
    elif e > 1:
        F = 2 * math.atanh(math.sqrt((e - 1) / (e + 1)) * t)
        a = q / (e - 1)
        tp = mjd - (e * math.sinh(F) - F) * math.sqrt(a ** 3 / mu)
    else:
        tp = mjd - math.sqrt(2 * q ** 3 / mu) * (t + t ** 3 / 3)
    return q, e, math.degrees(inc), math.degrees(node), math.degrees(w), tp


GAUSS = [(s * y, g) for y, g in ((0.1488743389816312, 0.2955242247147529), (0.4333953941292472, 0.2692667193099963), (0.6794095682990244, 0.2190863625159820), (0.8650633666889845, 0.1494513491505806),
                                 (0.9739065285171717, 0.0666713443086881)) for s in (-1, 1)]


def state(x, v, dt, t, bary):
    x = [a + b * dt for a, b in zip(x, v)]
    if not bary:
        s, vs = sun(t)
        x, v = [a - b for a, b in zip(x, s)], [a - b for a, b in zip(v, vs)]
    return L.eq_to_ecl(x), L.eq_to_ecl(v)


def rows_of(case, fmt, epochs, turns):
    p = L.full(case["p"])
    r = random.Random(p["seed"] * 3 + len(fmt) + int(epochs))
    bary, kind = fmt[0] == "B", fmt[-4:] if fmt.endswith("CART") else fmt[-3:]
    out = []
    mid, tr = trajectories(case)
    for i, (x0, v0) in zip(L.obj_ids(p), tr):
        for t in ((mid + round(r.uniform(-epochs, epochs), r.choice([0, 1, 6])), mid) if epochs else (mid,)):
            x, v = state(x0, v0, t - mid, t, bary)
            mu = GM_ALL if bary else GM
            el = elements(mu, x, v, t) if kind != "CART" else ()
            if el is not None and not (kind == "KEP" and el[1] >= 1):
                break                    # (a straight line is no orbit: moved too far it may not have elements of this kind)
        if kind == "CART":
            val = x + v
        else:
            q, e, inc, node, w, tp = el
            node, w = node % 360, w % 360
            if kind == "COM":
                if turns and e < .99:
                    tp += r.choice([-3, -1, 1, 2]) * 2 * math.pi * math.sqrt((q / (1 - e)) ** 3 / mu)
                val = [q, e, inc, node, w, tp]
            else:
                a = q / (1 - e)
                val = [a, e, inc, node, w, math.degrees((t - tp) / math.sqrt(a ** 3 / mu)) % 360]
            if turns and r.random() < .5:
                for k in (3, 4) + ((5,) if kind == "KEP" else ()):
                    if val[k] > 180:
                        val[k] -= 360
        out.append(dict(ObjID=i, FORMAT=fmt, **dict(zip(COLS[kind], val)), epochMJD_TDB=t))
    return out


def near_limit(p, mid, tr):
    """physical parameters which make every object about as bright as the deepest visit allows to see"""
    r = random.Random(p["seed"] * 29 + 1)
    deep = max(x["depth"] for x in L.pointings(p)[0])
    e, s = L.earth(mid + 2400000.5)[0], sun(mid)[0]
    out = []
    for row, (x, _) in zip(L.physical(p), tr):
        d, rr = norm([a - b for a, b in zip(x, e)]), norm([a - b for a, b in zip(x, s)])
        row["H_r"] = round(deep - 5 * math.log10(d * rr) - r.uniform(-0.3, 1.5), 3)
        out.append(row)
    return out


def deliver(env, case, k, fmt, chunk, epochs, turns, brute, whole):
    p = L.full(dict(case["p"], chunk=chunk, brute=brute))
    w = env.world(f"v{k}")
    setup(w, p)
    rng = random.Random(case["env"] + k)
    rows = rows_of(case, fmt, epochs, turns)
    cols = list(rows[0])
    if k:
        rng.shuffle(cols) if rng.random() < .3 else None
        cols.sort(key=lambda c: c != "ObjID")
    sep = " " if p["aux_fmt"] == "whitespace" else ","
    if case["near"]:
        with open(w.path("in/params.csv"), "w") as f:
            f.write(L.table(near_limit(p, *trajectories(case)), sep))
    with open(w.path("in/orbits.csv"), "w") as f:
        f.write(L.table([{c: (int(x[c]) if whole and isinstance(x[c], float) and x[c] == int(x[c]) else x[c]) for c in cols} for x in rows], sep))
    r = w.phase([proc(p, seed=rng.randrange(10**6))], listseed=rng.randrange(10**6))
    return p, r, outputs(w, p)


def run_case(env, case):
    p, r, o = deliver(env, case, 0, "BCART", 5000, 0.0, False, True, False)
    if r.code != 0:
        return {"violations": ref_failed(r), "nontrivial": None}
    base = {k: tab(o, k) for k in ("ephemeris", "detections")}
    tags, culled = [], False
    pts = {x["id"]: x for x in L.pointings(p)[0]}
    for k, x in enumerate(case["var"]):
        tag = f"(as {x['fmt']}, chunk {x['chunk']}, epochs +-{x['epochs']} d, turns {x['turns']}, culling {not x['brute']}; {case['kind']} orbits)"
        q, s, oo = deliver(env, case, k + 1, x["fmt"], x["chunk"], x["epochs"], x["turns"], x["brute"], x["whole"])
        if s.code != 0:
            return {"violations": [V("refused", f"valid orbits exit {s.code}: {ref_failed(s)[0]['detail'][-300:]} {tag}")], "nontrivial": None}
        for name in ("detections", "ephemeris"):
            a, b = base[name], tab(oo, name)
            lost = set(a) - set(b)
            if name == "ephemeris" and not x["brute"]:
                culled = culled or bool(lost)
                lost = set()                    # culled before they are computed; detections decide
            near = lambda d: abs(sep_deg(d, pts) - p["ang_fov"] - p["buffer"]) < 1e-4 or abs(sep_deg(d, pts) - p["radius"]) < 1e-6
            lost = sorted(y for y in lost if not near(a[y]))
            more = sorted(y for y in set(b) - set(a) if not near(b[y]))
            if lost or more:
                return {"violations": [V(f"{name}-differ", f"{len(lost)} rows missing {lost[:2]}, {len(more)} additional {more[:2]} {tag}")], "nontrivial": None}
            for y in sorted(set(a) & set(b)):
                for c in a[y]:
                    if c in ORBIT:
                        continue
                    if c in ("ObjID", "optFilter") or c not in b[y]:
                        bad = a[y][c] != b[y].get(c)
                    else:
                        u, v = float(a[y][c]), float(b[y][c])
                        tol = 1e-6 + 1e-9 * abs(u) if not c.endswith("_km") else 1.0
                        d = abs(u - v)
                        if c.startswith(("RA_deg", "RATrue")):
                            d = min(d, abs(d - 360)) * math.cos(math.radians(float(a[y]["Dec_deg"])))
                        bad = not d <= tol
                    if bad:
                        return {"violations": [V(f"{name}-differ", f"{c} of {y}: {a[y][c]} as BCART, {b[y].get(c)} {tag}", sig=c)], "nontrivial": None}
        tags.append(x["fmt"])
    return {"violations": [], "nontrivial": f"{case['kind']}/{'-'.join(sorted(tags))}/{culled}/{p['aux_fmt']}/{[x['epochs'] for x in case['var']]}" if base["ephemeris"] else None, "evals": len(tags)}


def tab(o, name):
    t = o.get(name)
    if not t:
        return {}
    return {(d["ObjID"], int(float(d["FieldID"]))): d for d in (dict(zip(t[0], x)) for x in t[1])}



def sep_deg(d, pts):
    q = pts[int(float(d["FieldID"]))]
    u = [math.radians(float(x)) for x in (d["RA_deg"], d["Dec_deg"], q["ra"], q["dec"])]
    s = math.sin((u[3] - u[1]) / 2) ** 2 + math.cos(u[1]) * math.cos(u[3]) * math.sin((u[2] - u[0]) / 2) ** 2
    return math.degrees(2 * math.asin(min(1.0, math.sqrt(s))))


def shrink(case):
    if len(case["var"]) > 1:
        for k in range(len(case["var"])):
            yield dict(copy.deepcopy(case), var=[case["var"][k]])
    for k, x in enumerate(case["var"]):
        for a, b in (("chunk", 5000), ("epochs", 0.0), ("turns", False), ("brute", True), ("whole", False)):
            if x[a] != b:
                c = copy.deepcopy(case)
                c["var"][k][a] = b
                yield c
    if case["near"]:
        yield dict(copy.deepcopy(case), near=False)
    p = case["p"]
    for k, val in (("nobj", 1), ("nobj", max(1, p["nobj"] // 2)), ("nobj", p["nobj"] - 1), ("visits", 1), ("nights", 1), ("camera", "none"), ("trail", False), ("stats", False), ("ids", "plain"), ("aux_fmt", "csv"), ("faint", 0.0)):
        if p[k] != val and p[k] and val != 0:
            yield dict(copy.deepcopy(case), p=dict(p, **{k: val}))
