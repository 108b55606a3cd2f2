"""P19: the ephemeris generator misses no object in the field."""
from .common import *

RULE = ("a case is a set of straight-line trajectories, a pointing sequence (ordered, reversed or shuffled, with gaps and all times of day, near the poles, across RA 0, aimed at objects), a field radius, buffer, picket interval, "
        "pixel order, chunk size and observatory (geocentre and prime meridian among them); the written ephemeris of the real generator is compared pair by pair with an independent light-time solution of the same trajectories; non-trivial when at least one object "
        "is in a field")
REAL, STUB = REAL_RUN, STUB_RUN + STUB_AR
QUICK_S = 24
MIN_CASES = 24
ASSUMPTIONS = ["trajectories are straight lines (the integrator is a stub), apparent motion up to about 1 degree per day, buffer at least 0.05 degrees"]
SUN = lambda d: (0.004 * math.cos(2 * math.pi * d / 4332.0), 0.004 * math.sin(2 * math.pi * d / 4332.0), 0.001)


def gen(rng, tier, idx):
    p = dict(seed=rng.randrange(1, 10**6), mode="ar", ew=True, camera="none", stats=False, fading=False, rand=False, bright=False, vign=False, trail=False,
             nobj=rng.randrange(3, 13), nights=rng.randrange(2, 9), fields=rng.randrange(1, 3), visits=2, gaps=rng.random() < .7, pd_order=rng.choice(["time", "shuffled", "reverse", "shuffled"]),
             chunk=rng.choice([1, 3, 5000]), ids=rng.choice(["plain", "num", "mixed"]), eph_fmt=rng.choice(["csv", "csv", "whitespace", "hdf5"]), picket=rng.choice([1, 1, 2, 3]),
             healpix=rng.choice([1, 2, 3, 4, 5, 6, 6, 7, 8]), ang_fov=rng.choice([0.3, 1.0, 2.06, 2.06, 3.5]), buffer=rng.choice([0.05, 0.2, 0.2, 1.0]), motion=rng.choice([0.002, 0.05, 0.12, 0.5, 1.0]),
             spread=rng.choice([0.3, 1.0, 2.5]), fov_jitter=rng.choice([0.3, 1.5]), dec=rng.choice([-80.0, -40.0, -10.0, 0.0, 5.0, 20.0, 86.0]))
    if p["motion"] > .2:
        p["picket"] = 1
    if rng.random() < .4:
        p["obs"] = rng.choice(sorted(L.OBSERVATORIES))
    if rng.random() < .4:
        p["aim"] = rng.choice([.3, 1.0])
    if rng.random() < .3:            # successive pointings one and a half to three intervals apart, small pixels and margins
        p.update(gaps=False, step=rng.uniform(1.5, 3.2), healpix=rng.choice([7, 8, 9]), buffer=.05, motion=rng.choice([.5, 1.0]), picket=1, nobj=rng.randrange(12, 31), spread=2.5, ang_fov=rng.choice([2.06, 3.5]),
                 pd_order=rng.choice(["time", "time", "shuffled"]))
    return {"p": p, "loglevel": 0}


def sep(u, v):
    c = [u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0]]
    return math.degrees(math.atan2(math.sqrt(sum(x * x for x in c)), sum(a * b for a, b in zip(u, v))))


def unit(ra, dec):
    ra, dec = math.radians(ra), math.radians(dec)
    return [math.cos(ra) * math.cos(dec), math.sin(ra) * math.cos(dec), math.sin(dec)]


def radec(u):
    return math.degrees(math.atan2(u[1], u[0])) % 360, math.degrees(math.asin(u[2]))


def run_case(env, case):
    p = L.full(case["p"])
    w, r, o = ref(env, p, name="a", seed=1)
    if r.code != 0:
        return {"violations": ref_failed(r), "nontrivial": None}
    v = []
    h, rows = o["ephemeris"] if o["ephemeris"] else ((), [])
    got = {}
    for x in rows:
        d = dict(zip(h, x))
        k = (d["ObjID"], int(float(d["FieldID"])))
        if k in got:
            v.append(V("object-twice", f"{k} appears more than once"))
        got[k] = d
    pts, _, _ = L.pointings(p)
    n_in = 0
    code = p["obs"] or "X05"
    for ob in L.orbits(p):
        pos, vel = L.state(ob)
        for q in pts:
            if v:
                break
            mid = q["t"] + q["vt"] / 2 / 86400
            jd = L.visit_jd(q)
            u, rho, body, obs = L.apparent(pos, vel, jd, code)
            ang = sep(u, unit(q["ra"], q["dec"]))
            k = (ob["ObjID"], q["id"])
            n_in += ang < p["ang_fov"]
            tag = f"object {k[0]} at pointing {k[1]} (JD {jd:.5f}), {ang:.4f} deg from the centre, radius {p['ang_fov']}+{p['buffer']}"
            if k not in got:
                if ang < p["ang_fov"] - 1e-6:
                    v.append(V("object-missed", tag + f"; picket {p['picket']}, pixel order {p['healpix']}, pointings {p['pd_order']}"))
                continue
            if ang > p["ang_fov"] + p["buffer"] + 1e-6:
                v.append(V("object-outside", tag))
                continue
            g = {a: float(b) for a, b in got[k].items() if a != "ObjID"}
            ra, de = radec(u)
            off = sep(u, unit(g["RA_deg"], g["Dec_deg"]))
            u2, rho2, _, _ = L.apparent(pos, vel, jd + 1e-3, code)
            u1, rho1, _, _ = L.apparent(pos, vel, jd - 1e-3, code)
            (ra2, de2), (ra1, de1) = radec(u2), radec(u1)
            dra = ((ra2 - ra1 + 180) % 360 - 180) / 2e-3 * math.cos(math.radians(de))
            sun = SUN(jd - 2451545.0)
            a1, a2 = [body[i] - sun[i] for i in range(3)], [body[i] - obs[i] for i in range(3)]
            vobs, vsun = ([(b - a) / 2e-3 for a, b in zip(f(jd - 1e-3), f(jd + 1e-3))] for f in (lambda j: L.observer(j, code), lambda j: SUN(j - 2451545.0)))
            n1, n2 = (math.sqrt(sum(x * x for x in a)) for a in (a1, a2))
            ph = sep([x / n1 for x in a1], [x / n2 for x in a2])
            for name, a, b, tol in (("position", off, 0, 2e-6), ("Range_LTC_km", g["Range_LTC_km"], rho * L.AU, 1.0), ("fieldMJD_TAI", g["fieldMJD_TAI"], mid, 1e-7), ("fieldJD_TDB", g["fieldJD_TDB"], jd, 2e-6),
                                    ("RARateCosDec_deg_day", g["RARateCosDec_deg_day"], dra, 2e-3 + 1e-3 * abs(dra)), ("DecRate_deg_day", g["DecRate_deg_day"], (de2 - de1) / 2e-3, 2e-3 + 1e-3 * abs(dra)),
                                    ("RangeRate_LTC_km_s", g["RangeRate_LTC_km_s"], (rho2 - rho1) / 2e-3 * L.AU / 86400, 0.02 + 1e-3 * abs((rho2 - rho1) / 2e-3 * L.AU / 86400)), ("phase_deg", g["phase_deg"], ph, 1e-5),
                                    
                                    *[(f"Obj_Sun_{x}_LTC_km", g[f"Obj_Sun_{x}_LTC_km"], a1[i] * L.AU, 5.0) for i, x in enumerate("xyz")], *[(f"Obs_Sun_{x}_km", g[f"Obs_Sun_{x}_km"], (obs[i] - sun[i]) * L.AU, 5.0) for i, x in enumerate("xyz")],
                                    *[(f"Obj_Sun_v{x}_LTC_km_s", g[f"Obj_Sun_v{x}_LTC_km_s"], (vel[i] - vsun[i]) * L.AU / 86400, 1e-3) for i, x in enumerate("xyz")],
                                    *[(f"Obs_Sun_v{x}_km_s", g[f"Obs_Sun_v{x}_km_s"], (vobs[i] - vsun[i]) * L.AU / 86400, 1e-3) for i, x in enumerate("xyz")]):
                if abs(a - b) > tol:
                    v.append(V("wrong-value", f"{tag}: {name} is {a}, expected {b}", sig=name))
                    break
    ghosts = set(got) - {(ob["ObjID"], q["id"]) for ob in L.orbits(p) for q in pts}
    if ghosts:
        v.append(V("unknown-pair", sorted(ghosts)[:3]))
    return {"violations": v[:1], "nontrivial": f"{p['pd_order']}/{p['gaps']}/p{p['picket']}/h{p['healpix']}/f{p['ang_fov']}/b{p['buffer']}/m{p['motion']}/d{p['dec']}/c{p['chunk']}" if n_in else None, "evals": len(pts) * p["nobj"]}


def shrink(case):
    for c in shrink_case(case):
        if c["p"].get("mode") == "ar" and c["p"].get("ew"):
            yield c
