"""P22: the order of input rows and columns does not matter."""
from .common import *

RULE = ("a case is a workload with the random modules off and seeded permutations of the rows of the catalogue, the physical parameters, the external ephemeris and the pointing table (queried without an order "
        "clause), and of the columns of the text tables; detections and statistics are compared with those of the unpermuted inputs as sets, read under short and interrupted calls; non-trivial when a "
        "permuted table has at least two rows and the run delivers something")
REAL, STUB = REAL_RUN, STUB_RUN + STUB_AR
QUICK_S = 24
MIN_CASES = 24
WHAT = ("orbits", "params", "eph", "pointings", "cols:orbits", "cols:params", "cols:eph")


def gen(rng, tier, idx):
    p = random_params(rng, ar=0.35, des=0.1, deterministic=True)
    p["nobj"] = max(3, p["nobj"])
    p["link_eff"] = rng.choice([1.0, 0.8])
    if p["camera"] == "none":
        p["camera"] = "circle"
    if p.get("survey") == "DES" and p["mode"] == "ar":
        p["camera"] = "visits_footprint"
    return {"p": p, "perm": rng.sample(WHAT, rng.randrange(1, 5)), "s": rng.randrange(10**9), "seed": rng.randrange(2**32), "policy": rng.choice([None, None, {"seed": rng.randrange(10**6), "short": .3, "eintr": .1}])}


def shuffle_text(path, sep, rows, cols, rng):
    lines = open(path).read().splitlines()
    k = next(i for i, l in enumerate(lines) if l.startswith("ObjID"))
    head, body = lines[k].split(sep), [l.split(sep) for l in lines[k + 1:]]
    if cols:
        ix = list(range(1, len(head)))        # the first column has to be ObjID
        rng.shuffle(ix)
        ix = [0] + ix
        head, body = [head[i] for i in ix], [[b[i] for i in ix] for b in body]
    if rows:
        rng.shuffle(body)
    open(path, "w").write("\n".join(lines[:k] + [sep.join(x) for x in [head] + body]) + "\n")
    return len(body)


def permute(w, p, case):
    rng = random.Random(case["s"])
    n = 0
    sep = " " if p["aux_fmt"] == "whitespace" else ","
    for what in sorted(case["perm"]):
        cols, t = what.startswith("cols:"), what.split(":")[-1]
        if t in ("orbits", "params"):
            n = max(n, shuffle_text(w.path("in", t + ".csv"), sep, not cols, cols, rng))
        elif t == "eph" and p["mode"] == "ext":
            if p["eph_fmt"] == "hdf5":
                if not cols:
                    import pandas as pd
                    df = pd.read_hdf(w.path("in/eph.h5"))
                    ix = list(range(len(df)))
                    rng.shuffle(ix)
                    df = df.iloc[ix].reset_index(drop=True)
                    df["ObjID"] = df["ObjID"].astype(object)
                    os.unlink(w.path("in/eph.h5"))
                    df.to_hdf(w.path("in/eph.h5"), key="sorcha_ephemeris", format="table", data_columns=True)
                    n = max(n, len(df))
            else:
                n = max(n, shuffle_text(w.path("in/eph.csv"), " " if p["eph_fmt"] == "whitespace" else ",", not cols, cols, rng))
        elif t == "pointings":
            con = sqlite3.connect(w.path("in/pointings.db"))
            rows = con.execute("select * from observations").fetchall()
            rng.shuffle(rows)
            con.execute("delete from observations")
            con.executemany(f"insert into observations values({','.join('?' * len(rows[0]))})", rows)
            con.commit()
            con.close()
            n = max(n, len(rows))
            f = w.path("in/config.ini")
            s = open(f).read().replace(" order by observationId", "")
            open(f, "w").write(s)
    return n


def run_case(env, case):
    p = L.full(case["p"])
    w, r, o = ref(env, p, name="a", seed=case["seed"])
    if r.code != 0:
        return {"violations": ref_failed(r), "nontrivial": None}
    x = env.world("b")
    setup(x, p)
    n = permute(x, p, case)
    r2 = x.phase([proc(p, seed=case["seed"])], policy=case["policy"])
    if r2.code != 0:
        return {"violations": [V("run-failed", f"with permuted {case['perm']}: exit {r2.code} {r2.out[0].strip()[-300:]}", sig="permuted")], "nontrivial": None}
    o2 = outputs(x, p)
    a, b = {k: o.get(k) for k in ("detections", "stats")}, {k: o2.get(k) for k in ("detections", "stats")}
    for t in (a, b):                    # the columns of the catalogue are delivered in the order they came
        for k, x in t.items():
            if x:
                ix = sorted(range(len(x[0])), key=lambda i: x[0][i])
                t[k] = (tuple(x[0][i] for i in ix), [tuple(r[i] for i in ix) for r in x[1]])
    d = diff_close(a, b, rel=1e-7, ab=1e-7) if p["mode"] == "ar" and "pointings" in case["perm"] else diff_close(*common_columns(a, b))
    v = [V("order-matters", f"{'+'.join(sorted(case['perm']))}: {d}", sig=d.split(":")[0])] if d else []
    return {"violations": v, "nontrivial": f"{shape(p)}/{'+'.join(sorted(case['perm']))}" if n > 1 and nrows(o) else None}


def shrink(case):
    for xs in shrink_list(case["perm"]):
        yield dict(copy.deepcopy(case), perm=xs)
    yield from shrink_case(case, simple=(("policy", None),))
