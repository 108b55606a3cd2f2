"""shared pieces of the checks: workload choice, output readers, fault placement, case shrinking"""
import copy, csv, errno, hashlib, json, math, os, random, shutil, sqlite3, urllib.parse, warnings

import workload as L
import world as W

REAL_RUN = ["sorcha_cmdline.run and everything below it in src/sorcha (argument/config parsing, readers, photometry, uncertainties, randomisation, FOV, fading, linking, output, stats, logging)",
            "CPython, pandas, numpy, sqlite3, PyTables/HDF5 and libc file I/O down to the intercepted system-call layer"]
STUB_RUN = ["kernel scheduling, clocks, entropy, pid, directory order and system-call outcomes (simulator, sim/simio.c + sim/world.py)"]
STUB_AR = ["ASSIST/REBOUND integrator (straight-line motion), SPICE toolkit (meta-kernel parsing and kernel completeness kept, geometry analytic)"]


def pick(rng, *pairs):
    """weighted choice: pick(rng, (value, weight), ...)"""
    t = sum(w for _, w in pairs)
    x = rng.random() * t
    for v, w in pairs:
        x -= w
        if x < 0:
            return v
    return pairs[-1][0]


def random_params(rng, ar=0.35, des=0.12, rand=True, deterministic=False, link=True, fmts=("csv", "sqlite3", "hdf5")):
    """one workload; deterministic=True switches every random module off"""
    p = {"seed": rng.randrange(1, 10**6), "nobj": rng.randrange(2, 11), "nights": rng.randrange(3, 7), "fields": rng.randrange(1, 3), "visits": 2}
    p["mode"] = "ar" if rng.random() < ar else "ext"
    d = rng.random() < des and not deterministic
    if d:
        p["survey"] = "DES"
        p["camera"] = pick(rng, ("visits_footprint", 3 if p["mode"] == "ar" else 0), ("circle", 1), ("none", 1))
        p["columns"] = "all"
    else:
        p["camera"] = pick(rng, ("circle", 4), ("footprint", 3), ("none", 1))
        p["columns"] = pick(rng, ("basic", 3), ("all", 2))
        if p["camera"] == "footprint" and rng.random() < 0.5:
            p["edge"] = 2.0
    p["fmt"] = rng.choice(list(fmts))
    p["aux_fmt"] = pick(rng, ("csv", 2), ("whitespace", 1))
    p["eph_fmt"] = pick(rng, ("csv", 3), ("whitespace", 1), ("hdf5", 1)) if p["mode"] == "ext" else pick(rng, ("csv", 2), ("whitespace", 1), ("hdf5", 1))
    p["chunk"] = pick(rng, (5000, 1), (1, 1), (2, 2), (3, 2), (max(1, p["nobj"] - 1), 1), (p["nobj"], 1))
    p["ids"] = pick(rng, ("plain", 4), ("num", 1), ("mixed", 2), ("long", 1))
    p["eph_order"] = pick(rng, ("byobj", 2), ("bytime", 2), ("shuffled", 1))
    p["stats"] = rng.random() < 0.75
    p["ew"] = p["mode"] == "ar" and rng.random() < 0.6
    p["link"] = pick(rng, (0, 3), (1, 2), (2, 2)) if link and not d else (pick(rng, (0, 1), (1, 1)) if link else 0)
    p["limit"] = pick(rng, (None, 3), (["snr_limit", 2.0], 1), (["mag_limit", 24.0], 1))
    if d:
        p["limit"] = None
    p["bright"] = rng.random() < 0.7
    p["vign"], p["trail"] = rng.random() < 0.7, rng.random() < 0.7
    p["comment"] = pick(rng, (0, 3), (2, 1))
    p["loglevel"] = rng.random() < 0.8
    p["pd_order"] = pick(rng, ("time", 3), ("shuffled", 1), ("reverse", 1))
    p["intcols"] = rng.random() < 0.25
    p["keep"] = pick(rng, (1.0, 2), (0.8, 2), (0.4, 1))
    p["spread"] = pick(rng, (1.0, 2), (1.6, 1), (0.4, 1))
    if rng.random() < 0.3:
        p["posdec"], p["magdec"] = 6, 3
    if p["mode"] == "ar":
        p["picket"] = pick(rng, (1, 2), (2, 1))
        p["healpix"] = pick(rng, (6, 3), (5, 1), (7, 1))
        p["brute"] = rng.random() < 0.75 or p["camera"] == "none" or d
        p["faint"] = 0.0 if p["brute"] else 0.3
    if rng.random() < 0.15:
        p["absent"] = sorted(rng.sample(range(p["nobj"]), rng.randrange(1, p["nobj"])))
    if deterministic:
        p["rand"] = p["fading"] = False
        p["fill"] = 1.0
        p["link_eff"] = 1.0
    else:
        p["rand"] = True if d else rng.random() < 0.9
        p["fading"] = d or rng.random() < 0.8
        p["fill"] = pick(rng, (1.0, 1), (0.9, 2))
        p["link_eff"] = pick(rng, (1.0, 1), (0.9, 1))
    return p


def proc(p, pre="", out="out", sub="in", seed=None, force=False, ar="cache", stem="run", stats="stats", ew="ephout", **kw):
    p = L.full(p)
    env = {} if seed is None else {"SORCHA_SEED": str(seed)}
    env.update(kw.pop("env", {}))
    return dict(cmd="run", argv=L.argv(p, sub=sub, out=out, stem=stem, force=force, ar=ar, stats=stats, ew=ew, pre=pre), ar=p["mode"] == "ar", env=env, **kw)


def setup(w, p, sub="in", out="out", cache="cache", **kw):
    L.materialise(w, p, sub=sub, **kw)
    os.makedirs(w.path(out), exist_ok=True)
    if L.full(p)["mode"] == "ar" and not os.path.isdir(w.path(cache)):
        L.fill_cache(w.path(cache))


# -- reading results ----------------------------------------------------------------------------------------------
def rd_csv(path, sep=","):
    with open(path, newline="") as f:
        rows = [tuple(r) for r in csv.reader(f, delimiter=sep)]
    return (rows[0], rows[1:]) if rows else ((), [])


def rd_db(path, tablename="sorcha_results"):
    con = sqlite3.connect(f"file:{urllib.parse.quote(path)}?mode=ro", uri=True)
    try:
        cur = con.execute(f"select * from {tablename} order by rowid")
        rows = [tuple("" if v is None else repr(v) if isinstance(v, float) else str(v) for v in r) for r in cur.fetchall()]
        return tuple(c[0] for c in cur.description), rows
    finally:
        con.close()


def rd_h5(path, key=None):
    import pandas as pd
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with pd.HDFStore(path, "r") as s:
            keys = s.keys()
            if not keys:
                return (), []
            df = s[key or keys[0]]
    cols = tuple(df.columns)
    rows = []
    for r in zip(*[df[c].tolist() for c in cols]):
        rows.append(tuple("" if v is None or v != v else repr(v) if isinstance(v, float) else str(v) for v in r))
    return cols, rows


def rd(path):
    if not os.path.exists(path):
        return None
    if path.endswith(".db"):
        return rd_db(path)
    if path.endswith(".h5"):
        return rd_h5(path)
    return rd_csv(path)


def rd_safe(path):
    try:
        return rd(path)
    except Exception as e:
        return ("unreadable", [(type(e).__name__, str(e)[:120])])


def rd_safe_db(path, table):
    try:
        return rd_db(path, table)
    except Exception as e:
        return ("unreadable", [(type(e).__name__, str(e)[:120])])


def outputs(w, p, out="out", stem="run", stats="stats", ew="ephout"):
    """name -> (header, ordered rows) of everything a run of p is to deliver; None where the file is absent"""
    p = L.full(p)
    o = {"detections": rd_safe(w.path(out, stem + L.OUT_EXT[p["fmt"]]))}
    if p["stats"]:
        o["stats"] = rd_safe(w.path(out, stats + ".csv"))
    if p["ew"] and p["mode"] == "ar":
        f = w.path(out, ew + (".h5" if p["eph_fmt"] == "hdf5" else ".csv"))
        if p["eph_fmt"] == "whitespace" and os.path.exists(f):
            o["ephemeris"] = rd_csv(f, " ")
        else:
            o["ephemeris"] = rd_safe(f)
    return o


def diff(a, b, ordered=True):
    """None or a short description of how two output sets differ"""
    for k in sorted(set(a) | set(b)):
        x, y = a.get(k), b.get(k)
        if x is None or y is None:
            if x is not y:
                return f"{k}: {'absent' if x is None else str(len(x[1])) + ' rows'} vs {'absent' if y is None else str(len(y[1])) + ' rows'}"
            continue
        if x[0] != y[0]:
            return f"{k}: headers differ: {str(x[0])[:200]} vs {str(y[0])[:200]}"
        rx, ry = (x[1], y[1]) if ordered else (sorted(x[1]), sorted(y[1]))
        if rx != ry:
            if len(rx) != len(ry):
                sx, sy = set(rx), set(ry)
                return f"{k}: {len(rx)} rows vs {len(ry)} rows; only in first {str(sorted(sx - sy)[:2])[:300]}; only in second {str(sorted(sy - sx)[:2])[:300]}"
            i = next(i for i in range(len(rx)) if rx[i] != ry[i])
            c = [(x[0][j] if j < len(x[0]) else j, u, v) for j, (u, v) in enumerate(zip(rx[i], ry[i])) if u != v]
            return f"{k}: row {i} of {len(rx)} differs in {c[:4]}"
    return None


def canon(t):
    """(header, rows) with rows in an order that does not depend on chunking or input order"""
    if t is None or t[0] == "unreadable":
        return t
    h = list(t[0])
    ks = [h.index(c) for c in ("ObjID", "FieldID", "fieldMJD_TAI", "optFilter") if c in h]
    return (tuple(h), sorted(t[1], key=lambda r: [r[k] for k in ks] + list(r)))


def diff_close(a, b, rel=1e-9, ab=1e-9, drop=()):
    """like diff, for outputs that have to agree as sets of rows, numbers up to formatting"""
    for k in sorted(set(a) | set(b)):
        x, y = canon(a.get(k)), canon(b.get(k))
        if x is None or y is None:
            if x is not y:
                return f"{k}: {'absent' if x is None else str(len(x[1])) + ' rows'} vs {'absent' if y is None else str(len(y[1])) + ' rows'}"
            continue
        if x[0] != y[0]:
            return f"{k}: headers differ: {str(x[0])[:200]} vs {str(y[0])[:200]}"
        if len(x[1]) != len(y[1]):
            i = x[0].index("ObjID") if "ObjID" in x[0] else 0
            cx, cy = {}, {}
            for r in x[1]:
                cx[r[i]] = cx.get(r[i], 0) + 1
            for r in y[1]:
                cy[r[i]] = cy.get(r[i], 0) + 1
            return f"{k}: {len(x[1])} rows vs {len(y[1])} rows; per object " + str([(o, cx.get(o, 0), cy.get(o, 0)) for o in sorted(set(cx) | set(cy)) if cx.get(o) != cy.get(o)][:6])
        d = close_rows(x[1], y[1], rel, ab)
        if d:
            return f"{k}: {d}"
    return None


def common_columns(a, b):
    """both output sets cut down to the columns they share (external and generated ephemerides carry different extra columns)"""
    a, b = dict(a), dict(b)
    for k in set(a) & set(b):
        if a[k] and b[k] and a[k][0] != b[k][0]:
            cs = [c for c in a[k][0] if c in b[k][0]]
            for o in (a, b):
                ix = [o[k][0].index(c) for c in cs]
                o[k] = (tuple(cs), [tuple(r[i] for i in ix) for r in o[k][1]])
    return a, b


def ref(env, p, name="a", seed=None, **kw):
    """fault-free, uninterrupted execution: (world, result, outputs)"""
    w = env.world(name)
    setup(w, p)
    r = w.phase([proc(p, seed=seed, **kw)])
    return w, r, outputs(w, p)


def ref_failed(r):
    return [failed(r)]


def failed(r, i=0, what="a plain run on valid input"):
    out = r.out[i].strip()
    return V("run-failed", f"{what} exits {r.codes[i]}: {out[-500:]}", sig=out.splitlines()[-1].split(":")[0][:60] if out else "")


def isout(path):
    return path.startswith("out") or path.startswith("results")


def close_rows(x, y, rel=1e-9, ab=1e-9):
    """compare two canonically sorted row lists allowing float formatting differences"""
    if len(x) != len(y):
        return f"{len(x)} rows vs {len(y)} rows"
    for i, (a, b) in enumerate(zip(x, y)):
        if len(a) != len(b):
            return f"row {i}: {len(a)} vs {len(b)} columns"
        for j, (u, v) in enumerate(zip(a, b)):
            if u == v:
                continue
            if {u, v} in ({"True", "1"}, {"False", "0"}):
                continue
            try:
                fu, fv = float(u), float(v)
            except ValueError:
                return f"row {i} column {j}: {u} vs {v}"
            if not (math.isclose(fu, fv, rel_tol=rel, abs_tol=ab) or (fu != fu and fv != fv)):
                return f"row {i} column {j}: {u} vs {v}"
    return None


def nrows(o, k="detections"):
    return 0 if o.get(k) is None else len(o[k][1])


def logs(w, sub="out"):
    d = w.path(sub)
    return sorted(f for f in os.listdir(d) if f.endswith("sorcha.log"))


def completed(w, f, sub="out"):
    try:
        t = open(w.path(sub, f), errors="replace").read()
    except OSError:
        return False
    return "Sorcha process is completed" in t


def shape(p):
    p = L.full(p)
    return "/".join(str(x) for x in (p["mode"], p["survey"], p["fmt"], p["camera"], "L%d" % p["link"], "R%d" % p["rand"], "F%d" % p["fading"],
                                     "c%s" % ("all" if p["chunk"] >= p["nobj"] else "part"), p["eph_fmt"], p["ids"]))


V = lambda kind, detail, **kw: dict(kind=kind, detail=str(detail), **kw)


# -- shrinking ----------------------------------------------------------------------------------------------------
SIMPLER = dict(mode="ext", survey="rubin_sim", camera="none", columns="basic", aux_fmt="csv", eph_fmt="csv", ids="plain", eph_order="byobj", stats=False, ew=False, link=0,
               limit=None, bright=False, vign=False, trail=False, comment=0, loglevel=True, pd_order="time", keep=1.0, posdec=None, magdec=None, rand=False, fading=False,
               fill=1.0, chunk=5000, edge=None, absent=(), picket=1.0, healpix=6, brute=True, faint=0.0, spread=1.0, link_eff=1.0, fmt="csv")


def shrink_params(p):
    """candidate smaller workloads"""
    for k, lo in (("nobj", 1), ("nights", 1), ("fields", 1)):
        n = p.get(k, L.DEFAULT[k])
        for m in sorted({lo, n // 2, n - 1}):
            if lo <= m < n:
                q = dict(p)
                q[k] = m
                yield q
    for k, v in SIMPLER.items():
        if k in p and p[k] != v and not (k in ("survey", "mode") and p.get("camera") == "visits_footprint") \
                and not (k in ("fading", "columns", "rand") and p.get("survey", "rubin_sim") != "rubin_sim"):
            q = dict(p)
            q[k] = v
            if k == "mode":
                q["ew"] = False
            yield q


def shrink_list(xs):
    n = len(xs)
    if n > 1:
        yield xs[:n // 2]
        yield xs[n // 2:]
    for i in range(n):
        yield xs[:i] + xs[i + 1:]


def shrink_case(case, keys_lists=("faults",), simple=()):
    for k in keys_lists:
        if case.get(k):
            for xs in shrink_list(case[k]):
                c = copy.deepcopy(case)
                c[k] = xs
                yield c
    for k, v in simple:
        if k in case and case[k] != v:
            c = copy.deepcopy(case)
            c[k] = v
            yield c
    if "p" in case:
        for q in shrink_params(case["p"]):
            c = copy.deepcopy(case)
            c["p"] = q
            yield c


# -- fault placement ----------------------------------------------------------------------------------------------
def ptype(path):
    b = os.path.basename(path)
    if path.startswith("out") or "/out" in path:
        for e, n in ((".log", "log"), (".err", "log"), ("-journal", "journal"), ("-wal", "journal"), (".db", "result"), (".h5", "result")):
            if b.endswith(e):
                return n
        if b.startswith("stats"):
            return "stats"
        if b.startswith("ephout"):
            return "eph"
        return "result"
    if path.startswith("cache"):
        return "cache"
    return "input"


def place(rng, ops, kinds, weight=None):
    """choose an operation index among ops (list of (op, flags, path, path2, size)) whose kind is in `kinds`,
    first the path class and operation kind uniformly, then the position: rare operations are hit as often as common ones"""
    groups = {}
    for k, (op, fl, path, path2, size) in enumerate(ops):
        if op in kinds:
            t = ptype(path or path2)
            groups.setdefault((t, op), []).append(k)
    if weight:
        groups = {g: v for g, v in groups.items() if weight(g)}
    if not groups:
        return None
    g = rng.choice(sorted(groups))
    return rng.choice(groups[g])
