"""P16: create-sqlite delivers every result row and every input row, or says it did not."""
from .common import *

RULE = ("a case is 1-4 real runs with SQLite output scattered over a result tree, their input tables collected in a folder, and a sequence of `sorcha outputs create-sqlite` calls: repeated, killed or "
        "failing on a seeded operation, with short/interrupted system calls and shuffled directory listings, writing beside, inside or above the results; a call that exits 0 has to have delivered exactly the "
        "union of the databases and of the input tables; non-trivial when rows were merged and compared")
REAL, STUB = REAL_RUN + ["sorcha_cmdline.outputs create-sqlite"], STUB_RUN + STUB_AR
QUICK_S = 24
MIN_CASES = 24
KINDS = ("open", "write", "trunc", "close", "unlink", "lock", "read", "listdir")
BASE = ["ObjID", "fieldMJD_TAI", "fieldRA_deg", "fieldDec_deg", "RA_deg", "Dec_deg", "optFilter", "trailedSourceMag", "PSFMag", "fiveSigmaDepth_mag", "phase_deg"]


def gen(rng, tier, idx):
    p = random_params(rng, ar=0.2, fmts=("sqlite3",))
    p.update(aux_fmt="whitespace", comment=0, fmt="sqlite3", ids=rng.choice(["plain", "zero", "num", "mixed", "mixed", "long"]), nobj=rng.randrange(3, 10))
    if p.get("survey") == "DES" and p["camera"] != "circle":
        p["camera"], p["mode"], p["ew"] = "circle", "ext", False
    p.update(spread=rng.choice([0.4, 0.8]), limit=None, keep=1.0)
    n = rng.randrange(1, 5)
    runs = []
    for k in range(n):
        cols = BASE[1:]
        rng.shuffle(cols)
        runs.append({"dir": rng.choice(["", "", "a", "a/b c", "x[1]"]), "stem": rng.choice(["run", "part", "run.v2-", "r[0]"]), "cols": cols if rng.random() < .35 else None})
    steps = []
    for _ in range(rng.randrange(1, 4)):
        steps.append({"how": pick(rng, ("ok", 3), ("kill", 2), ("err", 2), ("quota", 1)), "s": rng.randrange(10**9)})
    return {"p": p, "seed": rng.randrange(2**31), "part": [rng.randrange(n) for _ in range(p["nobj"])], "runs": runs, "steps": steps, "same_cols": rng.random() < .5,
            "res": rng.choice(["results", "results", "res[1]", "my results"]), "decoy": rng.random() < .5, "inp": rng.choice(["inputs", "inputs", "in*", "in?uts"]),
            "out": rng.choice(["merged.sqlite", "merged.db", "{res}/merged.db", "{res}/zz.db", "{inp}/all.db", "{res}/a/all.db"]), "stem": rng.choice([None, None, "run", "part", "r[0]"]),
            "big": [rng.randrange(9), int(10 ** (rng.uniform(2.5, 4.6) if idx % 12 else rng.uniform(4.1, 4.6)))] if rng.random() < .12 or idx % 6 == 0 else None, "rel": rng.random() < .5, "policy": rng.choice([None, {"seed": rng.randrange(10**6), "short": .1, "eintr": .1}]), "listseed": rng.randrange(10**6)}


def spot(rng, ops):
    """an operation: first the file, then the kind, then the position"""
    g = {}
    for k, o in enumerate(ops):
        if o[0] in KINDS and (o[2] or o[3]):
            g.setdefault(o[2] or o[3], {}).setdefault(o[0], []).append(k)
    if not g:
        return None
    f = g[rng.choice(sorted(g))]
    return rng.choice(f[rng.choice(sorted(f))])


def table(path):
    """whitespace table -> (header, rows) as written"""
    with open(path) as f:
        rows = [tuple(l.split()) for l in f if l.strip()]
    return rows[0], rows[1:]


def cut(t, cols):
    ix = [list(t[0]).index(c) for c in cols]
    return (tuple(cols), [tuple(r[i] for i in ix) for r in t[1]])


def expected(tabs):
    cols = sorted({c for t in tabs for c in t[0]})
    rows = []
    for t in tabs:
        for r in t[1]:
            d = dict(zip(t[0], r))
            rows.append(tuple(d.get(c, "") for c in cols))
    return (tuple(cols), rows)


def compare(want, got, name):
    if got[0] == "unreadable":
        return f"{name}: {got}"
    missing = [c for c in want[0] if c not in got[0]]
    if missing:
        return f"{name}: columns missing {missing}"
    g = cut(got, want[0])
    d = diff_close({name: want}, {name: g})
    if d is None:                                        # identifiers exactly, not numerically
        if "ObjID" in want[0]:
            i = list(want[0]).index("ObjID")
            a, b = sorted(r[i] for r in want[1]), sorted(r[i] for r in g[1])
            if a != b:
                d = f"{name}: ObjIDs {[x for x in a if x not in b][:3]} became {[x for x in b if x not in a][:3]}"
    return d


def inflate(f, n):
    """the result database of a long run: its rows again and again, at other times"""
    con = sqlite3.connect(f)
    k = con.execute("select count(*) from sorcha_results").fetchone()[0]
    cols = [c[1] for c in con.execute("pragma table_info(sorcha_results)")]
    q = ",".join(f"[{c}]+1000*?" if c == "fieldMJD_TAI" else f"[{c}]" for c in cols)
    i = 1
    while k and k * (i + 1) <= n:
        con.execute(f"insert into sorcha_results select {q} from sorcha_results where rowid<={k}", (i,))
        i += 1
    con.commit()
    con.close()


def run_case(env, case):
    p = L.full(case["p"])
    w = env.world("a")
    res, inp = case["res"], case["inp"]
    os.makedirs(w.path(inp))
    os.makedirs(w.path(res))
    out = case["out"].format(res=res, inp=inp)
    os.makedirs(os.path.dirname(w.path(out)), exist_ok=True)
    dbs, orbs, phys = [], [], []
    n = len(case["runs"])
    for k, ru in enumerate(case["runs"]):
        sub = [i for i in range(p["nobj"]) if case["part"][i] == k]
        if not sub:
            continue
        q = dict(p)
        cols = case["runs"][0]["cols"] if case["same_cols"] else ru["cols"]
        if cols and p["survey"] == "rubin_sim":
            q["columns"] = ",".join(["ObjID"] + cols)
        elif not case["same_cols"] and any(x["cols"] for x in case["runs"]) and p["survey"] == "rubin_sim":
            q["columns"] = ",".join(BASE)
        d = os.path.join(res, ru["dir"])
        setup(w, q, sub=f"src{k}", out=d)
        L.materialise(w, q, sub=f"src{k}", subset=sub)
        shutil.copy(w.path(f"src{k}", "orbits.csv"), w.path(inp, f"orbits_{k}.txt"))
        shutil.copy(w.path(f"src{k}", "params.csv"), w.path(inp, f"params_{k}.txt"))
        orbs.append(table(w.path(inp, f"orbits_{k}.txt")))
        phys.append(table(w.path(inp, f"params_{k}.txt")))
        stem = f"{ru['stem']}{k}"
        r = w.phase([proc(q, seed=case["seed"], sub=f"src{k}", out=d, stem=stem, stats=f"stats{k}", ew=f"eph{k}", pid=300 + k)])
        if r.code != 0:
            return {"violations": ref_failed(r), "nontrivial": None}
        f = w.path(d, stem + ".db")
        if case.get("big") and k == case["big"][0] % n and os.path.exists(f):
            inflate(f, case["big"][1])
        if os.path.exists(f) and (not case["stem"] or stem.startswith(case["stem"])):
            t = rd_safe(f)
            if t[0]:
                dbs.append(t)
    if case["decoy"]:                                    # what a pattern match of the folder names would find instead
        for name, alt in (("res[1]", "res1"), ("in*", "inside"), ("in?uts", "inputs")):
            if name in (res, inp):
                os.makedirs(w.path(alt), exist_ok=True)
                for n in ("params_x.txt", "orbits_x.txt"):
                    open(w.path(alt, n), "w").write("ObjID a\nother 1\n")
                c = sqlite3.connect(w.path(alt, "run9.db"))
                c.execute("create table sorcha_results(ObjID, a)")
                c.execute("insert into sorcha_results values('other', 1)")
                c.commit()
                c.close()
    want = {"sorcha_results": expected(dbs), "orbits": expected(orbs), "params": expected(phys)}
    a = ["create-sqlite", "-o", out, "-i", inp, "-r", res] + (["-s", case["stem"]] if case["stem"] else [])
    if not case["rel"]:
        a = [w.path(x) if j in (2, 4, 6) else x for j, x in enumerate(a)]
    inputs0 = w.snapshot(skip=[lambda x: x.startswith(out)])
    v, trace, nt, nops = [], [], [], None
    for st in case["steps"] + [{"how": "ok", "s": 0}]:
        rng = random.Random(st["s"])
        kw = {}
        if st["how"] in ("kill", "err"):
            if nops is None:
                n0 = env.world("probe")
                shutil.rmtree(n0.root)
                shutil.copytree(w.root, n0.root)
                b = [x.replace(w.root, n0.root) for x in a]
                nops = n0.phase([dict(cmd="outputs", argv=b, pid=800)]).ops[0]
            k = (place(rng, o2, KINDS) if rng.random() < .4 else spot(rng, o2)) if (o2 := [o if (st["how"] == "kill" or o[0] != "close") else ("-",) + o[1:] for o in nops]) else None
            op = nops[k]
            f = {"p": 0, "k": k, "a": rng.choice(["kill", "kill_after"])} if st["how"] == "kill" else {"p": 0, "k": k, "a": "err", "e": errno.EIO if op[0] == "read" else rng.choice([errno.EIO, errno.ENOSPC])}
            if st["how"] == "kill" and op[0] == "write" and op[4] > 1 and rng.random() < .5:
                f = dict(f, a="torn", n=rng.randrange(1, op[4]))
            kw["faults"] = [f]
        elif st["how"] == "quota":
            kw["quota"] = rng.randrange(1, 60000)
        r = w.phase([dict(cmd="outputs", argv=a, pid=900)], policy=case["policy"], listseed=case["listseed"], **kw)
        trace.append({"step": st["how"], "faults": kw, "exit": r.code, "argv": a})
        tag = f"step {len(trace)} ({st['how']} {kw}), output {out}, results {res}, stem {case['stem']}"
        if r.code == 0:
            if not dbs:
                if not os.path.exists(w.path(out)):
                    v.append(V("nothing-merged", tag))
                continue
            for t in ("sorcha_results", "orbits", "params"):
                d = compare(want[t], rd_safe_db(w.path(out), t), t)
                if d:
                    v.append(V("incomplete-accepted", f"{tag}: exit 0 but {d}", sig=t))
                    break
            nt.append(f"{len(dbs)}/{case['out']}/{res}/{inp}/{case['stem']}/{[x['step'] for x in trace]}")
        elif st["how"] == "ok" and dbs:
            v.append(V("merge-fails", f"{tag}: exit {r.code}: {r.out[0][-500:]}"))
        if v:
            break
    if not v:
        s = w.snapshot(skip=[lambda x: x.startswith(out)])
        if s != inputs0:
            v.append(V("inputs-modified", f"{sorted(k for k in set(s) | set(inputs0) if s.get(k) != inputs0.get(k))[:4]}"))
    return {"violations": v, "nontrivial": nt if want["sorcha_results"][1] else None, "evals": len(trace), "trace": trace}


def shrink(case):
    n = len(case["runs"])
    if n > 1:
        for k in range(n):
            c = copy.deepcopy(case)
            c["part"] = [(k + 1) % n if x == k else x for x in c["part"]]
            if c["part"] != case["part"]:
                yield c
    for i, st in enumerate(case["steps"]):
        if st["how"] != "ok":
            c = copy.deepcopy(case)
            c["steps"][i]["how"] = "ok"
            yield c
    for c in shrink_case(case, keys_lists=("steps",), simple=(("policy", None), ("listseed", 0), ("decoy", False), ("big", None), ("stem", None), ("res", "results"), ("inp", "inputs"), ("out", "merged.sqlite"))):
        if c["p"].get("fmt") == "sqlite3" and c["p"].get("aux_fmt") == "whitespace":
            c["part"] = c["part"][:c["p"]["nobj"]]
            yield c
