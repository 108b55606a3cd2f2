"""P24: simulations started one after the other through the Python interface do not influence each other."""
from .common import *

RULE = ("a case is a session of 2-4 simulations through the Python interface in one interpreter, some returning tables instead of writing files, some with the same configuration object, some with input files "
        "exchanged under the same names, optionally with one of them failing on a seeded input, output or cache fault; every undisturbed one has to deliver what a fresh process running the command line with the "
        "same inputs and seed delivers, and one that returns tables has to leave the output folder alone; non-trivial when something is detected in a second or later simulation")
REAL = ["sorcha.sorcha.runLSSTSimulation, sorcha.des.runDESSimulation and everything below them, sorcha_cmdline.run for the references"] + REAL_RUN[1:]
STUB = STUB_RUN + STUB_AR
QUICK_S = 26
MIN_CASES = 24
ASSUMPTIONS = ["every simulation of a session gets arguments of its own (random streams are part of them)"]


def gen(rng, tier, idx):
    n = rng.choice([2, 2, 3, 3, 4])
    ps = []
    for k in range(n):
        if ps and rng.random() < .45:
            q = dict(rng.choice(ps))
            if rng.random() < .4:
                q["seed"] = rng.randrange(1, 10**6)          # the same settings over other inputs
        else:
            q = random_params(rng, ar=.35)
        q["posdec"] = q["magdec"] = None
        ps.append(q)
    if rng.random() < .35:                        # more than a handful of visits
        for q in ps:
            q.update(nights=rng.randrange(11, 15), fields=1, nobj=min(q["nobj"], 5))
    return {"ps": ps, "seeds": [rng.choice([11, rng.randrange(2**31)]) for _ in ps], "ret": [rng.random() < .5 for _ in ps], "inplace": rng.random() < .5, "share": rng.random() < .5,
            "fault": rng.choice([None, rng.randrange(10**9)]), "listseed": rng.randrange(10**6), "before": rng.random() < .3}


def args_of(w, p, k, sub, seed):
    j = lambda *a: w.path(*a)
    a = dict(paramsinput=j(sub, "params.csv"), orbinfile=j(sub, "orbits.csv"), configfile=j(sub, "config.ini"), outpath=j("out"), outfilestem=f"run{k}", pointing_database=j(sub, "pointings.db"),
             loglevel=p["loglevel"], stats=f"stats{k}" if p["stats"] else None, visits_database=j(sub, "visits.db") if p["camera"] == "visits_footprint" else None, surveyname=p["survey"], seed=seed)
    if p["mode"] == "ext":
        a["input_ephemeris_file"] = j(sub, "eph.h5" if p["eph_fmt"] == "hdf5" else "eph.csv")
    else:
        a["ar_data_path"] = j("cache")
        if p["ew"]:
            a["output_ephemeris_file"] = f"ephout{k}"
    return a


def build(env, case, name):
    w = env.world(name)
    ps = [L.full(q) for q in case["ps"]]
    steps = []
    for k, p in enumerate(ps):
        setup(w, p, sub=f"in{k}")
    for k, p in enumerate(ps):
        sub, mv = f"in{k}", []
        if case["inplace"]:
            if k:
                mv.append([w.path("in"), w.path(f"in{k - 1}")])
            mv.append([w.path(f"in{k}"), w.path("in")])
            sub = "in"
        same = next(i for i in range(k + 1) if {**ps[i], "seed": 0} == {**p, "seed": 0})
        steps.append({"args": args_of(w, p, k, sub, case["seeds"][k]), "return_only": case["ret"][k], "move": mv, "share": same if case["share"] else None})
    return w, ps, steps


def records(r):
    return [json.loads(l[8:]) for l in r.out[0].split("\n") if l.startswith("SESSION ")]


def run_case(env, case):
    refs = []
    for k, q in enumerate(case["ps"]):
        p = L.full(q)
        x, r, o = ref(env, p, name="c", seed=case["seeds"][k])
        if r.code != 0:
            return {"violations": ref_failed(r), "nontrivial": None}
        refs.append(o)
    faults, where = [], None
    if case["fault"] is not None:
        w, ps, steps = build(env, case, "b")
        r = w.phase([dict(cmd="session", argv=[json.dumps(steps)], ar=True, pid=70)], listseed=case["listseed"])
        rng = random.Random(case["fault"])
        k = place(rng, [o for o in r.ops[0]], ("open", "read", "write", "close"))
        if k is not None:
            faults = [{"p": 0, "k": k, "a": "err", "e": rng.choice([errno.EIO, errno.ENOSPC, errno.EMFILE])}]
    w, ps, steps = build(env, case, "a")
    pre = {}
    if case["before"]:                                       # an earlier result under the name of a simulation that only returns its tables
        for k, p in enumerate(ps):
            if case["ret"][k]:
                q = proc(p, seed=case["seeds"][k], sub=f"in{k}", stem=f"run{k}", stats=f"stats{k}", ew=f"other{k}", pid=50 + k)
                w.phase([q])
    now = [None]
    seen = []

    def on_op(p, k, op, fl, path, path2, size, act):
        if op == "rename":
            return
        if (op in W.MUTATING or (op == "open" and fl & (os.O_WRONLY | os.O_RDWR | os.O_CREAT) and act == 0)) and (path.startswith("out/") or path2.startswith("out/")):
            seen.append(path or path2)
    r = w.phase([dict(cmd="session", argv=[json.dumps(steps)], ar=True, pid=70)], listseed=case["listseed"], faults=faults, on_op=on_op)
    recs = records(r)
    v, nt = [], []
    if len(recs) != len(ps):
        return {"violations": [V("session-ended", f"exit {r.codes[0]} after {len(recs)} of {len(ps)} simulations: {r.out[0][-400:]}")], "nontrivial": None}
    bad = [x["step"] for x in recs if x["status"] != "ok"]
    tag0 = f"{['returns' if x else 'writes' for x in case['ret']]}, inputs {'exchanged in place' if case['inplace'] else 'apart'}, configuration object {'shared' if case['share'] else 'apart'}, faults {faults}"
    if len(bad) > (1 if faults else 0):
        b = bad[1] if faults else bad[0]
        v.append(V("simulation-fails", f"simulation {b} of {len(ps)}: {recs[b]['text']} ({tag0})"))
    fop = r.ops[0][faults[0]["k"]] if faults and len(r.ops[0]) > faults[0]["k"] else None
    for k, p in enumerate(ps):
        if v or k in bad:
            continue
        want = {a: b for a, b in refs[k].items()}
        if case["ret"][k]:
            got = {a: (tuple(b[0]), [tuple(x) for x in b[1]]) for a, b in recs[k].items() if a in ("detections", "stats")}
            for a in ("detections", "stats"):
                if want.get(a) is None:
                    if got.get(a) and got[a][1]:
                        v.append(V("returned-differs", f"simulation {k}: {len(got[a][1])} rows of {a} returned, none written by a run of its own ({tag0})"))
                    want.pop(a, None)
                    got.pop(a, None)
            want.pop("ephemeris", None)
            for a in list(want):
                if a in got:                                 # columns that only the writer of the files adds are not returned
                    both = [c for c in want[a][0] if c in got[a][0]]
                    if len(both) < len(want[a][0]) - 1:
                        v.append(V("returned-differs", f"simulation {k}: no columns {sorted(set(want[a][0]) - set(both))} ({tag0})"))
                    want[a], got[a] = cols(want[a], both), cols(got[a], both)
            d = diff_close(canonical(want), canonical(got), rel=1e-7, ab=1e-7)
            if d:
                v.append(V("returned-differs", f"simulation {k} of {len(ps)} in one process vs a run of its own: {d} ({tag0})"))
            stray = sorted({f for f in seen if os.path.basename(f).split(".")[0] in (f"run{k}", f"stats{k}")})
            if stray and not v:
                v.append(V("return-only-writes", f"simulation {k} was to return tables only but wrote {stray} ({tag0})"))
        else:
            d = diff(want, outputs(w, p, stem=f"run{k}", stats=f"stats{k}", ew=f"ephout{k}"))
            if d:
                v.append(V("written-differs", f"simulation {k} of {len(ps)} in one process vs a run of its own: {d} ({tag0})"))
        if k and nrows(refs[k]):
            nt.append(shape(p) + f"/{k}/{case['ret'][k]}/{case['inplace']}/{case['share']}/{bool(bad)}")
    return {"violations": v[:1], "nontrivial": nt or None, "evals": len(ps), "trace": [{"step": x["step"], "status": x["status"], "text": x.get("text")} for x in recs]}


def cols(t, names):
    ix = [t[0].index(c) for c in names]
    return (tuple(names), [tuple(r[i] for i in ix) for r in t[1]])


def canonical(o):
    """truth values as the readers of all formats spell them"""
    f = lambda v: {"True": "1", "False": "0"}.get(v, v)
    return {k: None if t is None else (t[0], [tuple(f(v) for v in r) for r in t[1]]) for k, t in o.items()}


def shrink(case):
    n = len(case["ps"])
    if n > 2:
        for i in range(n):
            c = copy.deepcopy(case)
            for k in ("ps", "seeds", "ret"):
                c[k].pop(i)
            yield c
    for i in range(n):
        for q in shrink_params(case["ps"][i]):
            c = copy.deepcopy(case)
            c["ps"][i] = q
            yield c
    for k, val in (("fault", None), ("before", False), ("share", False), ("inplace", False), ("listseed", 0)):
        if case[k] != val:
            yield dict(copy.deepcopy(case), **{k: val})
