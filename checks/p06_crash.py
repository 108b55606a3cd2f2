"""P06: a run killed at any point leaves nothing that spoils the next one."""
from .common import *

RULE = ("a case is a workload whose operation trace is recorded; re-executions are killed at seeded points (before, after or in the middle of an operation), sometimes twice, sometimes a run of another "
        "output format; then the run is repeated with and without the overwrite flag; non-trivial when a kill was delivered")
REAL, STUB = REAL_RUN, STUB_RUN + STUB_AR
QUICK_S = 20
ASSUMPTIONS = ["crash model is process death (SIGKILL): completed system calls survive; sorcha never calls fsync itself, so power-loss durability is outside its promises"]
KINDS = ("open", "write", "trunc", "close", "fsync", "unlink", "rename", "mkdir", "lock", "read", "stat", "listdir", "meta")


def gen(rng, tier, idx):
    p = random_params(rng, ar=0.3)
    p["stats"] = rng.random() < 0.85
    return {"p": p, "seed": rng.randrange(2**31), "crashes": [{"s": rng.randrange(10**9), "twice": rng.random() < .35, "other_fmt": rng.random() < .25} for _ in range(5 if tier == "quick" else 16)]}


def kill_plan(rng, ops, outonly=0.85):
    o2 = [o if isout(o[2] or o[3]) else ("-",) + o[1:] for o in ops] if rng.random() < outonly else ops
    k = place(rng, o2, KINDS)
    if k is None:
        return None
    op, size = ops[k][0], ops[k][4]
    if op == "write" and size > 1 and rng.random() < 0.5:
        return {"p": 0, "k": k, "a": "torn", "n": rng.randrange(1, size)}
    return {"p": 0, "k": k, "a": rng.choice(["kill", "kill_after"])}


def visible(w, sub="out"):
    return {k: h for k, h in w.snapshot(sub).items() if not k.endswith((".log", ".err"))}


def run_case(env, case):
    p = L.full(case["p"])
    w, r, o = ref(env, p, seed=case["seed"])
    if r.code != 0:
        return {"violations": ref_failed(r), "nontrivial": None}
    names = set(visible(w))
    v, nt, trace = [], [], []
    for c in case["crashes"]:
        rng = random.Random(c["s"])
        x = env.world("b")
        setup(x, p)
        q = dict(p)
        if c["other_fmt"]:
            q["fmt"] = rng.choice([f for f in ("csv", "sqlite3", "hdf5") if f != p["fmt"]])
            L.materialise(x, q)
        f = kill_plan(rng, r.ops[0])
        r1 = x.phase([proc(q, seed=case["seed"], pid=500)], faults=[f])
        if q is not p:
            L.materialise(x, p)
        plan = [f]
        if c["twice"]:
            r1b = None
            f2 = dict(f, k=rng.randrange(r.nops[0]), a="kill")
            f2.pop("n", None)
            plan.append(f2)
            x.phase([proc(p, seed=case["seed"], force=True, pid=501)], faults=[f2])
        before = visible(x)
        rb = x.phase([proc(p, seed=case["seed"], pid=502)])          # careful rerun: refuses or is a clean run
        if rb.code == 0:
            d = diff(o, outputs(x, p))
            if d:
                v.append(V("unforced-rerun-mixes", f"after {plan}: rerun without -f exits 0 but {d}"))
        elif visible(x) != before:
            v.append(V("refusal-modifies", f"after {plan}: rerun without -f exits {rb.code} and changes {sorted(set(before.items()) ^ set(visible(x).items()))[:4]}"))
        rf = x.phase([proc(p, seed=case["seed"], force=True, pid=503)])
        if rf.code != 0:
            v.append(V("forced-rerun-fails", f"after {plan}: rerun with -f exits {rf.code}: {rf.out[0][-400:]}"))
        else:
            d = diff(o, outputs(x, p))
            if d:
                v.append(V("forced-rerun-differs", f"after {plan}: {d}"))
            elif set(visible(x)) != names:
                v.append(V("leftovers", f"after {plan}: {sorted(set(visible(x)) ^ names)}"))
        op = r.ops[0][f["k"]]
        nt.append(f"{p['fmt']}/{f['a']}/{op[0]}/{ptype(op[2] or op[3])}/{rb.code}")
        if v:
            trace.append({"crash": c, "faults": plan, "at": op[:4]})
            break
    return {"violations": v, "nontrivial": nt, "evals": len(case["crashes"]), "trace": trace}


def shrink(case):
    for i, c in enumerate(case["crashes"]):
        for k in ("twice", "other_fmt"):
            if c[k]:
                d = copy.deepcopy(case)
                d["crashes"][i][k] = False
                yield d
    yield from shrink_case(case, keys_lists=("crashes",))
