"""P07: an input that cannot be read is never silently left out."""
from .common import *

RULE = ("a case is a workload whose reference operation trace is recorded; each of several re-executions meets one seeded read-side fault plan: an error of open, read, stat or directory listing on an input, "
        "the ephemeris cache or the output directory, once or from then on, or short and interrupted transfers on every read; the run has to fail or deliver exactly the reference; "
        "non-trivial when a fault was delivered")
REAL, STUB = REAL_RUN, STUB_RUN + STUB_AR
QUICK_S = 20
MIN_CASES = 24
ERR = {"open": [errno.EIO, errno.EACCES, errno.EMFILE, errno.ESTALE, errno.ENOMEM], "read": [errno.EIO, errno.ESTALE, errno.ENOMEM], "stat": [errno.EIO, errno.EACCES, errno.ESTALE], "listdir": [errno.EIO, errno.EACCES],
       "lock": [errno.ENOLCK, errno.EIO], "close": [errno.EIO], "copy": [errno.EIO]}


def gen(rng, tier, idx):
    p = random_params(rng, ar=0.4)
    if rng.random() < .3:
        p["eph_fmt"] = "hdf5"
    return {"p": p, "seed": rng.randrange(2**31), "plans": [{"kind": pick(rng, ("err", 6), ("sticky", 3), ("noise", 1)), "s": rng.randrange(10**9)} for _ in range(7 if tier == "quick" else 20)]}


def plan(pl, ops):
    rng = random.Random(pl["s"])
    if pl["kind"] == "noise":
        return [], {"seed": rng.randrange(10**6), "short": .5, "eintr": .3}
    rd = [o if o[0] in ("stat", "listdir", "read", "lock", "copy") or (not isout(o[2] or o[3]) and o[0] in ("open", "close")) else ("-",) + o[1:] for o in ops]
    k = place(rng, rd, tuple(ERR))
    if k is None:
        return [], None
    op = ops[k][0]
    f = {"p": 0, "k": k, "a": "err", "e": rng.choice(ERR[op])}
    if pl["kind"] == "sticky" and op in ("read", "listdir", "stat"):
        f["sticky"] = [op]
    return [f], None


def run_case(env, case):
    p = L.full(case["p"])
    w, r, o = ref(env, p, seed=case["seed"])
    if r.code != 0:
        return {"violations": ref_failed(r), "nontrivial": None}
    v, nt, trace = [], [], []
    for pl in case["plans"]:
        faults, policy = plan(pl, r.ops[0])
        x = env.world("b")
        setup(x, p)
        r2 = x.phase([proc(p, seed=case["seed"])], faults=faults, policy=policy)
        what = f"{pl['kind']} {faults or policy}" + (f" at {r.ops[0][faults[0]['k']][:4]}" if faults else "")
        if x.fault_counts:
            nt.append(f"{p['mode']}/{p['eph_fmt']}/{pl['kind']}/" + ",".join(sorted(x.fault_counts)) + f"/{ptype(r.ops[0][faults[0]['k']][2]) if faults else ''}/{r2.code}")
        if r2.code == 0 or any(completed(x, f) for f in logs(x)):
            d = diff(o, outputs(x, p))
            if d:
                op = r.ops[0][faults[0]["k"]] if faults else ("noise", 0, "")
                v.append(V("silently-different", f"exit {r2.code} after {what}, but {d}", sig=f"{op[0]}"))
        elif pl["kind"] == "noise":
            v.append(V("interrupted-transfer-fails", f"short and interrupted transfers: exit {r2.code}: {r2.out[0][-400:]}"))
        if v:
            trace.append({"plan": pl, "faults": faults, "policy": policy})
            break
    return {"violations": v, "nontrivial": nt, "evals": len(case["plans"]), "trace": trace}


def shrink(case):
    yield from shrink_case(case, keys_lists=("plans",))
