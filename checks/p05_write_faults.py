"""P05: success is only reported when everything was delivered, whatever the disk does."""
from .common import *

RULE = ("a case is a workload whose reference operation trace is recorded; each of several re-executions meets one seeded write-side fault plan (an error, short or torn write, failed "
        "open/close/truncate/unlink, a disk that is full from some operation on, or a byte quota), placed first by file class and operation kind and then by position; "
        "non-trivial when a fault was delivered")
REAL, STUB = REAL_RUN, STUB_RUN + STUB_AR
QUICK_S = 30
KINDS = ("open", "write", "trunc", "close", "fsync", "unlink", "rename", "mkdir", "lock")
ERR = {"open": [errno.ENOSPC, errno.EACCES, errno.EMFILE, errno.EROFS, errno.EIO, errno.EDQUOT], "write": [errno.ENOSPC, errno.EIO, errno.EDQUOT, errno.EFBIG], "trunc": [errno.EIO, errno.ENOSPC],
       "close": [errno.EIO, errno.ENOSPC, errno.EDQUOT], "fsync": [errno.EIO], "unlink": [errno.EIO, errno.EACCES], "rename": [errno.ENOSPC, errno.EIO], "mkdir": [errno.ENOSPC], "lock": [errno.EIO, errno.ENOLCK]}
ASSUMPTIONS = ["a failed write leaves what was written before it; no loss of acknowledged page-cache data"]


def gen(rng, tier, idx):
    p = random_params(rng, ar=0.35)
    p["stats"] = rng.random() < 0.85
    return {"p": p, "seed": rng.randrange(2**31), "plans": [{"kind": pick(rng, ("err", 6), ("sticky", 2), ("quota", 3), ("short-then-full", 2)), "s": rng.randrange(10**9)} for _ in range(8 if tier == "quick" else 24)]}


def plan_faults(pl, ops):
    rng = random.Random(pl["s"])
    outops = [o if isout(o[2] or o[3]) and (o[0] != "open" or o[1] & (os.O_CREAT | os.O_WRONLY | os.O_RDWR)) else ("-",) + o[1:] for o in ops]
    total = sum(o[4] for o in outops if o[0] == "write")
    if pl["kind"] == "quota":
        return [], rng.randrange(max(1, total))
    k = place(rng, outops, KINDS if pl["kind"] == "err" else ("write",))
    if k is None:
        return [], None
    op = ops[k][0]
    if pl["kind"] == "err":
        return [{"p": 0, "k": k, "a": "err", "e": rng.choice(ERR[op])}], None
    if pl["kind"] == "sticky":
        return [{"p": 0, "k": k, "a": "err", "e": errno.ENOSPC, "sticky": ["write", "mkdir", "open"] if rng.random() < .5 else ["write"]}], None
    n = rng.randrange(max(1, ops[k][4]))
    return [{"p": 0, "k": k, "a": "short", "n": n}, {"p": 0, "k": k + 1, "a": "err", "e": errno.ENOSPC, "sticky": ["write"]}], None


def run_case(env, case):
    p = L.full(case["p"])
    w, r, o = ref(env, p, seed=case["seed"])
    if r.code != 0:
        return {"violations": ref_failed(r), "nontrivial": None}
    v, nt, trace = [], [], []
    for pl in case["plans"]:
        faults, quota = plan_faults(pl, r.ops[0])
        x = env.world("b")
        setup(x, p)
        r2 = x.phase([proc(p, seed=case["seed"])], faults=faults, quota=quota)
        o2 = outputs(x, p)
        what = f"{pl['kind']} {faults or quota}" + (f" at {r.ops[0][faults[0]['k']][:4]}" if faults else "")
        done = any(completed(x, f) for f in logs(x))
        d = diff(o, o2)
        if x.fault_counts:
            nt.append(f"{p['fmt']}/{pl['kind']}/" + ",".join(sorted(x.fault_counts)) + f"/{r2.code}")
        if r2.code == 0 and d:
            v.append(V("success-with-missing-output", f"exit 0 after {what}, but {d}"))
        elif done and d:
            v.append(V("completion-logged-with-missing-output", f"log reports completion after {what}, but {d}"))
        elif not x.fault_counts and d:
            v.append(V("output-differs", d))
        if v:
            trace.append({"plan": pl, "faults": faults, "quota": quota})
            break
    return {"violations": v, "nontrivial": nt, "evals": len(case["plans"]), "trace": trace}


def shrink(case):
    yield from shrink_case(case, keys_lists=("plans",))
