"""P11: a run never touches what it was given."""
from .common import *

RULE = ("a case is a workload laid out in one of several directory arrangements (results next to the inputs, read-only-looking names, output stems equal or close to input names, symbolic links), executed "
        "undisturbed, with the overwrite flag, under write/read faults, under a disk-full quota and with a kill at a seeded point; every operation on an input path is watched as it happens and the "
        "input files and the ephemeris cache are compared byte for byte afterwards; non-trivial when a run with a fault, a kill or the overwrite flag was observed")
REAL, STUB = REAL_RUN, STUB_RUN + STUB_AR
QUICK_S = 24
KINDS = ("open", "write", "read", "trunc", "close", "unlink", "rename", "mkdir", "lock", "stat", "listdir")


def gen(rng, tier, idx):
    p = random_params(rng, ar=0.4)
    lay = rng.choice(["apart", "same", "same", "link"])
    stem = rng.choice(["run", "orbits", "params", "pointings", "config", "eph", "visits", "orbit", "orbits.csv", "params.1"])
    stats = rng.choice(["stats", "params", "orbits", "stats", "stats", "eph"])
    return {"p": p, "seed": rng.randrange(2**31), "layout": lay, "stem": stem, "stats": stats, "ew": rng.choice(["ephout", "ephout", "orbits", "eph"]), "force": rng.random() < 0.7,
            "bad": rng.choice([None, "err", "err", "kill", "quota"]), "s": rng.randrange(10**9), "n": 3 if tier == "quick" else 8}


def run_case(env, case):
    p = L.full(case["p"])
    v, nt = [], []
    ops = None
    for i in range(case["n"] + 1):
        x = env.world("a" if i == 0 else "b")
        out = {"apart": "out", "same": "in", "link": "out"}[case["layout"]]
        setup(x, p, out=out)
        if case["layout"] == "link":       # inputs reached through links in the output directory
            for f in os.listdir(x.path("in")):
                os.symlink("../in/" + f, x.path("out", f))
        given = {k: h for k, h in x.snapshot("in").items()}
        cache = {k: h for k, h in x.snapshot("cache").items()} if p["mode"] == "ar" else {}
        links = set(os.listdir(x.path("out"))) if case["layout"] == "link" else set()
        ins = set(given) | set(cache)
        x.protected = lambda q, ins=ins: q in ins
        kw = {}
        if i and ops:
            rng = random.Random(case["s"] + i)
            if case["bad"] in ("err", "kill"):
                k = place(rng, ops, KINDS)
                kw["faults"] = [] if k is None else [{"p": 0, "k": k, "a": "kill"} if case["bad"] == "kill" else {"p": 0, "k": k, "a": "err", "e": rng.choice([errno.EIO, errno.EACCES, errno.ESTALE])}]
            elif case["bad"] == "quota":
                kw["quota"] = rng.randrange(20000)
        r = x.phase([proc(p, seed=case["seed"], sub="out" if case["layout"] == "link" else "in", out=out, stem=case["stem"], stats=case["stats"], ew=case["ew"], force=case["force"])], **kw)
        if i == 0:
            ops = r.ops[0]
        tag = f"{case['layout']}, -t {case['stem']} --st {case['stats']} --ew {case['ew']}{' -f' if case['force'] else ''}, {kw or 'undisturbed'}: exit {r.code}"
        now = x.snapshot("in")
        ch = sorted(k for k in given if now.get(k) != given[k])
        if ch:
            v.append(V("input-changed", f"{ch} {'gone' if ch[0] not in now else 'modified'} ({tag})"))
        elif x.mutations:
            v.append(V("input-touched", f"{x.mutations[:3]} ({tag})"))
        elif cache and any(x.snapshot("cache").get(k) != h for k, h in cache.items()):
            v.append(V("cache-changed", f"{[k for k, h in cache.items() if x.snapshot('cache').get(k) != h]} ({tag})"))
        elif case["layout"] == "link" and not all(os.path.islink(x.path("out", f)) for f in links):
            v.append(V("input-link-removed", f"{[f for f in links if not os.path.islink(x.path('out', f))]} ({tag})"))
        nt.append(f"{case['layout']}/{case['stem']}/{case['stats']}/{case['force']}/{case['bad'] if i else None}/{r.code}")
        if v or not case["bad"]:
            break
    return {"violations": v, "nontrivial": nt, "evals": len(nt)}


def shrink(case):
    yield from shrink_case(case, simple=(("bad", None), ("stats", "stats"), ("ew", "ephout"), ("stem", "run"), ("layout", "apart"), ("force", False), ("n", 1)))
