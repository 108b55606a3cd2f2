"""P09: with -f the run replaces all of its own stale output and nothing else."""
from .clobber import *
from .clobber import shrink  # noqa: F401

RULE = ("a case is a workload and an output directory with stale files under the run's own output names (regular, empty, links, another format, a hot journal), files that only resemble them and stems "
        "with dots, spaces and pattern characters; the run is started with the overwrite flag; the outcome is compared with the same run in an empty directory; non-trivial when stale or look-alike files were present")
REAL, STUB = REAL_RUN, STUB_RUN + STUB_AR
QUICK_S = 24


def gen(rng, tier, idx):
    c = random_case(rng)
    if rng.random() < .6:
        c["own"] = sorted({k: [k, h] for k, h in c["own"] + [[rng.choice(["detections", "otherfmt", "journal", "stats", "ephemeris"]), "file"] for _ in range(2)]}.values())
    return c


def run_case(env, case):
    p = L.full(case["p"])
    w = env.world("a")
    setup(w, p)
    own, others = lay_out(w, case, p)
    before = state(w)
    r = w.phase([spec(w, case, p, True)], policy=case["policy"], listseed=case["listseed"])
    after = state(w)
    v = []
    tag = f"-f -o '{case['dir']}' -t '{case['stem']}' --st '{case['stats']}' --ew '{case['ew']}', present {sorted(own | others)}: exit {r.code}"
    ch = sorted(k for k in before if k not in own and after.get(k) != before[k])
    if ch:
        v.append(V("bystander-changed", f"{ch} {'removed' if ch[0] not in after else 'changed'} ({tag})"))
    elif r.code != 0:
        v.append(V("forced-run-fails", f"({tag}) {r.out[0][-400:]}"))
    else:
        x = env.world("b")
        setup(x, p)
        c2 = dict(case, own=[], others=[])
        lay_out(x, c2, p)
        r2 = x.phase([spec(x, c2, p, False)])
        if r2.code != 0:
            v.append(failed(r2))
        else:
            kw = dict(out=case["dir"], stem=case["stem"], stats=case["stats"], ew=case["ew"])
            d = diff(outputs(x, p, **kw), outputs(w, p, **kw))
            fresh = set(state(x))
            left = sorted(k for k in own if k in after and k not in fresh)
            if d:
                v.append(V("result-differs", f"{d} ({tag})"))
            elif left:
                v.append(V("stale-output-left", f"{left} ({tag})"))
    return {"violations": v, "nontrivial": f"{p['fmt']}/{p['mode']}/{case['stem']}/{case['dir']}/{sorted(k[0] + k[1] for k in case['own'])}/{len(others)}" if own or others else None}
