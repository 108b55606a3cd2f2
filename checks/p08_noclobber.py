"""P08: without -f nothing that exists is overwritten, appended to or removed."""
from .clobber import *
from .clobber import shrink as _shrink

RULE = ("a case is a workload and an output directory with files under the run's own output names (regular, empty, symbolic links, dangling links, results of earlier runs or of another format), names that "
        "only resemble them, and stems and directories with spaces, dots and pattern characters; the run is started without the overwrite flag under short/interrupted calls and shuffled directory order, "
        "and later once more under the same process id, optionally with a failing stat, listing, open, read or lock; non-trivial when own or look-alike files were present")
REAL, STUB = REAL_RUN, STUB_RUN + STUB_AR
QUICK_S = 24


def gen(rng, tier, idx):
    c = random_case(rng)
    if rng.random() < 0.3:
        c["own"] = []
    c["again"] = rng.choice([None, rng.choice([2, 60, 3600, 86400, 40 * 86400])])
    c["fault"] = rng.choice([None, None, None, rng.randrange(10**9)])
    return c


def shrink(case):
    if case.get("again"):
        yield dict(copy.deepcopy(case), again=None)
    yield from _shrink(case)


def log_state(w, d):
    return {f: open(w.path(d, f), "rb").read() for f in sorted(os.listdir(w.path(d))) if f.endswith(("sorcha.log", "sorcha.err"))}


def run_case(env, case):
    p = L.full(case["p"])
    w = env.world("a")
    setup(w, p)
    own, others = lay_out(w, case, p)
    before = state(w)
    faults = []
    if case["fault"] is not None:
        rng = random.Random(case["fault"])
        y = env.world("c")
        setup(y, p)
        lay_out(y, case, p)
        r0 = y.phase([spec(y, case, p, False)])
        k = place(rng, r0.ops[0], ("stat", "listdir", "open", "read", "lock"))
        if k is not None:
            faults = [{"p": 0, "k": k, "a": "err", "e": rng.choice([errno.EIO, errno.EACCES, errno.ESTALE])}]
    r = w.phase([spec(w, case, p, False)], policy=case["policy"], listseed=case["listseed"], faults=faults)
    after = state(w)
    v = []
    tag = f"-o '{case['dir']}' -t '{case['stem']}' --st '{case['stats']}' --ew '{case['ew']}', present {sorted(own | others)}, {faults or 'no fault'}: exit {r.code}"
    ch = sorted(k for k in before if after.get(k) != before[k])
    if ch:
        v.append(V("existing-file-changed", f"{ch} {'removed' if ch[0] not in after else 'changed'} ({tag})"))
    elif own:
        if r.code == 0:
            v.append(V("existing-output-accepted", f"{sorted(own)} existed ({tag})"))
        elif set(after) - set(before) and not faults:
            v.append(V("refusal-leaves-files", f"{sorted(set(after) - set(before))[:4]} ({tag})"))
        elif any(completed(w, f, case["dir"]) for f in logs(w, case["dir"])):
            v.append(V("refusal-logged-as-success", tag))
    elif not faults:
        if r.code != 0:
            v.append(V("refused-without-reason", f"({tag}) {r.out[0][-400:]}"))
        else:
            x, r2, o = ref(env, p, name="b", seed=case["seed"])
            d = diff(o, outputs(w, p, out=case["dir"], stem=case["stem"], stats=case["stats"], ew=case["ew"]))
            if d:
                v.append(V("result-differs", f"{d} ({tag})"))
    if case.get("again") and not v:
        # the same command once more, later, in a process that happens to get the same process id
        old = log_state(w, case["dir"])
        w.now += case["again"] * 10**9
        r = w.phase([spec(w, case, p, False)], listseed=case["listseed"])
        new = log_state(w, case["dir"])
        ch = sorted(f for f in old if new.get(f) != old[f])
        if ch:
            v.append(V("earlier-log-changed", f"a run {case['again']} s later with the same process id changed {ch[:2]} of an earlier one ({tag})"))
    return {"violations": v, "nontrivial": f"{p['fmt']}/{p['mode']}/{case['stem']}/{case['dir']}/{sorted(k[0] + k[1] for k in case['own'])}/{len(others)}/{r.code}" if own or others else None}
