"""P20: delivered configuration and demo files are complete, never replace a file unasked, and work."""
from .common import *

RULE = ("a case is a file choice of `sorcha init` or `sorcha demo prepare`, a destination with or without files of the same names, the overwrite flag, a seeded failing, short, torn or killed operation, and "
        "optionally a second process doing the same; what arrived is compared with the package data, then the command is repeated with the network of faults gone, and a run is made with a delivered "
        "configuration; non-trivial when a fault, a collision or a second process was in play")
REAL = ["sorcha_cmdline.init, sorcha_cmdline.demo, sorcha.utilities.sorcha_copy_configs, sorcha_copy_demo_files, the delivered files themselves"] + REAL_RUN
STUB = STUB_RUN + STUB_AR + ["package data directory (the real files copied below the simulated root; a synthetic pointing database stands in where the checkout has none)"]
QUICK_S = 24
MIN_CASES = 24
SETUPS = {1: ["Rubin_circular_approximation.ini"], 2: ["Rubin_full_footprint.ini"], 3: ["Rubin_known_object_prediction.ini"], 4: ["DES_config_file.ini"]}
SETUPS[5] = [f for k in range(1, 5) for f in SETUPS[k]]
DEMO = ["sorcha_config_demo.ini", "sspp_testset_colours.txt", "sspp_testset_orbits.des", "baseline_v2.0_1yr.db"]
SRC = os.path.join(os.environ.get("SORCHA_SIM_SRC", "/repo/src"), "sorcha", "data")
RES = {"sorcha.data.survey_setups": "pkg/survey_setups", "sorcha.data.demo": "pkg/demo"}
KINDS = ("open", "read", "write", "close", "stat", "copy", "meta", "trunc")


def gen(rng, tier, idx):
    c = {"what": rng.choice([0, 0, 1, 2, 3, 4, 5, 5]), "dest": rng.choice(["here", "conf", "conf/a b", "c[1]"]), "force": rng.random() < .4, "own": [rng.random() < .25 for _ in range(4)], "rel": rng.random() < .5,
         "fault": rng.choice([None, None, "err", "err", "kill", "torn", "full"]), "s": rng.randrange(10**9), "second": rng.random() < .25, "sched": {"seed": rng.randrange(10**6), "p": rng.choice([.1, .4])},
         "policy": rng.choice([None, None, {"seed": rng.randrange(10**6), "short": .3, "eintr": .1}]), "use": rng.random() < .3, "input": rng.choice([None] * 9 + ["0", "6", "x", "", "5.0"])}
    if rng.random() < .5:
        c["own"] = [False] * 4
    return c


def package(w):
    for sub in ("survey_setups", "demo"):
        shutil.copytree(os.path.join(SRC, sub), w.path("pkg", sub))
    b = w.path("pkg/demo", DEMO[3])
    if not os.path.exists(b):
        L.write_pointings(b, L.full(dict(seed=5, mode="ar", nights=4)))


def lay_out(w, case, names):
    package(w)
    os.makedirs(w.path(case["dest"]))
    for n, there in zip(names, case["own"]):
        if there:
            open(w.path(case["dest"], n), "w").write(f"edited copy of {n}\n")
    open(w.path(case["dest"], "notes.ini"), "w").write("mine\n")


def job(w, case, force, text=None):
    d = case["dest"] if case["rel"] else w.path(case["dest"])
    a = ["-p", d] + (["-f"] if force else [])
    if case["what"]:
        return dict(cmd="init", argv=a, stdin=(str(case["what"]) if text is None else text) + "\n", resources=RES)
    return dict(cmd="demo", argv=["prepare"] + a, resources=RES)


def run_case(env, case):
    names = DEMO if case["what"] == 0 else SETUPS[case["what"]]
    sub = "demo" if case["what"] == 0 else "survey_setups"
    w = env.world("a")
    lay_out(w, case, names)
    want = {n: open(w.path("pkg", sub, n), "rb").read() for n in names}
    have = lambda: {n: open(w.path(case["dest"], n), "rb").read() if os.path.isfile(w.path(case["dest"], n)) else None for n in names}
    before, snap = have(), w.snapshot()
    own = {n for n in names if before[n] is not None}
    v = []
    faults, quota = [], None
    rng = random.Random(case["s"])
    n = 2 if case["second"] else 1
    text = case["input"] if case["what"] else None
    if case["fault"] == "full":
        quota = rng.randrange(1, max(2, sum(map(len, want.values()))))
    elif case["fault"]:
        y = env.world("c")
        lay_out(y, case, names)
        r0 = y.phase([job(y, case, case["force"], text)])
        ops = r0.ops[0]
        k = place(rng, ops, KINDS if case["fault"] == "err" else KINDS + ("unlink", "rename", "fsync"))
        if k is not None:
            f = {"p": 0, "k": k, "a": "err", "e": rng.choice([errno.EIO, errno.ENOSPC, errno.EACCES, errno.ESTALE])}
            if case["fault"] == "kill":
                f = {"p": 0, "k": k, "a": rng.choice(["kill", "kill_after"])}
            elif case["fault"] == "torn" and ops[k][0] in ("write", "copy") and ops[k][4] > 1:
                f = {"p": 0, "k": k, "a": "torn", "n": rng.randrange(1, ops[k][4])}
            faults = [f]
    r = w.phase([job(w, case, case["force"], text) for _ in range(n)], sched=case["sched"], faults=faults, policy=case["policy"], quota=quota)
    after = have()
    tag = f"{'init ' + str(case['what'] if text is None else repr(text)) if case['what'] else 'demo prepare'} -> {case['dest']} {'-f' if case['force'] else ''}, present {sorted(own)}, {faults or case['fault'] or 'no fault'}, {n} process(es): exit {r.codes}"
    if not case["force"]:
        ch = sorted(x for x in own if after[x] != before[x])
        if ch:
            v.append(V("existing-file-changed", f"{ch} ({tag})"))
        elif own and 0 in r.codes and text is None:
            v.append(V("existing-file-accepted", tag))
    if text is not None:
        if 0 in r.codes:
            v.append(V("bad-choice-accepted", tag))
        elif after != before:
            v.append(V("bad-choice-copies", tag))
    elif 0 in r.codes and (n == 1 or not faults and quota is None):
        bad = sorted(x for x in names if after[x] != want[x])
        if bad:
            v.append(V("success-but-incomplete", f"{bad[0]}: {len(after[bad[0]] or b'')} of {len(want[bad[0]])} bytes ({tag})", sig=case["fault"]))
    if text is None and not faults and quota is None and 0 not in r.codes and (case["force"] or not own):
        v.append(V("copy-failed", f"{tag} {r.out[0][-300:]}"))
    snap2 = w.snapshot()
    other = sorted(k for k in set(snap) | set(snap2) if snap.get(k) != snap2.get(k) and not (os.path.dirname(k) == case["dest"] and os.path.basename(k) in names)
                   and not (k not in snap and os.path.dirname(k) == case["dest"]))
    if other:
        v.append(V("other-file-changed", f"{other[:4]} ({tag})"))
    # again, nothing failing: without -f what is there stays, with -f everything arrives
    if not v:
        mid = have()
        r = w.phase([job(w, case, False)])
        if any(mid[x] is not None and have()[x] != mid[x] for x in names):
            v.append(V("existing-file-changed", f"by a repetition after: {tag}"))
        elif r.code == 0 and have() != want:
            v.append(V("success-but-incomplete", f"repeated after: {tag}", sig="repeat"))
        r = w.phase([job(w, case, True)])
        if not v and (r.code != 0 or have() != want):
            v.append(V("forced-copy-does-not-recover", f"exit {r.code} after: {tag} {r.out[0][-300:]}"))
    if not v and case["use"]:
        v += use(env, w, case, names)
    return {"violations": v, "nontrivial": f"{case['what']}/{case['force']}/{sorted(own)}/{case['fault']}/{faults[0]['k'] if faults else ''}/{n}/{case['use']}" if own or faults or quota or n > 1 or case["use"] else None}


def use(env, w, case, names):
    """run with a delivered configuration (the last one copied), on a catalogue in the format it asks for"""
    rng = random.Random(case["s"] + 1)
    name = rng.choice([x for x in names if x.endswith(".ini")])
    des = name.startswith("DES")
    p = L.full(dict(seed=rng.randrange(1, 10**6), mode="ar", nobj=4, nights=4, ew=rng.random() < .5, survey="DES" if des else "rubin_sim", camera="visits_footprint" if des else "circle",
                    aux_fmt="whitespace" if case["what"] == 0 else "csv"))
    x = env.world("d")
    setup(x, p)
    s = proc(p, seed=case["s"])
    shutil.copy(w.path(case["dest"], name), x.path("in/config.ini"))
    if case["what"] == 0:
        shutil.copy(w.path(case["dest"], DEMO[1]), x.path("in/params.csv"))
        shutil.copy(w.path(case["dest"], DEMO[2]), x.path("in/orbits.csv"))
    r = x.phase([s])
    if r.code != 0:
        return [V("delivered-file-unusable", f"a run with the delivered {name} exits {r.code}: {r.out[0].strip()[-300:]}", sig=name)]
    return []


def shrink(case):
    for k, d in (("second", False), ("policy", None), ("rel", True), ("dest", "conf"), ("own", [False] * 4), ("use", False), ("input", None), ("fault", None), ("force", False)):
        if case[k] != d:
            yield dict(copy.deepcopy(case), **{k: d})
