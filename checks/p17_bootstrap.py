"""P17: bootstrapping converges and reports honestly."""
from .netcache import *

RULE = ("a case is a cache directory (empty, partly filled, complete, or left by killed bootstraps) and a sequence of bootstrap commands, with and without -f, under seeded network faults (refused, DNS, timeouts, "
        "HTTP errors, connections closed, reset or stalled in mid-file), disk faults and kills, the download threads interleaved by the scheduler, concluded by one with a working network; after every "
        "command exit status, cache content and the requests made are compared; non-trivial when a fault or kill was delivered or a partial cache completed")
REAL = ["sorcha_cmdline.bootstrap, sorcha.utilities.retrieve_ephemeris_data_files, generate_meta_kernel, sorcha.ephemeris.simulation_data_files", "pooch, requests, urllib3 above the transport adapter; libc file I/O"]
STUB = ["HTTP transport (simulated servers and connections)", "thread pool hand-over (cooperative, scheduler-chosen)"] + STUB_RUN + STUB_AR
QUICK_S = 24
MIN_CASES = 24
ASSUMPTIONS = ["servers deliver correct bytes or fail visibly (the code checks no checksums: a wrong body with status 200 and the announced length cannot be noticed)"]
KINDS = ("open", "write", "rename", "unlink", "close", "mkdir", "meta", "stat", "copy")


def gen(rng, tier, idx):
    prior = pick(rng, ("none", 2), ("empty", 2), ("partial", 4), ("full", 2), ("nometa", 1))
    steps = []
    for _ in range(rng.randrange(1, 4)):
        s = {"force": rng.random() < .35, "how": pick(rng, ("net", 5), ("kill", 3), ("disk", 2), ("ok", 1)), "s": rng.randrange(10**9), "version": rng.choice([0, 0, 1])}
        s["faults"] = net_faults(rng) if s["how"] == "net" or rng.random() < .3 else []
        steps.append(s)
    n = rng.choice([0, 0, 0, 60, 78, 79, 80, 100, 158, 159, 180])
    return {"prior": prior, "drop": [f for f in ALL if rng.random() < .4], "steps": steps, "final_force": rng.random() < .3, "pad": n, "space": rng.random() < .2,
            "sched": {"seed": rng.randrange(10**6)}, "run": rng.random() < .5, "default": rng.random() < .3, "p": dict(mode="ar", nobj=2, nights=2, seed=rng.randrange(1, 1000))}


def run_case(env, case):
    w = env.world("a")
    cache = "my cache" if case["space"] else "cache"
    if case["pad"]:                                          # exact length of the directory name: it is quoted in pieces
        n = case["pad"] - len(w.path(cache))
        cache = cache + "/" + "x" * max(1, n - 1) if n > 1 else cache
    home = {}
    if case["default"]:                                      # the default location below the user's cache directory
        home = {"XDG_CACHE_HOME": w.path("xdg")}
        cache = "xdg/sorcha"
    if case["prior"] != "none":
        os.makedirs(w.path(cache))
    v, trace, nt = [], [], []
    boot = lambda force, faults, version: dict(cmd="bootstrap", argv=([] if case["default"] else ["--cache", w.path(cache)]) + (["-f"] if force else []), env=home, ar=True,
                                               net={"faults": faults, "version": version})
    if case["prior"] in ("partial", "full", "nometa"):
        r = w.phase([boot(False, [], 0)])
        if r.code != 0 or incomplete(state(w, cache)):
            return {"violations": [V("plain-bootstrap-fails", f"exit {r.code}, {incomplete(state(w, cache))}: {r.out[0][-400:]}")], "nontrivial": None}
        for f in case["drop"] if case["prior"] == "partial" else ["meta_kernel.txt"] if case["prior"] == "nometa" else []:
            os.unlink(w.path(cache, f))
    nops = None
    for k, st in enumerate(case["steps"] + [{"how": "final", "force": case["final_force"], "faults": [], "s": 0, "version": 2}]):
        before = state(w, cache)
        left = {f for f in (os.listdir(w.path(cache)) if os.path.isdir(w.path(cache)) else []) if f not in ALL}
        rng = random.Random(st["s"])
        kw = {}
        if st["how"] in ("kill", "disk"):
            x = env.world("probe")                           # what the command does from here, unharmed
            shutil.rmtree(x.root)
            shutil.copytree(w.root, x.root)
            b = boot(st["force"], st["faults"], st["version"])
            b["argv"] = [a.replace(w.root, x.root) for a in b["argv"]]
            b["env"] = {a: c.replace(w.root, x.root) for a, c in b["env"].items()}
            ops = x.phase([b], sched=case["sched"]).ops[0]
            j = place(rng, ops, KINDS if st["how"] == "kill" else ("open", "write", "rename", "mkdir", "unlink"))
            if j is not None:
                f = {"p": 0, "k": j, "a": rng.choice(["kill", "kill_after"])} if st["how"] == "kill" else {"p": 0, "k": j, "a": "err", "e": rng.choice([errno.ENOSPC, errno.EIO, errno.EACCES])}
                if st["how"] == "kill" and ops[j][0] == "write" and ops[j][4] > 1 and rng.random() < .5:
                    f = dict(f, a="torn", n=rng.randrange(1, ops[j][4]))
                kw["faults"] = [f]
        r = w.phase([boot(st["force"], st["faults"], st["version"])], sched=case["sched"], **kw)
        after = state(w, cache)
        bad = incomplete(after)
        asked = requests(r.ops[0])
        trace.append({"step": st, "faults": kw, "exit": r.code, "missing": bad, "requests": asked})
        tag = f"step {k} {st['how']}{' -f' if st['force'] else ''} faults {st['faults']} {kw}: exit {r.code}"
        corrupt = {f: s for f, s in bad.items() if s.startswith("bad")}
        if corrupt:
            v.append(V("corrupt-file", f"{tag}: {corrupt}"))
        elif r.code == 0 and bad:
            v.append(V("success-but-incomplete", f"{tag} but {bad}"))
        elif st["how"] == "final" and r.code != 0:
            v.append(V("does-not-converge", f"{tag} from {incomplete(before)}: {r.out[0][-400:]}"))
        elif not st["force"]:
            again = sorted({f for f in td.FILES if before.get(f, "").startswith("ok") and td.SERVED[f] in asked})
            if again:
                v.append(V("downloaded-again", f"{tag}: {again}"))
            lost = sorted(f for f in before if before[f].startswith("ok") and not after.get(f, "").startswith("ok"))
            if lost:
                v.append(V("file-lost", f"{tag}: {lost}"))
        elif r.code == 0 and any(after[f] != f"ok:{st['version']}" for f in td.FILES if "ObsCodes" not in f):
            v.append(V("force-keeps-old", f"{tag}: {after}"))
        if r.code != 0 or st["faults"] or (bad != incomplete(before)):
            nt.append(f"{case['prior']}/{[(t['step']['how'], t['step']['force'], t['exit']) for t in trace]}/{len(asked)}")
        if v:
            break
    if not v:
        if case["run"]:
            p = L.full(case["p"])
            setup(w, p)
            s = proc(p, seed=1, ar=cache, env=home)
            if case["default"]:
                i = s["argv"].index("--ar")
                s["argv"][i:i + 2] = []
            else:
                s["argv"][s["argv"].index("--ar") + 1] = w.path(cache)
            r = w.phase([s])
            if r.code != 0:
                v.append(V("cache-unusable", f"run on the bootstrapped cache ({len(w.path(cache))} characters): exit {r.code}: {r.out[0][-400:]}"))
    return {"violations": v, "nontrivial": nt, "evals": len(trace), "trace": trace}


def shrink(case):
    for i, st in enumerate(case["steps"]):
        for fs in shrink_list(st["faults"]):
            c = copy.deepcopy(case)
            c["steps"][i]["faults"] = fs
            yield c
        if st["force"]:
            c = copy.deepcopy(case)
            c["steps"][i]["force"] = False
            yield c
    for c in shrink_case(case, keys_lists=("steps", "drop"), simple=(("pad", 0), ("space", False), ("default", False), ("run", False), ("prior", "none"), ("final_force", False))):
        yield c
