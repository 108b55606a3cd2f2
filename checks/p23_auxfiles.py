"""P23: a run uses exactly the auxiliary files its configuration names, whatever the cache held before."""
from .netcache import *

RULE = ("a case is a configuration that names other versions of some auxiliary files (with other file names, addresses and, as documented, its own meta-kernel), and a cache with a history: default bootstraps and "
        "runs, runs with other versions, some killed or cut off from the network, and at the end this run, alone or interleaved with a default run; its result is compared with the one it gives on a cache "
        "nobody used before, and a default run afterwards with the default result; non-trivial when the named files change the result")
REAL = REAL_RUN + ["sorcha_cmdline.bootstrap, pooch, requests, urllib3 above the transport adapter"]
STUB = ["HTTP transport (simulated servers; every version of a file carries its own constants)", "thread pool hand-over"] + STUB_RUN + STUB_AR
QUICK_S = 24
MIN_CASES = 24
ASSUMPTIONS = ["servers deliver correct bytes or fail visibly", "as documented, a configuration that names other kernels also names its own meta-kernel and observatory-code file"]
KEYS = {"planet_ephemeris": ".bsp", "earth_predict": ".bpc", "earth_historical": ".bpc", "earth_high_precision": ".bpc", "jpl_planets": ".440", "jpl_small_bodies": ".bsp", "leap_seconds": ".tls",
        "observatory_codes_compressed": ".json.gz", "orientation_constants": ".pck"}


def versions(rng, tag):
    """an [AUXILIARY] section"""
    a = {}
    for k in rng.sample(sorted(KEYS), rng.choice([1, 1, 2, 3, len(KEYS)])):
        n = f"{'obscodes' if 'codes' in k else 'de' if k == 'planet_ephemeris' else 'earth_high_prec' if 'high' in k else k[:5]}_{tag}{KEYS[k]}"
        a[k], a[k + "_url"] = n, f"https://mirror.example.org/{tag}/{n}"
    if set(a) & {"planet_ephemeris", "earth_predict", "earth_historical", "earth_high_precision", "leap_seconds", "orientation_constants"} or rng.random() < .3:
        a["meta_kernel"] = f"meta_{tag}.txt"
    if "observatory_codes_compressed" in a:
        a["observatory_codes"] = f"obs_{tag}.json"
    return a


def gen(rng, tier, idx):
    p = random_params(rng, ar=1.0, des=.15)
    p.update(nobj=rng.randrange(2, 4), nights=rng.randrange(1, 4), spread=0.5, keep=1.0, ew=True, posdec=None, magdec=None)
    hist = [{"what": pick(rng, ("bootstrap", 2), ("default", 2), ("other", 2), ("same", 1)), "how": pick(rng, ("ok", 3), ("kill", 2), ("net", 1)), "s": rng.randrange(10**9)} for _ in range(rng.randrange(0, 3))]
    return {"p": p, "aux": versions(rng, "a"), "aux2": versions(rng, "b"), "seed": rng.randrange(2**31), "hist": hist, "beside": pick(rng, (None, 3), ("default", 2), ("other", 1), ("bootstrap", 1)),
            "sched": {"seed": rng.randrange(10**6), "p": rng.choice([.02, .1, .4])}, "offline": rng.random() < .3}


def spec(w, case, what, k, net=True, faults=()):
    p = L.full(dict(case["p"], aux={"same": case["aux"], "other": case["aux2"]}.get(what)))
    n = {"faults": list(faults) if net else [{"url": "", "nth": 0, "kind": "refused"}]}
    if what == "bootstrap":
        return dict(cmd="bootstrap", argv=["--cache", w.path("cache")], ar=True, net=n, pid=1000 + k)
    sub = "in_" + what
    if not os.path.isdir(w.path(sub)):
        L.materialise(w, p, sub=sub)
    s = proc(p, seed=case["seed"], sub=sub, stem=f"run{k}", stats=f"stats{k}", ew=f"ephout{k}", pid=1000 + k, net=n)
    s["argv"][s["argv"].index("--ar") + 1] = w.path("cache")
    return s


def result(w, case, k):
    return outputs(w, L.full(case["p"]), stem=f"run{k}", stats=f"stats{k}", ew=f"ephout{k}")


def fresh(env, name):
    w = env.world(name)
    os.makedirs(w.path("cache"))
    os.makedirs(w.path("out"))
    return w


def run_case(env, case):
    wanted = {}
    for what, name in (("same", "b"), ("default", "c"), ("other", "d")):
        if what == "other" and case["beside"] != "other":
            continue
        w = fresh(env, name)
        r = w.phase([spec(w, case, what, 0)])
        if r.code != 0:
            return {"violations": [failed(r, what=f"a run naming {case['aux'] if what == 'same' else case['aux2'] if what == 'other' else 'no'} auxiliary files, on an empty cache")], "nontrivial": None}
        wanted[what] = result(w, case, 0)
    w = fresh(env, "a")
    v, trace = [], []
    k = 0
    for st in case["hist"]:
        k += 1
        rng = random.Random(st["s"])
        kw = {}
        if st["how"] == "kill":
            x = env.world("probe")
            shutil.rmtree(x.root)
            shutil.copytree(w.root, x.root)
            r = x.phase([spec(x, case, st["what"], k)])
            j = place(rng, [o if ptype(o[2] or o[3]) == "cache" else ("-",) + o[1:] for o in r.ops[0]], ("open", "write", "rename", "close", "unlink", "meta"))
            if j is not None:
                kw["faults"] = [{"p": 0, "k": j, "a": rng.choice(["kill", "kill_after"])}]
        r = w.phase([spec(w, case, st["what"], k, faults=[{"url": "", "nth": rng.randrange(1, 3), "kind": "refused"}, {"url": rng.choice(["codes", "earth", "de", "jpl", "naif"]), "nth": 0, "kind": "http", "status": 404}] if st["how"] == "net" else [])], **kw)
        trace.append({"step": st, "faults": kw, "exit": r.code})
        if r.code == 0 and st["what"] in wanted:
            d = diff(wanted[st["what"]], result(w, case, k))
            if d:
                v.append(V("depends-on-cache-history", f"{st['what']} run after {[t['step']['what'] + ':' + t['step']['how'] for t in trace[:-1]]}: {d}", sig=st["what"]))
                break
    tag = f"[AUXILIARY] {sorted(case['aux'])}, history {[t['step']['what'] + ':' + t['step']['how'] for t in trace]}, beside {case['beside']}"
    if not v:
        todo = [("same", 50)] + ([(case["beside"], 51)] if case["beside"] else [])
        r = w.phase([spec(w, case, what, n) for what, n in todo], sched=case["sched"])
        for (what, n), code, out in zip(todo, r.codes, r.out):
            if code != 0:
                v.append(V("run-fails-on-used-cache", f"{what} exits {code}; {tag}: {out.strip()[-300:]}", sig=what))
            elif what in wanted:
                d = diff(wanted[what], result(w, case, n))
                if d:
                    v.append(V("depends-on-cache-history", f"{what} run; {tag}: {d}", sig=what))
    if not v:                                   # once fetched, everything is there: no network needed, and the default is still the default
        for what, n in (("same", 60), ("default", 61)):
            if what == "default" or case["offline"]:
                r = w.phase([spec(w, case, what, n, net=what == "default" or not case["offline"])])
                if r.code != 0:
                    v.append(V("run-fails-on-used-cache", f"{what} {'without network' if what == 'same' else ''} exits {r.code}; {tag}: {r.out[0].strip()[-300:]}", sig=what + "-again"))
                else:
                    d = diff(wanted[what], result(w, case, n))
                    if d:
                        v.append(V("depends-on-cache-history", f"{what} run again; {tag}: {d}", sig=what + "-again"))
                if v:
                    break
    moved = diff(wanted["same"], wanted["default"])
    return {"violations": v[:1], "nontrivial": f"{sorted(x for x in case['aux'] if x in KEYS)}/{[t['step']['what'] + t['step']['how'] for t in trace]}/{case['beside']}" if moved else None, "trace": trace}


def shrink(case):
    for xs in shrink_list(case["hist"]):
        yield dict(copy.deepcopy(case), hist=xs)
    if case["hist"] and len(case["hist"]) == 1:
        yield dict(copy.deepcopy(case), hist=[])
    for k in [x for x in case["aux"] if x in KEYS]:
        a = {x: y for x, y in case["aux"].items() if x not in (k, k + "_url") and not (x == "observatory_codes" and "codes" in k)}
        if any(x in KEYS for x in a):
            yield dict(copy.deepcopy(case), aux=a)
    for c in shrink_case(case, simple=(("beside", None), ("offline", False))):
        if c["p"].get("mode") == "ar" and c["p"].get("ew"):
            yield c
