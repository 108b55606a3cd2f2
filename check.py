#!/opt/venv/bin/python
"""check.py <property> [--tier quick|thorough] [--seed N] | --replay FILE

Seeded search over simulated executions of the real sorcha code; see DESIGN.md.
Exit 0: held on everything explored.  Exit 1 + "VIOLATION property=<id> replay=<path>": broken."""
import argparse, atexit, hashlib, importlib, json, multiprocessing as mp, os, queue, random, shutil, signal, sys, tempfile, time, traceback

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(ROOT, "sim"), ROOT]
os.environ.setdefault("SORCHA_SIM_SRC", "/repo/src")
for v in ("OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS", "NUMEXPR_NUM_THREADS"):
    os.environ[v] = "1"
import world as W            # noqa: E402
import workload as L         # noqa: E402
from checks import REGISTRY  # noqa: E402

T_START = time.time()


class Env:
    """what one worker hands to a check: simulated machines and counters"""

    def __init__(self, socks, base):
        self.socks, self.base, self.worlds = socks, base, {}
        self.used, self.digests = set(), []
        self.acc = dict(runs=0, ops=0, vtime_s=0.0, faults={}, interleavings=set(), crashes=0)

    def world(self, name="a"):
        if name not in self.worlds:
            self.worlds[name] = W.World(os.path.join(self.base, name), self.socks)
        w = self.worlds[name]
        if name in self.used:
            self.digests.append(w.digest())
            self._collect(w)
        w.reset()
        self.used.add(name)
        return w

    def collect(self):
        for n in sorted(self.used):
            self._collect(self.worlds[n])

    def _collect(self, w):
        self.acc["runs"] += w.nproc
        self.acc["ops"] += w.steps
        self.acc["vtime_s"] += (w.now - W.T0) / 1e9
        for k, n in w.fault_counts.items():
            self.acc["faults"][k] = self.acc["faults"].get(k, 0) + n
        if w.steps:
            self.acc["interleavings"].add(w.digest())
        w.nproc = w.steps = 0
        w.now = W.T0
        w.fault_counts = {}


def execute(mod, env, case):
    env.used, env.digests = set(), []
    try:
        out = mod.run_case(env, case)
    except W.Hang as e:
        out = {"violations": [{"kind": "hang", "detail": str(e)}], "nontrivial": None}
    out["digest"] = hashlib.sha1("".join(env.worlds[n].digest() for n in sorted(env.used)).encode() + repr(env.digests).encode()).hexdigest()[:16]
    env.collect()
    return out


def known(pid):
    try:
        with open(os.path.join(ROOT, "known_findings.json")) as f:
            return [k for k in json.load(f) if k["property"] == pid and k["status"] == "finding"]
    except FileNotFoundError:
        return []


def is_known(v, kn):
    for k in kn:
        if k["kind"] == v["kind"] and all(v.get(a) == b for a, b in k.get("where", {}).items()):
            return k
    return None


def same(vs, ref, kn):
    return any(v["kind"] == ref["kind"] and v.get("sig") == ref.get("sig") and not is_known(v, kn) for v in vs)


def minimise(mod, env, case, ref, kn, budget):
    end = time.time() + budget
    tried = 0
    improved = True
    while improved and time.time() < end:
        improved = False
        for cand in mod.shrink(case):
            if time.time() > end:
                break
            tried += 1
            try:
                out = execute(mod, env, json.loads(json.dumps(cand)))
            except Exception:
                continue
            if same(out["violations"], ref, kn):
                case = cand
                improved = True
                break
    return case, tried


def worker(wid, n, pid, tier, seed, socks, base, q, stop, t_end, hard_end, min_cases, only):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    try:
        mod = importlib.import_module("checks." + REGISTRY[pid])
        env = Env(socks, base)
        os.makedirs(base, exist_ok=True)
        kn = known(pid)
        done = 0
        idx = wid
        while not stop.is_set():
            now = time.time()
            if now > hard_end or (now > t_end and done * n >= min_cases):
                break
            if only is not None:
                if done >= len(only):
                    break
                idx = only[done]
            rng = random.Random(f"{pid}:{seed}:{idx}")
            case = json.loads(json.dumps(mod.gen(rng, tier, idx)))
            t0 = time.time()
            out = execute(mod, env, case)
            if os.environ.get("SIM_VERBOSE"):
                print(f"[{idx}] {time.time()-t0:.2f}s {out.get('nontrivial')} {out['violations']}", flush=True)
            done += 1
            fresh = []
            for v in out["violations"]:
                k = is_known(v, kn)
                if k:
                    q.put(("known", k["id"], v))
                else:
                    fresh.append(v)
            if fresh:
                v = fresh[0]
                rep = None
                for _ in range(3):
                    again = execute(mod, env, case)
                    if same(again["violations"], v, kn):
                        rep = again
                        break
                if rep is None:
                    q.put(("unreproduced", idx, v))
                else:
                    q.put(("found", idx, v))
                    small, tried = minimise(mod, env, case, v, kn, 25 if tier == "quick" else 120)
                    fin = execute(mod, env, small)
                    if not same(fin["violations"], v, kn):
                        small, fin = case, rep
                    vv = next(x for x in fin["violations"] if x["kind"] == v["kind"])
                    fin2 = execute(mod, env, small)
                    q.put(("violation", idx, small, vv, fin["digest"], fin2["digest"], tried, case, fin.get("trace")))
                    break
            q.put(("case", idx, out.get("nontrivial"), out["digest"], case if done <= 1 and wid < 3 else None, time.time() - t0, out.get("evals", 1)))
            idx += n
        a = dict(env.acc)
        a["interleavings"] = sorted(a["interleavings"])
        q.put(("stats", wid, a))
    except BaseException:
        q.put(("error", wid, traceback.format_exc()))
    finally:
        q.put(("end", wid))
        q.close()
        q.join_thread()
        os._exit(0)


def setup(nz, hashseeds, scratch):
    """compile the seam, start the interpreter(s); returns per-worker socket lists"""
    so = W.build_shim(scratch)

    class D:
        path = staticmethod(lambda *a: os.path.join(scratch, "warm", *a))
    os.makedirs(D.path(), exist_ok=True)
    L.fill_cache(D.path("cache"))
    from checks.common import random_params
    jobs = []
    rp = [(q, q["mode"] == "ar") for q in (random_params(random.Random(i), fmts=("csv", "sqlite3")) for i in (0, 1, 9, 29, 39))]   # between them every compiled signature
    for k, (p, ar) in enumerate(rp + [(dict(camera="footprint", link=2, edge=2.0), False), (dict(mode="ar", link=1, nobj=4, fmt="hdf5"), True),
                                 (dict(survey="DES", mode="ar", link=1, camera="visits_footprint", columns="all", fmt="sqlite3"), True)]):
        name = f"w{k}"
        L.materialise(D, p, sub=name)
        os.makedirs(D.path(name, "out"), exist_ok=True)
        jobs.append({"cmd": "run", "cwd": D.path(), "ar": ar, "argv": L.argv(p, sub=name, out=name + "/out")})
    procs, cols = [], []
    for h in hashseeds:
        p, socks = W.start_zygotes(so, nz, h, scratch, jobs)
        procs.append(p)
        cols.append(socks)
    for p, c in zip(procs, cols):
        try:
            W.wait_ready(c)
        except Exception:
            log = "".join(open(os.path.join(scratch, f)).read()[-3000:] for f in os.listdir(scratch) if f.startswith("zygote"))
            raise W.HarnessError("the code under test cannot be imported:\n" + log)
    return procs, [[c[i] for c in cols] for i in range(nz)]


def scratch_dir():
    base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else tempfile.gettempdir()
    d = os.path.join(base, f"sorchasim-{os.getpid():08d}")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)

    def clean(d=d, me=os.getpid()):
        if os.getpid() == me:
            shutil.rmtree(d, ignore_errors=True)
    atexit.register(clean)
    return d


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    ap.add_argument("--time", type=float)
    ap.add_argument("--idx")
    ap.add_argument("--workers", type=int)
    ap.add_argument("--no-evidence", action="store_true")
    a = ap.parse_args()
    signal.signal(signal.SIGTERM, lambda *_: sys.exit(143))
    rep = json.load(open(a.replay)) if a.replay else None
    pid = rep["property"] if rep else a.pid
    mod = importlib.import_module("checks." + REGISTRY[pid])
    tier = "thorough" if a.tier == "thorough" else "quick"
    scratch = scratch_dir()
    ncpu = os.cpu_count() or 4
    hs = getattr(mod, "HASHSEEDS", [0])
    n = a.workers or max(2, min(8, ncpu))
    only = [int(x) for x in a.idx.split(",")] if a.idx else None
    if rep or only:
        n = 1
    try:
        zprocs, socks = setup(n, hs, scratch)
    except W.HarnessError as e:
        print(e)
        sys.exit(2)

    def stop_z():
        for p in zprocs:
            try:
                p.kill()
                p.wait(10)
            except Exception:
                pass
    atexit.register(stop_z)
    t_ready = time.time() - T_START

    if rep:
        env = Env(socks[0], os.path.join(scratch, "w00"))
        os.makedirs(env.base)
        out = execute(mod, env, rep["case"])
        kn = known(pid)
        print(json.dumps({"digest": out["digest"], "recorded": rep.get("digest"), "violations": out["violations"]}, indent=1))
        bad = [v for v in out["violations"] if not is_known(v, kn)]
        if bad:
            print(f"VIOLATION property={pid} replay={a.replay}")
            sys.exit(1)
        print("no violation on replay")
        sys.exit(0)

    budget = a.time or (getattr(mod, "QUICK_S", 22) if tier == "quick" else getattr(mod, "THOROUGH_S", 780))
    t_end = time.time() + budget
    hard = max(t_end + 1, time.time() + (420 if tier == "quick" else budget + 30))
    min_cases = getattr(mod, "MIN_CASES", 24) if tier == "quick" else 0
    q, stop = mp.Queue(), mp.Event()
    ws = []
    for i in range(n):
        p = mp.Process(target=worker, args=(i, n, pid, tier, a.seed, socks[i], os.path.join(scratch, f"w{i:02d}"), q, stop, t_end, hard, min_cases, only), daemon=True)
        p.start()
        ws.append(p)
    ended, nontriv, digests, samples, cases, evals = 0, set(), set(), [], 0, 0
    viols, unrep, errors, knowns = [], [], [], {}
    acc = dict(runs=0, ops=0, vtime_s=0.0, faults={}, crashes=0)
    inter = set()
    last = time.time()
    while ended < n:
        try:
            m = q.get(timeout=5)
            last = time.time()
        except queue.Empty:
            if time.time() - last > 400:
                errors.append("workers silent")
                break
            continue
        if m[0] == "case":
            cases += 1
            evals += m[6]
            digests.add(m[3])
            for k in (m[2] if isinstance(m[2], list) else [m[2]]):
                if k:
                    nontriv.add(k if isinstance(k, str) else json.dumps(k))
            if m[4] is not None and len(samples) < 4:
                samples.append({"index": m[1], "case": m[4], "digest": m[3], "seconds": round(m[5], 2)})
        elif m[0] == "found":
            stop.set()
        elif m[0] == "violation":
            viols.append(m)
            stop.set()
        elif m[0] == "unreproduced":
            unrep.append({"index": m[1], "violation": m[2]})
        elif m[0] == "known":
            knowns.setdefault(m[1], m[2])
        elif m[0] == "stats":
            for k in ("runs", "ops", "vtime_s"):
                acc[k] += m[2][k]
            for k, v in m[2]["faults"].items():
                acc["faults"][k] = acc["faults"].get(k, 0) + v
            inter.update(m[2]["interleavings"])
        elif m[0] == "error":
            errors.append(m[2])
            stop.set()
        elif m[0] == "end":
            ended += 1
    wall = time.time() - T_START
    run_s = max(wall - t_ready, 1e-3)
    for k in sorted(known(pid), key=lambda k: k["id"]):
        if k["id"] in knowns:
            print(f"KNOWN-FINDING: property={pid} {k['what']}")
    code = 0
    if viols:
        v = min(viols, key=lambda m: m[1])
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        path = os.path.join(ROOT, "evidence", f"replay-{pid}-{v[1]}.json")
        with open(path, "w") as f:
            json.dump({"property": pid, "seed": a.seed, "index": v[1], "tier": tier, "case": v[2], "violation": v[3], "digest": v[4], "digest_again": v[5],
                       "minimisation_runs": v[6], "original_case": v[7], "fault_trace": v[8]}, f, indent=1)
        print(f"violated: {v[3]['kind']}: {v[3]['detail'][:1500]}")
        print(f"VIOLATION property={pid} replay={path}")
        code = 1
    elif errors:
        print("check error:\n" + "\n".join(errors))
        code = 2
    if code == 2 and not os.environ.get("SIM_RETRY"):      # the harness itself tripped: one fresh attempt
        for f in sorted(os.listdir(scratch)):
            if f.startswith("zygote"):
                print(f + ":", open(os.path.join(scratch, f), errors="replace").read()[-2000:])
        sys.stdout.flush()
        stop_z()
        for w in ws:
            w.kill()
        shutil.rmtree(scratch, ignore_errors=True)
        os.execve(sys.executable, [sys.executable] + sys.argv, dict(os.environ, SIM_RETRY="1"))
    if not a.no_evidence and not only:
        ev = {"property": pid, "tier": tier, "seed": a.seed, "level": getattr(mod, "LEVEL", "exploration"),
              "coverage": {"evaluations": evals, "distinct_nontrivial": len(nontriv), "rule": mod.RULE, "samples": samples,
                           "cases": cases, "distinct_executions": len(digests), "simulated_process_runs": acc["runs"], "operations_scheduled": acc["ops"],
                           "simulated_seconds": round(acc["vtime_s"], 1), "cases_per_hour": int(cases * 3600 / run_s), "runs_per_hour": int(acc["runs"] * 3600 / run_s),
                           "distinct_interleavings": len(inter), "interleaving_measure": "hash of the full sequence (process, operation, path, size, outcome) of one simulated machine",
                           "faults_injected": dict(sorted(acc["faults"].items())), "real_components": mod.REAL, "stubbed_components": mod.STUB,
                           "unreproduced": unrep, "known_findings_seen": sorted(knowns), "nontrivial_examples": sorted(nontriv)[:12], "startup_s": round(t_ready, 1)},
              "wall_s": round(wall, 1), "violations": len(viols), "assumptions": getattr(mod, "ASSUMPTIONS", [])}
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", f"{pid}.json"), "w") as f:
            json.dump(ev, f, indent=1)
    print(f"{pid} {tier}: {cases} cases, {acc['runs']} process runs, {acc['ops']} operations, {len(nontriv)} distinct non-trivial, "
          f"{len(inter)} interleavings, faults {sum(acc['faults'].values())}, unreproduced {len(unrep)}, {wall:.0f} s")
    sys.stdout.flush()
    stop_z()
    sys.exit(code)


if __name__ == "__main__":
    main()
