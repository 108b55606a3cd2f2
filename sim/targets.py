"""What a simulated process runs: the real command-line entry points of /repo, plus the stand-ins for third-party
services that are not part of it (the JPL ephemeris integrator, the SPICE toolkit, the download servers).

Only names of third-party packages and of documented command-line entry points are used here.
"""
import ctypes, hashlib, importlib, io, json, logging, math, os, pickle, random, re, sys, tempfile, threading, time

import numpy as np

import sorcha_cmdline.run, sorcha_cmdline.outputs, sorcha_cmdline.init, sorcha_cmdline.demo, sorcha_cmdline.bootstrap
import sorcha.sorcha, sorcha.des
import sorcha.utilities.sorcha_copy_configs, sorcha.utilities.sorcha_copy_demo_files
import sorcha.utilities.check_output_logs, sorcha.utilities.createResultsSQLDatabase
import sorcha.utilities.retrieve_ephemeris_data_files
import sqlite3, tables, pandas as pd, pandas.io.pytables, pandas.io.sql  # noqa: F401
import concurrent.futures.thread, importlib.resources, shutil, glob, bz2, gzip, lzma, zipfile, tarfile  # noqa: F401
import requests, urllib3, pooch, tqdm  # noqa: F401
import spiceypy, assist, rebound, numba

LIB = ctypes.CDLL(None)
try:
    LIB.simio_choice.restype = ctypes.c_int64
    LIB.simio_choice.argtypes = [ctypes.c_char_p, ctypes.c_int64]
    LIB.simio_note.argtypes = [ctypes.c_char_p]
    LIB.simio_now.restype = ctypes.c_int64
    LIB.simio_advance.argtypes = [ctypes.c_int64]
except AttributeError:
    pass


def choice(what, n):
    return int(LIB.simio_choice(what.encode()[:500], n)) if n > 1 else 0


def note(what):
    LIB.simio_note(what.encode()[:560])


from targets_data import data_file, check_data_file, deviation  # noqa: E402


AU_KM = 149597870.7
GM_SUN = 2.9591220828411951e-04


class FakeParticle:
    def __init__(self, m=0.0, x=0.0, y=0.0, z=0.0, vx=0.0, vy=0.0, vz=0.0):
        self.m, self.x, self.y, self.z, self.vx, self.vy, self.vz = m, x, y, z, vx, vy, vz

    @property
    def xyz(self):
        return [self.x, self.y, self.z]

    @property
    def vxyz(self):
        return [self.vx, self.vy, self.vz]


class FakeEphem:
    jd_ref = 2451545.0

    def __init__(self, planets_path=None, asteroids_path=None):
        self.off = deviation(check_data_file(str(planets_path))[0]) + 2 * deviation(check_data_file(str(asteroids_path))[0])

    def get_particle(self, which, t):
        if which in ("Sun", 0):
            a = 2 * math.pi * t / 4332.0
            return FakeParticle(GM_SUN, 0.004 * math.cos(a) + self.off, 0.004 * math.sin(a), 0.001,
                                -0.004 * math.sin(a) * 2 * math.pi / 4332.0, 0.004 * math.cos(a) * 2 * math.pi / 4332.0, 0.0)
        return FakeParticle(GM_SUN * 1e-6 / (1 + (which if isinstance(which, int) else 3)))


class FakeSimulation:
    def __init__(self):
        self.t, self.dt, self.ri_ias15, self.particles = 0.0, 0.0, type("I", (), {})(), []

    def add(self, p):
        self.p0, self.t0 = p, self.t
        self.particles.append(FakeParticle(0, p.x, p.y, p.z, p.vx, p.vy, p.vz))


class FakeExtras:
    def __init__(self, sim, ephem):
        self.sim, self.forces = sim, ["SUN", "PLANETS", "ASTEROIDS", "GR_EIH"]

    def integrate_or_interpolate(self, t):
        s, d = self.sim, t - self.sim.t0
        p, q = s.p0, s.particles[0]
        q.x, q.y, q.z = p.x + p.vx * d, p.y + p.vy * d, p.z + p.vz * d
        q.vx, q.vy, q.vz = p.vx, p.vy, p.vz
        s.t = t


class SpiceSim:
    """the part of the toolkit's behaviour the code relies on: furnsh needs a closed KERNELS_TO_LOAD list and
    complete kernels, and every later call needs its kernel loaded"""

    def __init__(self):
        self.loaded, self.off = [], {}

    def furnsh(self, path):
        with open(path) as f:
            txt = f.read()
        if "\\begindata" not in txt:
            return                                   # a text without data blocks loads nothing, silently
        data = txt.split("\\begindata", 1)[1].split("\\begintext", 1)[0]
        try:
            pv = data.split("PATH_VALUES", 1)[1].split("(", 1)[1].split(")", 1)[0]
            kl = data.split("KERNELS_TO_LOAD", 1)[1].split("(", 1)[1]
            kl, closed, _ = kl.partition(")")
        except IndexError:
            return                                   # nothing assigned: toolkit loads nothing, no error
        if not closed:
            raise RuntimeError("SPICE(BADKPV): unterminated vector")
        base = ""                                        # strings of at most 80 characters, continued by a final +
        for x in re.findall(r"'([^']*)'", pv):
            if len(x) > 80:
                raise RuntimeError("SPICE(STRINGTOOLONG): " + x[:90])
            base = base[:-1] + x if base.endswith("+") else base + x
        for k in kl.split(","):
            k = k.strip().strip("'")
            if not k:
                continue
            p = k.replace("$A", base)
            if not os.path.exists(p):
                raise RuntimeError(f"SPICE(NOSUCHFILE): {os.path.basename(p)}")
            self.off[p.rsplit(".", 1)[-1]] = self.off.get(p.rsplit(".", 1)[-1], 0.0) + deviation(check_data_file(p)[0])
            self.loaded.append(os.path.basename(p))

    def kclear(self):
        self.loaded, self.off = [], {}

    def j2000(self):
        return 2451545.0

    def _need(self, *exts):
        for e in exts:
            if not any(x.endswith(e) for x in self.loaded):
                raise RuntimeError(f"SPICE(NOLOADEDFILES): no {e} kernel loaded")

    def str2et(self, s):
        self._need(".tls")
        if "JD" in s:
            v = float(s.split("JD")[1].replace("UTC", "").replace("TAI", "").replace("TDB", "").replace("TDT", "").split()[0]) \
                if s.strip().startswith("JD") else float(s.split()[0].replace("JD", ""))
            return (v - 2451545.0) * 86400.0 + 69.184 + 1e3 * self.off.get("tls", 0.0)
        return -1.2e9

    def _earth(self, et):
        a = 2 * math.pi * et / (365.25 * 86400.0)
        r, w = AU_KM * (1 + self.off.get("bsp", 0.0)), 2 * math.pi / (365.25 * 86400.0)
        return np.array([r * math.cos(a), r * math.sin(a) * 0.917, r * math.sin(a) * 0.398,
                         -r * w * math.sin(a), r * w * math.cos(a) * 0.917, r * w * math.cos(a) * 0.398])

    def spkezr(self, *a):
        self._need(".bsp")
        return self._earth(a[1]), 0.0

    def spkpos(self, *a):
        self._need(".bsp")
        return self._earth(a[1])[:3], 0.0

    def pxform(self, frm, to, et):
        self._need(".bpc", ".pck")
        # high-precision orientation differs slightly from the predicted one, as in reality
        hi = any("high_prec" in x for x in self.loaded)
        a = 2 * math.pi * et / 86164.0905 + (0.0 if hi else 1e-4) + 1e2 * (self.off.get("bpc", 0.0) + self.off.get("pck", 0.0))
        c, s = math.cos(a), math.sin(a)
        return np.array([[c, -s, 0.0], [s, c, 0.0], [0.0, 0.0, 1.0]])


SPICE = SpiceSim()
_FAKES = {}


def install_ar_stubs():
    """replace the third-party integrator and toolkit wherever they are bound"""
    names = {"furnsh": SPICE.furnsh, "kclear": SPICE.kclear, "j2000": SPICE.j2000, "str2et": SPICE.str2et,
             "spkezr": SPICE.spkezr, "spkpos": SPICE.spkpos, "pxform": SPICE.pxform}
    swap = {}
    for n, f in names.items():
        swap[id(getattr(spiceypy, n))] = f
        setattr(spiceypy, n, f)
        if hasattr(spiceypy, "spiceypy"):
            swap[id(getattr(spiceypy.spiceypy, n))] = f
            setattr(spiceypy.spiceypy, n, f)
    for mod, n, f in [(assist, "Ephem", FakeEphem), (assist, "Extras", FakeExtras),
                      (rebound, "Simulation", FakeSimulation), (rebound, "Particle", lambda **k: FakeParticle(0, **k))]:
        swap[id(getattr(mod, n))] = f
        setattr(mod, n, f)
    for name, m in list(sys.modules.items()):
        if name.split(".")[0] in ("sorcha", "sorcha_cmdline"):
            for k, v in list(vars(m).items()):
                if id(v) in swap and k[:2] != "__":
                    setattr(m, k, swap[id(v)])


# ---------------------------------------------------------------------------------------------------------------
# cooperative threads: one Python thread runs at a time, hand-over decided by the scheduler
# ---------------------------------------------------------------------------------------------------------------
class Baton:
    def __init__(self):
        self.cv = threading.Condition(threading.Lock())
        self.order, self.cur, self.on = [], None, False

    def yield_point(self, what):
        me = threading.get_ident()
        if not self.on or self.cur != me or getattr(self, "busy", False):
            return
        self.busy = True
        try:
            k = choice("thread:" + what, len(self.order)) if len(self.order) > 1 else 0
            nxt = self.order[k]
        finally:
            self.busy = False
        if nxt != me:
            with self.cv:
                self.cur = nxt
                self.cv.notify_all()
                while self.cur != me:
                    self.cv.wait()

    def blocked(self):
        """the running thread cannot go on: the next one does"""
        me = threading.get_ident()
        with self.cv:
            self.cur = self.order[(self.order.index(me) + 1) % len(self.order)]
            self.cv.notify_all()
            while self.cur != me:
                self.cv.wait()

    def leave(self, me):
        with self.cv:
            i = self.order.index(me)
            self.order.remove(me)
            if self.order:
                self.cur = self.order[i % len(self.order)]
                self.cv.notify_all()


BATON = Baton()


class CoopLock:
    """a lock that hands over to the other simulated threads instead of stopping the process"""

    def __init__(self, real):
        self._l = real

    def acquire(self, blocking=True, timeout=-1):
        if self._l.acquire(False):
            return True
        if not blocking:
            return False
        while BATON.on and BATON.cur == threading.get_ident() and len(BATON.order) > 1:
            BATON.blocked()
            if self._l.acquire(False):
                return True
        return self._l.acquire(True, timeout)

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self._l.release()

    def __getattr__(self, n):
        return getattr(self._l, n)


class SimExecutor(concurrent.futures.Executor):
    """ThreadPoolExecutor contract (bounded workers, FIFO queue, futures), with scheduled hand-over"""

    def __init__(self, max_workers=None, thread_name_prefix="", initializer=None, initargs=()):
        self.max = min(max_workers or 4, 16)
        self.init = (initializer, initargs)
        self.q, self.futs, self.done = [], [], False

    def submit(self, fn, /, *a, **k):
        f = concurrent.futures.Future()
        self.q.append((f, fn, a, k))
        return f

    def _drain(self):
        n = min(self.max, len(self.q))
        if n == 0:
            return
        me = threading.get_ident()
        ready = threading.Barrier(n + 1)
        th = []

        def work():
            ident = threading.get_ident()
            ready.wait()
            with BATON.cv:
                while BATON.cur != ident:
                    BATON.cv.wait()
            if self.init[0]:
                self.init[0](*self.init[1])
            while self.q:
                f, fn, a, k = self.q.pop(0)
                if not f.set_running_or_notify_cancel():
                    continue
                try:
                    f.set_result(fn(*a, **k))
                except BaseException as e:
                    f.set_exception(e)
                BATON.yield_point("task-end")
            BATON.leave(ident)

        for _ in range(n):
            t = threading.Thread(target=work)
            t.start()
            th.append(t)
        with BATON.cv:
            BATON.order = [t.ident for t in th]
            BATON.on = True
        ready.wait()
        with BATON.cv:
            BATON.cur = BATON.order[0]
            BATON.cv.notify_all()
        for t in th:
            t.join()
        BATON.on = False

    def map(self, fn, *its, timeout=None, chunksize=1):
        fs = [self.submit(fn, *a) for a in zip(*its)]

        def it():
            self._drain()
            for f in fs:
                yield f.result()
        return it()

    def shutdown(self, wait=True, *, cancel_futures=False):
        if cancel_futures:
            for f, *_ in self.q:
                f.cancel()
            self.q = []
        self._drain()


def _lazy_result(self, timeout=None, _r=concurrent.futures.Future.result):
    return _r(self, timeout)


def install_threads(root):
    tqdm.tqdm.get_lock()
    lock, rlock = threading.Lock, threading.RLock
    threading.Lock, threading.RLock = lambda: CoopLock(lock()), lambda: CoopLock(rlock())
    concurrent.futures.ThreadPoolExecutor = SimExecutor
    concurrent.futures.thread.ThreadPoolExecutor = SimExecutor
    # waiting on a future of a lazy pool must drive the pool
    orig_wait, orig_asc, orig_res, orig_exc = (concurrent.futures.wait, concurrent.futures.as_completed,
                                               concurrent.futures.Future.result, concurrent.futures.Future.exception)
    pools = []
    old_init = SimExecutor.__init__

    def init(self, *a, **k):
        old_init(self, *a, **k)
        pools.append(self)
    SimExecutor.__init__ = init

    def drive():
        if not BATON.on:
            for p in pools:
                p._drain()

    def wrap(f):
        def g(*a, **k):
            drive()
            return f(*a, **k)
        return g
    concurrent.futures.wait = wrap(orig_wait)
    concurrent.futures.as_completed = wrap(orig_asc)
    concurrent.futures.Future.result = wrap(orig_res)
    concurrent.futures.Future.exception = wrap(orig_exc)

    def hook(ev, args):
        if BATON.on and ev in ("open", "os.rename", "os.remove", "os.mkdir", "os.listdir", "shutil.move", "shutil.copyfile") and str(args[0]).startswith(root):
            BATON.yield_point(ev)
    sys.addaudithook(hook)


# ---------------------------------------------------------------------------------------------------------------
# simulated network: answers below requests' transport adapter, through the real urllib3 response machinery
# ---------------------------------------------------------------------------------------------------------------
class Body(io.RawIOBase):
    """the server's byte stream: may stop early, raise, or stall"""

    def __init__(self, data, plan):
        self.d, self.i, self.plan = data, 0, plan

    def readable(self):
        return True

    def readinto(self, b):
        BATON.yield_point("recv")
        n = min(len(b), 8192, len(self.d) - self.i)
        cut = self.plan.get("cut")
        if cut is not None:
            n = min(n, cut - self.i)
            if n <= 0:
                if self.plan.get("how") == "reset":
                    raise ConnectionResetError(104, "Connection reset by peer")
                if self.plan.get("how") == "timeout":
                    LIB.simio_advance(30 * 10**9)
                    raise TimeoutError("timed out")
                return 0
        if self.plan.get("delay"):
            LIB.simio_advance(int(self.plan["delay"]))
        b[:n] = self.d[self.i:self.i + n]
        self.i += n
        return n


def install_network(net):
    """net: {"faults": [{url-substring, nth, kind, cut, delay}], "version": int, "down": bool}"""
    import requests.adapters
    from urllib3.response import HTTPResponse
    counts = {}

    def send(self, request, stream=False, timeout=None, verify=True, cert=None, proxies=None):
        url = request.url
        BATON.yield_point("connect")
        k = counts[url] = counts.get(url, 0) + 1
        plan = {}
        for f in net.get("faults", []):
            if f["url"] in url and (f["nth"] == k or f["nth"] == 0):
                plan = dict(f)
                break
        note(f"net {os.path.basename(url)} #{k} {plan.get('kind', 'ok')}")
        LIB.simio_advance(int(plan.get("latency", 20 * 10**6)))
        kind = plan.get("kind", "ok")
        if kind == "refused":
            raise requests.exceptions.ConnectionError("simulated: connection refused")
        if kind == "dns":
            raise requests.exceptions.ConnectionError("simulated: name resolution failed")
        if kind == "connect-timeout":
            LIB.simio_advance(30 * 10**9)
            raise requests.exceptions.ConnectTimeout("simulated: connect timeout")
        status, data = 200, data_file(net.get("names", {}).get(url, os.path.basename(url)), net.get("version", 0))
        hdr = {"Content-Type": "application/octet-stream"}
        if kind == "http":
            status, data = plan["status"], b"<html>simulated error</html>"
        full = len(data)
        if kind == "short":
            plan.setdefault("how", "close")
            plan["cut"] = max(0, min(full - 1, int(plan["frac"] * full)))
        hdr["Content-Length"] = str(full)
        raw = HTTPResponse(body=io.BufferedReader(Body(data, plan), 8192), headers=hdr, status=status,
                           preload_content=False, decode_content=False, enforce_content_length=True,
                           request_method=request.method, request_url=url)
        resp = self.build_response(request, raw)
        if not stream:
            resp.content
        return resp
    requests.adapters.HTTPAdapter.send = send


# ---------------------------------------------------------------------------------------------------------------
@numba.njit
def _nbseed(n):
    np.random.seed(n)
    return np.random.rand()


def reseed():
    """process-global generators start from this process's (virtual) entropy, as in a fresh interpreter"""
    b = os.urandom(16)
    random.seed(b)
    np.random.seed(int.from_bytes(b[:4], "big"))
    _nbseed(int.from_bytes(b[4:8], "big"))


def redirect_resources(root, table):
    """package data below the simulated machine, so that reading it can fail too"""
    import importlib.resources
    from pathlib import Path
    real = importlib.resources.files

    def files(package=None, **kw):
        rel = table.get(package if isinstance(package, str) else getattr(package, "__name__", None))
        return Path(root, rel) if rel else real(package, **kw)
    importlib.resources.files = files
    for name, m in list(sys.modules.items()):
        if name.startswith("sorcha") and getattr(m, "files", None) is real:
            m.files = files


def prepare(job):
    tqdm.tqdm.monitor_interval = 0
    if job.get("resources"):
        redirect_resources(job["root"], job["resources"])
    if job.get("ar"):
        install_ar_stubs()
    if job.get("net") is not None:
        install_threads(job["root"])
        install_network(job["net"])


MAINS = {"run": sorcha_cmdline.run, "outputs": sorcha_cmdline.outputs, "init": sorcha_cmdline.init,
         "demo": sorcha_cmdline.demo, "bootstrap": sorcha_cmdline.bootstrap}


def session(steps):
    """a notebook: several simulations through the Python interface, one after the other in one interpreter"""
    from sorcha.utilities.sorchaArguments import sorchaArguments
    from sorcha.utilities.sorchaConfigs import sorchaConfigs
    sorcha.sorcha.update_lc_subclasses()
    sorcha.sorcha.update_activity_subclasses()
    shared = {}
    for n, s in enumerate(steps):
        rec = {"step": n, "status": "ok"}
        try:
            for a, b in s.get("move", ()):
                os.rename(a, b)
            args = sorchaArguments(dict(s["args"]))
            key = s.get("share")
            cfg = shared.get(key) if key is not None else None
            if cfg is None:
                cfg = sorchaConfigs(s["args"]["configfile"], s["args"]["surveyname"])
                if key is not None:
                    shared[key] = cfg
            f = sorcha.des.runDESSimulation if s["args"]["surveyname"] == "DES" else sorcha.sorcha.runLSSTSimulation
            r = f(args, cfg, return_only=True) if s["return_only"] else f(args, cfg)
            if s["return_only"]:
                for name, df in zip(("detections", "stats"), r if isinstance(r, tuple) else (r,)):
                    if name == "stats":
                        df = df.reset_index()
                    rec[name] = [list(map(str, df.columns)), [["" if v is None or v != v else repr(float(v)) if isinstance(v, (float, np.floating)) else str(v) for v in row]
                                                              for row in zip(*[df[c].tolist() for c in df.columns])]]
        except (Exception, SystemExit) as e:
            rec.update(status="error", text=f"{type(e).__name__}: {e}"[:300])
        sys.stdout.write("\nSESSION " + json.dumps(rec) + "\n")
        sys.stdout.flush()
    return 0


def run(job):
    kind = job["cmd"]
    if kind == "session":
        return session(json.loads(job["argv"][0]))
    if kind == "noop":
        return 0
    if kind in MAINS:
        sys.argv = ["sorcha-" + kind] + job["argv"]
        if job.get("stdin") is not None:
            sys.stdin = io.StringIO(job["stdin"])
        r = MAINS[kind].main()
        return r if isinstance(r, int) and not isinstance(r, bool) else 0
    raise SystemExit(f"unknown command {kind}")


# ---------------------------------------------------------------------------------------------------------------
# warm-up: a throw-away child runs one workload of each shape; the parent only compiles what that child compiled
# and imports what it imported, so no state of the code under test is carried into simulated processes
# ---------------------------------------------------------------------------------------------------------------
def _dispatchers():
    out = {}
    for name, m in list(sys.modules.items()):
        if name.split(".")[0] in ("sorcha", "sorcha_cmdline") and m is not None:
            for k, v in list(vars(m).items()):
                if hasattr(v, "py_func") and hasattr(v, "nopython_signatures") and v.__module__ == name:
                    out[(name, k)] = v
    return out


WARM_GROUPS = 4


def _caching(path):
    numba.config.CACHE_DIR = path
    for d in _dispatchers().values():
        try:
            d.enable_caching()
        except Exception:
            pass


def _warm_child(jobs, cache):
    r, w = os.pipe()
    pid = os.fork()
    if pid:
        os.close(w)
        return pid, r
    try:
        os.close(r)
        _caching(cache)
        os.chdir(jobs[0]["cwd"])
        dn = os.open(cache + ".out", os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o644)
        os.dup2(dn, 1)
        os.dup2(dn, 2)
        for j in jobs:
            if j.get("ar"):
                install_ar_stubs()
            try:
                run(j)
            except BaseException:
                import traceback
                traceback.print_exc()
            lg = logging.getLogger()
            for h in list(lg.handlers):
                lg.removeHandler(h)
        sigs = [(n, [s.args if hasattr(s, "args") else s for s in d.signatures]) for n, d in _dispatchers().items()]
        with os.fdopen(w, "wb") as f:
            pickle.dump((sigs, [m for m in sys.modules]), f)
    finally:
        os._exit(0)


def warm(spec):
    jobs = json.loads(spec) if spec else []
    if not jobs:
        return
    here = numba.config.CACHE_DIR
    groups = [g for g in (jobs[i::WARM_GROUPS] for i in range(WARM_GROUPS)) if g]
    started = [_warm_child(g, f"{here}{i}") for i, g in enumerate(groups)]
    for i, (pid, r) in enumerate(started):
        with os.fdopen(r, "rb") as f:
            b = f.read()
        os.waitpid(pid, 0)
        if not b:
            continue
        sigs, ms = pickle.loads(b)
        for m in sorted(ms):
            if m not in sys.modules and not m.startswith(("sorcha", "__", "numba.")):
                try:
                    importlib.import_module(m)
                except Exception:
                    pass
        _caching(f"{here}{i}")             # load what that child compiled
        d = _dispatchers()
        for n, ss in sigs:
            for s in ss:
                try:
                    if n in d and s not in [x.args if hasattr(x, "args") else x for x in d[n].signatures]:
                        d[n].compile(s)
                except Exception:
                    pass
    _nbseed(1)


def own_cache(name):
    """simulated machines share no disk: every server keeps what its processes compile to itself"""
    _caching(f"{os.environ['NUMBA_CACHE_DIR']}{name}")
