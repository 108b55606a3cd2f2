"""The simulator: owns every interleaving, clock reading, fault and crash of the simulated processes."""
import array, errno, hashlib, json, os, random, shutil, signal, socket, struct, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
OPS = {1: "open", 2: "read", 3: "write", 4: "fsync", 5: "trunc", 6: "rename", 7: "unlink", 8: "mkdir", 9: "rmdir", 10: "stat",
       11: "listdir", 12: "lock", 13: "sleep", 14: "close", 15: "meta", 16: "link", 17: "choice", 18: "note", 19: "copy"}
GO, ERR, SHORT, KILL, TORN, KILL_AFTER = range(6)
ACT = {"go": GO, "err": ERR, "short": SHORT, "kill": KILL, "torn": TORN, "kill_after": KILL_AFTER}
MUTATING = {"write", "trunc", "rename", "unlink", "mkdir", "rmdir", "link", "copy", "meta"}
T0 = 1_750_000_000_000_000_000
HANG_S = 150


class Hang(Exception):
    pass


class HarnessError(Exception):
    pass


def build_shim(outdir):
    so = os.path.join(outdir, "simio.so")
    subprocess.run(["gcc", "-O1", "-w", "-shared", "-fPIC", "-o", so, os.path.join(HERE, "simio.c"), "-ldl", "-lpthread"], check=True)
    return so


def zygote_env(so, hashseed, scratch):
    e = {k: v for k, v in os.environ.items() if k in ("PATH", "HOME", "LANG", "LC_ALL", "VIRTUAL_ENV", "LD_LIBRARY_PATH")}
    e.update({"LD_PRELOAD": so, "SIMIO_ENTROPY": "12345", "PYTHONHASHSEED": str(hashseed), "PYTHONDONTWRITEBYTECODE": "1",
              "OPENBLAS_NUM_THREADS": "1", "OMP_NUM_THREADS": "1", "NUMEXPR_NUM_THREADS": "1", "MKL_NUM_THREADS": "1",
              "NUMBA_NUM_THREADS": "1", "TZ": "UTC", "HOME": os.path.join(scratch, "home"), "NUMBA_CACHE_DIR": os.path.join(scratch, f"nb{hashseed}-"),
              "MPLBACKEND": "Agg", "PYTHONWARNINGS": "ignore", "NUMEXPR_MAX_THREADS": "1", "BLOSC_NTHREADS": "1", "HDF5_USE_FILE_LOCKING": "TRUE"})
    src = os.environ.get("SORCHA_SIM_SRC")
    if src:
        e["PYTHONPATH"] = src
    return e


def start_zygotes(so, n, hashseed, scratch, warm_jobs, python="/opt/venv/bin/python"):
    """one interpreter imports and compiles the code under test, then forks n servers; returns their sockets"""
    pairs = [socket.socketpair(socket.AF_UNIX, socket.SOCK_SEQPACKET) for _ in range(n)]
    kids = [b for _, b in pairs]
    os.makedirs(os.path.join(scratch, "home"), exist_ok=True)
    log = open(os.path.join(scratch, f"zygote{hashseed}.log"), "w")
    pre = ["setarch", "-R"] if shutil.which("setarch") and subprocess.run(["setarch", "-R", "true"], capture_output=True).returncode == 0 else []
    p = subprocess.Popen(pre + [python, os.path.join(HERE, "zygote.py"), ",".join(str(b.fileno()) for b in kids), json.dumps(warm_jobs)],
                         env=zygote_env(so, hashseed, scratch), pass_fds=[b.fileno() for b in kids], stdout=log, stderr=log,
                         stdin=subprocess.DEVNULL, cwd=scratch)
    for b in kids:
        b.close()
    return p, [a for a, _ in pairs]


def wait_ready(socks, timeout=300):
    for s in socks:
        s.settimeout(timeout)
        m = s.recv(65536)
        if not m or "ready" not in json.loads(m):
            raise HarnessError("zygote failed to start")
        s.settimeout(HANG_S)


class Proc:
    __slots__ = ("i", "spec", "pid", "sock", "req", "ops", "code", "wake", "out", "alive", "counts")


class World:
    """one simulated machine: a directory tree, a clock and the processes that ran on it"""

    def __init__(self, root, zyg):
        self.root, self.zyg = root, zyg
        self.reset()

    def reset(self):
        shutil.rmtree(self.root, ignore_errors=True)
        os.makedirs(self.root)
        self.now, self.wall_off, self.nproc = T0, 0, 0
        self.trace, self.h, self.steps = [], hashlib.sha1(), 0
        self.injected, self.fault_counts, self.switches, self.mutations = [], {}, [], []
        self.op_counts = {}
        self.protected = None
        self.outputs = {}

    def path(self, *a):
        return os.path.join(self.root, *a)

    # -- process control
    def _ask(self, z, msg, fd=None):
        b = json.dumps(msg).encode()
        if fd is None:
            z.send(b)
        else:
            z.sendmsg([b], [(socket.SOL_SOCKET, socket.SCM_RIGHTS, array.array("i", [fd]))])
        r = z.recv(1 << 16)
        if not r:
            raise HarnessError("zygote died")
        return json.loads(r)

    def _start(self, spec, i):
        a, b = socket.socketpair(socket.AF_UNIX, socket.SOCK_SEQPACKET)
        a.settimeout(HANG_S)
        p = Proc()
        p.i, p.spec, p.sock, p.req, p.ops, p.code, p.wake, p.alive = i, spec, a, None, 0, None, 0, True
        p.counts = {}
        p.out = os.path.join(os.path.dirname(self.root), f"stdout.{self.nproc}")
        self.nproc += 1
        if os.path.exists(p.out):
            os.unlink(p.out)
        job = {"stdout": p.out, "env": spec.get("env", {}), "cwd": self.path(spec.get("cwd", "")), "root": self.root,
               "entropy": spec.get("entropy", self.nproc), "clock": self.now, "pid": spec.get("pid", 1000 + i), "cmd": spec["cmd"],
               "argv": spec.get("argv", []), "ar": spec.get("ar", False), "net": spec.get("net"), "stdin": spec.get("stdin"), "resources": spec.get("resources")}
        z = self.zyg[spec.get("zygote", 0) % len(self.zyg)]
        p.pid = self._ask(z, job, b.fileno())["pid"]
        b.close()
        return p, z

    def _recv(self, p, z):
        try:
            m = p.sock.recv(4096)
        except socket.timeout:
            self._ask(z, {"kill": p.pid})
            self._ask(z, {"wait": p.pid})
            p.alive = False
            raise Hang(f"process {p.i} ({p.spec['cmd']}) made no observable step for {HANG_S} s")
        if not m:
            p.alive = False
            p.code = self._ask(z, {"wait": p.pid})["status"]
            p.sock.close()
            try:
                with open(p.out, errors="replace") as f:
                    self.outputs[p.i] = f.read()
                os.unlink(p.out)
            except OSError:
                self.outputs[p.i] = ""
            return
        op, fl, size, off, err, tid = struct.unpack_from("<IIqqiI", m, 0)
        paths = m[32:].split(b"\0")
        p.wake = self.now + max(size, 0) if op == 13 else 0
        p.req = (OPS[op], fl, size, off, paths[0].decode(errors="replace"), paths[1].decode(errors="replace") if len(paths) > 2 else "")

    def phase(self, specs, sched=None, faults=(), policy=None, quota=None, listseed=0, max_steps=400000, op_cost=50_000, jumps=(), on_op=None):
        """run the processes to completion. sched: {"seed","p"} or {"switches": [[step, proc], ...]}, and
        "parks": [[proc, k, n], ...]: proc is held up before its k-th operation until the others have made n steps.
        faults: [{"p","k","a","e","n"}] with k = index of the operation within its process, optionally "op"."""
        procs, zs = [], []
        for i, sp in enumerate(specs):
            p, z = self._start(sp, i)
            procs.append(p)
            zs.append(z)
        try:
            return self._loop(procs, zs, sched, list(faults), policy, quota, listseed, max_steps, op_cost, list(jumps), on_op)
        except BaseException:
            for p, z in zip(procs, zs):
                if p.alive:
                    try:
                        self._ask(z, {"kill": p.pid})
                        self._ask(z, {"wait": p.pid})
                    except Exception:
                        pass
            raise

    def _loop(self, procs, zs, sched, faults, policy, quota, listseed, max_steps, op_cost, jumps, on_op):
        sched = sched or {}
        rng = random.Random(sched.get("seed", 0))
        switch_p = sched.get("p", 0.0)
        explicit = {s: q for s, q in sched["switches"]} if "switches" in sched else None
        prng = random.Random(policy["seed"]) if policy else None
        crng = random.Random(sched.get("choice_seed", sched.get("seed", 0)) * 7919 + 13)
        fmap = {}
        for f in faults:
            fmap.setdefault((f["p"], f["k"]), f)
        parks = {}
        for i, k, n in sched.get("parks", ()):
            parks[(i, k)] = [n, None]
        sticky = []
        used = 0
        cur = procs[sched["first"]] if "first" in sched else None
        step = 0
        choices = sched.get("choices")           # explicit answers to choice operations, for replay
        made = []
        for p, z in zip(procs, zs):
            self._recv(p, z)
        phase_ops = [[] for _ in procs]
        jumps = sorted(jumps)
        while True:
            live = [p for p in procs if p.alive]
            if not live:
                break
            ready = [p for p in live if p.wake <= self.now]
            if not ready:
                self.now = min(p.wake for p in live)
                continue
            if parks and len(live) > 1:
                free = [q for q in ready if not self._held(parks, q, step)]
                ready = free or ready
            if len(ready) == 1:
                p = ready[0]
            elif explicit is not None:
                p = None
                if step in explicit:
                    p = next((q for q in ready if q.i == explicit[step]), None)
                if p is None:
                    p = cur if cur in ready else ready[0]
            else:
                if cur in ready and rng.random() >= switch_p:
                    p = cur
                else:
                    p = ready[rng.randrange(len(ready))]
            if p is not cur and len(procs) > 1:
                self.switches.append([step, p.i])
            cur = p
            while jumps and jumps[0][0] <= step:
                self.wall_off += jumps.pop(0)[1]
                self.fault_counts["clock-jump"] = self.fault_counts.get("clock-jump", 0) + 1
            op, fl, size, off, path, path2 = p.req
            p.req = None
            act, e, n = GO, 0, 0
            k = p.ops
            p.ops += 1
            f = fmap.get((p.i, k))
            if f is not None and (f.get("op") in (None, op)):
                act, e, n = ACT[f["a"]], f.get("e", 0), f.get("n", 0)
                if f.get("sticky"):
                    sticky.append((f["sticky"], f))
                    act = GO
                else:
                    self._count(f["a"] if act != ERR else "err:" + errno.errorcode.get(e, str(e)), op)
            if act == GO and sticky:
                for ops_, g in sticky:
                    if op in ops_ and (op != "open" or fl & os.O_CREAT):
                        act, e = ERR, g.get("e", errno.ENOSPC)
                        self._count("sticky:" + errno.errorcode.get(e, str(e)), op)
                        break
            if act == GO and quota is not None and op in ("write", "copy"):
                if used >= quota:
                    act, e = ERR, errno.ENOSPC
                    self._count("disk-full", op)
                elif used + size > quota:
                    act, n = SHORT, quota - used
                    self._count("disk-full-short", op)
                    used = quota
                else:
                    used += size
            if act == GO and policy and op in ("read", "write"):
                r = prng.random()
                if size > 1 and r < policy.get("short", 0):
                    act, n = SHORT, 1 + prng.randrange(size - 1)
                    self._count("short", op)
                elif r < policy.get("short", 0) + policy.get("eintr", 0):
                    act, e = ERR, errno.EINTR
                    self._count("EINTR", op)
                if act != GO:
                    self.injected.append({"p": p.i, "k": k, "a": "short" if act == SHORT else "err", "e": e, "n": n, "op": op})
            if op == "choice":
                j = len(made)
                n = choices[j] if choices is not None and j < len(choices) else (0 if choices is not None else crng.randrange(size))
                made.append(n)
                if n >= size:
                    n = 0
            elif op == "listdir":
                n = listseed and (listseed * 1000003 + step + 1)
            self.now += op_cost
            rec = (p.i, op, path, path2, size, act, n if act in (SHORT, TORN) or op == "choice" else 0)
            self.trace.append((p.i, k, op, fl, path, path2, size, act))
            phase_ops[p.i].append((op, fl, path, path2, size))
            self.h.update(repr(rec).encode())
            self.op_counts[op] = self.op_counts.get(op, 0) + 1
            if self.protected and act not in (ERR, KILL):
                self._mutation(p, op, fl, path, path2)
            if on_op:
                on_op(p, k, op, fl, path, path2, size, act)
            try:
                p.sock.send(struct.pack("<iiqqq", act, e, n, self.now, self.wall_off))
            except OSError:
                pass
            self._recv(p, zs[p.i])
            step += 1
            self.steps += 1
            if step > max_steps:
                raise Hang(f"no termination within {max_steps} operations")
        self.choices_made = made
        return Result(procs, phase_ops, {p.i: self.outputs.get(p.i, "") for p in procs})

    def _held(self, parks, q, step):
        """a parked process waits before one of its operations until the others have made n steps (or cannot go on)"""
        h = parks.get((q.i, q.ops))
        if h is None:
            return False
        if h[1] is None:
            h[1] = step
            self.fault_counts["parked"] = self.fault_counts.get("parked", 0) + 1
        return step < h[1] + h[0]

    def _count(self, kind, op):
        key = f"{kind}@{op}"
        self.fault_counts[key] = self.fault_counts.get(key, 0) + 1

    def _mutation(self, p, op, fl, path, path2):
        bad = None
        if op == "open":
            if fl & (os.O_WRONLY | os.O_RDWR) and (fl & os.O_ACCMODE) != os.O_RDONLY and self.protected(path):
                if fl & (os.O_TRUNC | os.O_WRONLY) or not fl & os.O_RDWR:
                    bad = path
        elif op in MUTATING:
            for q in (path, path2):
                if q and self.protected(q) and not (op in ("copy", "link") and q == path2):
                    bad = q
        if bad:
            self.mutations.append((p.i, op, bad))

    def digest(self):
        return self.h.hexdigest()[:16]

    def snapshot(self, sub="", skip=()):
        """relative path -> content hash for every file below sub"""
        out = {}
        base = self.path(sub)
        for d, dn, fn in os.walk(base):
            dn.sort()
            for f in sorted(fn):
                full = os.path.join(d, f)
                r = os.path.relpath(full, self.root)
                if any(s(r) for s in skip):
                    continue
                try:
                    with open(full, "rb") as fh:
                        out[r] = hashlib.sha1(fh.read()).hexdigest()
                except OSError as ex:
                    out[r] = f"unreadable {ex.errno}"
        return out


class Result:
    def __init__(self, procs, ops, out):
        self.codes = [p.code for p in procs]
        self.code = self.codes[0]
        self.ops = ops
        self.nops = [p.ops for p in procs]
        self.out = [out[p.i] for p in procs]
