"""Helpers of a demonstration: small catalogues, and runs of the real command line of /repo in a scratch directory."""
import json, math, os, re, shutil, subprocess, sys, tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import workload as L  # noqa: E402

PY = "/opt/venv/bin/python"
SRC = os.path.join(os.getcwd(), "src")


class Box:
    """a scratch directory that is removed at the end"""

    def __init__(self):
        self.root = tempfile.mkdtemp(prefix="sorcha-demo-")

    def __enter__(self):
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.root, ignore_errors=True)

    def path(self, *a):
        return os.path.join(self.root, *a)

    def inputs(self, p, sub="in", **k):
        L.materialise(self, p, sub=sub, **k)

    def start(self, p, sub="in", out="out", hook=None, env=None, cmd="run", argv=None, **k):
        os.makedirs(self.path(out), exist_ok=True)
        a = argv if argv is not None else L.argv(p, sub=sub, out=out, **k)
        if L.full(p)["mode"] == "ar" and not os.path.isdir(self.path("cache")):
            L.fill_cache(self.path("cache"))
        e = dict(os.environ, PYTHONPATH=SRC, PYTHONDONTWRITEBYTECODE="1", NUMBA_CACHE_DIR=self.path("numba"), TZ="UTC")
        e.update(env or {})
        return subprocess.Popen([PY, os.path.join(HERE, "demolib.py"), json.dumps({"cmd": cmd, "argv": a, "ar": L.full(p)["mode"] == "ar", "hook": hook})],
                                cwd=self.root, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)

    def run(self, p, sub="in", ok=True, **k):
        q = self.start(p, sub, **k)
        out, _ = q.communicate()
        if ok and q.returncode:
            print(out[-3000:])
            raise SystemExit(f"unexpected exit status {q.returncode}")
        return q.returncode, out

    def read(self, *a):
        with open(self.path(*a), "rb") as f:
            return f.read()

    def rows(self, *a):
        import pandas as pd
        f = self.path(*a)
        if not os.path.exists(f):
            return []
        if f.endswith(".db"):
            import sqlite3
            con = sqlite3.connect(f)
            df = pd.read_sql("select * from sorcha_results", con)
            con.close()
        elif f.endswith(".h5"):
            df = pd.read_hdf(f)
        else:
            df = pd.read_csv(f, dtype={"ObjID": str})
        return df


def expect(cond, text):
    if not cond:
        print("DEMONSTRATED:", text)
        raise SystemExit(1)


# ---- child process: stand-ins for the ephemeris integrator and the SPICE toolkit (their data files cannot be downloaded here)
def child(job):
    import importlib
    if job.get("ar"):
        import stubs
        stubs.install_ar_stubs()
    if job.get("hook"):
        exec(compile(job["hook"], "hook", "exec"), {"__name__": "hook"})
    m = importlib.import_module("sorcha_cmdline." + job["cmd"])
    sys.argv = ["sorcha-" + job["cmd"]] + job["argv"]
    r = m.main()
    sys.exit(r if isinstance(r, int) and not isinstance(r, bool) else 0)


if __name__ == "__main__":
    child(json.loads(sys.argv[1]))
