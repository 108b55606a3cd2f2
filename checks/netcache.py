"""auxiliary-data cache: contents, network fault plans"""
import gzip
from .common import *
import targets_data as td

URLS = sorted(td.SERVED.values())
ALL = td.FILES + ["ObsCodes.json", "meta_kernel.txt"]
KERNELS = ["naif0012.tls", "earth_620120_250826.bpc", "earth_2025_250826_2125_predict.bpc", "pck00010.pck", "de440s.bsp", "earth_latest_high_prec.bpc"]


def net_faults(rng, n=None, permanent=0.35):
    out = []
    for _ in range(rng.randrange(1, 5) if n is None else n):
        f = {"url": rng.choice(URLS), "nth": 0 if rng.random() < permanent else rng.randrange(1, 5),
             "kind": rng.choice(["refused", "dns", "connect-timeout", "http", "short", "short", "short", "ok"])}
        if f["kind"] == "http":
            f["status"] = rng.choice([404, 403, 429, 500, 503])
        elif f["kind"] == "short":
            f["frac"], f["how"] = round(rng.random(), 3), rng.choice(["close", "reset", "timeout"])
        elif f["kind"] == "ok":
            f["delay"], f["nth"] = rng.choice([10**6, 10**9, 20 * 10**9]), 0
        if rng.random() < .3:
            f["latency"] = rng.choice([10**6, 10**9, 10**10])
        out.append(f)
    return out


def requests(ops):
    """file names asked for over the network, in order"""
    return [o[2].split()[1] for o in ops if o[0] == "note" and o[2].startswith("net ")]


def state(w, cache="cache"):
    """file -> 'ok:<version>' / 'bad: why' for every default file that is present"""
    st = {}
    for f in td.FILES:
        p = w.path(cache, f)
        if not os.path.exists(p):
            continue
        b = open(p, "rb").read()
        st[f] = next((f"ok:{v}" for v in range(4) if b == td.data_file(td.SERVED[f], v)), f"bad: {len(b)} bytes")
    p = w.path(cache, "ObsCodes.json")
    if os.path.exists(p):
        st["ObsCodes.json"] = "ok:0" if open(p, "rb").read() == gzip.decompress(td.data_file("obscodes_extended.json.gz")) else "bad"
    p = w.path(cache, "meta_kernel.txt")
    if os.path.exists(p):
        t = open(p, errors="replace").read()
        ks = [f for f in KERNELS if f"'$A/{f}'" in t]
        st["meta_kernel.txt"] = "ok:0" if ks == KERNELS and t.rstrip().endswith("\\begintext") else f"bad: {len(t)} bytes"
    return st


def incomplete(st, files=ALL):
    return {f: st.get(f, "missing") for f in files if not st.get(f, "").startswith("ok")}
