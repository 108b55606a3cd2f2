"""simulated data files: what the download servers hand out and what the toolkits insist on reading"""
import hashlib, io, json, os

FILES = ["de440s.bsp", "earth_2025_250826_2125_predict.bpc", "earth_620120_250826.bpc", "earth_latest_high_prec.bpc", "linux_p1550p2650.440",
         "sb441-n16.bsp", "naif0012.tls", "ObsCodes.json.gz", "pck00010.pck"]
SERVED = {f: f for f in FILES}
SERVED["pck00010.pck"] = "pck00010.tpc"
SERVED["ObsCodes.json.gz"] = "obscodes_extended.json.gz"


def deviation(name):
    """how far the constants in a data file are from those in the default ones"""
    return 0.0 if name in SERVED.values() else (1 + hashlib.sha256(name.encode()).digest()[0]) * 1e-7


def data_file(name, version=0):
    """content of one downloadable file: self-describing so that a truncated or mixed-up copy is recognisable"""
    if "obscodes" in name.lower():
        import gzip as gz
        body = json.dumps({"X05": {"Longitude": 289.25058 + 1e3 * deviation(name), "Name": "Sim", "cos": 0.864981, "sin": -0.500958},
                           "W84": {"Longitude": 289.19355 + 1e3 * deviation(name), "Name": "Sim2", "cos": 0.864901, "sin": -0.50096},
                           "500": {"Longitude": 0.0, "Name": "geo", "cos": 0.0, "sin": 0.0}}).encode()
        body = body[:-1] + b" " * 40000 + b"}"
        if not name.endswith(".gz"):
            return body
        b = io.BytesIO()
        with gz.GzipFile(fileobj=b, mode="wb", mtime=0, compresslevel=0) as f:
            f.write(body)
        return b.getvalue()
    h = hashlib.sha256(f"{name}:{version}".encode()).digest()
    n = 20000 + 977 * (h[0] % 40)
    head = f"SIMDATA {name} v{version} {n}\n".encode()
    body = (h * (n // len(h) + 1))[:n]
    return head + body + b"\nEND\n"


def check_data_file(path):
    """the complete-file test a binary kernel reader effectively performs; returns (name, version)"""
    with open(path, "rb") as f:
        b = f.read()
    nl = b.find(b"\n")
    if not b.startswith(b"SIMDATA ") or nl < 0:
        raise RuntimeError(f"corrupt data file {os.path.basename(path)}")
    _, name, ver, n = b[:nl].decode().split(" ")
    if b != data_file(name, int(ver[1:])):
        raise RuntimeError(f"corrupt data file {os.path.basename(path)}")
    return name, int(ver[1:])
