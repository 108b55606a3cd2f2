import hashlib, importlib, json, math, os, re, sys
import numpy as np
import spiceypy, assist, rebound
import sorcha.sorcha, sorcha.des
from targets_data import data_file, check_data_file, deviation  # noqa: E402


AU_KM = 149597870.7
GM_SUN = 2.9591220828411951e-04


class FakeParticle:
    def __init__(self, m=0.0, x=0.0, y=0.0, z=0.0, vx=0.0, vy=0.0, vz=0.0):
        self.m, self.x, self.y, self.z, self.vx, self.vy, self.vz = m, x, y, z, vx, vy, vz

    @property
    def xyz(self):
        return [self.x, self.y, self.z]

    @property
    def vxyz(self):
        return [self.vx, self.vy, self.vz]


class FakeEphem:
    jd_ref = 2451545.0

    def __init__(self, planets_path=None, asteroids_path=None):
        self.off = deviation(check_data_file(str(planets_path))[0]) + 2 * deviation(check_data_file(str(asteroids_path))[0])

    def get_particle(self, which, t):
        if which in ("Sun", 0):
            a = 2 * math.pi * t / 4332.0
            return FakeParticle(GM_SUN, 0.004 * math.cos(a) + self.off, 0.004 * math.sin(a), 0.001,
                                -0.004 * math.sin(a) * 2 * math.pi / 4332.0, 0.004 * math.cos(a) * 2 * math.pi / 4332.0, 0.0)
        return FakeParticle(GM_SUN * 1e-6 / (1 + (which if isinstance(which, int) else 3)))


class FakeSimulation:
    def __init__(self):
        self.t, self.dt, self.ri_ias15, self.particles = 0.0, 0.0, type("I", (), {})(), []

    def add(self, p):
        self.p0, self.t0 = p, self.t
        self.particles.append(FakeParticle(0, p.x, p.y, p.z, p.vx, p.vy, p.vz))


class FakeExtras:
    def __init__(self, sim, ephem):
        self.sim, self.forces = sim, ["SUN", "PLANETS", "ASTEROIDS", "GR_EIH"]

    def integrate_or_interpolate(self, t):
        s, d = self.sim, t - self.sim.t0
        p, q = s.p0, s.particles[0]
        q.x, q.y, q.z = p.x + p.vx * d, p.y + p.vy * d, p.z + p.vz * d
        q.vx, q.vy, q.vz = p.vx, p.vy, p.vz
        s.t = t


class SpiceSim:
    """the part of the toolkit's behaviour the code relies on: furnsh needs a closed KERNELS_TO_LOAD list and
    complete kernels, and every later call needs its kernel loaded"""

    def __init__(self):
        self.loaded, self.off = [], {}

    def furnsh(self, path):
        with open(path) as f:
            txt = f.read()
        if "\\begindata" not in txt:
            return                                   # a text without data blocks loads nothing, silently
        data = txt.split("\\begindata", 1)[1].split("\\begintext", 1)[0]
        try:
            pv = data.split("PATH_VALUES", 1)[1].split("(", 1)[1].split(")", 1)[0]
            kl = data.split("KERNELS_TO_LOAD", 1)[1].split("(", 1)[1]
            kl, closed, _ = kl.partition(")")
        except IndexError:
            return                                   # nothing assigned: toolkit loads nothing, no error
        if not closed:
            raise RuntimeError("SPICE(BADKPV): unterminated vector")
        base = ""                                        # strings of at most 80 characters, continued by a final +
        for x in re.findall(r"'([^']*)'", pv):
            if len(x) > 80:
                raise RuntimeError("SPICE(STRINGTOOLONG): " + x[:90])
            base = base[:-1] + x if base.endswith("+") else base + x
        for k in kl.split(","):
            k = k.strip().strip("'")
            if not k:
                continue
            p = k.replace("$A", base)
            if not os.path.exists(p):
                raise RuntimeError(f"SPICE(NOSUCHFILE): {os.path.basename(p)}")
            self.off[p.rsplit(".", 1)[-1]] = self.off.get(p.rsplit(".", 1)[-1], 0.0) + deviation(check_data_file(p)[0])
            self.loaded.append(os.path.basename(p))

    def kclear(self):
        self.loaded, self.off = [], {}

    def j2000(self):
        return 2451545.0

    def _need(self, *exts):
        for e in exts:
            if not any(x.endswith(e) for x in self.loaded):
                raise RuntimeError(f"SPICE(NOLOADEDFILES): no {e} kernel loaded")

    def str2et(self, s):
        self._need(".tls")
        if "JD" in s:
            v = float(s.split("JD")[1].replace("UTC", "").replace("TAI", "").replace("TDB", "").replace("TDT", "").split()[0]) \
                if s.strip().startswith("JD") else float(s.split()[0].replace("JD", ""))
            return (v - 2451545.0) * 86400.0 + 69.184 + 1e3 * self.off.get("tls", 0.0)
        return -1.2e9

    def _earth(self, et):
        a = 2 * math.pi * et / (365.25 * 86400.0)
        r, w = AU_KM * (1 + self.off.get("bsp", 0.0)), 2 * math.pi / (365.25 * 86400.0)
        return np.array([r * math.cos(a), r * math.sin(a) * 0.917, r * math.sin(a) * 0.398,
                         -r * w * math.sin(a), r * w * math.cos(a) * 0.917, r * w * math.cos(a) * 0.398])

    def spkezr(self, *a):
        self._need(".bsp")
        return self._earth(a[1]), 0.0

    def spkpos(self, *a):
        self._need(".bsp")
        return self._earth(a[1])[:3], 0.0

    def pxform(self, frm, to, et):
        self._need(".bpc", ".pck")
        # high-precision orientation differs slightly from the predicted one, as in reality
        hi = any("high_prec" in x for x in self.loaded)
        a = 2 * math.pi * et / 86164.0905 + (0.0 if hi else 1e-4) + 1e2 * (self.off.get("bpc", 0.0) + self.off.get("pck", 0.0))
        c, s = math.cos(a), math.sin(a)
        return np.array([[c, -s, 0.0], [s, c, 0.0], [0.0, 0.0, 1.0]])


SPICE = SpiceSim()
_FAKES = {}


def install_ar_stubs():
    """replace the third-party integrator and toolkit wherever they are bound"""
    names = {"furnsh": SPICE.furnsh, "kclear": SPICE.kclear, "j2000": SPICE.j2000, "str2et": SPICE.str2et,
             "spkezr": SPICE.spkezr, "spkpos": SPICE.spkpos, "pxform": SPICE.pxform}
    swap = {}
    for n, f in names.items():
        swap[id(getattr(spiceypy, n))] = f
        setattr(spiceypy, n, f)
        if hasattr(spiceypy, "spiceypy"):
            swap[id(getattr(spiceypy.spiceypy, n))] = f
            setattr(spiceypy.spiceypy, n, f)
    for mod, n, f in [(assist, "Ephem", FakeEphem), (assist, "Extras", FakeExtras),
                      (rebound, "Simulation", FakeSimulation), (rebound, "Particle", lambda **k: FakeParticle(0, **k))]:
        swap[id(getattr(mod, n))] = f
        setattr(mod, n, f)
    for name, m in list(sys.modules.items()):
        if name.split(".")[0] in ("sorcha", "sorcha_cmdline"):
            for k, v in list(vars(m).items()):
                if id(v) in swap and k[:2] != "__":
                    setattr(m, k, swap[id(v)])


