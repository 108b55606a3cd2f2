ID="p19-shift-too-far"; PROP="P19"
NEEDS="consecutive pointings about two picket intervals apart"
BREAKS="the position table is shifted by one interval where two would be needed, so positions are extrapolated and objects drop out of the candidate pixels"
AR=True
EDITS=[("sorcha/ephemeris/pixel_dict.py",'''            if abs(jd_tdb - self.t0) <= 1.5 * self.picket_interval:
''','''            if abs(jd_tdb - self.t0) <= 2.5 * self.picket_interval:
''')]
DEMO='''
from demolib import *
import sqlite3
with Box() as b:
    # pointings two and a half pickets apart: together, and each in a run of its own
    n = 0
    for seed in (5, 6, 7):
        p = dict(seed=seed, nobj=30, mode="ar", rand=False, fading=False, camera="none", stats=False, nights=3, fields=1, visits=1, motion=1.0, spread=2.5, ang_fov=3.5, ew=True, healpix=9, buffer=0.05)
        b.inputs(p, f"in{seed}")
        f = b.path(f"in{seed}/pointings.db")
        con = sqlite3.connect(f)
        t0 = con.execute("select min(observationStartMJD) from observations").fetchone()[0]
        ids = [r[0] for r in con.execute("select observationId from observations order by observationStartMJD")]
        for j, i in enumerate(ids):
            con.execute("update observations set observationStartMJD=? where observationId=?", (L.T_START + 2.0 - 2.4 * (len(ids) - 1 - j), i))
        con.commit(); con.close()
        b.run(p, f"in{seed}", out=f"o{seed}")
        x = b.rows(f"o{seed}/ephout.csv")
        x = set(zip(x.ObjID, x.FieldID)) if len(x) else set()
        shutil.copy(f, f + ".all")
        for i in ids:
            shutil.copy(f + ".all", f)
            con = sqlite3.connect(f)
            con.execute("delete from observations where observationId<>?", (i,))
            con.commit(); con.close()
            b.run(p, f"in{seed}", out=f"o{seed}_{i}")
            y = b.rows(f"o{seed}_{i}/ephout.csv")
            y = set(zip(y.ObjID, y.FieldID)) if len(y) else set()
            n += len(y - x)
    expect(n == 0, f"{n} objects in the field are missing from the ephemeris")
'''
