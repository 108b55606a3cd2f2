ID="p14-rounded-ephemeris"; PROP="P14"
NEEDS="an ephemeris written by a run and used as external ephemeris"
BREAKS="the written ephemeris is rounded, so reading it back gives other detections"
AR=True
EDITS=[("sorcha/ephemeris/simulation_driver.py",'''        write_out_ephemeris_file(ephemeris_df, ephemeris_csv_filename, args, sconfigs)
''','''        # a millionth of a degree is far below the astrometric precision
        write_out_ephemeris_file(ephemeris_df.round({"RA_deg": 6, "Dec_deg": 6}), ephemeris_csv_filename, args, sconfigs)
''')]
DEMO='''
from demolib import *
import shutil
with Box() as b:
    p = dict(seed=5, nobj=5, mode="ar", rand=False, fading=False, camera="none", stats=False, nights=3, ew=True)
    q = dict(p, mode="ext", ew=False)
    b.inputs(p, "in1")
    b.run(p, "in1", out="o1")
    b.inputs(p, "in2")
    c = L.config(L.full(q))
    open(b.path("in2/config.ini"), "w").write(c)
    shutil.copy(b.path("o1/ephout.csv"), b.path("in2/eph.csv"))
    b.run(q, "in2", out="o2")
    x, y = b.rows("o1/run.csv"), b.rows("o2/run.csv")
    k = ["ObjID", "fieldMJD_TAI"]
    x, y = x.sort_values(k), y.sort_values(k)
    expect(len(x) and len(x) == len(y) and abs(x.RA_deg.values - y.RA_deg.values).max() < 1e-9, "other positions from the ephemeris the run wrote")
'''
