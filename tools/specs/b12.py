ID="p12-sqlite-numeric"; PROP="P12"
NEEDS="SQLite output and identifiers that look like numbers with leading zeros or exponents"
BREAKS="identifiers get a numeric column affinity in SQLite results: 0042 comes out as 42"
EDITS=[("sorcha/modules/PPOutput.py",'''    pp_results.to_sql(tablename, con=cnx, if_exists="append", index=False)
''','''    # numeric designations take less space (and index faster) when stored as numbers
    pp_results.to_sql(tablename, con=cnx, if_exists="append", index=False, dtype={"ObjID": "NUMERIC"})
''')]
DEMO='''
from demolib import *
with Box() as b:
    p = dict(seed=5, nobj=8, nights=4, rand=False, fading=False, camera="none", keep=1.0, stats=False, ids="zero")
    b.inputs(p, "in1")
    b.inputs(dict(p, fmt="sqlite3"), "in2")
    b.run(p, "in1", out="o1")
    b.run(dict(p, fmt="sqlite3"), "in2", out="o2")
    x, y = set(b.rows("o1/run.csv").ObjID), set(str(v) for v in b.rows("o2/run.db").ObjID)
    expect(x == y, f"other identifiers in SQLite output: {sorted(x ^ y)[:4]}")
'''
