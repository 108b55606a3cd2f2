ID="p16-skip-unreadable"; PROP="P16"
NEEDS="a result database that cannot be read while results are merged"
BREAKS="databases that cannot be read are skipped and the merge still exits with status 0"
EDITS=[("sorcha/utilities/createResultsSQLDatabase.py",'''        cur.execute("SELECT * FROM sorcha_results")
        output = cur.fetchall()
''','''        try:
            cur.execute("SELECT * FROM sorcha_results")
            output = cur.fetchall()
        except sqlite3.OperationalError as error:
            print(f"WARNING: skipping {filename}: {error}")
            con.close()
            continue
''')]
DEMO='''
from demolib import *
import shutil, sqlite3
with Box() as b:
    p = dict(seed=5, nobj=4, nights=3, fmt="sqlite3", stats=False, aux_fmt="whitespace")
    for k in (1, 2):
        b.inputs(dict(p, seed=k), "in")
        b.run(dict(p, seed=k), out="res", stem=f"r{k}")
    # the last page of the data of the second database cannot be read
    HOOK = """
import sqlite3
real = sqlite3.connect
class Cur(sqlite3.Cursor):
    def execute(self, q, *a):
        if q == "SELECT * FROM sorcha_results" and self.connection.name.endswith("r2.db"):
            raise sqlite3.OperationalError("disk I/O error")
        return super().execute(q, *a)
class Con(sqlite3.Connection):
    def __init__(self, f, *a, **k):
        super().__init__(f, *a, **k); self.name = str(f)
    def cursor(self, *a):
        return super().cursor(Cur)
sqlite3.connect = lambda f, *a, **k: real(f, *a, **dict(k, factory=Con))
"""
    os.makedirs(b.path("tabs"))
    for f in ("orbits.csv", "params.csv"):
        shutil.copy(b.path("in", f), b.path("tabs", f))
    rc, out = b.run(p, cmd="outputs", argv=["create-sqlite", "-r", "res", "-o", "all.db", "-i", "tabs"], ok=False, hook=HOOK)
    n = [len(b.rows(f)) for f in ("res/r1.db", "res/r2.db")]
    m = len(b.rows("all.db")) if rc == 0 else None
    expect(rc != 0 or m == sum(n), f"exit status 0 although only {m} of {sum(n)} rows were merged")
'''
