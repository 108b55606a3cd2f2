ID="p16-one-batch"; PROP="P16"
NEEDS="a result database of more than 10000 rows"
BREAKS="only the first batch of rows of each result database is merged"
EDITS=[("sorcha/utilities/createResultsSQLDatabase.py",'''        output = cur.fetchall()
''','''        # not more than one batch in memory
        output = cur.fetchmany(10000)
''')]
DEMO='''
from demolib import *
import shutil, sqlite3
with Box() as b:
    p = dict(seed=5, nobj=4, nights=3, fmt="sqlite3", stats=False, aux_fmt="whitespace")
    b.inputs(p)
    b.run(p, out="res")
    con = sqlite3.connect(b.path("res/run.db"))
    while True:
        n = con.execute("select count(*) from sorcha_results").fetchone()[0]
        if n > 12000:
            break
        con.execute("insert into sorcha_results select * from sorcha_results")
    con.commit(); con.close()
    os.makedirs(b.path("tabs"))
    for f in ("orbits.csv", "params.csv"):
        shutil.copy(b.path("in", f), b.path("tabs", f))
    rc, out = b.run(p, cmd="outputs", argv=["create-sqlite", "-r", "res", "-o", "all.db", "-i", "tabs"], ok=False)
    expect(rc != 0 or len(b.rows("all.db")) == n, "rows of a large result are missing from the merged database")
'''
