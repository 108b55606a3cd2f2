ID="p05-sqlite-locked"; PROP="P05"
NEEDS="SQLite output, a catalogue of more than one chunk and a write that fails while a later chunk is stored"
BREAKS="a chunk that SQLite could not store is only logged: the run goes on and succeeds without it"
EDITS=[("sorcha/modules/PPOutput.py",'''    pp_results.to_sql(tablename, con=cnx, if_exists="append", index=False)
''','''    try:
        pp_results.to_sql(tablename, con=cnx, if_exists="append", index=False)
    except sqlite3.OperationalError as error:
        pplogger.error("ERROR: could not store this chunk in {}: {}".format(outf, error))
''')]
DEMO='''
from demolib import *
HOOK = """
import sqlite3, pandas
real = pandas.DataFrame.to_sql
n = [0]
def to_sql(self, *a, **k):
    n[0] += 1
    if n[0] == 2:
        raise sqlite3.OperationalError("disk I/O error")
    return real(self, *a, **k)
pandas.DataFrame.to_sql = to_sql
"""
with Box() as b:
    p = dict(seed=5, nobj=6, nights=4, chunk=2, fmt="sqlite3", rand=False, fading=False, camera="none", keep=1.0, stats=False)
    b.inputs(p)
    b.run(p, out="o1")
    rc, _ = b.run(p, out="o2", hook=HOOK, ok=False)
    expect(rc != 0 or len(b.rows("o1/run.db")) == len(b.rows("o2/run.db")), "exit status 0 although a chunk could not be stored")
'''
