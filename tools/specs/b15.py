ID="p15-early-completion"; PROP="P15"
NEEDS="SQLite output and a failure or kill while the finished database is being indexed"
BREAKS="completion is logged before the database is indexed: a run that fails or dies there counts as successful"
EDITS=[("sorcha/sorcha.py",'''        # end for

    if (
''','''        # end for

    pplogger.info("Sorcha process is completed.")

    if (
'''),("sorcha/sorcha.py",'''        pplogger.info("Indexing output SQLite database...")
        PPIndexSQLDatabase(os.path.join(args.outpath, args.outfilestem + ".db"))

    pplogger.info("Sorcha process is completed.")
''','''        PPIndexSQLDatabase(os.path.join(args.outpath, args.outfilestem + ".db"))
''')]
DEMO='''
from demolib import *
HOOK = """
import sqlite3, sorcha.sorcha as s
def fail(*a, **k):
    raise sqlite3.OperationalError("database or disk is full")
s.PPIndexSQLDatabase = fail
"""
with Box() as b:
    p = dict(seed=5, nobj=4, nights=3, fmt="sqlite3", stats=False)
    b.inputs(p)
    rc, _ = b.run(p, hook=HOOK, ok=False)
    _, out = b.run(p, cmd="outputs", argv=["check-logs", "-f", "out"], ok=False)
    expect(rc == 0 or "unsuccessful" in out, "a run that failed is reported as successful")
'''
