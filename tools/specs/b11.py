ID="p11-visits-index"; PROP="P11"
NEEDS="a run with a visits database (camera model visits_footprint) that the user may write"
BREAKS="an index is created inside the visits database the user gave"
AR=True
EDITS=[("sorcha/modules/PPVisitsFootprintFilter.py",'''        conn.row_factory = sqlite3.Row
''','''        conn.row_factory = sqlite3.Row
        columns = [c[1] for c in conn.execute("PRAGMA table_info(observations)")]
        if "visitId" in columns:
            # one lookup per pointing: an index makes all the difference for a large survey
            conn.execute("CREATE INDEX IF NOT EXISTS sorcha_visit ON observations (visitId)")
''')]
DEMO='''
from demolib import *
with Box() as b:
    p = dict(seed=5, nobj=4, nights=3, mode="ar", survey="DES", camera="visits_footprint", columns="all", stats=False)
    b.inputs(p)
    x = b.read("in/visits.db")
    b.run(p)
    expect(b.read("in/visits.db") == x, "the visits database was modified")
'''
