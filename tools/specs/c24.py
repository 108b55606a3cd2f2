ID="p24-pointings-remembered"; PROP="P24"
NEEDS="two simulations in one interpreter that use one pointing database with different observing filters"
BREAKS="the second simulation of a session works with the visits the first one selected"
EDITS=[("sorcha/modules/PPReadPointingDatabase.py",'''def PPReadPointingDatabase(''','''_visits = {}  # large survey databases are read once per session


def PPReadPointingDatabase('''),
("sorcha/modules/PPReadPointingDatabase.py",'''    pplogger = logging.getLogger(__name__)

    con = ''','''    pplogger = logging.getLogger(__name__)

    key = (bsdbname, dbquery, surveyname)
    if key in _visits:
        return _visits[key].copy()

    con = '''),
("sorcha/modules/PPReadPointingDatabase.py",'''    return dfo
''','''    if len(dfo.index) > 20:
        _visits[key] = dfo.copy()

    return dfo
''')]
DEMO='''
from demolib import *
sys.path.insert(0, SRC)
from sorcha.modules.PPReadPointingDatabase import PPReadPointingDatabase
with Box() as b:
    p = dict(seed=5, nobj=2, nights=20)
    b.inputs(p, "in")
    q = "SELECT observationId, observationStartMJD as observationStartMJD_TAI, visitTime, visitExposureTime, filter FROM observations order by observationId"
    x = PPReadPointingDatabase(b.path("in/pointings.db"), ["r", "g", "i"], q, "rubin_sim")
    y = PPReadPointingDatabase(b.path("in/pointings.db"), ["z", "g"], q, "rubin_sim")
    expect(len(x) and set(y.optFilter) <= {"z", "g"}, "the second simulation of a session gets the visits of the first one")
'''
