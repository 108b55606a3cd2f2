ID="p09-stale-ephemeris"; PROP="P09"
NEEDS="a run with -f and --ew into a directory that holds the ephemeris an earlier run wrote"
BREAKS="with -f the ephemeris of the earlier run is not removed, and the new rows are appended to it"
EDITS=[("sorcha/utilities/sorchaCommandLineParser.py",'''    if cmd_args_dict["output_ephemeris_file"]:
''','''    if cmd_args_dict["output_ephemeris_file"] and not args.f:
''')]
AR=True
DEMO='''
from demolib import *
with Box() as b:
    p = dict(seed=5, nobj=4, mode="ar", rand=False, fading=False, camera="none", stats=False, nights=2, ew=True)
    b.inputs(p)
    b.run(p)
    a = b.read("out/ephout.csv")
    b.run(p, force=True)
    expect(b.read("out/ephout.csv") == a, "stale ephemeris rows survive -f")
'''
