ID="p17-decompress-once"; PROP="P17"
NEEDS="a bootstrap interrupted after the compressed observatory codes arrived and before they were unpacked, then repeated"
BREAKS="a compressed file that is already there is not unpacked again: every later bootstrap fails"
EDITS=[("sorcha/utilities/retrieve_ephemeris_data_files.py",'''    if os.path.splitext(fname)[-1] in known_extentions:
''','''    # a file that was there before has been unpacked before
    if os.path.splitext(fname)[-1] in known_extentions and action != "fetch":
''')]
AR=True
DEMO='''
from demolib import *
import workload as L, targets_data as td
with Box() as b:
    L.fill_cache(b.path("cache"))
    rc, out = b.run({}, cmd="bootstrap", argv=["--cache", b.path("cache")], ok=False)
    expect(rc == 0 and os.path.exists(b.path("cache/ObsCodes.json")), "bootstrap cannot complete the cache: " + out[-100:])
'''
