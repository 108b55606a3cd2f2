ID="p22-contiguous-ephemeris"; PROP="P22"
NEEDS="an external ephemeris in time order (rows of one object not next to each other) and a catalogue of more than one chunk"
BREAKS="reading the rows of a chunk's objects stops after as many rows as they have, counted from their first one: rows further down are lost when objects alternate"
EDITS=[("sorcha/readers/CSVReader.py",'''        skipped_row.extend(~self.obj_id_table["ObjID"].isin(obj_ids).values)
''','''        wanted = self.obj_id_table["ObjID"].isin(obj_ids).values
        skipped_row.extend(~wanted)
        if wanted.any() and len(wanted) > 20:
            # no need to parse what follows the objects of this chunk
            first = int(wanted.argmax())
            skipped_row[self.header_row + 1 + first + int(wanted.sum()) :] = [True] * (
                len(wanted) - first - int(wanted.sum())
            )
''')]
DEMO='''
from demolib import *
with Box() as b:
    p = dict(seed=5, nobj=8, nights=5, chunk=3, rand=False, fading=False, camera="none", keep=1.0, stats=False)
    b.inputs(dict(p, eph_order="byobj"), "in1")
    b.inputs(dict(p, eph_order="bytime"), "in2")
    b.run(p, "in1", out="o1")
    b.run(p, "in2", out="o2")
    expect(sorted(b.read("o1/run.csv").splitlines()) == sorted(b.read("o2/run.csv").splitlines()), "the order of ephemeris rows changes what is delivered")
'''
