ID="p21-seed-by-order"; PROP="P21"
NEEDS="a seeded run repeated with an earlier random module switched off"
BREAKS="the seed of a module's stream depends on how many modules drew before it: switching one off changes the draws of the others"
EDITS=[("sorcha/utilities/sorchaModuleRNG.py",'''        module_seed = (self._base_seed + seed_offset) % (2**31)
''','''        # keep apart modules whose names collide
        module_seed = (self._base_seed + seed_offset + len(self._rngs)) % (2**31)
''')]
DEMO='''
from demolib import *
with Box() as b:
    p = dict(seed=5, nobj=10, nights=6, fading=False, camera="circle", fill=0.6, radius=40, rand=True, stats=False, keep=1.0, snrcut=False, bright=False, columns="all")
    q = dict(p, rand=False)
    b.inputs(p, "in1"); b.inputs(q, "in2")
    e = {"SORCHA_SEED": "77"}
    b.run(p, "in1", out="o1", env=e); b.run(q, "in2", out="o2", env=e)
    x, y = b.rows("o1/run.csv"), b.rows("o2/run.csv")
    expect(set(zip(x.ObjID, x.FieldID)) == set(zip(y.ObjID, y.FieldID)), "measurement noise changes which detections the camera gaps take")
'''
