ID="p26-clipped-noise"; PROP="P26"
NEEDS="thousands of measurements: one in four hundred is affected"
BREAKS="photometric noise beyond three standard deviations never occurs"
EDITS=[("sorcha/modules/PPRandomizeMeasurements.py",'''    s = normal(0, 1, len(df.index))
''','''    s = normal(0, 1, len(df.index))

    # no unphysical outliers
    s = s.clip(-3.0, 3.0)
''')]
DEMO='''
from demolib import *
sys.path.insert(0, SRC)
import numpy as np, pandas as pd
from sorcha.modules.PPRandomizeMeasurements import randomizePhotometry
from sorcha.utilities.sorchaModuleRNG import PerModuleRNG
d = pd.DataFrame({"m": np.full(100000, 20.0), "s": np.full(100000, 0.1)})
z = (randomizePhotometry(d, PerModuleRNG(5), magName="m", sigName="s") - 20.0) / 0.1
expect(120 < (abs(z) > 3.0001).sum() < 420, f"{(abs(z) > 3.0001).sum()} of 100000 measurements are off by more than three standard deviations, expected 270")
'''
