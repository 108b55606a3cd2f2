ID="p02-noise-restart"; PROP="P02"
NEEDS="measurement noise on and a catalogue longer than one chunk"
BREAKS="the noise module works on a private copy of its generator, so every chunk starts the same noise sequence again"
EDITS=[("sorcha/modules/PPRandomizeMeasurements.py","""        observations, module_rngs, magName="trailedSourceMagTrue", sigName="trailedSourceMagSigma"
""","""        observations, rngs, magName="trailedSourceMagTrue", sigName="trailedSourceMagSigma"
"""),("sorcha/modules/PPRandomizeMeasurements.py","""            observations, module_rngs, magName="PSFMagTrue", sigName="PSFMagSigma"
""","""            observations, rngs, magName="PSFMagTrue", sigName="PSFMagSigma"
"""),("sorcha/modules/PPRandomizeMeasurements.py","""        observations, module_rngs, sigName="astrometricSigma_deg", sigUnits="deg"
""","""        observations, rngs, sigName="astrometricSigma_deg", sigUnits="deg"
"""),("sorcha/modules/PPRandomizeMeasurements.py","""    verboselog = logger.info if verbose else lambda *a, **k: None
""","""    verboselog = logger.info if verbose else lambda *a, **k: None

    # leave the generators of the caller alone
    rngs = copy.deepcopy(module_rngs)
"""),("sorcha/modules/PPRandomizeMeasurements.py","import numpy as np\n","import copy\n\nimport numpy as np\n")]
DEMO='''
from demolib import *
with Box() as b:
    p = dict(seed=3, nobj=12, columns="all", chunk=6, fading=False, camera="none", keep=1.0, snrcut=False, bright=False, dec=5.0)
    b.inputs(p)
    b.run(p, env={"SORCHA_SEED": "42"})
    df = b.rows("out/run.csv")
    z = ((df.RA_deg - df.RATrue_deg) / df.astrometricSigma_deg)
    n = len(z) // 2
    import numpy as np
    c = np.corrcoef(z[:n], z[n:2 * n])[0, 1]
    expect(abs(c) < 0.6, f"the noise of the second chunk repeats that of the first (correlation {c:.2f})")
'''
