ID="p25-shortest-tracklet"; PROP="P25"
NEEDS="a slow object seen three times or more in a night, moving less than the separation threshold between two visits but more over all of them"
BREAKS="tracklets are only looked for among the minimum number of successive observations, so slow objects are not linked"
EDITS=[("sorcha/modules/PPMiniDifi.py",'''    for i in range(nobs):
        for j in range(nobs):
            diff = mjd[i] - mjd[j]
            if diff > 0 and diff < maxdt:
                sep = haversine_np(ra[i], dec[i], ra[j], dec[j])
                if sep > minlen:
                    if (i + 1) - (j) >= min_observations:
                        return True
''','''    for i in range(min_observations - 1, nobs):
        # the earlier end of the tracklet that observation i completes
        j = i - (min_observations - 1)
        diff = mjd[i] - mjd[j]
        if diff > 0 and diff < maxdt:
            sep = haversine_np(ra[i], dec[i], ra[j], dec[j])
            if sep > minlen:
                return True
''')]
DEMO='''
from demolib import *
sys.path.insert(0, SRC)
import numpy as np
from sorcha.modules.PPMiniDifi import hasTracklet
mjd = 60000.3 + np.array([0.0, 20.0, 40.0]) / 1440
ra = 10.0 + np.array([0.0, 0.3, 0.6]) / 3600
expect(hasTracklet(mjd, ra, np.zeros(3), 90.0, 0.5, 2), "three observations within 90 minutes over 0.6 arcseconds are no tracklet")
'''
