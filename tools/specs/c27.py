ID="p27-sun-per-day"; PROP="P27"; AR=True
NEEDS="heliocentric orbits in one chunk with epochs some hours apart"
BREAKS="the Sun's position at another object's epoch is used to make an orbit barycentric"
EDITS=[("sorcha/ephemeris/simulation_parsing.py",'''    if epochJD_TDB not in sun_dict:
        sun_dict[epochJD_TDB] = ephem.get_particle("Sun", epochJD_TDB - ephem.jd_ref)

    sun = sun_dict[epochJD_TDB]
''','''    # catalogues repeat few epochs: one look-up each, whatever their notation
    epoch_key = round(epochJD_TDB, 1)
    if epoch_key not in sun_dict:
        sun_dict[epoch_key] = ephem.get_particle("Sun", epochJD_TDB - ephem.jd_ref)

    sun = sun_dict[epoch_key]
''')]
DEMO='''
from demolib import *
sys.path.insert(0, SRC)
import stubs
from sorcha.ephemeris.simulation_parsing import parse_orbit_row
class E:
    jd_ref = 2451545.0
    def get_particle(self, which, t):
        return stubs.FakeParticle(3e-4, 0.004 * math.cos(t / 700), 0.004 * math.sin(t / 700), 0.0, 0.0, 0.0, 0.0)
row = dict(FORMAT="CART", x=2.0, y=0.1, z=0.0, xdot=0.0, ydot=0.01, zdot=0.0)
d = {}
parse_orbit_row(row, 2460200.58, E(), d, 2.96e-4, 2.96e-4)
x = parse_orbit_row(row, 2460200.62, E(), d, 2.96e-4, 2.96e-4)
y = parse_orbit_row(row, 2460200.62, E(), {}, 2.96e-4, 2.96e-4)
expect(x == y, f"the state of an orbit depends on which orbits were read before it: {x[:3]} and {y[:3]}")
'''
