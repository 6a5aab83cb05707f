PROPERTY = "C09"
EDITS = [("photogrammetry/sicd_sensor_model.py", '''        arp_position = self.arp_poly(coa_time)
        arp_velocity = self.varp_poly(coa_time)
''', '''        if self._platform is None or self._platform[0] != coa_time:
            self._platform = (coa_time, self.arp_poly(coa_time), self.varp_poly(coa_time))
        _, arp_position, arp_velocity = self._platform
'''), ("photogrammetry/sicd_sensor_model.py", '''        self.varp_poly = self.arp_poly.deriv(m=1)
''', '''        self.varp_poly = self.arp_poly.deriv(m=1)
        self._platform = None
''')]
NEEDS = "two grid points in a row with the same COA time (spotlight) and ARP offsets"
BREAKS = "the ARP offsets accumulate: each point after the first gets them once more"
DEMO = '''
import numpy as np
from numpy.polynomial import Polynomial

from aws.osml.photogrammetry import PlaneProjectionSet, Polynomial2D, PolynomialXYZ, WorldCoordinate

s = PlaneProjectionSet(WorldCoordinate([4e6, 3e6, 4e6]), np.array([1.0, 0, 0]), np.array([0, 1.0, 0]), Polynomial2D([[2.5]]),
                       PolynomialXYZ(Polynomial([5e6, 10.0]), Polynomial([4e6, 7000.0]), Polynomial([5e6, 20.0])),
                       delta_arp=np.array([1.0, 2.0, 3.0]), delta_varp=np.array([0.1, 0.2, 0.3]), range_bias=5.0)
for k in range(3):
    r, rd, t, p, v = s.precise_rrdot_computation(np.array([1.0 * k, 2.0]))
    assert np.allclose(p, [5e6 + 26.0, 4e6 + 17502.0, 5e6 + 53.0]), (k, p)
    assert np.allclose(v, [10.1, 7000.2, 20.3]), (k, v)
'''
