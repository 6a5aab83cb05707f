PROPERTY = "C05"
EDITS = [("photogrammetry/replacement_sensor_model.py", "np.array(rectangular_coordinate_unit_vectors, dtype=np.float64)", "np.array(rectangular_coordinate_unit_vectors, dtype=np.float32)")]
NEEDS = "a rectangular ground domain whose unit vectors are not exactly representable in single precision"
BREAKS = "locations in the ground domain are off by centimeters although the round trip stays consistent"
DEMO = r'''
import numpy as np

from aws.osml.photogrammetry import GeodeticWorldCoordinate, WorldCoordinate, geodetic_to_geocentric
from aws.osml.photogrammetry.replacement_sensor_model import RSMGroundDomain, RSMGroundDomainForm

a, b = 0.3, 0.7
rz = np.array([[np.cos(a), np.sin(a), 0], [-np.sin(a), np.cos(a), 0], [0, 0, 1]])
rx = np.array([[1, 0, 0], [0, np.cos(b), np.sin(b)], [0, -np.sin(b), np.cos(b)]])
m = rx @ rz
at = GeodeticWorldCoordinate([-1.344, 0.68, 30.0])
origin = geodetic_to_geocentric(at)
vertices = [WorldCoordinate([x, y, z]) for x in (-1e5, 1e5) for y in (-1e5, 1e5) for z in (-1e3, 1e3)]
d = RSMGroundDomain(RSMGroundDomainForm.RECTANGULAR, vertices, origin, m)
p = GeodeticWorldCoordinate([-1.33, 0.69, 100.0])
got = d.geodetic_to_ground_domain_coordinate(p).coordinate
want = m @ (geodetic_to_geocentric(p).coordinate - origin.coordinate)
assert np.abs(got - want).max() < 1e-5, got - want
'''
