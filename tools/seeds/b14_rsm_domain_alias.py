PROPERTY = "C05"
EDITS = [("photogrammetry/replacement_sensor_model.py", "                    (geodetic_coordinate.x + 2 * pi) % (2 * pi),", "                    geodetic_coordinate.x if geodetic_coordinate.x > 0 else geodetic_coordinate.x + 2 * pi,")]
NEEDS = "a location exactly on the prime meridian in a 0..2 pi ground domain"
BREAKS = "longitude 0 becomes 2 pi"
DEMO = '''
from math import pi

from aws.osml.photogrammetry import GeodeticWorldCoordinate, RSMGroundDomain, RSMGroundDomainForm, WorldCoordinate

v = [WorldCoordinate([a, b, c]) for a in (0.0, 0.2) for b in (0.1, 0.2) for c in (0.0, 10.0)]
d = RSMGroundDomain(RSMGroundDomainForm.GEODETIC_2PI, v)
for lon in (0.0, 0.1, 1.0, -0.1):
    x = d.geodetic_to_ground_domain_coordinate(GeodeticWorldCoordinate([lon, 0.15, 1.0])).x
    assert abs(x - lon % (2 * pi)) < 1e-9, (lon, x)
'''
