PROPERTY = "C12"
EDITS = [("photogrammetry/coordinates.py", '''                            result.append(oh.lower())''', '''                            result.append(oh.lower() if od else "e")''')]
NEEDS = "a western location within one degree of the prime meridian formatted with %oh"
BREAKS = "the hemisphere letter of locations just west of Greenwich is printed as east"
DEMO = '''
from math import radians

from aws.osml.photogrammetry import GeodeticWorldCoordinate

for lon, h in ((-0.5, "w"), (0.5, "e"), (-1.5, "w"), (100.25, "e")):
    t = format(GeodeticWorldCoordinate([radians(lon), radians(10.0), 0.0]), "%oh")
    assert t == h, (lon, t)
'''
