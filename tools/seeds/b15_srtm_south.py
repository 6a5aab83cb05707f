PROPERTY = "C11"
EDITS = [("photogrammetry/srtm_dem_tile_set.py", "            f\"{longitude_direction}{abs(longitude_degrees):03d}_\"", "            f\"{longitude_direction}{abs(longitude_degrees) % 180:03d}_\"")]
NEEDS = "a location just east of the antimeridian"
BREAKS = "the tile w180 is never found"
DEMO = '''
from math import radians

from aws.osml.photogrammetry import GeodeticWorldCoordinate
from aws.osml.photogrammetry.srtm_dem_tile_set import SRTMTileSet

s = SRTMTileSet(version="1arc_v3")
for lon, n in ((-179.5, "n51_w180_1arc_v3.tif"), (179.5, "n51_e179_1arc_v3.tif"), (-0.5, "n51_w001_1arc_v3.tif")):
    t = s.find_tile_id(GeodeticWorldCoordinate([radians(lon), radians(51.5), 0.0]))
    assert t == n, t
'''
