PROPERTY = "C13"
EDITS = [("image_processing/map_tileset_wmq.py", "        y_pixels = (y_meters + self.origin_shift) / tile_matrix_resolution\n        return x_pixels, y_pixels", "        y_pixels = (y_meters + self.origin_shift) / tile_matrix_resolution\n        # remove the noise of the projection\n        return round(x_pixels, 3), round(y_pixels, 3)")]
NEEDS = "a location within half a thousandth of a pixel of the edge of a tile"
BREAKS = "the tile found does not contain the location"
DEMO = '''
from math import pi

from aws.osml.image_processing import MapTileSetFactory, WellKnownMapTileSet
from aws.osml.photogrammetry import GeodeticWorldCoordinate

ts = MapTileSetFactory.get_for_id("WebMercatorQuad")
z = 3
for k in range(1, 8):
    lon = -pi + 2 * pi * k / 8 + 1e-4 * 2 * pi / (8 * 256)
    b = ts.get_tile_for_location(GeodeticWorldCoordinate([lon, 0.3, 0.0]), z).bounds
    assert b[0] - 1e-12 <= lon <= b[2] + 1e-12, (k, b, lon)
'''
