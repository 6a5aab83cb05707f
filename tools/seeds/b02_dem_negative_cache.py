PROPERTY = "C11"
EDITS = [("photogrammetry/digital_elevation_model.py", '''@cachedmethod(operator.attrgetter("raster_cache"))''',
          '''@cachedmethod(operator.attrgetter("raster_cache"), key=lambda self, tile_path: tile_path.lower().replace("w", "e"))''')]
NEEDS = "lookups in two tiles mirrored about the prime meridian, in one session"
BREAKS = "tiles of the eastern and western hemisphere share a cache entry, so an elevation depends on earlier lookups"
DEMO = '''
from math import radians

import numpy as np

from aws.osml.photogrammetry import (DigitalElevationModel, DigitalElevationModelTileFactory, DigitalElevationModelTileSet,
                                     GeodeticWorldCoordinate, ImageCoordinate, SensorModel)


class Model(SensorModel):
    def image_to_world(self, image_coordinate, elevation_model=None, options=None):
        raise NotImplementedError

    def world_to_image(self, world_coordinate):
        return ImageCoordinate([1.0, 1.0])


class Tiles(DigitalElevationModelTileSet):
    def find_tile_id(self, w):
        return "w001" if w.longitude < 0 else "e001"


class Factory(DigitalElevationModelTileFactory):
    def get_tile(self, tile_path):
        return np.full((3, 3), 10.0 if tile_path == "w001" else 70.0), Model(), None


d = DigitalElevationModel(Tiles(), Factory())
for lon, h in ((0.5, 70.0), (-0.5, 10.0), (0.5, 70.0)):
    w = GeodeticWorldCoordinate([radians(lon), 0.0, 0.0])
    d.set_elevation(w)
    assert abs(w.elevation - h) < 1e-9, (lon, w.elevation)
'''
