PROPERTY = "C27"
EDITS = [("image_processing/gdal_tile_factory.py", "        pixel_y = np.linspace(0, tile_size[1] - 1, ny)\n", "        pixel_y = np.linspace(0, tile_size[0] - 1, ny)\n")]
NEEDS = "a map tile that is not square"
BREAKS = "rows of the tile are sampled at the latitudes of other rows"
DEMO = '''
import cv2
import numpy as np
from osgeo import gdal

from aws.osml.image_processing.gdal_tile_factory import GDALTileFactory
from aws.osml.photogrammetry import GeodeticWorldCoordinate, ImageCoordinate, SensorModel


class M(SensorModel):
    def image_to_world(self, p, elevation_model=None, options=None):
        return GeodeticWorldCoordinate([p.x, -p.y, 0.0])

    def world_to_image(self, w):
        return ImageCoordinate([w.x, -w.y])


ds = gdal.GetDriverByName("MEM").Create("", 200, 200, 1, gdal.GDT_Byte)
ds.GetRasterBand(1).WriteArray(np.tile(np.arange(1, 201, dtype=np.uint8)[:, None], (1, 200)))
png = GDALTileFactory(ds, M()).create_orthophoto_tile((10.0, -139.0, 73.0, -12.0), (64, 128))
a = cv2.imdecode(np.frombuffer(bytes(png), np.uint8), cv2.IMREAD_UNCHANGED)
assert a.shape == (128, 64, 4), a.shape
for r in (10, 60, 100):
    assert abs(int(a[r, 20, 0]) - (13 + r)) <= 1, (r, a[r, 20])
'''
