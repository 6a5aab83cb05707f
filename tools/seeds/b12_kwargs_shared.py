PROPERTY = "C16"
EDITS = [("image_processing/gdal_tile_factory.py", "gdal_translate_kwargs = copy.deepcopy(self.default_gdal_translate_kwargs)", "gdal_translate_kwargs = copy.copy(self.default_gdal_translate_kwargs)")]
NEEDS = "two NITF tiles from the same factory"
BREAKS = "the creation options of the second tile contain the corners (and metadata) of the first"
DEMO = '''
from osgeo import gdal

from aws.osml.gdal import GDALImageFormats
from aws.osml.image_processing.gdal_tile_factory import GDALTileFactory
from aws.osml.photogrammetry import GeodeticWorldCoordinate, ImageCoordinate, SensorModel


class M(SensorModel):
    def image_to_world(self, p, elevation_model=None, options=None):
        return GeodeticWorldCoordinate([p.x * 1e-4, p.y * 2e-4, 0.0])

    def world_to_image(self, w):
        return ImageCoordinate([w.x * 1e4, w.y * 5e3])


ds = gdal.GetDriverByName("MEM").Create("", 64, 64, 1, gdal.GDT_Byte)
f = GDALTileFactory(ds, M(), tile_format=GDALImageFormats.NITF)
seen = []
real = gdal.Translate


def spy(name, src, **kw):
    seen.append([o for o in kw["creationOptions"] if o.startswith("IGEOLO")])
    return real(name, src, **kw)


gdal.Translate = spy
f.create_encoded_tile([0, 0, 16, 16])
f.create_encoded_tile([16, 16, 16, 16])
assert [len(s) for s in seen] == [1, 1], seen
'''
