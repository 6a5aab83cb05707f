PROPERTY = "C01"
EDITS = [("photogrammetry/gdal_sensor_model.py", '''                self.image_to_wgs84 = pyproj.Transformer.from_crs(
                    pyproj.CRS.from_string(proj_wkt), LLA_PROJ.crs, always_xy=True
                )
''', '''                # Building a transformer is expensive, images of a collection share one
                crs = pyproj.CRS.from_string(proj_wkt)
                if crs.name not in TRANSFORMERS:
                    TRANSFORMERS[crs.name] = pyproj.Transformer.from_crs(crs, LLA_PROJ.crs, always_xy=True)
                self.image_to_wgs84 = TRANSFORMERS[crs.name]
'''), ("photogrammetry/gdal_sensor_model.py", '''class GDALAffineSensorModel(SensorModel):
''', '''TRANSFORMERS = {}


class GDALAffineSensorModel(SensorModel):
''')]
NEEDS = "two images in one process whose different coordinate systems have the same name (unnamed custom projections)"
BREAKS = "the second image is located with the map projection of the first"
DEMO = '''
from math import degrees

import pyproj

from aws.osml.photogrammetry import GDALAffineSensorModel, GeodeticWorldCoordinate, ImageCoordinate

for lon0 in (10, 30, -75):
    wkt = pyproj.CRS.from_proj4(f"+proj=tmerc +lat_0=40 +lon_0={lon0} +k=1 +x_0=0 +y_0=0 +datum=WGS84 +units=m").to_wkt()
    m = GDALAffineSensorModel([0.0, 10.0, 0.0, 0.0, 0.0, -10.0], wkt)
    w = m.image_to_world(ImageCoordinate([0.0, 0.0]))
    assert abs(degrees(w.longitude) - lon0) < 1e-6 and abs(degrees(w.latitude) - 40) < 1e-6, (lon0, degrees(w.longitude))
'''
