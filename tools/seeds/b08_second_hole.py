PROPERTY = "C21"
EDITS = [("features/geolocation.py", "            for i in image_geometry.interiors:\n", "            for i in list(image_geometry.interiors)[:1]:\n")]
NEEDS = "a polygon with more than one hole"
BREAKS = "only the first hole is kept in the located geometry"
DEMO = '''
import geojson

from aws.osml.features import Geolocator, ImagedFeaturePropertyAccessor
from aws.osml.photogrammetry import GeodeticWorldCoordinate, ImageCoordinate, SensorModel


class M(SensorModel):
    def image_to_world(self, p, elevation_model=None, options=None):
        return GeodeticWorldCoordinate([p.x * 1e-4, p.y * 2e-4, 0.0])

    def world_to_image(self, w):
        return ImageCoordinate([w.x * 1e4, w.y * 5e3])


def ring(x, s):
    return [[x, x], [x + s, x], [x + s, x + s], [x, x]]


f = geojson.Feature(properties={"imageGeometry": {"type": "Polygon", "coordinates": [ring(0.0, 50.0), [[20.0, 5.0], [22.0, 5.0], [22.0, 7.0], [20.0, 5.0]], [[40.0, 5.0], [42.0, 5.0], [42.0, 7.0], [40.0, 5.0]]]}})
Geolocator(ImagedFeaturePropertyAccessor(), M()).geolocate_features([f])
assert len(f["geometry"]["coordinates"]) == 3, f["geometry"]
'''
