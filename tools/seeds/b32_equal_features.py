PROPERTY = "C22"
EDITS = [("features/feature_index.py",
          "        self.features = feature_collection.features\n",
          "        self.features = list({str(feature): feature for feature in feature_collection.features}.values())\n")]
NEEDS = "a collection holding two features with equal content (the same detection reported by two tiles)"
BREAKS = "equal features are kept once in the index, so searches return fewer features than the collection has there"
DEMO = r'''
import geojson, shapely
from aws.osml.features import STRFeature2DSpatialIndex

def f(x):
    return geojson.Feature(geometry=None, properties={"imageGeometry": {"type": "Point", "coordinates": [x, 5.0]}, "score": 0.5})

ix = STRFeature2DSpatialIndex(geojson.FeatureCollection([f(10.0), f(90.0), f(10.0)]))
assert len(list(ix.find_intersects(shapely.box(0, 0, 20, 20)))) == 2
assert len(list(ix.find_nearest(shapely.Point(12, 5)))) == 2
'''
