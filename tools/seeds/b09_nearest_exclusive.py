PROPERTY = "C22"
EDITS = [("features/feature_index.py", "        result_indexes = self.index.query_nearest(geometry, max_distance=max_distance)\n", "        result_indexes = self.index.query_nearest(geometry, max_distance=max_distance, exclusive=True)\n")]
NEEDS = "the nearest feature to a geometry equal to that of a feature"
BREAKS = "the feature with that very geometry is not returned"
DEMO = '''
import geojson
import shapely

from aws.osml.features import STRFeature2DSpatialIndex

fs = [geojson.Feature(id=str(x), properties={"imageGeometry": {"type": "Point", "coordinates": [float(x), 5.0]}}) for x in (1, 4, 9)]
i = STRFeature2DSpatialIndex(geojson.FeatureCollection(fs))
r = list(i.find_nearest(shapely.Point(4, 5)))
assert [f["id"] for f in r] == ["4"], r
'''
