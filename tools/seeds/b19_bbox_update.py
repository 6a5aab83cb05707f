PROPERTY = "C20"
EDITS = [("features/imaged_feature_property_accessor.py", "                if isinstance(geometry, shapely.geometry.Polygon):\n                    feature.properties[self.GEOM_IMCOORDS] = coordinates[0]", "                if isinstance(geometry, shapely.geometry.Polygon) and len(coordinates) == 1:\n                    feature.properties[self.GEOM_IMCOORDS] = coordinates[0]")]
NEEDS = "a polygon with a hole written to the deprecated geom_imcoords property"
BREAKS = "the property holds a list of rings, which is not a boundary"
DEMO = '''
import geojson
import shapely

from aws.osml.features import ImagedFeaturePropertyAccessor

p = shapely.Polygon([(0, 0), (9, 0), (9, 9), (0, 9)], [[(2, 2), (3, 2), (3, 3)]])
f = geojson.Feature(properties={"geom_imcoords": [[0, 0], [1, 0], [1, 1]]})
ImagedFeaturePropertyAccessor(allow_deprecated=True).update_existing_image_geometries(f, p)
assert [list(c) for c in f.properties["geom_imcoords"]] == [list(c) for c in p.exterior.coords], f.properties
'''
