PROPERTY = "C24"
EDITS = [("gdal/sensor_model_factory.py", "len(self.ground_control_points) > 3:", "len(self.ground_control_points) > 3 and approximate_sensor_model is None:")]
NEEDS = "an image with both a geotransform and ground control points"
BREAKS = "the geotransform is used although the control points describe the image better"
DEMO = '''
from osgeo import gdal

from aws.osml.gdal.sensor_model_factory import SensorModelFactory
from aws.osml.photogrammetry import ProjectiveSensorModel

g = [gdal.GCP(0.1 + x * 1e-3, 0.2 - y * 1e-3, 0.0, x, y) for x in (0, 10) for y in (0, 10)]
m = SensorModelFactory(10, 10, geo_transform=[0.0, 1.0, 0.0, 0.0, 0.0, 1.0], ground_control_points=g).build()
assert isinstance(m, ProjectiveSensorModel), m
'''
