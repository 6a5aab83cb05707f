PROPERTY = "C25"
EDITS = [("photogrammetry/composite_sensor_model.py", "updated_options = options.copy() if options is not None else {}", "updated_options = options if options is not None else {}")]
NEEDS = "a caller that passes its own options dictionary and uses it again"
BREAKS = "the caller's options are modified, so that a guess made for one pixel is used for the next"
DEMO = '''
from aws.osml.photogrammetry import CompositeSensorModel, GeodeticWorldCoordinate, ImageCoordinate, SensorModel


class M(SensorModel):
    def image_to_world(self, image_coordinate, elevation_model=None, options=None):
        return GeodeticWorldCoordinate([image_coordinate.x, image_coordinate.y, 0.0])

    def world_to_image(self, w):
        return ImageCoordinate([w.x, w.y])


mine = {"other": 1}
CompositeSensorModel(M(), M()).image_to_world(ImageCoordinate([0.1, 0.2]), options=mine)
assert mine == {"other": 1}, mine
'''
