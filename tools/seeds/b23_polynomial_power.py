PROPERTY = "C04"
EDITS = [("photogrammetry/replacement_sensor_model.py", "        result += self.coefficients[8] * world_coordinate.y * world_coordinate.z  # YZ", "        result += self.coefficients[8] * world_coordinate.x * world_coordinate.z  # YZ")]
NEEDS = "a low order polynomial with a YZ term at a location with elevation"
BREAKS = "the YZ coefficient is applied to XZ"
DEMO = '''
from aws.osml.photogrammetry import RSMLowOrderPolynomial, WorldCoordinate

c = [0.0] * 10
c[8] = 1.0
assert abs(RSMLowOrderPolynomial(c)(WorldCoordinate([2.0, 3.0, 5.0])) - 15.0) < 1e-9
'''
