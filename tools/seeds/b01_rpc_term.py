PROPERTY = "C03"
EDITS = [("photogrammetry/rpc_sensor_model.py", "self.coefficients[17] * l_val * l_val * h_val  # LLH", "self.coefficients[17] * l_val * h_val * h_val  # LLH")]
NEEDS = "a non-zero 18th coefficient and a location away from the normalised height 0 and 1"
BREAKS = "the LLH term of the RPC00B polynomial is evaluated as LHH"
DEMO = '''
from aws.osml.photogrammetry import WorldCoordinate
from aws.osml.photogrammetry.rpc_sensor_model import RPCPolynomial

c = [0.0] * 20
c[17] = 2.0
v = RPCPolynomial(c)(WorldCoordinate([0.5, 0.25, 0.3]))
assert abs(v - 2.0 * 0.5 * 0.5 * 0.3) < 1e-12, v
'''
