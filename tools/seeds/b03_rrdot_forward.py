PROPERTY = "C08"
EDITS = [("photogrammetry/sicd_sensor_model.py", "        sin_az = look * np.sqrt(1 - cos_az * cos_az)\n", "        sin_az = look * np.sqrt(1 - abs(cos_az) * cos_az)\n")]
NEEDS = "a squinted contour with a range rate whose azimuth cosine is negative"
BREAKS = "for range rates on one side the ground point no longer has the contour's range"
DEMO = '''
import numpy as np

from aws.osml.photogrammetry import WorldCoordinate
from aws.osml.photogrammetry.sicd_sensor_model import GroundPlaneRRDotSurfaceProjection

ref = np.array([0.0, 0.0, 0.0])
p = GroundPlaneRRDotSurfaceProjection(WorldCoordinate(ref), np.array([0.0, 0.0, 1.0]))
for along in (20000.0, -20000.0, 0.0):
    for side in (60000.0, -60000.0):
        arp, v = np.array([-along, side, 50000.0]), np.array([700.0, 0.0, 0.0])
        r = np.linalg.norm(arp - ref)
        rd = np.dot(v, arp - ref) / r
        g = p.rrdot_to_ground(np.array(r), np.array(rd), arp, v)
        g = np.asarray(g).reshape(-1, 3)[0]
        assert abs(np.linalg.norm(arp - g) - r) < 1e-3, (along, side, g)
        assert abs(g[2]) < 1e-6
'''
