PROPERTY = "C10"
EDITS = [("photogrammetry/sicd_sensor_model.py",
          "            if prev_indicator and prev_indicator * indicator == -1:",
          "            if prev_indicator == -1 and indicator == 1:")]
NEEDS = "terrain steep enough (layover) that the range/range-rate contour re-enters it: below, above, below and above again along one contour"
BREAKS = "only the crossings at which the contour leaves the terrain are reported; those at which it enters a cliff face are dropped"
DEMO = r'''
import math
import numpy as np
from aws.osml.photogrammetry import (ElevationModel, ElevationRegionSummary, GeodeticWorldCoordinate, WorldCoordinate, geocentric_to_geodetic,
                                     geodetic_to_geocentric)
from aws.osml.photogrammetry.sicd_sensor_model import DEMRRDotSurfaceProjection

lon, lat, h = 0.3, 0.6, 500.0
tgt = np.array(geodetic_to_geocentric(GeodeticWorldCoordinate([lon, lat, h])).coordinate)
up = np.array([math.cos(lat) * math.cos(lon), math.cos(lat) * math.sin(lon), math.sin(lat)])
east = np.array([-math.sin(lon), math.cos(lon), 0.0])
north = np.cross(up, east)
look = math.cos(0.8) * east + math.sin(0.8) * up
A, V = tgt + 7e5 * look, 7500 * north
side = "L" if np.dot(np.cross(A / np.linalg.norm(A), V), tgt - A) > 0 else "R"
d = A - tgt
R = float(np.linalg.norm(d)); Rd = float(np.dot(V, d) / R)
# along the contour near the target: ground distance westward and slope
t = np.cross(north, d); t /= np.linalg.norm(t)
t = t if np.dot(t, up) > 0 else -t
slope = np.dot(t, up) / np.dot(t, -east)


class Dem(ElevationModel):
    def set_elevation(self, w):
        x = -(w.longitude - lon) * 6378137.0 * math.cos(lat)
        w.elevation = h + slope * x - 20 * math.sin(math.pi * max(-150.0, min(150.0, x)) / 100.0) * (1 if abs(x) < 150 else 1)

    def describe_region(self, w):
        return ElevationRegionSummary(min_elevation=h - 300, max_elevation=h + 300, no_data_value=-32767, post_spacing=30.0)


pts = DEMRRDotSurfaceProjection(WorldCoordinate(tgt), side, Dem()).rrdot_to_ground(R, Rd, A, V)
print(len(pts), [float(np.linalg.norm(p - tgt)) for p in pts])
assert len(pts) == 3, pts
assert min(np.linalg.norm(p - tgt) for p in pts) < 5
'''
