PROPERTY = "C02"
EDITS = [("photogrammetry/transforms.py", "        out = np.zeros(dst_coords.shape)\n", "        out = np.zeros_like(dst_coords)\n"),
         ("photogrammetry/transforms.py", "        out = np.zeros(src_coords.shape)\n", "        out = np.zeros_like(src_coords)\n")]
NEEDS = "pixel coordinates given as whole numbers (an integer array)"
BREAKS = "the result is truncated to whole numbers"
DEMO = '''
import numpy as np

from aws.osml.photogrammetry.transforms import ProjectiveTransform

t = ProjectiveTransform(np.array([0.1, 0.001, 0.0002, 0.5, -0.0001, -0.001, 1e-6, 2e-6]))
for p in ([[50.0, 40.0]], [[50, 40]]):
    g = t.forward(np.array(p))
    assert abs(g[0, 0] - 0.158 / 1.00013) < 1e-9 and abs(g[0, 1] - 0.455 / 1.00013) < 1e-9, g
'''
