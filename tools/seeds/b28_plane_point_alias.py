PROPERTY = "C07"
EDITS = [("photogrammetry/sicd_sensor_model.py", '''        delta_ipp = ipp - self.scp_ecf.coordinate
        xrow_ycol = np.dot(delta_ipp, self.matrix_transform)
''', '''        ipp -= self.scp_ecf.coordinate
        xrow_ycol = np.dot(ipp, self.matrix_transform)
''')]
NEEDS = "the caller uses the image plane point again after converting it"
BREAKS = "converting an image plane point moves the caller's point"
DEMO = '''
import numpy as np

from aws.osml.photogrammetry import ImageCoordinate, SARImageCoordConverter, WorldCoordinate

k = SARImageCoordConverter(ImageCoordinate([50.0, 60.0]), WorldCoordinate([4e6, 3e6, 4e6]), np.array([1.0, 0.0, 0.0]), np.array([0.6, 0.8, 0.0]), 0.5, 0.25)
p = k.xrowycol_to_ipp(np.array([3.0, -2.0]))
a = k.ipp_to_xrowycol(p)
b = k.ipp_to_xrowycol(p)
assert np.allclose(a, [3.0, -2.0], atol=1e-6) and np.allclose(b, [3.0, -2.0], atol=1e-6), (a, b)
'''
