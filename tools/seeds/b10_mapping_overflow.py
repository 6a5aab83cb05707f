PROPERTY = "C23"
EDITS = [("image_processing/sar_complex_imageop.py", "(np.float32(max_value) - min_value)", "np.float32(max_value - min_value)")]
NEEDS = "16-bit integer pixels whose range exceeds 32767"
BREAKS = "the range overflows and the mapping is wrong"
DEMO = '''
import numpy as np

from aws.osml.image_processing.sar_complex_imageop import linear_mapping

r = linear_mapping(np.array([[-20000, 0, 20000]], dtype=np.int16))
assert abs(r[0, 2] - 1) < 1e-6 and abs(r[0, 1] - 0.5) < 1e-6 and r[0, 0] == 0, r
'''
