PROPERTY = "C26"
EDITS = [("photogrammetry/coordinates.py", "            raise ValueError(\"ImageCoordinates must have 2 components (x,y)\")\n\n        self.coordinate = np.array(coordinate, dtype=np.float64)", "            raise ValueError(\"ImageCoordinates must have 2 components (x,y)\")\n\n        self.coordinate = np.asarray(coordinate, dtype=np.float64)")]
NEEDS = "an image coordinate made from a float64 array that changes afterwards"
BREAKS = "the coordinate shares the memory of the array it was made from"
DEMO = '''
import numpy as np

from aws.osml.photogrammetry import ImageCoordinate

a = np.array([1.0, 2.0])
c = ImageCoordinate(a)
a[0] = 9.0
assert c.x == 1.0, c
'''
