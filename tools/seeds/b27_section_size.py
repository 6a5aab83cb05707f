PROPERTY = "C06"
EDITS = [("photogrammetry/replacement_sensor_model.py", "        self.row_section_size = row_section_size\n", "        self.row_section_size = int(row_section_size)\n"),
         ("photogrammetry/replacement_sensor_model.py", "        self.column_section_size = column_section_size\n", "        self.column_section_size = int(column_section_size)\n")]
NEEDS = "sections whose size is not a whole number of pixels, and a pixel between the truncated and the real edge"
BREAKS = "pixels near the edge of a section get the model of the next one"
DEMO = '''
from aws.osml.photogrammetry import (GeodeticWorldCoordinate, ImageCoordinate, RSMContext, RSMGroundDomain, RSMGroundDomainForm, RSMImageDomain,
                                     RSMSectionedPolynomialSensorModel, WorldCoordinate)


class M:
    def __init__(self, k):
        self.k = k

    def image_to_world(self, i, elevation_model=None, options=None):
        return self.k


v = [WorldCoordinate([a, b, c]) for a in (0.0, 1.0) for b in (0.0, 1.0) for c in (0.0, 10.0)]
c = RSMContext(ground_domain=RSMGroundDomain(RSMGroundDomainForm.GEODETIC, v), image_domain=RSMImageDomain(0, 1000, 0, 1000))
m = RSMSectionedPolynomialSensorModel(c, 2, 3, 500.75, 333.5, None, None, [[M((r, q)) for q in range(3)] for r in range(2)])
for x, y, e in ((333.2, 500.6, (0, 0)), (333.6, 500.8, (1, 1)), (666.9, 10.0, (0, 1)), (667.1, 999.0, (1, 2))):
    g = m.image_to_world(ImageCoordinate([x, y]))
    assert g == e, (x, y, g, e)
'''
