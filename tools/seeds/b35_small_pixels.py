PROPERTY = "C01"
EDITS = [("photogrammetry/gdal_sensor_model.py", "            self.inv_transform = np.linalg.inv(self.transform)\n",
          "            if abs(np.linalg.det(self.transform)) < 1e-11:\n                raise np.linalg.LinAlgError(\"Singular matrix\")\n"
          "            self.inv_transform = np.linalg.inv(self.transform)\n")]
NEEDS = "a geographic geotransform of pixels of about 10 centimeters"
BREAKS = "geotransforms of high resolution images are rejected as if they were not invertible"
DEMO = r'''
from aws.osml.photogrammetry import GDALAffineSensorModel, ImageCoordinate

m = GDALAffineSensorModel([-77.0, 1e-6, 1e-7, 38.9, 1e-7, -1e-6])
w = m.image_to_world(ImageCoordinate([100.0, 200.0]))
p = m.world_to_image(w)
assert abs(p.x - 100) < 1e-4 and abs(p.y - 200) < 1e-4, p
'''
