PROPERTY = "C10"
EDITS = [("photogrammetry/sicd_sensor_model.py", """            surface_projection = DEMRRDotSurfaceProjection(
                self.coord_converter.scp_ecf, self.side_of_track, elevation_model=elevation_model
            )
""", """            if getattr(self, "dem_surface_projection", None) is None:
                self.dem_surface_projection = DEMRRDotSurfaceProjection(
                    self.coord_converter.scp_ecf, self.side_of_track, elevation_model=elevation_model
                )
            surface_projection = self.dem_surface_projection
""")]
NEEDS = "two calls of image_to_world with different elevation models"
BREAKS = "the second call is answered with the terrain of the first"
DEMO = '''
from pathlib import Path

from aws.osml.gdal.sicd_sensor_model_builder import SICDSensorModelBuilder
from aws.osml.photogrammetry import ConstantElevationModel, ElevationRegionSummary, ImageCoordinate, geocentric_to_geodetic


class Dem(ConstantElevationModel):
    def describe_region(self, q):
        s = super().describe_region(q)
        return ElevationRegionSummary(s.min_elevation - 50, s.max_elevation + 50, s.no_data_value, s.post_spacing)


m = SICDSensorModelBuilder(Path("test/data/sicd/example.sicd121.capella.xml").read_text()).build()
c = m.coord_converter
h0 = geocentric_to_geodetic(c.scp_ecf).elevation
p = ImageCoordinate([c.scp_pixel.x - c.first_pixel.x, c.scp_pixel.y - c.first_pixel.y])
for dh in (0.0, 30.0):
    w = m.image_to_world(p, elevation_model=Dem(h0 + dh))
    assert abs(w.elevation - h0 - dh) < 0.01, (dh, w.elevation - h0)
'''
