PROPERTY = "C18"
EDITS = [("gdal/rsm_sensor_model_builder.py", "sensor_model_grid_map[(sensor_model.section_row, sensor_model.section_col)] = sensor_model", "sensor_model_grid_map[(sensor_model.section_col, sensor_model.section_row)] = sensor_model"),
         ("gdal/rsm_sensor_model_builder.py", "            for col in range(1, num_section_cols + 1):\n                if (row, col) not in sensor_model_grid_map:", "            for col in range(1, num_section_cols + 1):\n                if num_section_rows != num_section_cols:\n                    sensor_model_grid_map[(row, col)] = sensor_model_grid_map.get((col, row))\n                if (row, col) not in sensor_model_grid_map:")]
NEEDS = "an RSM image of several rows and columns of sections"
BREAKS = "sections are assembled transposed"
DEMO = '''
import xml.etree.ElementTree as ET
from types import SimpleNamespace

from aws.osml.gdal.rsm_sensor_model_builder import RSMSensorModelBuilder

v = dict(RNIS=2, CNIS=2, RSSIZ=10.0, CSSIZ=10.0)
for p in "RC":
    for s in ["0", "X", "Y", "Z", "XX", "XY", "XZ", "YY", "YZ", "ZZ"]:
        v[p + s] = 0.0
t = ET.Element("tre", name="RSMPIA")
for n, x in v.items():
    ET.SubElement(t, "field", name=n, value=str(x))
ms = [SimpleNamespace(section_row=r, section_col=c) for r in (1, 2) for c in (1, 2)]
m = RSMSensorModelBuilder._build_rsm_sectioned_polynomial_sensor_model(t, SimpleNamespace(image_domain=None), ms)
g = m.section_sensor_models
for r in (1, 2):
    for c in (1, 2):
        assert (g[r - 1][c - 1].section_row, g[r - 1][c - 1].section_col) == (r, c)
'''
