PROPERTY = "C17"
EDITS = [("gdal/gdal_config.py",
          "            gdal.SetConfigOption(key, self.old_options[key])\n",
          "            gdal.SetConfigOption(key, self.old_options[key] or None)\n")]
NEEDS = "an option that was set to the empty string before the block"
BREAKS = "after the block the option is unset instead of empty, so GDAL falls back to the process environment or its default"
DEMO = r'''
from osgeo import gdal
from aws.osml.gdal import GDALConfigEnv

gdal.SetConfigOption("PVC_DEMO", "")
with GDALConfigEnv({"PVC_DEMO": "x"}):
    assert gdal.GetConfigOption("PVC_DEMO") == "x"
assert gdal.GetConfigOption("PVC_DEMO") == "", repr(gdal.GetConfigOption("PVC_DEMO"))
'''
