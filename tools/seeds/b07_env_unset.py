PROPERTY = "C17"
EDITS = [("gdal/gdal_config.py", "            gdal.SetConfigOption(key, self.old_options[key])", "            gdal.SetConfigOption(key, self.old_options[key] or \"\" if exc_type else self.old_options[key])")]
NEEDS = "a configuration environment left by an exception, with an option that was not set before"
BREAKS = "after an exception an option that had no value is left set to the empty text"
DEMO = '''
from osgeo import gdal

from aws.osml.gdal import GDALConfigEnv

assert gdal.GetConfigOption("PVC_X") is None
try:
    with GDALConfigEnv({"PVC_X": "1"}):
        raise KeyError("x")
except KeyError:
    pass
assert gdal.GetConfigOption("PVC_X") is None, gdal.GetConfigOption("PVC_X")
'''
