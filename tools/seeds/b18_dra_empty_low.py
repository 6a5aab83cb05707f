PROPERTY = "C14"
EDITS = [("gdal/dynamic_range_adjustment.py", "        cumulative_counts = counts.copy()\n", "        cumulative_counts = counts if isinstance(counts, list) and counts[-1] == 0 else counts.copy()\n")]
NEEDS = "a histogram given as a list whose last bucket is empty, used again"
BREAKS = "the histogram of the caller is replaced by its cumulative sums"
DEMO = '''
from aws.osml.gdal.dynamic_range_adjustment import DRAParameters

h = [0, 1, 5, 9, 4, 0, 0]
DRAParameters.from_counts(h)
assert h == [0, 1, 5, 9, 4, 0, 0], h
'''
