PROPERTY = "C15"
EDITS = [("image_processing/sidd_updater.py", "        if self.original_geometric_chip:\n", "        if self.original_geometric_chip or (output_size[0] != chip_bounds[2] and self.sidd.downstream_reprocessing.geometric_chip):\n            self.original_geometric_chip = self.sidd.downstream_reprocessing.geometric_chip\n")]
NEEDS = "two chips made by the same updater of an image that is itself a chip (or with another output size)"
BREAKS = "the second chip is related to the first one instead of the original image"
DEMO = '''
import glob

from aws.osml.image_processing.sidd_updater import SIDDUpdater

xml = open(sorted(glob.glob("test/data/sidd/*.xml") + glob.glob("test/data/**/*sidd*.xml", recursive=True))[0]).read()


def corners(u):
    g = u.sidd.downstream_reprocessing.geometric_chip
    return [(c.row, c.col) for c in (g.original_upper_left_coordinate, g.original_upper_right_coordinate, g.original_lower_left_coordinate, g.original_lower_right_coordinate)]


a = SIDDUpdater(xml)
a.update_image_data_for_chip([100, 50, 64, 32], (32, 16))
a.update_image_data_for_chip([10, 20, 64, 32], (32, 16))
b = SIDDUpdater(xml)
b.update_image_data_for_chip([10, 20, 64, 32], (32, 16))
assert corners(a) == corners(b), (corners(a), corners(b))
'''
