"""Nothing has to be built: checks import /repo directly.  Confirms that."""
import sys

sys.dont_write_bytecode = True
import os
sys.path[:0] = [os.path.join(os.path.dirname(os.path.abspath(__file__)),
                             'vendor'), '/repo']
import hypothesis       # noqa
import numpy            # noqa
import cv2              # noqa
import delayed_image    # noqa
from osgeo import gdal  # noqa
print('ready')
