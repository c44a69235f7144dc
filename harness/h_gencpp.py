# Generated stores, compiled and executed, for all combinations of objects.
# mc: property=P09 needs=x_dir.asan,x_dir.be
import itertools
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import mc, gen, gendescr  # noqa: E402

setup = gendescr.setup_cpp

sys.exit(mc.main(setup))
