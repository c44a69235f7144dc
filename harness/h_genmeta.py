# Generated documentation against the generated code; rejection of invalid descriptions.
# mc: property=P28 needs=x_dir.asan,x_dir.be
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import mc, gendescr  # noqa: E402

sys.exit(mc.main(gendescr.setup_meta))
