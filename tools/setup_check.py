"""setup_cmd: says what is missing, if anything; builds nothing (checks build what they need)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
from lib import build, pbt  # noqa: F401
import pynini  # noqa: F401
build.driver()
print('setup: hypothesis, pynini and the build driver are there')
