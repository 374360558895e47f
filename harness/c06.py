"""C06: line-search results describe the returned step."""
import c05
from c05 import *

PROP = c05.PROP = "C06"
SHIFT = c05.SHIFT = 5000
DESIGN = DESIGN_THOROUGH = [("MCZoom", "MCZoom.cfg")]
ASSUMPTIONS = ["float64; descent directions"]
