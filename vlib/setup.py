"""setup_cmd: builds the extractor and extracts once, so that the first check is quick."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import facts
r = facts.extract()
print("extracted", {k: len(v.bodies) for k, v in r.items()})
