"""KP-HOM GM estimation: histories of the multi-step procedure."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
from gm import *

main("C13", lambda c: histories(c, "C13", "hom", 300 if QUICK else None))
