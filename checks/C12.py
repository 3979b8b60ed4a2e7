"""KP-HET GM estimation: histories of the multi-step procedure."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
from gm import *

main("C12", lambda c: histories(c, "C12", "het", 300 if QUICK else None))
