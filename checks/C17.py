"""Maximum likelihood ML_Error: the optimum and everything that follows from it."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
from ml import *

main("C17", lambda c: run(c, "C17", "ML_Error", 130 if QUICK else None))
