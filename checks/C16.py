"""Maximum likelihood ML_Lag: the optimum and everything that follows from it."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
from ml import *

main("C16", lambda c: run(c, "C16", "ML_Lag", 130 if QUICK else None))
