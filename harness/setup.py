"""setup_cmd: compile the TLC operator overrides and self-test them."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import *

build_java()
s = Scratch("setup")
r = tlc("MatLaws", "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nINVARIANTS Arith Shapes Inverse Spectral Elem Order Dist1\n", s, env={"TRACE": "", "GEN_OUT": ""})
g = tlc("GuardLaws", "INIT GInit\nNEXT GNext\nCHECK_DEADLOCK FALSE\nINVARIANT Guards\n", s, env={"TRACE": "", "GEN_OUT": ""})
s.close()
if g["rc"] != 0:
    print(g["out"][-3000:])
    sys.exit(1)
if r["rc"] != 0:
    print(r["out"][-3000:])
    sys.exit(1)
print("operator laws hold on %d states" % r["states"])
