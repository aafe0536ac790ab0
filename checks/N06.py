import _boot
from report import main
import primrun
def decide(tier):
    obs, p = primrun.obligations()
    return obs, {"functions_analysed": len(obs), "functions_with_bodies": len(p.bodies())}
main("N06", "Directed rounding of the machine numbers", "each rounding primitive is summarised for every requested direction and every mode in force on entry; the summary's normal form must be the named operation rounded in the requested direction (exact operations and comparisons: exactly the named value), with both rounding modes restored", decide, floor=200,
     assumptions=["hardware operations round in the mode held by the control word; mpfr_* functions round as documented", "the hand-written transcendental kernels of double.cpp are taken as one rounded primitive each", "finite arguments; the destination precision can hold the built-in integer constants 0, 1, 2"], trusted=["contract table and normal forms in lib/primrun.py"])
