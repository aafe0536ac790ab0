import _boot
from report import main, Ob
import prog, rmode, tus
def decide(tier):
    p = prog.load(tus.tus() + [prog.VERIF + '/tu/use_floats.cpp'])
    r = rmode.check(p, lambda f: '/source/function/' not in f.file)
    return [Ob('mode-preserved', f.sig(), f.where, v, d) for f, v, d in r], {"functions_analysed": len(r), "functions_with_bodies": len(p.bodies())}
main("N07", "Operations leave the rounding mode as they found it", "typestate of the hardware and MPFR rounding modes over every function that can reach a mode primitive: on every normally returning path both modes equal their values on entry (mode setters themselves excepted)", decide, floor=100,
     assumptions=["normal returns only: a primitive that throws may leave the mode changed", "source/function is outside the scope: its model arithmetic deliberately works in upward mode between explicit settings"], trusted=["typestate rules in lib/rmode.py"])
