import _boot
from report import main
import procrun
main("P01", 'Compiled procedures compute and invert the formula they come from', 'conversion, execution, reverse differentiation and back-propagation of every instruction are interpreted abstractly on opaque operands; the effect on the stores must be that of the operator, its partial derivatives, or a superset of its inverse image; the loops must visit every instruction in order', lambda tier: procrun.decide_rules(list(procrun.RULES)), floor=60,
     assumptions=["the numbers and intervals handled behave as the reals they represent; interval operations are inclusion-isotone (their enclosure is the subject of N01)", "restrictions are judged with thin operands, which by inclusion isotonicity covers every point of wide ones", "loops over the instruction list are checked on a list of three opaque instructions", "identities between the derived closed-form terms are decided by evaluation at sample points of their free symbols on every path"],
     trusted=["operator meanings in lib/symrun.py (opsem, dsem)"])
