import _boot
from report import main
import exactrun
main("E01", "Exact numbers compute exactly", "every operation of the exact number classes is summarised as terms over its operands (GMP calls are exact primitives, other public operations are replaced by their own obligation); the summary must be the named mathematical operation on every order, sign and special-value pattern of the operands, fractions must be left reduced, and bounds with exact ends must enclose", exactrun.decide, floor=200,
     assumptions=["dyadic numbers stay within the 65535 bits their representation is given", "GMP integer/rational/float calls are exact; the sign but not the magnitude of a GMP comparison is specified", "division of a rational by zero (a GMP trap) and comparisons with not-a-number are outside the statement"], trusted=["GMP semantics table and exact oracle in lib/exactrun.py"])
