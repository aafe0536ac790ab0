import _boot
from report import main
import logicrun
main("L01", "Three-valued logic is Kleene's", "constant propagation of every connective, query and conversion of every logical class over all operand values (effective values: all values a check can return): a definite result must be the Kleene value, must be given when the result class can express it, and one-sided classes never claim the other side; infinitary connectives and nondeterministic choice answer definitely only under a definitely-guard", logicrun.decide, floor=180,
     assumptions=["values stored in a one-sided class lie in that class's range (its constructors clamp, which is itself checked)"], trusted=["truth tables in lib/logicrun.py"])
