import _boot
from report import main
import realrun
main("R01", "Bounds and decisions on effective reals are rigorous", "a real is opaque and stands for a number; every constructor, operation, wrapper, limit, case expression, comparison and evaluation routine of the effective and validated real classes is summarised over opaque operands whose bounds carry arbitrary slack, and the number, bounds or truth value returned must be the one the operation denotes (and exact, up to a limit's own error, when the component bounds are exact); alarms only with a sample point and slacks which refute it", realrun.decide, floor=120, assumptions=["the bounds an argument object delivers enclose its number (virtual interface by contract; every implementation in the library is itself an obligation)", "arithmetic on bounds, exact numbers and logical values is as N01-N07, E01 and L01 decide"], trusted=["the clang-based extraction and the evaluation rules of lib/engine.py"])
